#!/opt/venv/bin/python
"""Plant a bug: tools/plant.py SPEC.py...   (SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)

Checks in a scratch copy of /repo that the change builds, that the stable tests pass, that the demonstration passes
without it and fails with it, and that only lines of the original repository are changed; then writes seeded/<ID>/.
"""
import json, os, re, shutil, subprocess, sys
BASE = json.load(open('/opt/vp/BASELINE.json'))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', CC='ccache gcc', CXX='ccache g++', CCACHE_DIR='/opt/vp/ccache', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'

def sh(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def build(d):
    rc, o = sh(['bash', '-c', 'rm -rf build/temp.* build/lib.* src/pyscal/*.so; %s setup.py build_ext --inplace --force'
                ' && %s -m compileall -q -f src/pyscal' % (PY, PY)], d)
    if rc: raise SystemExit('build failed\n' + o[-3000:])

def tests(d, dest):
    env = dict(ENV, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1')
    rc, o = sh([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-rA', '-x'], d, env)
    pw = o.count('\nPASSED ')
    if rc: return False, ' / '.join(l for l in o.split('\n') if l.startswith(('FAILED','ERROR')))
    return True, '%d passed' % pw

def original_lines(repo, diff):
    """every removed line must come from the base commit"""
    base = subprocess.check_output(['git', '-C', repo, 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
    bad, n, f = [], 0, None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:].strip(); bl = subprocess.check_output(['git', '-C', repo, 'blame', '-l', '-s', 'HEAD', '--', f]).decode('utf8', 'replace').split('\n')
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-') and not l.startswith('---'):
            h = bl[ln - 1].split()[0].lstrip('^')
            if os.environ.get('BASECOMMIT', 'd074442')[:7] != h[:7]: bad.append((f, ln, bl[ln - 1][:120]))
            n += 1; ln += 1
        elif f and l.startswith(' '): ln += 1
    return n, bad

def plant(spec):
    g = {}; exec(open(spec).read(), g)
    ok = False
    try: ok = plant1(g)
    finally:
        if not ok: shutil.rmtree(os.path.join(ROOT, 'seeded', g['ID']), ignore_errors=True); shutil.rmtree('/tmp/seed_' + g['ID'], ignore_errors=True)

def plant1(g):
    d = '/tmp/seed_' + g['ID']; shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    dest = os.path.join(ROOT, 'seeded', g['ID']); os.makedirs(dest, exist_ok=True)
    open(dest + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
    open(dest + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/src exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=g['PROP'], needs=' '.join(g['NEEDS'].split()), what_it_breaks=' '.join(g['BREAKS'].split())),
              open(dest + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh(['bash', dest + '/demo.sh'], d, timeout=300)
    if rc0: print(g['ID'], 'DEMO FAILS ON CLEAN TREE\n', o0[-2000:]); return
    for f, old, new in g['EDITS']:
        s = open(os.path.join(d, f), newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1: print(g['ID'], 'EDIT MATCHES %d TIMES: %r' % (s.count(old), old)); return
        open(os.path.join(d, f), 'w', newline='').write(s.replace(old, new))
    build(d)
    diff = subprocess.check_output(['git', '-C', d, 'diff', '--', 'src', 'lib'])
    open(dest + '/patch.diff', 'wb').write(diff)
    n, bad = original_lines('/repo', diff.decode('utf8', 'replace').replace('\r', ''))
    if bad or not n: print(g['ID'], 'LINES NOT ORIGINAL', n, bad); return
    if subprocess.call(['git', '-C', '/repo', 'apply', '--check', dest + '/patch.diff']): print(g['ID'], 'DOES NOT APPLY'); return
    rc1, o1 = sh(['bash', dest + '/demo.sh'], d, timeout=300)
    if not rc1: print(g['ID'], 'DEMO PASSES WITH THE CHANGE'); return
    ok, o = tests(d, dest)
    if not ok: print(g['ID'], 'TESTS FAIL\n', o[-1500:]); return
    print(g['ID'], 'OK', o, '| demo:', o1.strip().split('\n')[-1][:150])
    return True

for s in sys.argv[1:]: plant(s)
