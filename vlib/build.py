"""Build /repo's current working tree, out of tree, into /verif/build/<key>/ (git-ignored).

The extension modules are compiled with the flags setup.py uses; nothing is written in /repo or /opt/vp.
Variants:
  plain  the flags of the shipped build
  asan   -O1 -fsanitize=address,undefined (recover off), to be run with libasan preloaded
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
PY = "/opt/venv/bin/python"

EXTS = {
    "catom": ["src/pyscal/atom.cpp", "src/pyscal/atom_binding.cpp"],
    "csystem": ["src/pyscal/system.cpp", "src/pyscal/system_binding.cpp", "src/pyscal/atom.cpp",
                "lib/voro++/voro++.cc"],
}
BASE = ["-fno-strict-overflow", "-Wsign-compare", "-DNDEBUG", "-g", "-O2", "-Wall", "-fPIC"]
TAIL = ["-std=c++17", "-fvisibility=hidden", "-g0"]
ASAN = ["-fno-strict-overflow", "-O1", "-g1", "-fPIC", "-std=c++17", "-fvisibility=hidden", "-w",
        "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]


class BuildError(Exception):
    pass


def _includes():
    inc = subprocess.run([PY, "-c", "import pybind11,sysconfig,sys;"
                          "print(pybind11.get_include());print(sys.prefix+'/include');"
                          "print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True).stdout.split()
    return ["-Ilib/voro++"] + ["-I" + i for i in inc]


def _suffix():
    return subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                          capture_output=True, text=True, check=True).stdout.strip()


def _inputs():
    out = []
    for top in ("src/pyscal", "lib/voro++"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in files:
                if f.endswith((".py", ".cpp", ".h", ".hh", ".cc")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def tree_key(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    h.update(repr((BASE, TAIL, ASAN, EXTS)).encode())
    for p in _inputs():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return variant + "-" + h.hexdigest()[:20]


def _run(cmd, env, cwd=REPO):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


def build(variant="plain", verbose=False):
    """Returns the directory that holds the importable package `pyscal`."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_key(variant)
    dest = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, key.split("-")[0] + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "OK")):
            os.utime(dest)
            return dest
        # keep the disk bounded: drop all but the most recent two builds of this variant
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)
                      if d.startswith(variant + "-") and os.path.isdir(os.path.join(BUILD, d))),
                     key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = dest + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/obj")
        shutil.copytree(os.path.join(REPO, "src/pyscal"), tmp + "/pyscal",
                        ignore=lambda d, names: [n for n in names if n == "__pycache__" or
                                                 n.endswith((".so", ".pyc"))])
        env = dict(os.environ)
        env["LANG"] = "C.UTF-8"
        for k in ("LD_PRELOAD", "MALLOC_PERTURB_"):
            env.pop(k, None)
        inc = _includes()
        cc = ["g++"]
        srcs = sorted(set(sum(EXTS.values(), [])))
        objs = {s: os.path.join(tmp, "obj", os.path.basename(s) + ".o") for s in srcs}

        def comp(s):
            if variant == "plain":
                cmd = cc + BASE + inc + ["-c", s, "-o", objs[s]] + TAIL
            else:
                cmd = cc + ASAN + inc + ["-c", s, "-o", objs[s]]
            _run(cmd, env)

        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, srcs))
        suf = _suffix()

        def link(name):
            cmd = ["g++", "-shared"]
            if variant == "asan":
                cmd += ["-fsanitize=address,undefined"]
            cmd += [objs[s] for s in EXTS[name]] + ["-o", tmp + "/pyscal/" + name + suf]
            _run(cmd, env)

        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(link, EXTS))
        shutil.rmtree(tmp + "/obj", ignore_errors=True)
        # the Python files must at least compile
        _run([PY, "-m", "compileall", "-q", "-f", tmp + "/pyscal"], env)
        open(tmp + "/OK", "w").close()
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(tmp, dest)
    return dest


def libasan():
    return [subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
            for n in ("libasan.so", "libubsan.so")]


if __name__ == "__main__":
    import time
    t = time.time()
    for v in sys.argv[1:] or ["plain"]:
        print(build(v), "%.1fs" % (time.time() - t))
