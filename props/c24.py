"""C24: the same calls on the same input give bit for bit the same output, whatever is in fresh memory."""
import json
import os
import pickle
import re
import subprocess
import sys

import numpy as np

from vlib import gen, quant
from vlib.sysu import caser, pick
from props.c21 import DERIVED

TIMEOUT = 300
RULE = "one signature per (kind of job, calculations, size class, circumstances) whose results were compared bit for bit between processes"
ASSUMPTIONS = ["glibc fills fresh and freed blocks with MALLOC_PERTURB_ patterns (no thread cache); stack contents vary with the environment size",
               "jobs that ask for random noise are left out; valgrind reports count only with a frame of the extension"]
NEED = {"jobs": 30, "processes": 20, "values": 100000, "memcheck_jobs": 4}

# circumstances of the processes that are compared
RUNS = [dict(env={"MALLOC_PERTURB_": "0", "PYTHONHASHSEED": "0"}), dict(env={"MALLOC_PERTURB_": "85", "PYTHONHASHSEED": "1", "PAD": "x" * 3000}, npseed=7),
        dict(env={"MALLOC_PERTURB_": "255", "PYTHONHASHSEED": "4242", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, twice=True, npseed=3),
        dict(env={"MALLOC_PERTURB_": "128", "PYTHONHASHSEED": "77", "PYTHONMALLOC": "malloc", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, dirty=True),
        dict(env={"PYTHONHASHSEED": "99", "MALLOC_MMAP_THRESHOLD_": "4096"}, dirty=True, twice=True)]


def jobs(rng, k, few=False):
    R = list(quant.RECIPES)
    out = [dict(kind="atom")]
    for i in range(2 if few else 5):
        n = int(pick(rng, [3, 30, 60, 205]) if not few else 6)
        out.append(dict(kind="calc", seed=int(rng.integers(10 ** 6)), n=n, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), shape=pick(rng, [None, "cluster"]),
                        struct=pick(rng, [None, None, "fcc", "bcc", "diamond"]) if not few else None,
                        calls=[R[(k * 7 + i) % len(R)]] + [pick(rng, R) for _ in range(2)] + [pick(rng, list(DERIVED)) for _ in range(2)]))
    out.append(dict(kind="files", seed=int(rng.integers(10 ** 6)), n=12, cell=pick(rng, gen.CELLS), place="inside"))
    if not few:
        out.append(dict(kind="cells", seed=int(rng.integers(10 ** 6)), n=int(pick(rng, [4, 9, 30])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES)))
        out.append(dict(kind="crystal", struct=pick(rng, ["bcc", "fcc", "hcp", "diamond", "a15", "l12", "b2"]), reps=[4, 4, 4]))
        out.append(dict(kind="crystal", struct=pick(rng, ["bcc", "fcc"]), reps=[2, 2, 2]))
    return out


def cases(tier, seed):
    add, out = caser("C24", seed)
    rng = np.random.default_rng([seed, 24])
    for k in range(4 if tier == "quick" else 12):
        add("processes", jobs=jobs(rng, k))
    for k in range(3 if tier == "quick" else 8):
        js = jobs(rng, k, few=True)
        R = list(quant.RECIPES)
        # every calculation occurs under memcheck
        js[1]["calls"] = R[k % 3::3][:4]
        js[2]["calls"] = R[k % 3::3][4:] + [list(DERIVED)[k % len(DERIVED)]]
        add("memcheck", jobs=[dict(j, light=1) for j in js])
    return out


def child(m, spec, env, name, prefix=()):
    d = os.path.join(m.scratch(), name)
    os.makedirs(d)
    with open(os.path.join(d, "spec.json"), "w") as fh:
        json.dump(spec, fh)
    e = {k: v for k, v in os.environ.items() if k not in ("MALLOC_PERTURB_", "PYTHONHASHSEED", "LD_PRELOAD")}
    e.update(env)
    p = subprocess.run(list(prefix) + [sys.executable, "-m", "vlib.detchild", os.path.join(d, "spec.json"), os.path.join(d, "out.pkl")], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=280)
    m.count("processes")
    if not os.path.exists(os.path.join(d, "out.pkl")):
        m.fail("child", "the process did not finish its jobs", rc=p.returncode, err=p.stderr.decode("utf-8", "replace")[-1500:], name=name)
        return None, p
    with open(os.path.join(d, "out.pkl"), "rb") as fh:
        return pickle.load(fh), p


def differ(a, b, path=""):
    """Where two results differ."""
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, tuple):
        if len(a) != len(b):
            return path + ".len", len(a), len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                tag = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)
                return differ(x, y, path + "/" + tag)
    return path, a, b


def leaves(o):
    if isinstance(o, tuple):
        if len(o) == 4 and o[0] == "array":
            return int(np.prod(o[2]))
        return sum(leaves(x) for x in o)
    return 1


def processes(case, m):
    base = None
    for k, r in enumerate(RUNS):
        spec = dict(jobs=case["jobs"], twice=r.get("twice"), dirty=r.get("dirty"), npseed=r.get("npseed", 0))
        res, _ = child(m, spec, r["env"], "run%d" % k)
        if res is None:
            return
        if k == 0:
            base = res
            m.count("jobs", len(res))
            m.count("values", sum(leaves(x[1]) for x in res))
        step = 2 if r.get("twice") else 1
        m.require(len(res) == step * len(base), "results", "number of results", got=len(res))
        for i, (kind, val, rs) in enumerate(res):
            want = base[i // step][1]
            if not m.check(rs, "random-state", "a calculation changes the random state", job=case["jobs"][i // step]):
                return
            if val != want:
                at, x, y = differ(want, val)
                m.fail("differs:" + re.sub(r"\d+", "#", at)[-60:], "results differ between executions", where=at, first=str(x)[:200], second=str(y)[:200],
                       run={k: v for k, v in r["env"].items() if k != "PAD"}, second_time=bool(step == 2 and i % 2), job=case["jobs"][i // step])
            m.count("compared")
    for j in case["jobs"]:
        m.nontrivial(j["kind"], j.get("calls"), j.get("n", 0) < 200)


def memcheck(case, m):
    log = os.path.join(m.scratch(), "valgrind.log")
    res, p = child(m, dict(jobs=case["jobs"]), {"PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "0"}, "valgrind",
                   prefix=["valgrind", "--tool=memcheck", "--leak-check=no", "--error-limit=no", "--num-callers=20", "--undef-value-errors=yes", "--log-file=" + log])
    if res is None:
        return
    m.count("memcheck_jobs", len(res))
    text = open(log, errors="replace").read()
    blocks = re.split(r"\n==\d+== \n", text)
    bad = [b for b in blocks if re.search(r"csystem|catom|voro", b) and re.search(r"uninitialised|Invalid (read|write)", b)]
    keys = set()
    for b in bad:
        f = re.search(r"(?:by|at) 0x[0-9A-F]+: ((?:System|Atom|voro)[\w:~]*)", b)
        keys.add((f.group(1) if f else "?", re.search(r"uninitialised|Invalid (?:read|write)", b).group(0), b[:1500]))
    for f, kind, b in list(keys)[:5]:
        m.fail("memcheck:%s:%s" % (kind.replace(" ", "-"), f), "memcheck report in the extension", report=b)
    m.count("memcheck_blocks", len(blocks))
    for j in case["jobs"]:
        m.nontrivial("memcheck", j["kind"], j.get("calls"))


def run_case(case, m):
    {"processes": processes, "memcheck": memcheck}[case["kind"]](case, m)
