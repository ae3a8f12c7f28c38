#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]

Builds /repo's current tree, runs the property's workload with its monitors, writes
evidence/<PROPERTY>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 error, 3 inconclusive.
"""
import argparse
import importlib
import json
import os
import queue
import selectors
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
sys.path.insert(0, VERIF)
from vlib import build as B  # noqa: E402

PY = B.PY


class Worker:
    """One subprocess that runs cases; a crash or a hang is attributed to the case it was running."""

    def __init__(self, prop, tier, builddir, env, log):
        e = dict(os.environ)
        for k in ("LD_PRELOAD", "MALLOC_PERTURB_"):
            e.pop(k, None)
        e.update(PYTHONPATH=builddir + ":" + VERIF, VERIF_BUILDDIR=builddir, PYTHONHASHSEED="0",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                 PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", LANG="C.UTF-8")
        e.update(env)
        r, w = os.pipe()
        self.log = open(log, "ab+")

        def pre():
            os.dup2(w, 3)
            os.set_inheritable(3, True)
        self.p = subprocess.Popen([PY, "-m", "vlib.worker", prop, tier], cwd=VERIF, env=e, stdin=subprocess.PIPE,
                                  stdout=self.log, stderr=self.log, preexec_fn=pre, close_fds=False,
                                  start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "rb", buffering=0)
        self.buf = b""
        self.ready = False

    def recv(self, timeout):
        end = time.time() + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.r, selectors.EVENT_READ)
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                return "timeout"
            if sel.select(left):
                d = self.r.read(1 << 16)
                if not d:
                    return None
                self.buf += d

    def run(self, i, case, timeout):
        if not self.ready:
            r = self.recv(120)
            if not isinstance(r, dict):
                return {"start_failed": True}
            self.ready = True
        try:
            self.p.stdin.write((json.dumps({"i": i, "case": case}) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = self.recv(timeout)
        if r == "timeout":
            self.kill()
            return {"timeout": True}
        if r is None:
            rc = self.p.wait()
            return {"died": rc}
        return r

    def tail(self, n=6000):
        self.log.flush()
        self.log.seek(0, 2)
        size = self.log.tell()
        self.log.seek(max(0, size - n))
        return self.log.read().decode("utf-8", "replace")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.kill()
        self.log.close()
        self.r.close()


def run_cases(prop, tier, cases, nworkers, timeout, builds, logdir, stop_after, known):
    """Run every case; returns the results in case order."""
    results = [None] * len(cases)
    todo = queue.Queue()
    for i in range(len(cases)):
        todo.put(i)
    nviol, nhang = [0], [0]
    lock = threading.Lock()

    def loop(w):
        workers = {}
        while True:
            with lock:
                if nviol[0] >= stop_after or nhang[0] >= 2:
                    break
            try:
                i = todo.get_nowait()
            except queue.Empty:
                break
            case = cases[i]
            env = case.get("env", {})
            variant = case.get("variant", "plain")
            wkey = (variant, json.dumps(env, sort_keys=True))
            if wkey not in workers:
                e = dict(env)
                if variant == "asan":
                    e["LD_PRELOAD"] = " ".join(B.libasan())
                    e["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
                                         "allocator_may_return_null=1:detect_stack_use_after_return=1:"
                                         "quarantine_size_mb=64:detect_container_overflow=1")
                    e["UBSAN_OPTIONS"] = "halt_on_error=0:print_stacktrace=1"
                workers[wkey] = Worker(prop, tier, builds[variant], e,
                                       os.path.join(logdir, "w%d_%s.log" % (w, variant)))
            wk = workers[wkey]
            pos = wk.log.seek(0, 2)
            r = wk.run(i, case, case.get("timeout", timeout))
            if "died" in r or "timeout" in r or "start_failed" in r:
                r["tail"] = wk.tail()
                wk.close()
                del workers[wkey]
            elif variant == "asan":
                wk.log.seek(pos)
                r["log"] = wk.log.read().decode("utf-8", "replace")
            with lock:
                results[i] = r
                if "died" in r or any(f["key"] not in known for f in r.get("fails", [])):
                    nviol[0] += 1
                if "timeout" in r:
                    nhang[0] += 1
        for wk in workers.values():
            wk.close()

    ths = [threading.Thread(target=loop, args=(w,)) for w in range(nworkers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return results


def san_key(text):
    """A stable name for a sanitizer report: kind and innermost frame inside pyscal or voro++."""
    import re
    kind = "report"
    m = re.search(r"AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: (.+)", text)
        if m:
            kind = re.sub(r"[0-9.e+-]+", "N", m.group(1))[:60]
    m = re.search(r" in ((?:System|Atom|voro)[\w:~]*)", text)
    return "sanitizer:%s:%s" % (kind, m.group(1) if m else "?")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="run only the cases whose 'kind' is this (for development)")
    ap.add_argument("--budget", type=float, default=float(os.environ.get("VERIF_BUDGET", "420")), help="seconds that the thorough tier may use")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    mod = importlib.import_module("props." + prop.lower())

    replaying = None
    if a.replay:
        replaying = json.load(open(a.replay))
        cases = [replaying["case"]]
        a.tier = replaying.get("tier", a.tier)
    else:
        cases = list(mod.cases(a.tier, a.seed))
        if a.only:
            cases = [c for c in cases if c.get("kind") == a.only]
    if not cases:
        print("no cases were generated")
        return 2
    try:
        builds = {v: B.build(v) for v in sorted(set(c.get("variant", "plain") for c in cases))}
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time() - t0
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for f in json.load(open(kf))["findings"]:
            if f["property"] == prop and f.get("status") == "open":
                known[f["key"]] = f

    logdir = os.path.join(VERIF, "replays", "log-%s-%d" % (prop, os.getpid()))
    os.makedirs(logdir, exist_ok=True)
    def run(cs):
        return run_cases(prop, a.tier, cs, a.jobs, getattr(mod, "TIMEOUT", 240), builds, logdir,
                         10 ** 9 if a.v else 12, known)
    res = run(cases)
    rounds, tr = 1, time.time() - t0 - tb
    while (a.tier == "thorough" and not a.replay and not a.v and time.time() - t0 - tb + tr < a.budget and rounds < 200
           and all(r and not ({"died", "timeout", "start_failed"} & set(r)) and all(f["key"] in known for f in r["fails"]) for r in res)):
        # more cases from further seeds until the time is used
        more = [c for c in mod.cases(a.tier, a.seed + 100003 * rounds) if not a.only or c.get("kind") == a.only]
        cases = cases + more
        res = res + run(more)
        rounds += 1

    counts, sigs, viol, seen_known, inconc = {}, set(), [], {}, []
    done = nontriv = 0
    slow = []
    for i, r in enumerate(res):
        if r is None:
            continue
        if "start_failed" in r:
            print("worker did not start:\n" + r["tail"][-3000:])
            return 2
        if "timeout" in r:
            # the limits are more than ten times what the cases need on the unchanged tree
            viol.append((i, {"key": "hang", "msg": "an operation did not return within the time limit of the case",
                             "detail": {"limit_s": cases[i].get("timeout", getattr(mod, "TIMEOUT", 240)), "tail": r.get("tail", "")[-500:]}}))
            done += 1
            continue
        if "died" in r:
            rc = r["died"]
            tail = r.get("tail", "")
            if "AddressSanitizer" in tail or "runtime error" in tail:
                j = max(tail.rfind("ERROR: AddressSanitizer"), 0)
                f = {"key": san_key(tail[j:]), "msg": "sanitizer report", "detail": {"report": tail[j:][:4000]}}
            elif rc == -9:
                inconc.append("case %d: worker was killed (memory?)" % i)
                continue
            elif rc < 0:
                f = {"key": "crash:" + signal.Signals(-rc).name,
                     "msg": "the process died with %s" % signal.Signals(-rc).name, "detail": {"tail": tail[-1500:]}}
            else:
                f = {"key": "crash:exit", "msg": "the process exited with %d" % rc, "detail": {"tail": tail[-1500:]}}
            viol.append((i, f))
            done += 1
            continue
        done += 1
        slow.append((r["t"], i))
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["sigs"]:
            nontriv += 1
            sigs.update(r["sigs"])
        if r.get("inconclusive"):
            inconc.append("case %d: %s" % (i, r["inconclusive"]))
        log = r.get("log", "")
        if "runtime error:" in log:
            seen = set()
            parts = log.split("runtime error:")
            for n in range(1, len(parts)):
                seg = "runtime error:" + parts[n]
                k = san_key(seg)
                if k not in seen:
                    seen.add(k)
                    viol.append((i, {"key": k, "msg": "sanitizer report",
                                     "detail": {"report": parts[n - 1][-200:] + seg[:2500]}}))
        for f in r["fails"]:
            viol.append((i, f))
    real = []
    for i, f in viol:
        if f["key"] in known:
            seen_known.setdefault(f["key"], (i, f))
        else:
            real.append((i, f))

    # write the witnesses
    out = []
    seen_keys = {}
    for i, f in real:
        if seen_keys.get(f["key"], 0) >= 1 or len(out) >= 6:
            continue
        seen_keys[f["key"]] = 1
        path = os.path.join("replays", "%s-%d.json" % (prop, len(out)))
        with open(os.path.join(VERIF, path), "w") as fh:
            json.dump({"property": prop, "tier": a.tier, "seed": a.seed, "case": cases[i], "violation": f}, fh, indent=1)
        out.append((path, i, f))

    rule = getattr(mod, "RULE", "")
    samples = []
    want = [i for i in range(len(cases)) if res[i] and res[i].get("sigs")][:2] + \
           [i for i in range(len(cases)) if res[i] and res[i].get("sigs")][-1:]
    for i in want:
        samples.append({"case": cases[i], "signature": res[i]["sigs"][:3], "observed": res[i]["counts"],
                        "notes": res[i]["notes"]})
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(sigs),
                       "nontrivial_cases": nontriv, "rule": rule, "samples": samples,
                       "observed": counts, "cases_generated": len(cases), "rounds": rounds,
                       "builds": {v: os.path.basename(d) for v, d in builds.items()},
                       "known_findings_observed": sorted(seen_known), "build_s": round(tb, 1)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay and not a.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    if not a.v:
        import shutil
        shutil.rmtree(logdir, ignore_errors=True)
    if a.v:
        print("counts", json.dumps(counts, indent=1))
        print("slowest", [(t, i, cases[i].get("kind")) for t, i in sorted(slow)[-6:]])
    for k, (i, f) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    print("%s %s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (
        prop, a.tier, done, len(sigs), tb, time.time() - t0))
    if out:
        for path, i, f in out:
            print("-- case %d kind=%s key=%s: %s" % (i, cases[i].get("kind"), f["key"], f["msg"]))
            print("   " + json.dumps(f["detail"])[:1500 if not a.v else 4000])
        for path, i, f in out:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for s in inconc[:5]:
        print("INCONCLUSIVE " + s)
    if inconc:
        return 3
    if not a.replay and not a.only:
        need = getattr(mod, "NEED", {})
        for k, n in need.items():
            if counts.get(k, 0) < n:
                print("INCONCLUSIVE the monitor observed only %d of %s (needs %d)" % (counts.get(k, 0), k, n))
                return 3
        if len(sigs) < 2:
            print("INCONCLUSIVE fewer than two distinct non-trivial cases")
            return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
