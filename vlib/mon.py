"""The monitor object that property modules report to while real code runs."""
import json
import os
import random
import tempfile
import warnings

import numpy as np


class Abort(Exception):
    """Stop this case: a violation that makes the rest of it meaningless was recorded."""


def _js(o):
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


class Mon:
    def __init__(self, case, tier):
        self.case = case
        self.tier = tier
        self.counts = {}
        self.fails = []
        self.sigs = []
        self.notes = {}
        self.inconclusive = None
        self.rng = np.random.default_rng(case.get("seed", 0))
        random.seed(int(case.get("seed", 0)) & 0xFFFFFFFF)
        np.random.seed(int(case.get("seed", 0)) & 0xFFFFFFFF)
        self.tmp = None

    # ---- what was observed
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def nontrivial(self, *sig):
        """This case exercised the property; `sig` distinguishes it from others."""
        self.sigs.append(json.dumps(sig, default=_js))

    def note(self, k, v):
        self.notes[k] = v

    # ---- verdicts
    def fail(self, key, msg, **detail):
        if sum(1 for f in self.fails if f["key"] == key) < 3:
            self.fails.append({"key": key, "msg": msg, "detail": json.loads(json.dumps(detail, default=_js))})
        self.count("violations")

    def check(self, ok, key, msg, **detail):
        self.count("assertions")
        if not ok:
            self.fail(key, msg, **detail)
        return bool(ok)

    def require(self, ok, key, msg, **detail):
        if not self.check(ok, key, msg, **detail):
            raise Abort()

    def close(self, got, want, key, msg, rtol=1e-9, atol=1e-9, **detail):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if want.ndim == 0 and got.ndim > 0:
            want = np.full(got.shape, want)
        self.count("values_compared", max(1, want.size))
        if got.shape != want.shape:
            self.fail(key, msg + " (shape)", got=got.shape, want=want.shape, **detail)
            return False
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            bad = np.argwhere(~ok)
            i = tuple(bad[0]) if got.ndim else ()
            self.fail(key, msg, nbad=len(bad), first=[int(x) for x in i], got=got[i], want=want[i], **detail)
            return False
        return True

    def raises(self, fn, exc, key, msg, **detail):
        """fn() must raise one of exc."""
        self.count("error_paths")
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # a different exception
            self.fail(key, msg + ": raised %s instead" % type(e).__name__, err=str(e)[:300], **detail)
            return False
        self.fail(key, msg + ": nothing was raised", **detail)
        return False

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vf_")
        return self.tmp

    def cleanup(self):
        if self.tmp and os.path.basename(self.tmp).startswith("vf_"):
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)

    def result(self):
        return {"counts": self.counts, "fails": self.fails, "sigs": self.sigs, "notes": self.notes,
                "inconclusive": self.inconclusive}


def quiet():
    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
