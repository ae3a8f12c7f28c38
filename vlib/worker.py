"""Runs cases of one property against the built package. Protocol: JSON lines on stdin / fd 3."""
import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback

from vlib.mon import Mon, Abort, quiet


def run_case(mod, case, tier):
    m = Mon(case, tier)
    t = time.time()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            mod.run_case(case, m)
    except Abort:
        pass
    except MemoryError:
        m.inconclusive = "out of memory"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        ref = any(os.path.basename(f.filename).startswith("ref") for f in tb) and not m.fails
        m.fail("exception:%s" % type(e).__name__,
               "unexpected %s: %s" % (type(e).__name__, str(e)[:400]),
               where="%s:%d" % (os.path.basename(where.filename), where.lineno),
               in_reference=ref, trace=traceback.format_exc()[-2500:])
    finally:
        m.cleanup()
    r = m.result()
    r["t"] = round(time.time() - t, 3)
    return r


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    chan = os.fdopen(3, "w", buffering=1)
    quiet()
    builddir = os.environ["VERIF_BUILDDIR"]
    import pyscal
    assert os.path.realpath(pyscal.__file__).startswith(os.path.realpath(builddir) + os.sep), pyscal.__file__
    mod = importlib.import_module("props." + prop.lower())
    chan.write(json.dumps({"ready": 1}) + "\n")
    for line in sys.stdin:
        msg = json.loads(line)
        r = run_case(mod, msg["case"], tier)
        r["i"] = msg["i"]
        chan.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
