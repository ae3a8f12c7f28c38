"""C26: invalid requests raise the documented errors, and the system is what it was before."""
import os

import numpy as np

from vlib import gen, quant
from vlib.sysu import calcbox, caser, pick
from props.c21 import DERIVED, lim

RULE = "one signature per (invalid request, size class, state of the system) that was refused and left the state as it was"
ASSUMPTIONS = ["a neighbor search that fails may have removed the earlier neighbors, but then says so to the calculations that need them"]
NEED = {"error_paths": 1200, "states": 1000, "usable": 30}

NUM = (TypeError, ValueError)


def cases(tier, seed):
    add, out = caser("C26", seed)
    rng = np.random.default_rng([seed, 26])
    for rep in range(6 if tier == "thorough" else 2):
        for state in ("new", "neighbors", "used", "voronoi"):
            for n in (3, 40, 205):
                add("system", state=state, n=n, cell=pick(rng, gen.CELLS))
        for k in range(4):
            add("atom", n=int(pick(rng, [0, 4, 300])))
            add("files", n=int(pick(rng, [6, 205])), cell=pick(rng, gen.CELLS))
        for k in range(3):
            add("empty", n=4, cell=pick(rng, gen.CELLS))
            add("histories", n=int(pick(rng, [12, 40, 210])), cell=pick(rng, gen.CELLS), steps=12)
    return out


BASE = ["pos", "type", "id", "loc", "custom"]
MORE = ["neighbors", "neighbor_distance", "neighbor_weights", "cluster", "solid", "structure", "volume", "avg_volume", "vorovector", "coordination", "cutoff", "angular", "chiparams", "disorder", "avg_disorder",
        "centrosymmetry", "entropy", "avg_entropy", "sro", "allq", "allaq", "condition", "largest_cluster", "surface", "avg_sij", "sij", "energy", "avg_energy"]


def snapshot(s, names):
    return repr([[getattr(a, k) if k != "custom" else dict(a.custom) for k in names] for a in s.atoms]), repr(np.array(s.box).tolist()), repr(calcbox(s).tolist()), s.natoms, s.ntotal


def requests(s, rng, n, found):
    """(name, request, errors, what stays: 'all' of the state or the 'base': atoms and box)"""
    def bad_l():
        return pick(rng, [1, 0, -1, 13, 14, 100, [4, 13], [1], [6, 0], [13, 4]])
    crowded = n < 200 and s.ntotal > 330
    cond_bad = [lambda a: "x", lambda a: 7, lambda a: a.nonsense, lambda a: None, lambda a: 1 / 0, "nokey", 3.7, lambda a: [1], "pos", "neighbors", "custom", ("q", 6)]
    out = [
        ("calculate_q", lambda: s.calculate_q(bad_l(), averaged=bool(rng.integers(2))), ValueError, "all"),
        ("calculate_q-only", lambda: s.calculate_q(bad_l(), averaged=True, only_averaged=True), ValueError, "all"),
        ("calculate_q-condition", lambda: s.calculate_q(6, condition=pick(rng, cond_bad)), RuntimeError, "all"),
        ("get_qvals", lambda: s.get_qvals(bad_l(), averaged=bool(rng.integers(2))), ValueError, "all"),
        ("disorder", lambda: s.calculate_disorder(q=pick(rng, [1, 13, -6, 0])), ValueError, "all"),
        ("cluster-condition", lambda: s.cluster_atoms(pick(rng, cond_bad)), RuntimeError, "all"),
        ("centro-odd", lambda: s.calculate_centrosymmetry(nmax=int(pick(rng, [1, 3, 7, 11]))), ValueError, "all"),
        ("centro-negative", lambda: s.calculate_centrosymmetry(nmax=int(pick(rng, [0, -2, -3, -12]))), ValueError, "all"),
        ("threshold-number", lambda: s.find_neighbors(method="number", nmax=4, threshold=float(pick(rng, [0.5, 0.99, 0, -1]))), ValueError, "base"),
        ("threshold-sann", lambda: s.find_neighbors(method="cutoff", cutoff="sann", threshold=float(pick(rng, [0.5, 0.99, 0, -1]))), ValueError, "base"),
        ("threshold-adaptive", lambda: s.find_neighbors(method="cutoff", cutoff=pick(rng, ["adaptive", 0]), threshold=float(pick(rng, [0.5, 0.99, 0, -1]))), ValueError, "base"),
        ("method", lambda: s.find_neighbors(method=pick(rng, ["nonsense", "", None, "Cutoff", "voronoy", 3])), ValueError, "base"),
        ("cutoff", lambda: s.find_neighbors(method="cutoff", cutoff=pick(rng, ["nonsense", None, [1], "3.0", {}])), NUM, "base"),
        ("number-toomany", lambda: s.find_neighbors(method="number", nmax=299, threshold=1), (RuntimeError, ValueError), "base"),
        ("cutoff-toomany", lambda: s.find_neighbors(method="cutoff", cutoff=1e5), (RuntimeError, ValueError), "base") if crowded else None,
        ("box-shape", lambda: setattr(s, "box", pick(rng, [[], [1, 2, 3], [[1, 0], [0, 1]], np.eye(4), [[1, 0, 0], [0, 1, 0]], np.eye(3).ravel()])), ValueError, "all"),
        ("box-text", lambda: setattr(s, "box", pick(rng, ["abc", [["a", 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 3], [4, 5], [6]]])), NUM, "all"),
        ("box-singular", lambda: setattr(s, "box", [[1.0, 2, 0], [2.0, 4, 0], [0, 0, 1]]), (ValueError, np.linalg.LinAlgError), "all"),
        ("atoms-wrong", lambda: setattr(s, "atoms", pick(rng, [[1, 2], ["x"], [None] * 3, 5])), (TypeError, ValueError, AttributeError, RuntimeError), "all"),
        ("add-wrong", lambda: s.add_atoms(pick(rng, [[1, 2], ["x"], [None], 5])), (TypeError, ValueError, AttributeError, RuntimeError), "all"),
        ("get_atom", lambda: s.get_atom(pick(rng, [s.ntotal, -1, 10 ** 6, -s.ntotal - 1])), IndexError, "all"),
        ("get_atom-type", lambda: s.get_atom(pick(rng, ["a", None, 1.5])), TypeError, "all"),
        ("set_atom", lambda: s.set_atom(pick(rng, [None, 3, "x"])), TypeError, "all"),
        ("get_custom", lambda: s.get_custom(s.get_atom(0), pick(rng, [["nonsense"], ["zz", "type"]])), (AttributeError, KeyError, ValueError), "all"),
        ("to_file-format", lambda: s.to_file("/nonexistent/out", format="nonsense", species=["A", "B"]), (TypeError, ValueError, KeyError, OSError), "all"),
        ("to_ase-species", lambda: s.to_ase(species=["Au"]), ValueError, "all"),
        ("to_ase-none", lambda: s.to_ase(species=[]), ValueError, "all"),
        ("read-missing", lambda: s.read_inputfile("/nonexistent/file"), (FileNotFoundError, OSError), "all"),
        ("read-format", lambda: s.read_inputfile("/nonexistent/file", format="nonsense"), (TypeError, FileNotFoundError, OSError), "all"),
        ("energy-style", lambda: s.calculate_energy(species=["Au", "Cu"], pair_style=None, pair_coeff="* *", mass=1.0), (ValueError, TypeError, ImportError), "all"),
    ]
    if found:
        out += [
            ("solids-q", lambda: s.find_solids(q=pick(rng, [1, 13, 0, -4])), ValueError, "all"),
            ("solids-qtype", lambda: s.find_solids(q=pick(rng, [6.0, "6", None, [6]])), TypeError, "all"),
            ("solids-threshold", lambda: s.find_solids(threshold=pick(rng, [-0.1, 1.1, 5, float("nan"), -1])), ValueError, "all"),
            ("solids-thresholdtype", lambda: s.find_solids(threshold=pick(rng, ["x", None, [0.5]])), TypeError, "all"),
            ("solids-avg", lambda: s.find_solids(avgthreshold=pick(rng, [-0.1, 1.1, 5, float("nan")])), ValueError, "all"),
            ("solids-avgtype", lambda: s.find_solids(avgthreshold=pick(rng, ["x", None, [0.5]])), TypeError, "all"),
            ("solids-bonds", lambda: s.find_solids(bonds=pick(rng, [1.5, -0.2, 7.0])), NUM, "all"),
            ("solids-bondstype", lambda: s.find_solids(bonds=pick(rng, ["x", None, [7]])), TypeError, "all"),
            ("sro-reference", lambda: s.calculate_sro(reference_type=pick(rng, [0, 3, -1, "a"])), ValueError, "all"),
            ("pmsro-reference", lambda: s.calculate_pmsro(reference_type=pick(rng, [0, 9, -1])), ValueError, "all"),
            ("pmsro-compare", lambda: s.calculate_pmsro(reference_type=1, compare_type=pick(rng, [0, 9, -1])), ValueError, "all"),
        ]
    else:
        out += [("solids-before", lambda: s.find_solids(), RuntimeError, "all"), ("sro-before", lambda: s.calculate_sro(), RuntimeError, "all"), ("pmsro-before", lambda: s.calculate_pmsro(), RuntimeError, "all")]
    return [x for x in out if x is not None and x[2] is not None]


def prepare(s, state, p, rng):
    if state == "neighbors":
        s.find_neighbors(method="cutoff", cutoff=p["rc"])
    elif state == "voronoi":
        s.find_neighbors(method="voronoi")
    elif state == "used":
        for _ in range(3):
            try:
                quant.RECIPES[pick(rng, list(quant.RECIPES))](s, p)
            except (RuntimeError, ValueError):
                pass
        s.find_neighbors(method="cutoff", cutoff=p["rc"])
        s.calculate_q([4, 6], averaged=True)
    return state != "new"


def refused(m, s, req, state, n):
    """Make the request, and compare the state before and after. True if neighbors may be gone."""
    name, fn, errors, keeps = req
    names = BASE + (MORE if keeps == "all" else [])
    before = snapshot(s, names)
    m.raises(fn, errors, "error:" + name, "the invalid request was not refused as documented", request=name, state=state, n=n)
    after = snapshot(s, names)
    m.count("states")
    for i, what in enumerate(("atoms", "box", "cell", "natoms", "ntotal")):
        if not m.check(before[i] == after[i], "state:%s:%s" % (name, what), "an invalid request changed the system", request=name, what=what, state=state, n=n,
                       before=str(before[i])[:200], after=str(after[i])[:200]):
            return
    m.nontrivial(name, state, n < 200)


def usable(m, s, box, pos, typ, p, rng, last):
    """The system calculates what a fresh one does."""
    m.count("usable")
    f = gen.make_system(box, pos, typ)
    for r in ("steinhardt", pick(rng, ["voronoi", "solids", "centro", "cna", "entropy"])):
        a, b = [], []
        for x, o in ((f, a), (s, b)):
            try:
                o.append(quant.RECIPES[r](x, p))
            except (RuntimeError, ValueError) as e:
                o.append(type(e).__name__)
        if isinstance(a[0], str) or isinstance(b[0], str):
            m.check(type(a[0]) is type(b[0]) and (not isinstance(a[0], str) or a[0] == b[0]), "usable", "the system cannot be used after refused requests", recipe=r, fresh=str(a[0])[:80], used=str(b[0])[:80], last=last)
        else:
            quant.compare(m, a[0], b[0], "usable:" + r, "results after refused requests", rtol=1e-9, atol=1e-10, last=last)


def system(case, m):
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6)
    n = len(pos)
    p = quant.params(rng, 2.0, lim(box, n))
    s = gen.make_system(box, pos, typ)
    for i in range(n):
        a = s.get_atom(i)
        a.custom = {"k": i}
        s.set_atom(a)
    found = prepare(s, case["state"], p, rng)
    names = []
    for req in [r for r in requests(s, rng, n, found)]:
        refused(m, s, req, case["state"], n)
        names.append(req[0])
        if req[3] == "base":
            # neighbors that are gone are not used silently
            have = any(len(a.neighbors) for a in s.iter_atoms())
            if not have:
                m.raises(lambda: s.find_solids(), RuntimeError, "gone:" + req[0], "solids without neighbors after a failed search", request=req[0])
                m.raises(lambda: s.calculate_sro(), RuntimeError, "gone-sro:" + req[0], "short range order without neighbors after a failed search", request=req[0])
            if found:
                prepare(s, case["state"], p, rng)
    usable(m, s, box, pos, typ, p, rng, names[-3:])


def histories(case, m):
    """Valid and invalid calls in turn."""
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6)
    n = len(pos)
    p = quant.params(rng, 2.0, lim(box, n))
    s = gen.make_system(box, pos, typ)
    done = []
    for _ in range(case["steps"]):
        if rng.random() < 0.4:
            r = pick(rng, list(quant.RECIPES))
            try:
                quant.RECIPES[r](s, p)
            except (RuntimeError, ValueError):
                pass
            done.append(r)
        else:
            found = any(len(a.neighbors) for a in s.iter_atoms()) and s.neighbors_found
            req = pick(rng, requests(s, rng, n, found))
            if req[0].endswith("before") and s.neighbors_found:
                continue
            refused(m, s, req, "+".join(done[-1:]), n)
            done.append(req[0])
    usable(m, s, box, pos, typ, p, rng, done[-4:])


def empty(case, m):
    """A system without box or atoms."""
    import pyscal.core as pc
    box, pos, typ = gen.config(case["seed"], 5, case["cell"], spacing=2.0)
    s = pc.System()
    m.raises(lambda: setattr(s, "atoms", gen.make_atoms(pos, typ)), ValueError, "error:atoms-before-box", "atoms before the box")
    m.check(s.natoms == 0 and len(s.atoms) == 0, "state:atoms-before-box", "atoms were added without a box")
    m.raises(lambda: s.find_solids(), RuntimeError, "error:solids-empty", "solids of an empty system")
    m.raises(lambda: s.calculate_sro(), RuntimeError, "error:sro-empty", "short range order of an empty system")
    m.raises(lambda: s.get_atom(0), IndexError, "error:get-empty", "atom of an empty system")
    m.raises(lambda: s.read_inputfile("/nonexistent"), (FileNotFoundError, OSError), "error:read-missing", "a missing file")
    s.box = box.tolist()
    s.atoms = gen.make_atoms(pos, typ)
    p = quant.params(m.rng, 2.0, lim(box, len(pos)))
    usable(m, s, box, pos, typ, p, m.rng, ["empty"])
    m.nontrivial("empty", case["cell"])


def atom(case, m):
    from pyscal.catom import Atom
    from props.c22 import attr_values
    rng = m.rng
    a = Atom([1.0, 2.0, 3.0], 5, 2)
    v, per = attr_values(rng, case["n"])
    a.neighbors = list(range(case["n"]))
    for k, x in list(v.items()) + list(per.items()):
        setattr(a, k, x)
    names = sorted(set(list(v) + list(per) + ["neighbors", "coordination"]))
    bad = [("pos", [[], [1.0], [1.0, 2.0], [1.0] * 4, "abc", None, 5]), ("allq", [[], [1.0], [1.0] * 10, [1.0] * 12]), ("allaq", [[1.0] * 3, [1.0] * 13]), ("vorovector", [[1], [1, 2, 3], [1] * 5]),
           ("neighbors", [[0] * 301, "x", [None], [1.5]]), ("neighbor_weights", [[1.0] * 301, "x"]), ("neighbor_vector", [[[1.0, 2.0]], [[1.0]] * 3, [[1.0] * 4]]),
           ("type", ["a", None, 1.5]), ("id", ["a", None]), ("custom", [3, "x", [1]]), ("volume", ["a", None, []]), ("loc", ["a", None]), ("cluster", ["a", None])]
    for k, vals in bad:
        for x in vals:
            before = repr([getattr(a, y) for y in names])
            m.raises(lambda: setattr(a, k, x), (TypeError, ValueError, OverflowError, RuntimeError), "error:attr-" + k, "a value that does not fit was accepted", attribute=k, value=str(x)[:60])
            m.check(repr([getattr(a, y) for y in names]) == before, "state:attr-" + k, "a refused value changed the atom", attribute=k, value=str(x)[:60])
            m.count("states")
            m.nontrivial("attr", k, str(x)[:20])
    for l in (1, 0, 13, -3, 50):
        for fn, what in ((lambda: a.get_q(l), "get_q"), (lambda: a.get_q(l, True), "get_aq"), (lambda: a.set_q(l, 0.5), "set_q"), (lambda: a.set_q([l], [0.5]), "set_ql"), (lambda: a.get_q([4, l]), "get_ql"), (lambda: a.get_qlm(l), "get_qlm"),
                         (lambda: a.set_q([4, l], [0.1, 0.2]), "set_ql2")):
            before = repr([getattr(a, y) for y in names])
            m.raises(fn, ValueError, "error:" + what, "q of a wrong l was accepted", l=l)
            if what != "set_ql2":
                m.check(repr([getattr(a, y) for y in names]) == before, "state:" + what, "a refused request changed the atom", what=what, l=l)
            m.count("states")
            m.nontrivial(what, l)


def files(case, m):
    """Requests about files; existing files and the system stay."""
    import pyscal.core as pc
    import pyscal.crystal_structures as pcs
    import pyscal.trajectory as pt
    import pyscal.traj_process as ptp
    rng = m.rng
    d = m.scratch()
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6)
    n = len(pos)
    s = gen.make_system(box, pos, typ)
    keep = os.path.join(d, "keep")
    with open(keep, "w") as fh:
        fh.write("precious\n")
    reqs = [("vals-shape", lambda: s.to_file(keep, customkeys=["a", "b"], customvals=[[1.0]] * n), ValueError), ("vals-rows", lambda: s.to_file(keep, customkeys=["a"], customvals=[[1.0]] * (n + 1)), ValueError),
            ("vals-key", lambda: s.to_file(keep, customkeys=["nonsense"]), (AttributeError, KeyError, ValueError)), ("species", lambda: s.to_file(keep, format="poscar", species=["Au"]), ValueError),
            ("data-species", lambda: s.to_file(keep, format="lammps-data", species=["Au"]), ValueError), ("data-none", lambda: s.to_file(keep, format="lammps-data"), ValueError),
            ("format", lambda: s.to_file(keep, format="nonsense", species=["Au", "Cu"]), TypeError), ("format-none", lambda: s.to_file(keep, format="nonsense"), NUM)]
    for name, fn, errors in reqs:
        before = snapshot(s, BASE)
        m.raises(fn, errors, "error:file-" + name, "the invalid request was not refused", request=name)
        m.check(open(keep).read() == "precious\n", "state:file-" + name, "a refused request wrote into the file", request=name)
        m.check(snapshot(s, BASE) == before, "state:file-system-" + name, "a refused request changed the system", request=name)
        m.check(os.listdir(d) == ["keep"], "state:file-left-" + name, "a refused request left files", files=os.listdir(d))
        m.count("states")
        m.nontrivial("file", name, n < 200)
    before = snapshot(s, BASE)
    m.raises(lambda: s.read_inputfile(keep, format="nonsense"), TypeError, "error:read-format", "unknown format")
    good = os.path.join(d, "good")
    s.to_file(good)
    lines = open(good).read().split("\n")
    m.raises(lambda: s.read_inputfile(good, customkeys=["nonsense"]), (KeyError, ValueError), "error:read-key", "missing column")
    with open(os.path.join(d, "nox"), "w") as fh:
        fh.write("\n".join(x.replace("type x y z", "type u v w") for x in lines))
    m.raises(lambda: s.read_inputfile(os.path.join(d, "nox")), (ValueError, KeyError), "error:read-nox", "a file without coordinates")
    for cut in (2, 4, 6, 9, 9 + n // 2):
        with open(os.path.join(d, "cut"), "w") as fh:
            fh.write("\n".join(lines[:cut]))
        m.raises(lambda: s.read_inputfile(os.path.join(d, "cut")), Exception, "error:read-cut", "a file that ends early", lines=cut)
        m.check(snapshot(s, BASE) == before, "state:read-cut", "reading a damaged file changed the system", lines=cut)
    with open(os.path.join(d, "cut"), "w") as fh:
        fh.write("\n".join(lines[:9 + n // 2] + [" ".join(lines[9 + n // 2].split()[:3])]))
    m.raises(lambda: s.read_inputfile(os.path.join(d, "cut")), Exception, "error:read-cut", "a file that ends within a line")
    s.to_file(good + ".gz", compressed=True)
    raw = open(good + ".gz", "rb").read()
    with open(os.path.join(d, "cut.gz"), "wb") as fh:
        fh.write(raw[:len(raw) * 2 // 3])
    m.raises(lambda: s.read_inputfile(os.path.join(d, "cut.gz")), Exception, "error:read-cut", "a compressed file that ends early")
    m.check(snapshot(s, BASE) == before, "state:read", "a refused file changed the system")
    for f, e in ((lambda: pt.Trajectory("/nonexistent/t"), FileNotFoundError), (lambda: ptp.split_trajectory("/nonexistent/t"), FileNotFoundError), (lambda: ptp.split_trajectory(good, format="nonsense"), TypeError),
                 (lambda: pcs.make_crystal("nonsense"), (ValueError, TypeError, KeyError)), (lambda: pt.Trajectory(good)[1], IndexError), (lambda: pt.Trajectory(good)[-2], IndexError),
                 (lambda: ptp.split_trajectory(good, format=pick(rng, ["ase", "mdtraj", "poscar"])), NotImplementedError)):
        m.raises(f, e, "error:other", "the invalid request was not refused")
    t = pt.Trajectory(good)
    for i in (1, 5, -2, 100):
        m.raises(lambda: t[i], IndexError, "error:block", "a block that is not there", block=i)
        m.raises(lambda: t.load(i), IndexError, "error:load", "a block that is not there", block=i)
    m.check(t.nblocks == 1 and len(t[0].to_system()) == 1, "state:trajectory", "the trajectory cannot be used after refused requests")
    m.nontrivial("files", n < 200, case["cell"])


def run_case(case, m):
    {"system": system, "atom": atom, "files": files, "empty": empty, "histories": histories}[case["kind"]](case, m)
