"""C23: no call has undefined behaviour or leaves its memory (ASan + UBSan build, checked libstdc++)."""
import gzip
import os

import numpy as np

from vlib import dump, gen, quant
from vlib.sysu import caser, pick
from props.c21 import DERIVED, lim

TIMEOUT = 200
RULE = "one signature per (calculation or hostile call, size class, kind of configuration) executed under the sanitizers"
ASSUMPTIONS = ["gcc 13 AddressSanitizer and UndefinedBehaviorSanitizer with _GLIBCXX_ASSERTIONS on system.cpp, atom.cpp, the bindings and voro++; leaks are C25's subject",
               "calls whose names start with c or which pyscal.core wraps (low level entry points) are not called directly"]
NEED = {"calls": 600, "raised": 40, "hostile": 150, "plausible": 1000}

WEIRD = ["normal", "dense", "coincident", "flat", "needle", "far", "nan", "inf", "huge", "tiny", "collinear", "planar", "onegroup", "lattice", "zerobox", "hugecut"]


def cases(tier, seed):
    add, out = caser("C23", seed)
    rng = np.random.default_rng([seed, 23])
    R = list(quant.RECIPES)
    for rep in range(3 if tier == "thorough" else 1):
        for w in WEIRD:
            for n in (int(rng.integers(1, 6)), int(rng.integers(6, 60)), int(rng.integers(200, 260))):
                add("work", weird=w, n=n, cell=pick(rng, gen.CELLS), picks=[pick(rng, R) for _ in range(5)], variant="asan")
        for k, r in enumerate(R):
            add("work", weird="normal", n=int([5, 40, 210][k % 3]), cell=pick(rng, gen.CELLS), picks=[r], variant="asan")
        for k in range(6):
            add("indices", n=int(rng.choice([3, 30, 205])), cell=pick(rng, gen.CELLS), variant="asan")
            add("arguments", n=int(rng.choice([3, 30, 205])), cell=pick(rng, gen.CELLS), variant="asan")
            add("atoms", n=int(rng.choice([3, 30, 205])), variant="asan")
            add("many", n=int(rng.choice([30, 250])), cell=pick(rng, gen.CELLS), variant="asan")
            add("files", n=12, cell=pick(rng, gen.CELLS), variant="asan")
        add("big", n=2500, cell="tri+", variant="asan")
        add("big", n=4200, cell="orth", variant="asan")
        add("chain", n=3000 if tier == "quick" else 20000, cell="orth", variant="asan")
    return out


def attempt(m, fn, what):
    """A call either returns or raises a Python exception."""
    m.count("calls")
    try:
        return fn()
    except (MemoryError,):
        m.count("raised")
    except Exception as e:
        m.count("raised")
        m.count("raised_" + type(e).__name__)
    return None


def configuration(case, rng):
    n, w = case["n"], case["weird"]
    sp = float(rng.uniform(1, 4))
    box, pos, typ = gen.config(case["seed"], n, case["cell"], pick(rng, gen.PLACES), spacing=sp, nt=2, dmin=0.5, struct=pick(rng, ["fcc", "bcc", "diamond"]) if w == "lattice" else None, noise=0.0)
    n = len(pos)
    L = np.cbrt(n) * sp
    if w == "dense":
        pos = pos * 0.08
    elif w == "coincident":
        pos[: max(1, n // 3)] = pos[0]
    elif w == "flat":
        box = np.diag([L, L, 0.05 * L])
    elif w == "needle":
        box = np.diag([6 * L, 0.3 * L, 0.3 * L])
    elif w == "far":
        pos = pos + rng.integers(-10 ** 6, 10 ** 6, pos.shape)
    elif w == "nan":
        pos[rng.integers(n), 1] = np.nan
    elif w == "inf":
        pos[rng.integers(n)] = [np.inf, -np.inf, 0]
    elif w == "huge":
        pos[rng.integers(n)] = [1e300, -1e300, 1e18]
    elif w == "tiny":
        box, pos = box * 1e-12, pos * 1e-12
    elif w == "collinear":
        pos = np.outer(rng.uniform(0, 1, n), box[0])
    elif w == "planar":
        pos = rng.uniform(0, 1, (n, 2)) @ box[:2]
    elif w == "onegroup":
        pos = rng.normal(scale=0.05 * L, size=(n, 3))
    elif w == "zerobox":
        box = pick(rng, [np.zeros((3, 3)), np.diag([L, L, 0.0]), np.array([[L, 0, 0], [L, 0, 0], [0, 0, L]]), np.diag([L, L, np.nan]), -np.diag([L, L, L]), np.diag([L, -L, L])])
    return box, pos, typ, sp


def safe(w, r, n):
    """Work that only takes very long is left out: memory safety is the subject."""
    return True


def work(case, m):
    rng = m.rng
    box, pos, typ, sp = configuration(case, rng)
    s = attempt(m, lambda: gen.make_system(box, pos, typ), "make")
    if s is None:
        m.nontrivial(case["weird"], "refused")
        return
    l = sp * 1.6
    for r in case["picks"] + [pick(rng, list(DERIVED))]:
        p = quant.params(rng, sp, l)
        if case["weird"] == "hugecut":
            p["rc"] = float(pick(rng, [1e9, -3.0, np.nan, 0.0, sp * 40]))
            p["nmax"] = int(pick(rng, [-1, 0, 1, 299, 300, 301, 100000]))
            p["h"] = max(p["h"], abs(p["rc"]) / 50)     # a finite amount of work
        elif case["weird"] == "tiny":
            p = quant.scaled(p, 1e-12)
        attempt(m, lambda: (quant.RECIPES.get(r) or DERIVED[r])(s, p), r)
        attempt(m, lambda: s.find_neighbors(method="cutoff", cutoff=p["rc"], cells=True), "cells")
        m.nontrivial(r, case["weird"], len(pos) < 200)


def call_all(m, s, rng, sp):
    """Every calculation on whatever state the system is in."""
    p = quant.params(rng, sp, sp * 1.6)
    calls = [lambda: s.calculate_q([2, 7, 12], averaged=True), lambda: s.get_qvals([4, 6], averaged=True), lambda: s.calculate_disorder(averaged=True), lambda: s.find_solids(),
             lambda: s.cluster_atoms(lambda a: True), lambda: s.cluster_atoms("solid"), lambda: s.calculate_chiparams(), lambda: s.calculate_angularcriteria(), lambda: s.calculate_vorovector(),
             lambda: s.calculate_cna(), lambda: s.calculate_cna(lattice_constant=sp), lambda: s.identify_diamond(), lambda: s.identify_diamond(find_neighbors=False), lambda: s.calculate_centrosymmetry(nmax=12),
             lambda: s.calculate_sro(), lambda: s.calculate_pmsro(), lambda: s.calculate_entropy(sp * 1.5, sigma=0.2 * sp, rstart=0.01 * sp, h=0.05 * sp, averaged=True),
             lambda: s.calculate_entropy(sp * 1.5, sigma=0.2 * sp, rstart=0.01 * sp, h=0.05 * sp, local=True, averaged=True, switching_function=True, ra=sp),
             lambda: s.set_atom_cutoff(1.1), lambda: s.calculate_rdf(histobins=10), lambda: s.calculate_solidneighbors(), lambda: s.find_largestcluster(), lambda: s.reset_neighbors(),
             lambda: s.get_concentration(), lambda: s.remap_atoms(assign=False, remove_images=s.natoms < 60), lambda: s.repeat((1, 0, 0), scale_box=False), lambda: s.find_diamond_neighbors(),
             lambda: s.calculate_q(6, averaged=True, only_averaged=True), lambda: s.calculate_q([4], condition=[1] * s.natoms, averaged=True)]
    for i in rng.permutation(len(calls))[:12]:
        attempt(m, calls[i], "call%d" % i)


def indices(case, m):
    """Atoms whose neighbor lists, heads and q values were set by hand, in every way that the setters accept."""
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2)
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=2.9)
    n = s.natoms
    for rep in range(3):
        for j in rng.integers(0, n, 4):
            a = s.get_atom(int(j))
            a.neighbors = pick(rng, [[], [n - 1] * 300, [int(j)] * 4, [0, 1, 2], [s.ntotal], [-1], [2 ** 31 - 1, -2 ** 31], list(range(min(n, 300))), [s.ntotal + 5] * 20])
            a.condition = int(pick(rng, [0, 1, -5, 2 ** 31 - 1]))
            a.cluster = int(pick(rng, [-1, 0, 2 ** 31 - 1]))
            a.structure = int(pick(rng, [0, 100, -100]))
            a.next_neighbors = pick(rng, [[], [[]], [[10 ** 7] * 9], [[1, 2, 3]]])
            a.neighbor_weights = pick(rng, [[], [0.0] * 300, [1e308] * 4, [np.nan]])
            a.face_vertices = pick(rng, [[], [5] * 300, [-1, 4]])
            a.vertex_numbers = pick(rng, [[], [10 ** 8], [-4, 3, 900]])
            a.vertex_vectors = pick(rng, [[], [1.0], [np.nan] * 30])
            a.head = int(pick(rng, [-1, 10 ** 8, n]))
            attempt(m, lambda: s.set_atom(a), "set_atom")
            m.count("hostile")
        call_all(m, s, rng, 2.0)
        m.nontrivial("indices", n < 200, rep)
        if rep % 2:
            attempt(m, lambda: s.find_neighbors(method="voronoi"), "voronoi")
        else:
            attempt(m, lambda: s.find_neighbors(method="cutoff", cutoff=2.9), "cutoff")
    for i in (-1, -2 ** 31, n, s.ntotal, 2 ** 31 - 1, 10 ** 12, 1.5, "a", None):
        m.count("hostile")
        attempt(m, lambda: s.get_atom(i), "get_atom")
        a = s.get_atom(0)
        attempt(m, lambda: setattr(a, "loc", i), "loc")
        attempt(m, lambda: s.set_atom(a), "set_atom")
        a = s.get_atom(0)
        attempt(m, lambda: setattr(a, "neighbors", [i]), "neighbors")
    at = s.atoms
    for bad in (at[:0], at[:1], at * 2, [None], None, at + [1]):
        m.count("hostile")
        attempt(m, lambda: s.update_atoms(bad), "update_atoms")
        attempt(m, lambda: s.add_atoms(bad), "add_atoms")
    call_all(m, s, rng, 2.0)


def arguments(case, m):
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2)
    s = gen.make_system(box, pos, typ)
    odd = [None, -1, 0, 1, 2, 3, 13, 300, 301, 10 ** 7, -0.5, 0.0, 0.5, 1e-300, 1e300, float("nan"), float("inf"), "x", [], [1], [0] * 400, True]
    v = lambda: pick(rng, odd)
    few = lambda: pick(rng, [None, -1, 0, 1, 2, 3, 13, 300, 301, -0.5, 0.5, 5.0, float("nan"), "x", [], [1]])     # sizes of work stay small
    calls = [lambda: s.find_neighbors(method="cutoff", cutoff=v()), lambda: s.find_neighbors(method="cutoff", cutoff=few(), cells=True), lambda: s.find_neighbors(method="cutoff", cutoff="sann", threshold=few()),
             lambda: s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=few(), padding=v(), nlimit=v()), lambda: s.find_neighbors(method="number", nmax=v(), threshold=few()),
             lambda: s.find_neighbors(method="number", nmax=v(), assign_neighbor=False), lambda: s.find_neighbors(method="cutoff", cutoff=3.0, filter=v()), lambda: s.find_neighbors(method="voronoi", voroexp=v()),
             lambda: s.find_neighbors(method=v()), lambda: s.calculate_q(v(), averaged=True), lambda: s.calculate_q([v(), v()]), lambda: s.calculate_q(6, condition=v()), lambda: s.get_qvals(v()), lambda: s.get_qvals([v()], averaged=True),
             lambda: s.find_solids(bonds=v(), threshold=v(), avgthreshold=v(), cluster=v(), q=v(), cutoff=v(), right=v()), lambda: s.cluster_atoms(v(), cutoff=v()), lambda: s.set_atom_cutoff(v()),
             lambda: s.calculate_cna(lattice_constant=v()), lambda: s.calculate_centrosymmetry(nmax=v()), lambda: s.calculate_disorder(q=v(), averaged=True), lambda: s.calculate_sro(reference_type=v(), shells=v()),
             lambda: s.calculate_pmsro(reference_type=v(), compare_type=v(), shells=v()), lambda: s.calculate_entropy(pick(rng, [None, -1, 0, 0.5, 3.0, 4, "x", float("nan")]), sigma=v(), rstart=pick(rng, [None, -1, 0, 0.01, 2.0, 5, "x", float("nan")]), h=pick(rng, [None, 0.05, 0.0, -1, "x", float("nan"), 1e9]), ra=v(), averaged=True, M=few(), N=few(), switching_function=True),
             lambda: s.calculate_vorovector(edge_cutoff=v(), area_cutoff=v(), edge_length=True), lambda: s.calculate_chiparams(angles=v()), lambda: s.calculate_rdf(histobins=few(), histomin=v(), histomax=v()),
             lambda: s.repeat((v(), 0, 0), scale_box=False) if rng.random() < 0 else s.repeat((pick(rng, [-1, 0, 1, "x", None]), 0, 0), scale_box=False), lambda: s.remap_atom(v()), lambda: s.remap_atom([v(), v(), v()]),
             lambda: s.get_distance(s.get_atom(0), v()), lambda: s.identify_diamond(find_neighbors=v()), lambda: s.get_custom(s.get_atom(0), [v()]), lambda: setattr(s, "box", v()), lambda: setattr(s, "box", [[v(), 0, 0], [0, 3.0, 0], [0, 0, 3.0]]),
             lambda: setattr(s, "atoms", v()), lambda: s.add_atoms(v()), lambda: s.remap_atoms(dtol=v(), assign=False, remove_images=case["n"] < 60), lambda: s.extract_cubic_box(repeat=pick(rng, [(0, 0, 0), (1, 0, 0), 3, None]))]
    s.find_neighbors(method="cutoff", cutoff=3.0)
    for k in list(range(-2, 17)) + [25, 26]:
        ks = [int(x) for x in rng.permutation([int(rng.integers(2, 13)), k])]
        m.count("plausible", 8)
        for fn in (lambda: s.calculate_q(k), lambda: s.calculate_q(ks, averaged=True), lambda: s.get_qvals(k), lambda: s.get_qvals(ks), lambda: s.get_qvals(ks, averaged=True),
                   lambda: s.find_solids(q=k, cluster=False), lambda: s.calculate_disorder(q=k, averaged=True), lambda: s.get_custom(s.get_atom(0), ["q%d" % k, "aq%d" % k])):
            attempt(m, fn, "q%d" % k)
    for i in list(rng.permutation(len(calls))) + list(rng.integers(0, len(calls), 30)):
        m.count("hostile")
        attempt(m, calls[i], "arg%d" % i)
        if rng.random() < 0.15:
            s = attempt(m, lambda: gen.make_system(box, pos, typ), "again") or s
            attempt(m, lambda: s.find_neighbors(method=pick(rng, ["cutoff", "voronoi"]), cutoff=3.0), "again")
        m.nontrivial("arg", int(i))


def atoms(case, m):
    from pyscal.catom import Atom
    from pyscal.core import System
    rng = m.rng
    a = Atom()
    odd = [None, -1, 2 ** 31, -2 ** 40, 1e400, float("nan"), "x", [], [1], [1.0, 2.0], [1.0] * 3, [1.0] * 11, [1.0] * 301, [1] * 400, [[1.0]], [[1.0, 2.0, 3.0]] * 301, [[]], {}, {"a": 1}, a, True, b"x", [None], [2 ** 40]]
    names = [x for x in dir(a) if not x.startswith("_")]
    for x in names:
        if callable(getattr(a, x)):
            for y in odd:
                m.count("hostile")
                attempt(m, lambda: getattr(a, x)(y), x)
                attempt(m, lambda: getattr(a, x)(y, pick(rng, odd)), x)
                attempt(m, lambda: getattr(a, x)(y, pick(rng, odd), pick(rng, odd)), x)
            continue
        for y in odd:
            m.count("hostile")
            attempt(m, lambda: setattr(a, x, y), x)
            attempt(m, lambda: getattr(a, x), x)
        m.nontrivial("atom", x)
    # plausible arguments, within and just beyond their range
    for x in [y for y in names if callable(getattr(a, y))]:
        for k in list(range(-3, 17)) + [24, 25, 26, 299, 300, 301]:
            other = [int(v) for v in rng.integers(2, 13, int(rng.integers(0, 4)))]
            ks = [int(v) for v in rng.permutation(other + [k])]
            vals = [float(v) for v in rng.uniform(0, 1, len(ks))]
            for args in ((k,), (k, 0.5), (ks,), (ks, vals), (ks, vals[:-1]), (ks, vals + [1.0]), (k, k), (vals,), (k, vals), (k, vals, vals)):
                for kw in ({}, {"averaged": True}):
                    m.count("plausible")
                    attempt(m, lambda: getattr(a, x)(*args, **kw), x)
    for args in ([], [[]], [[1.0]], [[1.0] * 4, 1, 1], [[1.0] * 3, 2 ** 40, 1], [None], ["abc"]):
        attempt(m, lambda: Atom(*args), "Atom")
    # atoms outlive systems and systems outlive atoms
    n = case["n"]
    s = System()
    s.box = np.eye(3) * 9
    s.atoms = gen.make_atoms(rng.uniform(0, 9, (n, 3)))
    s.find_neighbors(method="cutoff", cutoff=3)
    lst = s.atoms
    it = s.iter_atoms()
    first = next(it)
    s.atoms = gen.make_atoms(rng.uniform(0, 9, (2, 3)))
    attempt(m, lambda: [x.pos for x in it], "iterator over replaced atoms")
    del s
    m.check(all(len(x.pos) == 3 for x in lst) and len(first.pos) == 3, "outlive", "atoms remain usable without their system")
    d = lst[0].custom
    lst[0].custom = {"x": list(range(100))}
    del lst, first
    d["y"] = 1


def many(case, m):
    """Numbers of neighbors around the capacity of an atom."""
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=1.0, nt=2)
    s = gen.make_system(box, pos, typ)
    for target in rng.choice([200, 280, 295, 300, 305, 340, 900], 4, replace=False):
        rc = float((3 * target / (4 * np.pi)) ** (1 / 3.))
        for cells in (False, True):
            m.count("hostile")
            ok = attempt(m, lambda: s.find_neighbors(method="cutoff", cutoff=rc, cells=cells) or True, "cutoff")
            co = max(x.coordination for x in s.iter_atoms())
            m.check(co <= 300, "capacity", "more neighbors than fit", got=co)
            m.count("near_capacity", ok is True)
            if rng.random() < 0.5:
                attempt(m, lambda: s.calculate_q([4, 12], averaged=True), "q")
                attempt(m, lambda: s.find_solids(q=4, threshold=0.1, avgthreshold=0), "solids")
            m.nontrivial("capacity", int(target), cells, ok is True)
        attempt(m, lambda: s.find_neighbors(method="number", nmax=int(target), threshold=6), "number")
        attempt(m, lambda: s.find_neighbors(method="cutoff", cutoff="adaptive", nlimit=int(target), threshold=8, padding=1.3), "adaptive")
        attempt(m, lambda: s.calculate_centrosymmetry(nmax=int(target) // 2 * 2), "centrosymmetry")
    attempt(m, lambda: s.calculate_cna(), "cna")


def files(case, m):
    """Damaged files."""
    import pyscal.core as pc
    import pyscal.trajectory as pt
    import pyscal.traj_process as ptp
    rng = m.rng
    d = m.scratch()
    os.chdir(d)
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2)
    s = gen.make_system(box, pos, typ)
    s.to_file("a.dump")
    s.to_file("POSCAR", format="poscar", species=["Au", "Cu"])
    text = {"a.dump": open("a.dump").read(), "POSCAR": open("POSCAR").read()}
    for name, fmt in (("a.dump", "lammps-dump"), ("POSCAR", "poscar")):
        t = text[name]
        for k in range(25):
            m.count("hostile")
            b = t
            for _ in range(int(rng.integers(1, 4))):
                w = int(rng.integers(6))
                i = int(rng.integers(max(1, len(b))))
                lines = b.split("\n")
                j = int(rng.integers(len(lines)))
                if w == 0:
                    b = b[:i]
                elif w == 1:
                    b = b[:i] + chr(int(rng.integers(32, 127))) + b[i + 1:]
                elif w == 2:
                    b = "\n".join(lines[:j] + lines[j + 1:])
                elif w == 3:
                    b = "\n".join(lines[:j] + [lines[j]] + lines[j:])
                elif w == 4:
                    b = "\n".join(lines[:j] + [pick(rng, ["nan nan nan", "", "-1", "1e999 0 0", "0 0 0", "9" * 30, "ITEM: ATOMS id", "x y z"])] + lines[j + 1:])
                else:
                    b = b[:i] + "\0" + b[i:]
            with open("bad", "w") as fh:
                fh.write(b)
            q = pc.System()
            attempt(m, lambda: q.read_inputfile("bad", format=fmt), "read")
            if q.natoms:
                attempt(m, lambda: q.find_neighbors(method="cutoff", cutoff=3.0), "neighbors")
                attempt(m, lambda: q.find_neighbors(method="voronoi"), "voronoi")
            if fmt == "lammps-dump" and k % 5 == 0:
                attempt(m, lambda: [x.to_system() for x in pt.Trajectory("bad")], "trajectory")
                with open("bad.gz", "wb") as fh:
                    z = gzip.compress(b.encode())
                    fh.write(z[:int(rng.integers(len(z)))])
                attempt(m, lambda: pc.System().read_inputfile("bad.gz"), "gz")
    m.nontrivial("files", case["cell"])


def big(case, m):
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], "images", spacing=1.5, nt=2)
    s = gen.make_system(box, pos, typ)
    for kw in (dict(method="cutoff", cutoff=2.3), dict(method="cutoff", cutoff="sann", threshold=2.5), dict(method="cutoff", cutoff=0, threshold=2.5), dict(method="number", nmax=12), dict(method="voronoi")):
        attempt(m, lambda: s.find_neighbors(**kw), "big")
        m.nontrivial("big", case["n"], str(kw))
    attempt(m, lambda: s.calculate_q([6], averaged=True), "q")
    attempt(m, lambda: s.find_solids(q=6, threshold=0.1, avgthreshold=0.0, bonds=1), "solids")


def chain(case, m):
    """One cluster as long as the system: recursion depth."""
    n = case["n"]
    box = np.diag([n * 1.0, 12.0, 12.0])
    pos = np.zeros((n, 3))
    pos[:, 0] = np.arange(n)
    pos[:, 1] = pos[:, 2] = 6
    s = gen.make_system(box, pos)
    s.find_neighbors(method="cutoff", cutoff=1.2)
    got = attempt(m, lambda: s.cluster_atoms(lambda a: True), "cluster")
    m.check(got == n, "chain", "size of a cluster that is a chain", got=got, want=n)
    m.nontrivial("chain", n)


def run_case(case, m):
    cwd = os.getcwd()
    try:
        {"work": work, "indices": indices, "arguments": arguments, "atoms": atoms, "many": many, "files": files, "big": big, "chain": chain}[case["kind"]](case, m)
    finally:
        os.chdir(cwd)
