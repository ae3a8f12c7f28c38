"""C14: angular criterion and chi parameters from the recorded neighbor vectors."""
import itertools

import numpy as np

from props.c06 import search
from vlib import gen, ref
from vlib.sysu import caser, env, pick

RULE = "one signature per (quantity, neighbor method, structure, cell, size class) in which every atom was recomputed"
ASSUMPTIONS = ["pairs within 1e-9 of a bin edge may be counted in either bin", "atoms whose fourth and fifth neighbors are tied are not judged"]
NEED = {"angular": 2000, "chi": 2000, "pairs": 20000, "perfect": 3, "crowded": 300}
BINS = np.array([-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0])


def cases(tier, seed):
    add, out = caser("C14", seed)
    rng = np.random.default_rng([seed, 14])
    big = tier == "thorough"
    for rep in range(8 if big else 2):
        for ck in gen.CELLS:
            add("gen", n=int(rng.choice([5, 12, 60, 150, 199, 200, 260])), cell=ck, place=pick(rng, gen.PLACES), struct=pick(rng, [None, "diamond", "bcc", "fcc"]),
                method=pick(rng, ["cutoff", "cutoff", "adaptive", "number", "voronoi", "sann"]))
        for k in range(4):
            add("gen", n=int(rng.choice([150, 199, 230])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), struct=pick(rng, [None, "bcc"]), method="crowded")
        for st in gen.BASIS:
            add("perfect", struct=st, n=pick(rng, [60, 300]))
    return out


def chi_check(m, s, tag="", perfect=False):
    s.calculate_chiparams(angles=True)
    for i, a in enumerate(s.atoms):
        idx, v, d = env(a)
        k = len(d)
        got = np.array(a.chiparams)
        m.count("chi")
        if not m.check(len(got) == 9, "chi-length" + tag, "chi parameters have %d entries" % len(got)):
            return
        if k < 2:
            m.check(got.sum() == 0, "chi-few" + tag, "chi parameters of an atom with %d neighbors" % k, got=got)
            continue
        u = v / np.linalg.norm(v, axis=1)[:, None]
        c = (u @ u.T)[np.triu_indices(k, 1)]
        m.count("pairs", len(c))
        cos = np.array(a.custom["cosines"], float)
        if not m.check(len(cos) == len(c) and np.allclose(np.sort(cos), np.sort(c), atol=1e-9), "cosines" + tag, "cosines are not those of all neighbor pairs", got=len(cos), want=len(c)):
            return
        cc = np.clip(c, -1, 1)
        want = np.histogram(cc, bins=BINS)[0]
        if np.array_equal(got, want):
            continue
        # pairs on an edge may go either way; lost opposite pairs are a recorded finding
        near = [(np.abs(cc - e) < 1e-9) for e in BINS]
        lo = np.array([((cc > BINS[b] + 1e-9) & (cc < BINS[b + 1] - 1e-9)).sum() for b in range(9)])
        hi = np.array([((cc > BINS[b] - 1e-9) & (cc < BINS[b + 1] + 1e-9)).sum() for b in range(9)])
        opposite = int(near[0].sum())
        if np.all(got >= lo) and np.all(got <= hi):
            if got.sum() == want.sum():
                continue
            if want.sum() - got.sum() <= opposite + int(near[9].sum()) and np.array_equal(got[1:], want[1:]):
                m.fail("chiparams-antiparallel-rounding", "opposite neighbors are lost from the first bin", atom=i, got=got, want=want, opposite=opposite)
                continue
        m.fail("chi" + tag, "chi parameters are not the histogram of the cosines", atom=i, got=got, want=want)
        return


def angular_check(m, s, box, n, tag=""):
    s.calculate_angularcriteria()
    for i, a in enumerate(s.atoms):
        idx, v, d = env(a)
        o = np.argsort(d)
        if len(d) < 4 or (len(d) > 4 and d[o[4]] - d[o[3]] < 1e-8):
            continue
        u = v[o[:4]] / d[o[:4]][:, None]
        want = sum((u[p] @ u[q] + 1 / 3.) ** 2 for p, q in itertools.combinations(range(4), 2))
        m.count("angular")
        if not m.close(a.angular, want, "angular" + tag, "angular criterion of atom %d" % i, rtol=1e-8, atol=1e-9, n=n):
            return


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "perfect":
        box, pos, typ = gen.config(case["seed"], case["n"], "cubic", "inside", spacing=2.5, struct=case["struct"], noise=0)
        s = gen.make_system(box, pos)
        s.find_neighbors(method="number", nmax=4, threshold=3)
        s.calculate_angularcriteria()
        v = np.array([a.angular for a in s.atoms])
        if case["struct"] == "diamond":
            m.close(v, np.zeros(len(v)), "diamond", "angular criterion of perfect diamond", atol=1e-10)
        h = gen.heights(box).min()
        s.find_neighbors(method="cutoff", cutoff=min(1.35 * 2.5, h * (1.4 if len(pos) < 200 else 0.49)))
        chi_check(m, s, "-perfect", True)
        m.count("perfect")
        m.nontrivial("perfect", case["struct"], len(pos))
        return
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), struct=case["struct"], noise=0.05, dmin=0.4, shape="any")
    n = len(pos)
    s = gen.make_system(box, pos)
    try:
        if case["method"] == "crowded":
            # many neighbors, recorded in no particular order
            s.find_neighbors(method="cutoff", cutoff=min(float(rng.uniform(2.0, 3.6)) * np.cbrt(abs(np.linalg.det(box)) / n), gen.heights(box).min() * (1.4 if n < 200 else 0.49)))
            m.count("crowded", sum(len(a.neighbors) > 40 for a in s.atoms))
        else:
            search(s, case["method"], box, n, rng)
    except RuntimeError:
        m.nontrivial("refused")
        return
    if rng.random() < 0.5:
        s.calculate_chiparams()
        x = [list(a.chiparams) for a in s.atoms]
        m.check(not any("cosines" in a.custom for a in s.atoms), "cosines-default", "cosines are kept although they were not asked for")
        chi_check(m, s)
        m.check(x == [list(a.chiparams) for a in s.atoms], "chi-default", "chi parameters depend on whether the cosines are kept")
    else:
        chi_check(m, s)
    if max(len(a.neighbors) for a in s.atoms) >= 4:
        h = gen.heights(box).min() * (1.45 if n < 200 else 0.49)
        far = max([max(a.neighbor_distance) for a in s.atoms if len(a.neighbors)])
        if far < h:
            angular_check(m, s, box, n)
    m.nontrivial(case["method"], case["struct"], case["cell"], n < 200)
