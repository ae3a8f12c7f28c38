"""C12: centrosymmetry parameter by greedy edge selection over the nmax nearest neighbors."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (structure, cell, size class, nmax, preceding search) in which the parameter of every decidable atom was recomputed"
ASSUMPTIONS = ["atoms whose nmax-th and next neighbors are tied are not judged (except in perfect lattices, where the value is zero)"]
NEED = {"atoms": 4000, "perfect": 3, "errors": 4}


def cases(tier, seed):
    add, out = caser("C12", seed)
    rng = np.random.default_rng([seed, 12])
    big = tier == "thorough"
    for rep in range(10 if big else 2):
        for ck in gen.CELLS:
            add("csm", n=int(rng.choice([3, 16, 60, 150, 199, 200, 400])), cell=ck, place=pick(rng, gen.PLACES), struct=pick(rng, [None, "fcc", "bcc", "sc", "diamond"]),
                before=pick(rng, [None, "cutoff", "voronoi", "type", "type_r", "number", "sann"]))
        for st, nm in (("fcc", 12), ("bcc", 8), ("bcc", 14), ("sc", 6), ("fcc", 18)):
            add("perfect", struct=st, nmax=nm, n=pick(rng, [30, 300]), cell="cubic", place=pick(rng, ["inside", "images", "far"]))
        add("bad", n=30, cell="cubic", place="inside", struct=None)
    return out


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "perfect":
        box, pos, typ = gen.config(case["seed"], case["n"], "cubic", case["place"], spacing=2.0, struct=case["struct"], noise=0)
        R = gen.random_rotation(rng)
        s = gen.make_system(box @ R, pos @ R)
        v = np.array(s.calculate_centrosymmetry(nmax=case["nmax"]))
        m.close(v, np.zeros(len(pos)), "perfect", "centrosymmetry of perfect %s, nmax %d" % (case["struct"], case["nmax"]), atol=1e-8)
        m.count("perfect")
        m.nontrivial("perfect", case["struct"], case["nmax"], len(pos))
        return
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(0.8, 4)), struct=case["struct"], noise=0.06, dmin=0.4, nt=2, shape="any")
    n = len(pos)
    s = gen.make_system(box, pos, typ)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    h = gen.heights(box).min()
    lim = h * (2.4 if n <= 4 else 1.45 if n < 200 else 0.49)
    if case["kind"] == "bad":
        for x in (3, 13, 1, 0, -2, -12):
            m.raises(lambda: s.calculate_centrosymmetry(nmax=x), ValueError, "bad-nmax", "nmax=%d" % x)
            m.count("errors")
        m.nontrivial("bad")
        return
    b = case["before"]
    try:
        if b in ("cutoff", "type", "type_r"):
            s.find_neighbors(method="cutoff", cutoff=min(1.5 * sp, lim), filter=b if b != "cutoff" else None)
        elif b == "voronoi":
            s.find_neighbors(method="voronoi")
        elif b == "number":
            s.find_neighbors(method="number", nmax=5, filter=pick(rng, [None, "type"]), threshold=3)
        elif b == "sann":
            s.find_neighbors(method="cutoff", cutoff="sann", threshold=2)
    except RuntimeError:
        m.count("refused_before")
    for k in range(3):
        nmax = int(rng.choice([2, 4, 6, 8, 12, 12, 14, 16]))
        gv = bool(rng.random() < 0.8)
        if gv:
            v = s.calculate_centrosymmetry(nmax=nmax) if nmax != 12 else s.calculate_centrosymmetry()
        else:
            m.check(s.calculate_centrosymmetry(nmax=nmax, get_vals=False) is None, "get_vals", "get_vals=False returned something")
            v = [a.centrosymmetry for a in s.atoms]
        v = np.array(v)
        m.check(len(v) == n, "length", "%d values for %d atoms" % (len(v), n))
        m.check(np.array_equal(v, [a.centrosymmetry for a in s.atoms]), "order", "values and atoms differ")
        c = ref.Crystal(box, pos, 2.6 * sp)
        for i in range(n):
            p, w, d = c.nearest(i, nmax + 1)
            if len(d) < nmax + 1 or d[nmax] > min(lim, 2.55 * sp) or d[nmax] - d[nmax - 1] < 1e-7:
                continue
            w = w[:nmax]
            t = np.sort([((w[a] + w[bb]) ** 2).sum() for a in range(nmax) for bb in range(a + 1, nmax)])
            m.count("atoms")
            if not m.close(v[i], t[:nmax // 2].sum(), "csm", "centrosymmetry of atom %d" % i, rtol=1e-7, atol=1e-8, nmax=nmax, before=b):
                return
        m.nontrivial(case["struct"], case["cell"], n < 200, nmax, b)
