"""C10: disorder parameter and its average."""
import numpy as np

from props.c06 import QRef, search
from props.c08 import correlations
from vlib import gen
from vlib.sysu import caser, pick

RULE = "one signature per (neighbor method, cell, structure, l) in which the disorder of all atoms was recomputed"
ASSUMPTIONS = ["atoms with at least one neighbor"]
NEED = {"atoms": 3000, "averages": 1000, "ordered": 3}


def cases(tier, seed):
    add, out = caser("C10", seed)
    rng = np.random.default_rng([seed, 10])
    big = tier == "thorough"
    for rep in range(10 if big else 2):
        for ck in gen.CELLS:
            add("disorder", n=int(rng.choice([8, 30, 90, 199, 200, 300])), cell=ck, place=pick(rng, gen.PLACES), method=pick(rng, ["cutoff", "cutoff", "voronoi", "adaptive", "number", "type"]),
                struct=pick(rng, [None, "fcc", "bcc", "sc"]), noise=float(pick(rng, [0.02, 0.08, 0.14])))
        for st in ("fcc", "bcc", "sc"):
            add("ordered", n=int(rng.choice([60, 260])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), method="cutoff", struct=st, noise=0.0)
    return out


def run_case(case, m):
    rng = m.rng
    nt = 2 if case["method"] == "type" else 1
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), nt=nt, struct=case["struct"], noise=case["noise"], dmin=0.45,
                               shape="any" if case["kind"] != "ordered" else None)
    n = len(pos)
    s = gen.make_system(box, pos, typ)
    try:
        if case["kind"] == "ordered":
            h = gen.heights(box).min()
            sp = np.cbrt(abs(np.linalg.det(box)) / n)
            s.find_neighbors(method="cutoff", cutoff=min(1.5137 * sp, h * (1.4371 if n < 200 else 0.4817)))
        else:
            search(s, case["method"], box, n, rng)
    except RuntimeError:
        m.count("refused")
        m.nontrivial("refused", case["method"])
        return
    R = QRef(s)
    for k in range(3):
        l = int(pick(rng, [6, 4, int(rng.integers(2, 13))]))
        if case["kind"] == "ordered":
            l = int(pick(rng, [6, 4, 8]))
        s.calculate_q(l)
        av = bool(rng.random() < 0.6)
        if l == 6 and rng.random() < 0.5:
            s.calculate_disorder(averaged=av)
        else:
            s.calculate_disorder(averaged=av, q=l)
        # neighbors of neighbors are needed for the average: take what the library reports for ghosts from their heads
        c = R.all(l)
        nrm = np.sqrt((np.abs(c) ** 2).sum(axis=1))
        want = np.array([2 - 2 * x.mean() if len(x) else np.nan for x in correlations(R, l)])
        ok = ~np.isnan(want) & (nrm[:n] > 1e-6)
        atoms = s.atoms
        got = np.array([a.disorder for a in atoms])
        m.count("atoms", ok.sum())
        if not m.close(got[ok], want[ok], "disorder", "disorder differs from its definition (q=%d)" % l, rtol=1e-6, atol=1e-6, method=case["method"], n=n):
            return
        if case["kind"] == "ordered":
            m.count("ordered")
            m.check(np.abs(got).max() < 1e-5, "ordered", "disorder of a perfect lattice is not zero", got=got[:3], l=l)
        if av:
            alld = np.array([a.disorder for a in s.get_all_atoms()])
            aw, sel = [], []
            for i in range(n):
                p = R.nb[i][0]
                aw.append((alld[i] + alld[p].sum()) / (1 + len(p)))
                sel.append(ok[i] and all(ok[R.heads[j]] for j in p))
                # a ghost has the disorder of the atom it is an image of
                if case["method"] in ("cutoff", "voronoi") and sel[-1]:
                    hd = got[[R.heads[j] for j in p]]
                    if not m.close(alld[p], hd, "ghost-disorder", "image and atom have different disorder", rtol=1e-6, atol=1e-6):
                        return
            sel = np.array(sel, bool)
            m.count("averages", sel.sum())
            if not m.close(np.array([a.avg_disorder for a in atoms])[sel], np.array(aw)[sel], "avg_disorder", "averaged disorder is not the mean over the atom and its neighbors", rtol=1e-6, atol=1e-6, l=l):
                return
        m.nontrivial(case["kind"], case["method"], case["cell"], case["struct"], l)
