"""C05: a small cell (replicated internally) and an explicit supercell of it give the same per-atom values."""
import itertools

import numpy as np

from vlib import gen, quant
from vlib.sysu import caser, pick

RULE = "one signature per (recipe, cell, number of atoms of the small cell, supercell) in which every atom of the supercell agreed with its parent"
ASSUMPTIONS = ["generic (noisy) configurations; decision distances below the validity limit of both systems"]
NEED = {"pairs": 40, "values_compared": 20000}


def cases(tier, seed):
    add, out = caser("C05", seed)
    rng = np.random.default_rng([seed, 5])
    big = tier == "thorough"
    for rep in range(6 if big else 1):
        for rc in quant.PER_CELL:
            for k in range(3):
                add("super", recipe=rc, n=int(rng.choice([12, 16, 24, 32, 54, 80, 108, 150, 199])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES),
                    struct=pick(rng, quant.LATTICE.get(rc, [None, None, "fcc", "bcc"])), target=pick(rng, ["ghost", "explicit", "explicit"]))
        for rc in ("cutoff", "steinhardt", "voronoi", "cutoff_type", "disorder", "entropy"):
            add("super", recipe=rc, n=int(rng.choice([1, 2, 3, 4, 5, 7])), cell=pick(rng, gen.CELLS), place="inside", struct=None, target="explicit")
        for rc in ("cutoff", "adaptive", "voronoi"):
            add("super", recipe=rc, n=210, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), struct=None, target="explicit")
    return out


def supercell(rng, box, pos, typ, target, need):
    """Repetitions such that the supercell is wide enough; atoms in shuffled order. Returns box, pos, typ, parent."""
    n = len(pos)
    h = gen.heights(box)
    if target == "ghost":
        reps = np.array([1, 1, 1])
        reps[int(rng.integers(3))] = 2
        if n * 2 >= 200:
            target = "explicit"
    if target == "explicit":
        reps = np.maximum(1, np.ceil(2.06 * need / h)).astype(int)
        while n * reps.prod() < 200:
            reps[np.argmin(reps * h)] += 1
    P, T, par = [], [], []
    for s in itertools.product(*[range(k) for k in reps]):
        P.append(pos + np.array(s) @ box)
        T.append(typ)
        par.append(np.arange(n))
    P, T, par = np.concatenate(P), np.concatenate(T), np.concatenate(par)
    o = rng.permutation(len(P))
    return box * reps[:, None], P[o], T[o], par[o], reps


def run_case(case, m):
    rng = m.rng
    rcp = case["recipe"]
    nt = 2 if rcp in quant.NEED_TYPES else 1
    sp = float(rng.uniform(1, 4))
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp, nt=nt, struct=case["struct"], noise=0.05, dmin=0.5, shape="any")
    n = len(pos)
    h = gen.heights(box).min()
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    lim = h * (2.4 if n <= 4 else 1.4 if n < 200 else 0.485)
    need = min(lim, 2.3 * sp)
    p = quant.params(rng, sp, lim)
    if n == 1:
        p["l"] += p["l"] % 2      # odd q_l vanish, and cannot be normalised, at a centre of inversion
    box2, pos2, typ2, par, reps = supercell(rng, box, pos, typ, case["target"], need)
    if len(pos2) > 9000:
        m.nontrivial("skipped", n)
        return
    f = quant.RECIPES[rcp]
    try:
        a = f(gen.make_system(box, pos, typ), p)
    except RuntimeError as e:
        a = str(e)
    try:
        b = f(gen.make_system(box2, pos2, typ2), p)
    except RuntimeError as e:
        b = str(e)
    if isinstance(a, str) or isinstance(b, str):
        m.count("refused")
        m.check(isinstance(a, str) == isinstance(b, str), "refused:%s" % rcp, "%s is refused only for one of the two" % rcp, a=str(a)[:200], b=str(b)[:200])
        m.nontrivial("refused", rcp)
        return
    m.count("pairs")
    # rows of b in the order of the atoms of the supercell; their parents' rows of a
    a2 = {k: (v[0][par], v[1]) for k, v in a.items()}
    quant.compare(m, a2, b, "super:%s" % rcp, "%s differs between a cell and its supercell" % rcp, rtol=2e-6, atol=2e-6,
                  n=n, reps=reps.tolist(), cell=case["cell"], place=case["place"])
    m.nontrivial(rcp, case["cell"], n, reps.tolist())
