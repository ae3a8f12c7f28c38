"""C07: invariance under rotation, translation, renumbering, periodic images, choice of cell vectors, reflection, scale."""
import itertools

import numpy as np

from vlib import gen, quant
from vlib.sysu import caser, pick

RULE = "one signature per (transformation, recipe, cell, size class) in which all per-atom values of both executions were compared"
ASSUMPTIONS = ["generic (noisy) configurations, in which no value lies within rounding of a threshold"]
NEED = {"pairs": 60, "values_compared": 20000}
TRANS = ["rotate", "translate", "permute", "images", "cell", "mirror", "scale"]


def cases(tier, seed):
    add, out = caser("C07", seed)
    rng = np.random.default_rng([seed, 7])
    big = tier == "thorough"
    for rep in range(6 if big else 1):
        for rc in quant.RECIPES:
            for tr in TRANS:
                big_n = rng.random() < 0.5
                add("inv", recipe=rc, trans=tr, n=int(rng.choice([260, 320, 400]) if big_n else rng.choice([14, 30, 60, 110])),
                    cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES),
                    struct=pick(rng, quant.LATTICE.get(rc, [None, None, None, "fcc", "bcc"])))
        for rc in ("cutoff", "steinhardt", "adaptive", "number"):
            add("inv", recipe=rc, trans=pick(rng, TRANS), n=2500 if rc in ("cutoff", "steinhardt") else 4200, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), struct=None)
    return out


def unimodular(rng, box):
    """Other lattice vectors of the same lattice that keep the cell reasonably wide."""
    h0 = gen.heights(box).min()
    best = None
    for t in range(60):
        U = np.eye(3, dtype=int)
        for k in range(int(rng.integers(1, 3))):
            i, j = rng.choice(3, 2, replace=False)
            E = np.eye(3, dtype=int)
            E[i, j] = rng.choice([-1, 1])
            U = E @ U
        if rng.random() < 0.4:
            U = U[rng.permutation(3)]
        if rng.random() < 0.3:
            U = U * rng.choice([-1, 1], size=(3, 1))
        b = U @ box
        h = gen.heights(b).min()
        if np.array_equal(np.abs(U), np.eye(3)):
            continue
        if h > 0.8 * h0:
            return b
        if best is None or h > gen.heights(best).min():
            best = b
    return best


def run_case(case, m):
    rng = m.rng
    rcp = case["recipe"]
    nt = 2 if rcp in quant.NEED_TYPES else 1
    sp = float(rng.uniform(1, 4))
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp, nt=nt, struct=case["struct"], noise=0.05, dmin=0.5, shape="any")
    n = len(pos)
    tr = case["trans"]
    box2, pos2, typ2, perm, lam = box, pos, typ, None, 1.0
    if tr == "rotate":
        R = gen.random_rotation(rng)
        if rng.random() < 0.3:      # quarter turns: axes are exchanged exactly
            R = np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], size=(3, 1))
            R = R * np.linalg.det(R)
        box2, pos2 = box @ R.T, pos @ R.T
    elif tr == "translate":
        pos2 = pos + rng.uniform(-4, 4, 3) * np.abs(box).max()
    elif tr == "permute":
        order = rng.permutation(n)          # new atom k is old atom order[k]
        pos2, typ2 = pos[order], typ[order]
        perm = np.argsort(order)
    elif tr == "images":
        pos2 = pos + rng.integers(-3, 4, (n, 3)) @ box
    elif tr == "cell":
        box2 = unimodular(rng, box)
    elif tr == "mirror":
        M = np.diag([1, 1, 1]).astype(float)
        k = int(rng.integers(3))
        M[k, k] = -1
        box2, pos2 = box @ M, pos @ M
    elif tr == "scale":
        lam = float(rng.choice([0.01, 0.37, 3.0, 250.0]))
        box2, pos2 = box * lam, pos * lam
    h = min(gen.heights(box).min(), gen.heights(box2 / lam).min())
    lim = h * (1.4 if n < 200 else 0.485)
    if rcp == "rdf":
        lim = h * (0.485 if n >= 200 else 1.4)
    p = quant.params(rng, np.cbrt(abs(np.linalg.det(box)) / n), lim)
    f = quant.RECIPES[rcp]
    try:
        a = f(gen.make_system(box, pos, typ), p)
    except RuntimeError as e:
        a = str(e)
    try:
        b = f(gen.make_system(box2, pos2, typ2), quant.scaled(p, lam))
    except RuntimeError as e:
        b = str(e)
    if isinstance(a, str) or isinstance(b, str):
        m.count("refused")
        m.check(isinstance(a, str) == isinstance(b, str), "%s:refused" % tr, "%s is refused only for one of the two" % rcp, a=str(a)[:200], b=str(b)[:200])
        m.nontrivial("refused", tr, rcp)
        return
    m.count("pairs")
    ok = quant.compare(m, a, b, "%s:%s" % (tr, rcp), "%s changes when the input is transformed (%s)" % (rcp, tr), perm=perm, lam=lam, rtol=2e-6, atol=2e-6,
                       n=n, cell=case["cell"], place=case["place"])
    m.nontrivial(tr, rcp, case["cell"], n < 200)
