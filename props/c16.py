"""C16: the radial distribution function against an independent list of pair distances."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (configuration kind, cell, size class, binning) whose histogram was recomputed"
ASSUMPTIONS = ["of small systems, which are replicated, the pairs of the replicated cell are counted, as in the reference implementation; per-volume normalisation makes the values those of the crystal",
               "distances within 1e-8 of a bin edge may be counted in either bin"]
NEED = {"bins": 500, "pairs": 100000, "unity": 3}


def cases(tier, seed):
    add, out = caser("C16", seed)
    rng = np.random.default_rng([seed, 16])
    for rep in range(5 if tier == "thorough" else 1):
        for cell in gen.CELLS:
            for n in (int(rng.choice([1, 2, 5])), int(rng.choice([30, 120])), int(rng.choice([200, 260, 420]))):
                add("hist", n=n, cell=cell, place=pick(rng, gen.PLACES))
        for cell in ("cubic", "tri+", "rotated"):
            add("ideal", n=1200, cell=cell, place="inside")
        add("history", n=40, cell=pick(rng, gen.CELLS), place="inside")
        for st in ("sc", "bcc", "fcc", "diamond"):
            add("lattice", struct=st, k=int(rng.integers(1, 7)))
    return out


def pairs(box, pos):
    """All minimum-image pair distances of the atoms."""
    n = len(pos)
    i, j = np.triu_indices(n, 1)
    out = []
    for k in range(0, len(i), 20000):
        out.append(np.linalg.norm(ref.mic(box, pos[j[k:k + 20000]] - pos[i[k:k + 20000]]), axis=1))
    return np.concatenate(out) if out else np.zeros(0)


def judge(m, s, box, pos, lo, hi, bins, key=""):
    """Counts recovered from the function must be those of the pair distances of all images within the range."""
    n = len(pos)
    g, r = s.calculate_rdf(histobins=bins, histomin=lo, histomax=hi)
    g, r = np.array(g, float), np.array(r, float)
    edges = np.linspace(lo, hi, bins + 1)
    m.check(len(g) == bins and len(r) == bins, "shape" + key, "number of bins", got=len(g), want=bins)
    m.close(r, edges[:-1], "r" + key, "positions of the bins", rtol=1e-9, atol=1e-12)
    vol = abs(np.linalg.det(box))
    shell = 4 / 3.0 * np.pi * (edges[1:] ** 3 - edges[:-1] ** 3)
    # the crystal: the mean number of images around an atom
    c = ref.Crystal(box, pos, hi * 1.02)
    d = np.concatenate([c.neighbors(i, hi * 1.01)[2] for i in range(n)])
    m.count("pairs", len(d))
    N = s.ntotal
    # of N atoms in the (replicated) cell there are N/2 pairs per neighbor; the density of pairs is N(N-1)/2 per volume
    scale = (N / 2.0 / n) / shell / (N * (N - 1) / 2.0 / (vol * N / n))
    eps = 1e-8 * max(1.0, hi)
    near = (np.abs(d[:, None] - edges[None]) < eps).any(axis=1) if len(d) * len(edges) < 5e7 else np.zeros(len(d), bool)
    want = np.histogram(d[~near], bins=edges)[0] * scale
    upper = want.copy()
    for x in d[near]:
        k = int(np.argmin(np.abs(edges - x)))
        for b in (k - 1, k):
            if 0 <= b < bins:
                upper[b] += scale[b]
    tol = 1e-9 + 1e-9 * upper
    bad = np.nonzero((g < want - tol) | (g > upper + tol))[0]
    m.count("bins", bins)
    m.count("bins_exact", int((want == upper).sum()))
    m.check(len(bad) == 0, "rdf" + key, "value of the radial distribution function", bad=len(bad), first=[int(bad[0]), g[bad[0]], want[bad[0]], upper[bad[0]]] if len(bad) else None,
            n=n, lo=lo, hi=hi, bins=bins)
    if near.any():
        m.close((g / scale).sum(), np.histogram(d, bins=edges)[0].sum(), "conserved" + key, "number of pairs in the range", rtol=0, atol=near.sum() + 1e-6)
    return g


def lim(box, n):
    h = gen.heights(box).min()
    return 2.4 * h if n <= 4 else (1.45 * h if n < 200 else 0.49 * h)


def run_case(case, m):
    rng = m.rng
    k = case["kind"]
    if k == "lattice":
        a = float(rng.uniform(2, 5))
        f = gen.lattice(case["struct"], [case["k"]] * 3)
        box = np.eye(3) * a * case["k"]
        pos = f @ box + rng.uniform(-3, 3, 3)
    else:
        sp = float(rng.uniform(1, 4))
        if k == "ideal":
            L = sp * np.cbrt(case["n"])
            box = gen.cell(rng, case["cell"], L)
            pos = gen.place(rng, rng.random((case["n"], 3)), box, case["place"])
        else:
            box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp, shape="any")
    n = len(pos)
    s = gen.make_system(box, pos)
    top = lim(box, n) * 0.99
    for rep in range(3):
        hi = top * float(rng.uniform(0.5, 1))
        lo = float(rng.choice([0.0, hi * rng.uniform(0, 0.6)]))
        bins = int(rng.choice([1, 2, 7, 20, 100, 333]))
        g = judge(m, s, box, pos, lo, hi, bins)
        m.nontrivial(k, case.get("cell", case.get("struct")), n < 200, bins, lo > 0)
        if k == "history":
            w = int(rng.integers(4))
            if w == 0:
                s.find_neighbors(method="cutoff", cutoff=hi * 0.7)
            elif w == 1:
                s.find_neighbors(method="voronoi")
            elif w == 2:
                s.find_neighbors(method="number", nmax=6)
            else:
                s.calculate_cna()
    if k == "ideal":
        g = judge(m, s, box, pos, 0.3 * top, top, 4)
        m.check(np.abs(g - 1).max() < 0.15, "unity", "an ideal gas does not give one", got=g.tolist())
        m.count("unity")
    if n >= 200 and k == "hist":
        # without a range, every pair is counted once up to the largest minimum-image distance
        g, r = s.calculate_rdf(histobins=50)
        d = pairs(box, pos) if n <= 300 else None
        g, r = np.array(g), np.array(r)
        w = r[1] - r[0]
        cnt = g * 4 / 3 * np.pi * ((r + w) ** 3 - r ** 3) * (n * (n - 1) / 2) / abs(np.linalg.det(box))
        m.close(cnt.sum(), n * (n - 1) / 2, "all-pairs", "number of pairs counted without a range", rtol=1e-9, n=n)
        if case["cell"] in gen.ORTH and d is not None:
            m.close(r[-1] + w, d.max(), "histomax", "largest distance", rtol=1e-9)
        m.count("default_range")
