"""C02: distances, displacement vectors and remapping are those of the periodic cell."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import box_tag, caser, pick

RULE = "one signature per (cell, placement, size class) with at least 50 atom pairs compared"
ASSUMPTIONS = ["the shortest image is demanded when it is shorter than half the smallest perpendicular width of a "
               "triclinic cell (always for orthorhombic ones); longer ones must still be differences of images"]
NEED = {"pairs": 5000, "long_pairs": 100}


def cases(tier, seed):
    add, out = caser("C02", seed)
    rng = np.random.default_rng([seed, 2])
    for rep in range(12 if tier == "thorough" else 2):
        for ck in gen.CELLS + ["cancel"]:
            for pl in gen.PLACES:
                add("pairs", n=int(rng.choice([3, 20, 60, 210])), cell=ck, place=pl)
    return out


def run_case(case, m):
    rng = m.rng
    sp = float(rng.uniform(0.5, 6))
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp)
    s = gen.make_system(box, pos, typ)
    n = len(pos)
    # distances are those of the cell the calculation uses: small systems are replicated
    sup = box * np.round(np.cbrt(s.ntotal / n)) if n < 200 else box
    m.check(n >= 200 or s.ntotal >= 27 * n, "replicas", "a small system is not replicated at least 3 times", n=n, total=s.ntotal)
    m.close(s.box, box, "box", "sys.box is not the box that was set")
    inv = np.linalg.inv(sup)
    h = gen.heights(sup).min()
    orth = case["cell"] in gen.ORTH
    atoms = s.atoms
    tol = 1e-9 * np.abs(box).max() * 20
    k = 0
    for _ in range(120):
        i, j = rng.integers(n, size=2)
        d, v = s.get_distance(atoms[i], atoms[j], vector=True)
        v = np.array(v)
        d0 = s.get_distance(atoms[i], atoms[j])
        d1, v1 = s.get_distance(atoms[j], atoms[i], vector=True)
        w = pos[i] - pos[j]
        f = (v - w) @ inv
        m.check(np.abs(f - np.round(f)).max() < 1e-7, "vector-image", "displacement is not a difference of periodic images",
                vector=v, diff=w, box=box)
        m.check(abs(np.linalg.norm(v) - d) < tol and abs(d0 - d) < tol, "vector-length",
                "displacement vector and distance disagree", d=d, d0=d0, v=v)
        m.check(abs(d1 - d) < tol, "symmetry", "distance is not symmetric", d=d, d1=d1)
        g = np.abs(np.linalg.solve(sup.T, v))
        if g.max() < 0.5 - 1e-6:
            m.check(np.abs(np.array(v1) + v).max() < tol, "antisymmetry", "vectors of a pair are not opposite", v=v, v1=v1)
        best = ref.mic(sup, w)[0]
        b = np.linalg.norm(best)
        m.count("pairs")
        if orth or b < 0.499 * h:
            m.check(abs(d - b) < tol, "shortest", "distance is not the shortest image distance", d=d, want=b, i=i, j=j,
                    pi=pos[i], pj=pos[j], box=box)
            k += 1
        else:
            m.check(d > b - tol, "shorter-than-possible", "distance is shorter than any image", d=d, want=b)
            m.count("long_pairs")
        if np.linalg.norm(w) > h:
            m.count("long_pairs")
    # remapping a position
    for _ in range(20):
        p = pos[rng.integers(n)] + rng.integers(-3, 4, 3) @ box
        q = np.array(s.remap_atom([float(x) for x in p]))
        f = np.linalg.solve(sup.T, q - p)
        m.check(np.abs(f - np.round(f)).max() < 1e-7, "remap-image", "remap_atom moved a position to something that is not an image",
                pos=p, got=q, box=box)
        f = np.linalg.solve(sup.T, q)
        m.check(f.min() > -1e-9 and f.max() < 1 + 1e-9, "remap-inside", "remap_atom left a position outside the cell", pos=p, got=q, rel=f)
        m.count("remaps")
    if n <= 60 and n >= 3:
        dd = np.sort(np.array(s.get_pairdistances()))
        m.check(len(dd) == s.ntotal * (s.ntotal - 1) // 2, "pair-count", "get_pairdistances does not list every pair once")
    if k >= 50 or not orth:
        m.nontrivial(case["cell"], case["place"], n < 200, box_tag(box))
