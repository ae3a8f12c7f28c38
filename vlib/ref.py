"""Independent reference models (numpy / scipy), written from the documentation, not from the C++."""
import itertools

import numpy as np
from scipy.spatial import cKDTree

from vlib.gen import heights


def wrap_frac(pos, box):
    f = np.asarray(pos, float) @ np.linalg.inv(np.asarray(box, float))
    f = f - np.floor(f)
    f[f >= 1.0] = 0.0
    return f


class Crystal:
    """An infinite periodic configuration, as explicit images around the primary cell."""

    def __init__(self, box, pos, reach):
        self.box = np.asarray(box, float)
        self.n = len(pos)
        self.f = wrap_frac(pos, self.box)
        self.p = self.f @ self.box
        h = heights(self.box)
        m = np.ceil(reach / h).astype(int) + 1
        self.reach = reach
        pts, par = [], []
        for s in itertools.product(*[range(-k, k + 1) for k in m]):
            fs = self.f + s
            # keep images within reach of the cell
            keep = np.all((fs > -reach / h - 1e-9) & (fs < 1 + reach / h + 1e-9), axis=1)
            if keep.any():
                pts.append(fs[keep] @ self.box)
                par.append(np.nonzero(keep)[0])
        self.pts = np.concatenate(pts)
        self.par = np.concatenate(par)
        self.tree = cKDTree(self.pts)

    def neighbors(self, i, r):
        """(parents, vectors, distances) of every image within distance < r of atom i, itself excluded."""
        idx = np.array(self.tree.query_ball_point(self.p[i], r + 1e-9), dtype=int)
        v = self.pts[idx] - self.p[i]
        d = np.linalg.norm(v, axis=1)
        keep = (d < r) & (d > 1e-9)
        return self.par[idx][keep], v[keep], d[keep]

    def nearest(self, i, k):
        """The k nearest images, sorted."""
        d, idx = self.tree.query(self.p[i], min(k + 1, len(self.pts)))
        v = self.pts[idx] - self.p[i]
        keep = d > 1e-9
        return self.par[idx][keep][:k], v[keep][:k], d[keep][:k]


def cutoff_in_gap(box, pos, target, width=1e-7, tries=50):
    """A cutoff near `target` that no pair distance comes close to (so < and <= agree)."""
    c = Crystal(box, pos, target * 1.1 + 1e-3)
    ds = []
    for i in range(c.n):
        ds.append(c.neighbors(i, target * 1.08)[2])
    ds = np.sort(np.concatenate(ds)) if ds else np.zeros(0)
    ds = ds[ds > target * 0.9]
    if len(ds) == 0:
        return target
    g = np.concatenate([[target * 0.9], ds, [target * 1.08]])
    gaps = np.diff(g)
    mid = 0.5 * (g[1:] + g[:-1])
    ok = np.nonzero(gaps > 2 * width)[0]
    if len(ok) == 0:
        return None
    j = ok[np.argmin(np.abs(mid[ok] - target))]
    return float(mid[j])


def mic(box, d):
    """Shortest image of the displacement(s) d (exact: searches the neighbouring images)."""
    box = np.asarray(box, float)
    d = np.atleast_2d(np.asarray(d, float))
    f = d @ np.linalg.inv(box)
    f = f - np.round(f)
    best = None
    bd = None
    for s in itertools.product((-2, -1, 0, 1, 2), repeat=3):
        v = (f + s) @ box
        n = np.einsum("ij,ij->i", v, v)
        if best is None:
            best, bd = v.copy(), n.copy()
        else:
            m = n < bd
            best[m] = v[m]
            bd[m] = n[m]
    return best


def parents(sys, box, pos):
    """Map every atom of the system (ghosts included) to the real atom it is an image of."""
    allp = np.array([a.pos for a in sys.get_all_atoms()])
    n = len(pos)
    f = wrap_frac(allp, box)
    f0 = wrap_frac(pos, box)
    # periodic nearest match in fractional space
    t = cKDTree(np.mod(f0, 1.0), boxsize=1.0)
    d, idx = t.query(np.mod(f, 1.0))
    if d.max() > 1e-6:
        raise AssertionError("an atom of the system is not an image of any input atom (off by %g)" % d.max())
    return idx, allp


def ylm(l, m, theta, phi):
    from scipy.special import sph_harm_y
    return sph_harm_y(l, m, theta, phi)


def qlm(l, vecs, w):
    """Weighted mean of Y_lm over vectors, m = -l..l (weights normalised to one)."""
    v = np.asarray(vecs, float)
    w = np.asarray(w, float)
    r = np.linalg.norm(v, axis=1)
    th = np.arccos(np.clip(v[:, 2] / r, -1, 1))
    ph = np.arctan2(v[:, 1], v[:, 0])
    m = np.arange(-l, l + 1)
    y = ylm(l, m[:, None], th[None, :], ph[None, :])
    return (y * w).sum(axis=1) / w.sum()


def q_from_qlm(c):
    l = (len(c) - 1) // 2
    return float(np.sqrt(4 * np.pi / (2 * l + 1) * (np.abs(c) ** 2).sum()))


def components(n, edges):
    p = list(range(n))

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    for a, b in edges:
        ra, rb = find(a), find(b)
        if ra != rb:
            p[ra] = rb
    return [find(x) for x in range(n)]
