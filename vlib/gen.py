"""Seeded generators of cells and configurations, and the glue that puts them into a pyscal System."""
import numpy as np

ORTH = ["cubic", "orth", "thin"]
TRIC = ["tri+", "tri-", "trimix", "rotated", "lefthanded", "permuted", "hex"]
CELLS = ORTH + TRIC
EXTREME = ["long", "longtilt", "sheet"]     # only where a workload asks for them


def rng_of(seed):
    return np.random.default_rng(seed)


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def cell(rng, kind, L):
    """Rows are the cell vectors; the volume is about L**3."""
    if kind == "cubic":
        return np.diag([L, L, L]).astype(float)
    if kind == "orth":
        f = rng.uniform(0.75, 1.35, 3)
        f /= np.cbrt(f.prod())
        return np.diag(L * f)
    if kind == "thin":
        f = np.array([0.55, 1.0, 1.0 / 0.55])
        return np.diag(L * f[rng.permutation(3)])
    if kind in ("long", "longtilt", "sheet"):
        # many cells of a cell list along one or two directions, few along the others
        f = np.array([0.38, 0.38, 1 / 0.38 ** 2]) if kind != "sheet" else np.array([1.7, 1.7, 1 / 1.7 ** 2]) * np.array([1.1, 1 / 1.1, 1])
        f = f[rng.permutation(3)]
        b = np.diag(L * f)
        if kind == "longtilt":
            i = int(np.argmax(f))
            b[i, (i + 1) % 3] = 0.3 * L * f[(i + 1) % 3]
        return b
    if kind == "hex":
        a = L
        return np.array([[a, 0, 0], [-0.5 * a, np.sqrt(3) / 2 * a, 0], [0, 0, 1.15 * a]])
    f = rng.uniform(0.85, 1.2, 3)
    t = rng.uniform(0.12, 0.42, 3)
    if kind == "tri-":
        t = -t
    elif kind == "trimix":
        t = t * np.array([1, -1, 1]) * rng.choice([-1, 1])
    # "trimix" deliberately includes cells whose angle cosines can cancel
    if kind == "permuted":
        return np.diag(L * f)[[1, 2, 0]]
    b = np.array([[f[0], 0, 0], [t[0] * f[0], f[1], 0], [t[1] * f[0], t[2] * f[1], f[2]]]) * L
    b /= np.cbrt(abs(np.linalg.det(b))) / L
    if kind == "rotated":
        b = b @ random_rotation(rng).T
    if kind == "lefthanded":
        b = b[[1, 0, 2]]
    return b


def cancelling_cell(L):
    """Two of the angle cosines cancel: (a.b)/(|a||b|) + (b.c)/(|b||c|) == 0."""
    a = np.array([1.0, 0, 0])
    b = np.array([0.3, 1.0, 0])
    c = np.array([-0.3 / 1.0, 0.0, 1.0])
    # cos(ab) = .3/|b| ; cos(ac) = -.3/|c| ; |b| == |c| ; cos(bc) = -.09/(|b||c|)
    c = np.array([-0.3, 0.09, np.sqrt(1.09 - 0.09 - 0.0081)])  # b.c = 0, |c| = |b|
    return np.array([a, b, c]) * L


def heights(box):
    box = np.asarray(box, float)
    v = abs(np.linalg.det(box))
    return np.array([v / np.linalg.norm(np.cross(box[1], box[2])),
                     v / np.linalg.norm(np.cross(box[2], box[0])),
                     v / np.linalg.norm(np.cross(box[0], box[1]))])


def gas(rng, n, box, dmin):
    """Random positions (fractional) with a minimum distance, by grid-jitter when n is large."""
    # jittered sub-lattice: every atom in its own small cell, so no two atoms coincide
    k = np.maximum(1, np.round(np.cbrt(n) * heights(box) / np.cbrt(heights(box).prod())).astype(int))
    while k.prod() < n:
        k[np.argmin(k / heights(box))] += 1
    idx = rng.choice(k.prod(), size=n, replace=False)
    ijk = np.array(np.unravel_index(idx, k)).T
    f = (ijk + 0.5 + rng.uniform(-0.5, 0.5, (n, 3)) * (1 - dmin)) / k
    return f


BASIS = {
    "sc": [[0, 0, 0]],
    "bcc": [[0, 0, 0], [.5, .5, .5]],
    "fcc": [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]],
    "diamond": [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5],
                [.25, .25, .25], [.75, .75, .25], [.75, .25, .75], [.25, .75, .75]],
}


def lattice(struct, reps):
    """Fractional positions in a cell of reps conventional cells."""
    b = np.array(BASIS[struct], float)
    out = []
    for i in range(reps[0]):
        for j in range(reps[1]):
            for k in range(reps[2]):
                out.append(b + [i, j, k])
    return np.concatenate(out) / np.array(reps, float)


def place(rng, frac, box, how):
    """Fractional -> Cartesian, with the atoms put inside, on the boundary, or outside the cell."""
    f = np.array(frac, float)
    if how == "inside":
        f = f - np.floor(f)
    elif how == "images":       # atoms moved by one lattice vector at random
        f = f + rng.integers(-1, 2, f.shape)
    elif how == "far":          # several lattice vectors away, as in unwrapped trajectories
        f = f + rng.integers(-4, 5, f.shape)
    elif how == "boundary":     # a rigid shift that puts one atom exactly at the origin
        f = f - f[rng.integers(len(f))]
        f = f - np.floor(f)
    elif how == "upper":        # some atoms sit exactly on the upper faces
        f = f - f[rng.integers(len(f))]
        f = f - np.floor(f)
        f[f == 0] = 1.0
    elif how == "negative":
        f = f - np.floor(f) - 0.5
    elif how == "shifted":      # box origin is not at zero (like LAMMPS xlo != 0)
        f = f - np.floor(f)
        return f @ box + rng.uniform(-3, 3, 3) * np.abs(box).max() * 0.9
    return f @ box


PLACES = ["inside", "images", "far", "boundary", "upper", "negative", "shifted"]


def somelabels(rng, k, top=40):
    """Type numbers, in increasing order: consecutive, with gaps, or of more than one digit (whose order as text differs)."""
    w = rng.integers(3)
    if w == 0:
        return list(range(1, k + 1))
    if w == 1:
        return sorted(int(x) for x in rng.choice(9 if k < 9 else top, k, replace=False) + 1)
    l = set(int(x) for x in rng.choice(top, k, replace=False) + 1)
    if k > 1:
        l = set(sorted(l)[:k - 2]) | {int(rng.integers(2, 10)), int(rng.choice([10, 11, 12, 20, 100]))}
        while len(l) < k:
            l.add(int(rng.integers(1, top)))
    return sorted(l)


def types(rng, n, nt=2, labels=None):
    labels = labels or list(range(1, nt + 1))
    t = rng.choice(labels, size=n)
    for k, l in enumerate(labels):      # every label occurs
        if n > k:
            t[k] = l
    return rng.permutation(t)


def make_atoms(pos, typ=None, ids=None):
    from pyscal.catom import Atom
    out = []
    for i, p in enumerate(pos):
        a = Atom()
        a.pos = [float(x) for x in p]
        a.id = int(ids[i]) if ids is not None else i + 1
        a.type = int(typ[i]) if typ is not None else 1
        out.append(a)
    return out


def make_system(box, pos, typ=None, ids=None, aslist=True):
    import pyscal.core as pc
    s = pc.System()
    s.box = [[float(x) for x in r] for r in box] if aslist else np.array(box, float)
    s.atoms = make_atoms(pos, typ, ids)
    return s


SHAPES = [None, "slab", "rod", "cluster"]


def vacuum(rng, f, box, shape):
    """Room around the atoms in one, two or three directions; the atoms keep their Cartesian positions relative to each other."""
    k = {"slab": 1, "rod": 2, "cluster": 3}[shape]
    axes = rng.permutation(3)[:k]
    g = np.ones(3)
    g[axes] = {1: 2.2, 2: 1.7, 3: 1.5}[k]
    return f / g, box * g[:, None]


def config(seed, n, cellkind, place_how="inside", spacing=1.0, dmin=0.35, nt=1, struct=None, noise=0.05,
           labels=None, shape=None):
    """A whole configuration: box, Cartesian positions, types. About `spacing`**3 volume per atom. Shape "any": a
    surface, a wire or a cluster for one seed in four, and filled cells otherwise."""
    rng = rng_of(seed)
    if struct:
        m = len(BASIS[struct])
        k = max(1, int(round(np.cbrt(n / m))))
        reps = [k, k, k]
        f = lattice(struct, reps)
        n = len(f)
        L = spacing * np.cbrt(n)
        box = cancelling_cell(L) if cellkind == "cancel" else cell(rng, cellkind, L)
        f = f + rng.normal(scale=noise * spacing, size=f.shape) @ np.linalg.inv(box)
    else:
        L = spacing * np.cbrt(n)
        box = cancelling_cell(L) if cellkind == "cancel" else cell(rng, cellkind, L)
        f = gas(rng, n, box, dmin)
    if shape == "any":
        h = (int(seed) * 2654435761 >> 7) % 1000
        shape = SHAPES[1 + h % 3] if h < 250 else None
    if shape:
        f, box = vacuum(rng, f, box, shape)
    pos = place(rng, f, box, place_how)
    typ = types(rng, n, nt, labels)
    return box, pos, typ
