"""C17: generated crystals against textbook definitions of the lattices."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (structure, repetitions, noise) whose every atom was compared with the shells of the lattice"
ASSUMPTIONS = ["crystals are compared by the distances and types around every atom, so another choice of the origin is accepted",
               "the scale of the noise is judged statistically with bounds of six standard errors"]
NEED = {"atoms": 1000, "shell_distances": 20000, "noisy": 8, "pyscal": 5}

# (basis in units of the cell, types, cell in units of a); written from the space groups
H = [[.5, .5, .5]]
F = [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
TABLE = {
    "sc": ([[0, 0, 0]], [1]),
    "bcc": ([[0, 0, 0]] + H, [1, 1]),
    "fcc": (F, [1] * 4),
    "diamond": (F + [[x + .25, y + .25, z + .25] for x, y, z in F], [1] * 8),
    "a15": ([[0, 0, 0]] + H + [[.25, 0, .5], [.75, 0, .5], [.5, .25, 0], [.5, .75, 0], [0, .5, .25], [0, .5, .75]], [1] * 8),
    "l12": (F, [1, 2, 2, 2]),
    "b2": ([[0, 0, 0]] + H, [1, 2]),
    "hcp": ([[0, 0, 0], [.5, .5, 0], [.5, 1 / 6., .5], [0, 2 / 3., .5]], [1] * 4),
}
FIRST = {"sc": [6], "bcc": [8], "fcc": [12], "diamond": [4], "l12": [12], "b2": [8], "hcp": [12]}


def cases(tier, seed):
    add, out = caser("C17", seed)
    rng = np.random.default_rng([seed, 17])
    for rep in range(8 if tier == "thorough" else 1):
        for st in TABLE:
            add("perfect", struct=st, reps=None)
            for k in range(3):
                add("perfect", struct=st, reps=[int(x) for x in rng.integers(1, 6, 3)])
            add("noise", struct=st, reps=[int(x) for x in rng.integers(3, 7, 3)])
            add("system", struct=st, reps=[int(x) for x in rng.integers(1, 6, 3)])
        add("bad", n=1)
    return out


def cellof(st, a, ca):
    return a * (np.array([1, np.sqrt(3), ca]) if st == "hcp" else np.ones(3))


def shells(c, i, types, r):
    p, v, d = c.neighbors(i, r)
    out = []
    for t in (1, 2):
        out.append(np.sort(d[types[p] == t]))
    return out


def reference_shells(st, a, ca, r):
    b, t = TABLE[st]
    box = np.diag(cellof(st, a, ca))
    t = np.array(t)
    c = ref.Crystal(box, np.array(b) @ box, r * 1.01)
    return [(int(t[i]), shells(c, i, t, r)) for i in range(len(t))]


def run_case(case, m):
    from pyscal.crystal_structures import make_crystal
    import pyscal.crystal_structures as pcs
    rng = m.rng
    if case["kind"] == "bad":
        for name in ("fccc", "", "FCC ", "b3", None):
            m.raises(lambda: make_crystal(name), ValueError, "bad", "unknown structure %r" % (name,))
        m.nontrivial("bad")
        return
    st, reps = case["struct"], case["reps"]
    a = float(rng.choice([1.0, rng.uniform(0.5, 8)]))
    ca = float(rng.choice([1.633, rng.uniform(1.45, 1.8)]))
    kw = dict(lattice_constant=a)
    if reps is not None:
        kw["repetitions"] = list(reps) if rng.random() < 0.7 else tuple(reps)
    if st == "hcp" and ca != 1.633:
        kw["ca_ratio"] = ca
    elif st != "hcp":
        ca = 1.633
    noise = 0.0
    if case["kind"] == "noise":
        noise = float(rng.uniform(0.005, 0.04) * a)
        kw["noise"] = noise
    atoms, box = make_crystal(st, **kw)
    R = np.array(reps or [1, 1, 1])
    b, t = TABLE[st]
    n = len(b) * R.prod()
    want = np.diag(cellof(st, a, ca) * R)
    m.check(len(atoms) == n, "natoms", "number of atoms", got=len(atoms), want=int(n), struct=st, reps=R.tolist())
    m.close(np.array(box, float), want, "box", "cell of the crystal", rtol=1e-12, struct=st)
    ids = [x.id for x in atoms]
    m.check(sorted(ids) == list(range(1, n + 1)), "ids", "ids are not 1..n", got=ids[:5])
    typ = np.array([x.type for x in atoms])
    for k in (1, 2):
        m.check((typ == k).sum() == R.prod() * t.count(k), "types", "number of atoms of type %d" % k, got=int((typ == k).sum()), struct=st)
    pos = np.array([x.pos for x in atoms])
    m.count("atoms", n)
    if case["kind"] == "perfect":
        r = a * float(rng.uniform(1.5, 2.1))
        want = reference_shells(st, a, ca, r)
        # a radius that is not the radius of a shell
        ds = np.unique(np.concatenate([np.concatenate(w[1]) for w in reference_shells(st, a, ca, r * 1.05)]))
        if np.abs(ds - r).min() < 1e-6 * a:
            r += 1e-3 * a
            want = reference_shells(st, a, ca, r)
        c = ref.Crystal(want_box(box), pos, r * 1.01)
        tally = np.zeros(len(want), int)
        for i in range(n):
            got = shells(c, i, typ, r)
            ok = [typ[i] == w[0] and all(len(x) == len(y) and np.allclose(x, y, rtol=0, atol=1e-9 * a) for x, y in zip(got, w[1])) for w in want]
            if not m.check(any(ok), "shells", "distances around an atom are not those of the lattice", struct=st, reps=R.tolist(), atom=i, got=[x[:6] for x in got]):
                break
            tally[ok.index(True)] += 1
            m.count("shell_distances", sum(map(len, got)))
        # every kind of site occurs as often as in the lattice
        kinds = {}
        for w in want:
            key = (w[0],) + tuple(np.round(np.concatenate(w[1]) / a, 6))
            kinds[key] = kinds.get(key, 0) + 1
        if tally.sum() == n:
            seen = {}
            for w, k in zip(want, tally):
                key = (w[0],) + tuple(np.round(np.concatenate(w[1]) / a, 6))
                seen[key] = seen.get(key, 0) + int(k)
            m.check(all(seen[k] == kinds[k] * R.prod() for k in kinds), "sites", "kinds of sites do not occur in the proportion of the lattice", struct=st)
    elif case["kind"] == "noise":
        # the ideal positions, from the same crystal without noise
        ideal, _ = make_crystal(st, **{k: v for k, v in kw.items() if k != "noise"})
        d = pos - np.array([x.pos for x in ideal])
        k = d.size
        m.count("noisy")
        m.check(abs(d.std() / noise - 1) < 6 / np.sqrt(2 * k), "noise", "scale of the noise", got=float(d.std()), want=noise, n=k)
        for ax in range(3):
            m.check(abs(d[:, ax].mean()) < 6 * noise / np.sqrt(n), "noise-mean", "mean of the noise along %d" % ax, got=float(d[:, ax].mean()))
            m.check(abs(d[:, ax].std() / noise - 1) < 6 / np.sqrt(2 * n), "noise-axis", "scale of the noise along %d" % ax, got=float(d[:, ax].std()), want=noise)
        cc = np.corrcoef(d.T)
        m.check(np.abs(cc[np.triu_indices(3, 1)]).max() < 6 / np.sqrt(n), "noise-correlated", "noise along the axes is correlated", got=cc.tolist())
        m.check(np.abs(d).max() < 7 * noise, "noise-tail", "deviation far beyond the noise", got=float(np.abs(d).max() / noise))
        again, _ = make_crystal(st, **kw)
        e = np.array([x.pos for x in again])
        m.check(not np.array_equal(e, pos), "noise-same", "two crystals have the same noise")
    else:
        # the crystal, as used: coordination and structure found by pyscal itself
        import pyscal.core as pc
        s = pc.System()
        s.box = box
        s.atoms = atoms
        if st in FIRST and not (st == "hcp" and "ca_ratio" in kw):
            r1 = {"sc": 1.2, "bcc": .93, "fcc": .85, "diamond": .6, "l12": .85, "b2": .93, "hcp": 1.2}[st] * a
            s.find_neighbors(method="cutoff", cutoff=r1)
            co = [x.coordination for x in s.atoms]
            m.check(set(co) == set(FIRST[st]), "coordination", "coordination in %s" % st, got=sorted(set(co)))
            if st in ("b2",):
                ty = [y.type for y in s.get_all_atoms()]
                m.check(all(ty[j] != x.type for x in s.atoms for j in x.neighbors), "b2", "nearest neighbors in B2 are of the other type")
            m.count("pyscal")
        s.find_neighbors(method="voronoi")
        v = np.array([x.volume for x in s.atoms])
        m.close(v.sum(), np.linalg.det(np.array(box)), "volume", "Voronoi volumes do not fill the crystal", rtol=1e-6)
    m.nontrivial(case["kind"], st, str(reps), noise > 0)


def want_box(box):
    return np.array(box, float)
