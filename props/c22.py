"""C22: containers give back what was put into them."""
import itertools

import numpy as np

from vlib import gen, ref
from vlib.sysu import calcbox, caser, pick

RULE = "one signature per (operation or attribute, size class, kind of cell) whose result was compared with the model"
ASSUMPTIONS = ["positions in repeated cells are compared to 1e-9; Atom.custom is a Python dictionary and is held by reference, as documented by its type"]
NEED = {"ops": 400, "states": 400, "ghosts_checked": 5000, "attributes": 300, "repeat": 20, "remap": 20, "cubic": 15}


def cases(tier, seed):
    add, out = caser("C22", seed)
    rng = np.random.default_rng([seed, 22])
    for rep in range(12 if tier == "thorough" else 3):
        for c in gen.CELLS:
            for n in (int(rng.choice([1, 2, 4])), int(rng.integers(5, 60)), int(rng.choice([190, 199, 200, 201, 230]))):
                add("history", cell=c, n=n, steps=int(rng.integers(6, 14)))
        for k in range(10):
            add("attributes", n=int(rng.choice([3, 210])))
        for c in gen.CELLS:
            add("repeat", cell=c, n=int(rng.choice([1, 3, 8, 40, 205])))
            add("remap", cell=c, n=int(rng.choice([6, 40, 120, 205])), place=pick(rng, gen.PLACES))
            add("embed", cell=c, n=int(rng.choice([30, 205])))
        for st in ("sc", "bcc", "fcc"):
            for v in range(3):
                add("cubic", struct=st, basis=v)
    return out


# ---------------------------------------------------------------- the model
class Model:
    def __init__(self):
        self.box = None
        self.atoms = []      # dicts pos,id,type,custom,cutoff

    def spec(self, rng, n, box, idstart, nt=3):
        f = rng.uniform(-0.8, 1.8, (n, 3))
        pos = f @ np.array(box)
        return [dict(pos=[float(x) for x in p], id=int(idstart + 3 * i), type=int(rng.integers(1, nt + 1)), custom={"tag": "v%d" % (idstart + i)}, cutoff=float(rng.integers(1, 99)) / 8)
                for i, p in enumerate(pos)]


def build(spec):
    from pyscal.catom import Atom
    out = []
    for a in spec:
        x = Atom(pos=a["pos"], id=a["id"], type=a["type"])
        x.custom = dict(a["custom"])
        x.cutoff = a["cutoff"]
        out.append(x)
    return out


def compare_atom(m, x, a, key, **d):
    ok = np.array_equal(x.pos, a["pos"]) or np.allclose(x.pos, a["pos"], rtol=0, atol=1e-9)
    m.check(ok, key + ":pos", "position of an atom", got=x.pos, want=a["pos"], **d)
    m.check(x.id == a["id"] and x.type == a["type"], key + ":id", "id or type of an atom", got=(x.id, x.type), want=(a["id"], a["type"]), **d)
    m.check(dict(x.custom) == a["custom"], key + ":custom", "custom data of an atom", got=dict(x.custom), want=a["custom"], **d)
    m.check(x.cutoff == a["cutoff"], key + ":cutoff", "cutoff of an atom", got=x.cutoff, want=a["cutoff"], **d)


def verify(m, s, mod, after, rng):
    n = len(mod.atoms)
    m.count("states")
    m.require(s.natoms == n and s.nop == n, "natoms", "number of atoms", got=(s.natoms, s.nop), want=n, after=after)
    m.close(s.box, mod.box, "box", "the box is not the one that was set", rtol=0, atol=1e-9, after=after)
    at = s.atoms
    m.require(len(at) == n, "atoms", "length of atoms", got=len(at), want=n, after=after)
    for i, (x, a) in enumerate(zip(at, mod.atoms)):
        compare_atom(m, x, a, "atoms", after=after, index=i, n=n)
        m.check(x.loc == i, "loc", "loc is the position in the list", got=x.loc, want=i, after=after)
        m.check(x.ghost == 0, "ghost", "an atom became a ghost", after=after)
    for i, x in enumerate(s.iter_atoms()):
        if i % 7 == 0:
            compare_atom(m, x, mod.atoms[i], "iter_atoms", after=after, index=i)
    m.check(i == n - 1, "iter-length", "iter_atoms gives every atom once", got=i + 1, want=n)
    for i in rng.integers(0, n, 3):
        compare_atom(m, s.get_atom(int(i)), mod.atoms[int(i)], "get_atom", after=after, index=int(i))
    # the copies of the cell that are used for calculations
    al = s.get_all_atoms()
    m.check(len(al) == s.ntotal and s.ntotal >= n and s.ntotal % n == 0, "ntotal", "total number of atoms", got=(len(al), s.ntotal), n=n, after=after)
    B = np.array(mod.box)
    big = calcbox(s)
    mult = big @ np.linalg.inv(B)
    m.check(np.allclose(mult, np.diag(np.round(np.diag(mult))), atol=1e-6), "replicated-box", "the cell used for calculations is not made of copies of the box", mult=mult, after=after)
    k = np.round(np.diag(mult)).astype(int)
    m.check(int(k.prod()) * n == len(al), "replicas", "number of copies differs from that of the cell", copies=k, total=len(al), n=n, after=after)
    for j in rng.integers(0, len(al), 2):
        # atoms in lists of neighbors may be copies, and can be asked for as well
        x, y = s.get_atom(int(j)), al[int(j)]
        m.check(x.pos == y.pos and (x.type, x.head, x.ghost) == (y.type, y.head, y.ghost), "get_atom-copy", "get_atom of a copy is another atom than in get_all_atoms", index=int(j), after=after)
    seen = set()
    P = np.array([x.pos for x in al])
    H = np.array([x.head for x in al])
    G = np.array([x.ghost for x in al])
    T = np.array([x.type for x in al])
    P0 = np.array([a["pos"] for a in mod.atoms])
    T0 = np.array([a["type"] for a in mod.atoms])
    for j in range(n, len(al)):
        if not (0 <= H[j] < n and G[j]):
            m.fail("ghost-head", "a copy does not refer to an atom", head=int(H[j]), after=after)
            return
    if len(al) > n:
        m.count("ghosts_checked", len(al) - n)
        t = (P[n:] - P0[H[n:]]) @ np.linalg.inv(B)
        r = np.round(t)
        m.check(np.abs(t - r).max() < 1e-6, "ghost-position", "a copy is not at a periodic image of its atom", off=float(np.abs(t - r).max()), after=after)
        m.check((T[n:] == T0[H[n:]]).all(), "ghost-type", "a copy has another type than its atom", after=after)
        seen = {(int(h),) + tuple(int(v) % int(q) for v, q in zip(x, k)) for h, x in zip(H[n:], r)} | {(i, 0, 0, 0) for i in range(n)}
        m.check(len(seen) == len(al), "ghost-images", "copies are missing or repeated", distinct=len(seen), total=len(al), after=after)
    c = s.get_concentration()
    u, q = np.unique(T0, return_counts=True)
    m.check({str(x): int(y) for x, y in c.items()} == {str(x): int(y) for x, y in zip(u, q)}, "concentration", "counts of types", got=str(c), after=after)


def history(case, m):
    import pyscal.core as pc
    rng = m.rng
    mod = Model()
    mod.box = gen.cell(rng, case["cell"], float(rng.uniform(2, 9))).tolist()
    s = pc.System()
    s.box = np.array(mod.box) if rng.random() < 0.5 else mod.box
    mod.atoms = mod.spec(rng, case["n"], mod.box, 1)
    if rng.random() < 0.3:
        s.add_atoms(build(mod.atoms))
    else:
        s.atoms = build(mod.atoms)
    verify(m, s, mod, "first", rng)
    trace = []
    for st in range(case["steps"]):
        op = pick(rng, ["box", "atoms", "shrink", "add", "add", "add0", "set_atom", "set_atom", "copies", "neighbors", "reassign", "remap", "remap_other", "repeat", "repeat_list", "assign_repeat"])
        trace.append(op)
        m.count("ops")
        n = len(mod.atoms)
        if op == "box":
            mod.box = gen.cell(rng, pick(rng, gen.CELLS), float(rng.uniform(2, 9))).tolist()
            s.box = mod.box
        elif op == "atoms":
            mod.atoms = mod.spec(rng, int(pick(rng, [1, 3, 50, 199, 200, 240])), mod.box, 10)
            s.atoms = build(mod.atoms)
        elif op == "shrink":
            keep = sorted(rng.choice(n, size=max(1, n // 2), replace=False).tolist())
            mod.atoms = [mod.atoms[i] for i in keep]
            at = s.atoms
            s.atoms = [at[i] for i in keep]
        elif op == "add":
            new = mod.spec(rng, int(rng.integers(1, 40)), mod.box, 5000 + 100 * st)
            mod.atoms = mod.atoms + new
            s.add_atoms(build(new))
        elif op == "add0":
            s.add_atoms([])
        elif op == "set_atom":
            for i in rng.integers(0, n, 3):
                i = int(i)
                a = dict(mod.atoms[i], pos=[float(x) for x in rng.uniform(-1, 2, 3) @ np.array(mod.box)], type=int(rng.integers(1, 4)), cutoff=0.25 * st, custom={"tag": "new%d" % st})
                x = s.get_atom(i)
                x.pos, x.type, x.cutoff, x.custom = a["pos"], a["type"], a["cutoff"], dict(a["custom"])
                s.set_atom(x)
                mod.atoms[i] = a
        elif op == "copies":
            # changes of copies stay with the copies
            for x in s.atoms + s.get_all_atoms()[:5] + [s.get_atom(0)]:
                x.pos = [1e6, 1e6, 1e6]
                x.type = 77
                x.cutoff = -1
            b = s.box
            b[0] = [1e9, 0, 0]
        elif op == "neighbors":
            h = gen.heights(mod.box).min()
            s.find_neighbors(method="cutoff", cutoff=min(0.45 * h, 0.9 * np.cbrt(abs(np.linalg.det(mod.box)) / n)))
            s.calculate_q([6])
            for i, a in enumerate(mod.atoms):       # the cutoff of atoms is what the search used
                a["cutoff"] = s.get_atom(i).cutoff
        elif op == "reassign":
            s.atoms = s.atoms
        elif op == "remap":
            w = s.remap_atoms(remove_images=False, assign=False)
            checkwrap(m, mod, w)
            s.remap_atoms(remove_images=False)
            for a, x in zip(mod.atoms, w):
                a["pos"] = x.pos
        elif op == "remap_other":
            x = s.remap_atom([float(v) for v in rng.uniform(-3, 4, 3) @ np.array(mod.box)])
        elif op == "repeat":
            if n > 60:
                continue
            lst = s.repeat((1, 0, 1))
            mod.box = [[3 * v for v in mod.box[0]], list(mod.box[1]), [3 * v for v in mod.box[2]]]
            m.check(len(lst) == 9 * n, "repeat-number", "number of repeated atoms", got=len(lst), want=9 * n)
        elif op == "repeat_list":
            if n > 60:
                continue
            lst = s.repeat((0, 1, 0), scale_box=False)
            m.check(len(lst) == 3 * n, "repeat-number", "number of repeated atoms", got=len(lst), want=3 * n)
        elif op == "assign_repeat":
            if n > 30:
                continue
            old = np.array(mod.box)
            lst = s.repeat((0, 1, 1))
            s.atoms = lst
            checkrepeat(m, mod.atoms, old, lst, (0, 1, 1))
            mod.box = [old[0].tolist(), (3 * old[1]).tolist(), (3 * old[2]).tolist()]
            mod.atoms = [dict(pos=x.pos, id=x.id, type=x.type, custom=dict(x.custom), cutoff=x.cutoff) for x in lst]
        verify(m, s, mod, trace[-4:], rng)
        m.nontrivial(op, len(mod.atoms) < 200, case["cell"])


def checkwrap(m, mod, w):
    B = np.array(mod.box)
    inv = np.linalg.inv(B)
    m.count("remap")
    m.require(len(w) == len(mod.atoms), "remap-number", "number of remapped atoms", got=len(w), want=len(mod.atoms))
    for a, x in zip(mod.atoms, w):
        f = np.array(x.pos) @ inv
        d = (np.array(x.pos) - np.array(a["pos"])) @ inv
        m.check((f > -1e-9).all() and (f < 1 + 1e-9).all(), "remap-inside", "a remapped atom is outside the cell", frac=f)
        m.check(np.abs(d - np.round(d)).max() < 1e-7, "remap-image", "a remapped atom was not moved by box vectors", moved=d)
        m.check((x.id, x.type) == (a["id"], a["type"]), "remap-order", "remapping changed id or type", got=(x.id, x.type))


def checkrepeat(m, atoms, box, lst, reps):
    n = len(atoms)
    k = [2 * r + 1 for r in reps]
    m.count("repeat")
    m.require(len(lst) == n * int(np.prod(k)), "repeat-number", "number of repeated atoms", got=len(lst), want=n * int(np.prod(k)))
    for i in range(n):
        m.check(np.allclose(lst[i].pos, atoms[i]["pos"], atol=1e-9) and lst[i].id == atoms[i]["id"], "repeat-first", "the list does not start with the atoms of the cell", index=i)
    m.check(len({x.id for x in lst[n:]}) == len(lst) - n, "repeat-ids", "ids of the new atoms are not unique")
    inv = np.linalg.inv(box)
    want = {}
    for c in itertools.product(*[range(-r, r + 1) for r in reps]):
        for i, a in enumerate(atoms):
            p = np.array(a["pos"]) + np.array(c) @ box
            want.setdefault(tuple(np.round(p, 4)), []).append(a["type"])
    got = {}
    for x in lst:
        got.setdefault(tuple(np.round(x.pos, 4)), []).append(x.type)
    # compare through a tree, rounding may fall on either side
    from scipy.spatial import cKDTree
    wp = np.array([np.array(a["pos"]) + np.array(c) @ box for c in itertools.product(*[range(-r, r + 1) for r in reps]) for a in atoms])
    wt = np.array([a["type"] for c in itertools.product(*[range(-r, r + 1) for r in reps]) for a in atoms])
    gp = np.array([x.pos for x in lst])
    gt = np.array([x.type for x in lst])
    d, ii = cKDTree(wp).query(gp)
    m.check(d.max() < 1e-6, "repeat-position", "a repeated atom is not at an image", off=float(d.max()), reps=reps)
    m.check(len(set(ii.tolist())) == len(lst), "repeat-complete", "images are missing or repeated", reps=reps)
    m.check((wt[ii] == gt).all(), "repeat-type", "types of repeated atoms", reps=reps)


def repeat(case, m):
    import pyscal.core as pc
    rng = m.rng
    box = gen.cell(rng, case["cell"], float(rng.uniform(2, 6)))
    mod = Model()
    mod.box = box.tolist()
    n = case["n"]
    f = gen.gas(rng, n, box, 0.3)
    mod.atoms = [dict(a, pos=p.tolist()) for a, p in zip(mod.spec(rng, n, box, 1), f @ box)]
    s = pc.System()
    s.box = mod.box
    s.atoms = build(mod.atoms)
    reps = tuple(int(x) for x in rng.integers(0, 3 if n < 50 else 2, 3))
    lst = s.repeat(reps, scale_box=False)
    checkrepeat(m, mod.atoms, box, lst, reps)
    m.close(s.box, box, "repeat-keeps-box", "scale_box=False keeps the box", rtol=0, atol=1e-9)
    verify(m, s, mod, ["repeat", reps], rng)
    # other atoms than those of the system
    other = mod.spec(rng, 3, box, 40)
    lst = s.repeat(reps, atoms=build(other), scale_box=False)
    checkrepeat(m, other, box, lst, reps)
    lst = s.repeat(reps)
    checkrepeat(m, mod.atoms, box, lst, reps)
    mod.box = [(box[i] * (2 * reps[i] + 1)).tolist() for i in range(3)]
    verify(m, s, mod, ["repeat", reps], rng)
    m.nontrivial("repeat", case["cell"], n < 200, reps)
    if len(lst) < 1500:
        s.atoms = lst
        mod.atoms = [dict(pos=x.pos, id=x.id, type=x.type, custom=dict(x.custom), cutoff=x.cutoff) for x in lst]
        verify(m, s, mod, ["assign"], rng)


def remap(case, m):
    import pyscal.core as pc
    rng = m.rng
    n = case["n"]
    L = float(rng.uniform(1.5, 3)) * np.cbrt(n)
    box = gen.cell(rng, case["cell"], L)
    f = gen.gas(rng, n, box, 0.7)
    pos = gen.place(rng, f, box, case["place"])
    mod = Model()
    mod.box = box.tolist()
    mod.atoms = [dict(a, pos=p.tolist()) for a, p in zip(mod.spec(rng, n, box, 1), pos)]
    # duplicates: the same atom, a little shifted, in another image
    dtol = 0.1
    dup = rng.choice(n, size=min(4, n), replace=False)
    copies = []
    for i in dup:
        v = rng.normal(size=3)
        v *= rng.uniform(0, 0.6) * dtol / np.linalg.norm(v)
        copies.append(dict(mod.atoms[int(i)], pos=(np.array(mod.atoms[int(i)]["pos"]) + v + rng.integers(-2, 3, 3) @ box).tolist(), id=9000 + int(i)))
    order = rng.permutation(n + len(copies))
    every = mod.atoms + copies
    mod.atoms = [every[i] for i in order]
    s = pc.System()
    s.box = mod.box
    s.atoms = build(mod.atoms)
    w = s.remap_atoms(remove_images=False, assign=False)
    checkwrap(m, mod, w)
    w2 = s.remap_atoms(remove_images=False, assign=False, remove_atoms=True)
    m.check([x.id for x in w2] == [x.id for x in w], "remap-kept", "atoms that were remapped into the cell were removed as being outside", got=len(w2), want=len(w), place=case["place"])
    verify(m, s, mod, ["remap, not assigned"], rng)
    # images: of every pair closer than dtol one is removed, nothing else
    ids = [a["id"] for a in mod.atoms]
    pairs = {(int(i) * 3 + 1, 9000 + int(i)) for i in dup}
    for mode in (False, True):
        got = s.remap_atoms(remove_images=True, assign=mode, dtol=dtol)
        left = [x.id for x in (s.atoms if mode else got)]
        gone = set(ids) - set(left)
        m.count("images_removed", len(gone))
        ok = len(gone) == len(pairs) and all(len(gone & set(p)) == 1 for p in pairs) and left == [i for i in ids if i not in gone]
        m.check(ok, "remap-images", "remove_images does not remove exactly one of each pair of coinciding atoms", gone=sorted(gone), pairs=sorted(pairs), cell=case["cell"], assign=mode)
    sub = [a for a in mod.atoms if a["id"] in set(left)]
    keep = Model()
    keep.box = mod.box
    bypos = {x.id: x.pos for x in w}
    keep.atoms = [dict(a, pos=bypos[a["id"]]) for a in sub]
    verify(m, s, keep, ["remap with images"], rng)
    m.nontrivial("remap", case["cell"], n < 200, case["place"])


def embed(case, m):
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0)
    s = gen.make_system(box, pos, typ)
    B = calcbox(s)
    before = [x.pos for x in s.atoms]
    s.embed_in_cubic_box()
    a, b, c = B
    # the cell in the standard orientation: a along x, b in the xy plane
    lx = np.linalg.norm(a)
    q = np.linalg.qr(B.T)[1]
    q = q * np.sign(np.diag(q))[:, None]
    xy, xz, yz = q[0, 1], q[0, 2], q[1, 2]
    want = [lx + abs(min(0, xy, xz, xy + xz)) + max(0, xy, xz, xy + xz), q[1, 1] + abs(min(0, yz)) + max(0, yz), q[2, 2]]
    m.count("embedded")
    m.close(s.newbox, np.diag(want), "embed-box", "the orthogonal box around a triclinic cell", rtol=1e-7, atol=1e-7, cell=case["cell"])
    m.close(calcbox(s), np.diag(want), "embed-cell", "the cell in use after embed_in_cubic_box", rtol=1e-7, atol=1e-7)
    m.check(s.triclinic == 0, "embed-triclinic", "the embedding box is orthogonal")
    m.close([x.pos for x in s.atoms], before, "embed-atoms", "atoms change when the cell is embedded", rtol=0, atol=0)
    m.nontrivial("embed", case["cell"], case["n"] < 200)


PRIM = {"sc": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "bcc": [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]], "fcc": [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]}


def cubic(case, m):
    import pyscal.core as pc
    rng = m.rng
    a = float(rng.uniform(1.5, 5))
    B = np.array(PRIM[case["struct"]]) * a
    origin = rng.uniform(-1, 1, 3) * a if case["basis"] else np.zeros(3)
    pos, typ = [origin], [1]
    if case["basis"] == 2:
        pos.append(origin + rng.uniform(0.1, 0.3, 3) * a)
        typ.append(2)
    s = pc.System()
    s.box = B.tolist()
    s.atoms = gen.make_atoms(np.array(pos), typ)
    cb, at = s.extract_cubic_box(repeat=(3, 3, 3))
    m.count("cubic")
    cb = np.array(cb, float)
    m.close(cb, np.eye(3) * a, "cubic-box", "the cubic cell of %s" % case["struct"], rtol=0, atol=1e-6 * a)
    k = round(a ** 3 / abs(np.linalg.det(B)))
    m.require(len(at) == k * len(pos), "cubic-number", "number of atoms in the cubic cell", got=len(at), want=k * len(pos), struct=case["struct"], origin=origin, a=a)
    P = np.array([x.pos for x in at])
    f = P @ np.linalg.inv(cb)
    m.check((f > -1e-6).all() and (f < 1 + 1e-6).all(), "cubic-inside", "an atom is outside the cubic cell", frac=f)
    # the same crystal
    r = 2.1 * a
    A = ref.Crystal(B, np.array(pos), r)
    C = ref.Crystal(cb, P, r)
    for t in set(typ):
        i = typ.index(t)
        pa, va, da = A.neighbors(i, r)
        for j in [q for q, x in enumerate(at) if x.type == t]:
            pc_, vc, dc = C.neighbors(j, r)
            m.close(np.sort(dc), np.sort(da), "cubic-shells", "shells of the cubic cell differ from those of the crystal", rtol=0, atol=1e-6)
            m.check(sorted(at[q].type for q in pc_) == sorted(typ[q] for q in pa), "cubic-types", "types of neighbors in the cubic cell")
    m.nontrivial("cubic", case["struct"], case["basis"])


# ---------------------------------------------------------------- attributes of atoms
SCALAR_F = ["cutoff", "avg_sij", "disorder", "avg_disorder", "volume", "avg_volume", "angular", "avg_angular", "centrosymmetry", "entropy", "avg_entropy", "energy", "avg_energy"]
SCALAR_I = ["id", "condition", "type", "loc", "ghost", "head", "cluster", "bonds", "structure"]
SCALAR_B = ["mask", "solid", "surface", "largest_cluster"]


def attr_values(rng, nn):
    fl = lambda *s: (rng.integers(-4000, 4000, s) / 64.0).tolist()
    it = lambda *s: rng.integers(-50, 50, s).tolist()
    v = {"pos": fl(3), "custom": {"a": 1, "b": "x%d" % rng.integers(99)}, "allq": fl(11), "allaq": fl(11), "vorovector": it(4), "vertex_positions": fl(5, 3), "edge_lengths": [fl(2), fl(4)],
         "vertex_numbers": it(6), "vertex_vectors": fl(7), "chiparams": it(9), "cna": [it(4) for _ in range(3)], "common": [it(2), it(0), it(5)], "common_bonds": [it(3)], "sro": fl(2),
         "next_neighbors": [it(3), it(2)], "next_neighbor_distances": [fl(3), fl(2)]}
    per = {"neighbor_weights": fl(nn), "neighbor_distance": fl(nn), "neighbor_vector": fl(nn, 3), "local_angles": fl(nn, 2), "sij": fl(nn), "face_vertices": it(nn), "face_perimeters": fl(nn)}
    for k in SCALAR_F:
        v[k] = fl(1)[0]
    for k in SCALAR_I:
        v[k] = it(1)[0]
    for k in SCALAR_B:
        v[k] = bool(rng.integers(2))
    return v, per


def read(x, names):
    out = {k: getattr(x, k) for k in names}
    out["custom"] = dict(out["custom"])
    for l in range(2, 13):
        out["q%d" % l] = x.get_q(l)
        out["aq%d" % l] = x.get_q(l, True)
    out["coordination"] = x.coordination
    return out


def same(a, b):
    return repr(a) == repr(b)


def attributes(case, m):
    from pyscal.catom import Atom
    import pyscal.core as pc
    rng = m.rng
    x = Atom()
    nn = int(rng.choice([0, 1, 5, 40, 300]))
    vals, per = attr_values(rng, nn)
    names = list(vals) + list(per) + ["neighbors"]
    order = list(rng.permutation(list(vals) + ["NB"] + ["q", "q_list"]))
    nbs = rng.integers(0, case["n"], nn).tolist()      # a system only takes atoms whose neighbors it has
    for k in order:
        before = read(x, names)
        touched = {k}
        if k == "NB":
            x.neighbors = nbs
            after = read(x, names)
            m.check(after["neighbors"] == nbs and after["coordination"] == nn, "attr:neighbors", "assigned neighbors", n=nn)
            m.check(after["neighbor_weights"] == [1.0] * nn, "attr:weights", "assigned neighbors have unit weight", got=after["neighbor_weights"][:4])
            touched = {"neighbors", "coordination"} | set(per)
        elif k in ("q", "q_list"):
            av = bool(rng.integers(2))
            nl = int(pick(rng, [1, 4, 4, 7, 11]))
            ls = rng.choice(np.arange(2, 13), nl, replace=False).tolist()
            qv = (rng.integers(0, 640, nl) / 64.0).tolist()
            if k == "q":
                ls, qv = ls[:1], qv[:1]
                x.set_q(ls[0], qv[0], averaged=av)
                m.check(x.get_q(ls[0], averaged=av) == qv[0], "attr:set_q", "get_q gives what set_q stored", l=ls[0])
            else:
                x.set_q(ls, qv, averaged=av)
                m.check(list(x.get_q(ls, averaged=av)) == qv, "attr:set_q", "get_q gives what set_q stored", l=ls, averaged=av)
            touched = {("aq%d" if av else "q%d") % l for l in ls} | {"allaq" if av else "allq"}
            m.check([(x.allaq if av else x.allq)[l - 2] for l in ls] == qv, "attr:allq", "allq holds the value of every l", l=ls)
            after = read(x, names)
        else:
            setattr(x, k, vals[k])
            after = read(x, names)
            m.check(same(after[k], vals[k]), "attr:" + k, "an attribute does not hold the value assigned to it", got=after[k], want=vals[k], attribute=k)
            if k in ("allq", "allaq"):
                p = "q" if k == "allq" else "aq"
                touched |= {"%s%d" % (p, l) for l in range(2, 13)}
                m.check([after["%s%d" % (p, l)] for l in range(2, 13)] == vals[k], "attr:" + k, "q values of allq")
        m.count("attributes")
        ch = [a for a in after if a not in touched and not same(after[a], before[a])]
        m.check(not ch, "attr-other:" + k, "assigning an attribute changed another", attribute=k, changed=ch)
        m.nontrivial("attr", k, nn)
    for k in rng.permutation(list(per)):
        before = read(x, names)
        setattr(x, k, per[k])
        after = read(x, names)
        m.check(same(after[k], per[k]), "attr:" + k, "an attribute does not hold the values assigned to it", attribute=k, n=nn)
        ch = [a for a in after if a != k and not same(after[a], before[a])]
        m.check(not ch, "attr-other:" + k, "assigning an attribute changed another", attribute=k, changed=ch)
        m.count("attributes")
        m.nontrivial("attr", k, nn)
    full = read(x, names)
    # a system keeps all of it
    n = case["n"]
    s = pc.System()
    s.box = (np.eye(3) * 10).tolist()
    s.atoms = gen.make_atoms(rng.uniform(0, 10, (n, 3)))
    i = int(rng.integers(n))
    x.loc, x.ghost, x.head = i, 0, -1
    full.update(loc=i, ghost=0, head=-1)
    others = [read(a, names) for j, a in enumerate(s.atoms) if j != i]
    s.set_atom(x)
    y = s.get_atom(i)
    m.check(same(read(y, names), full), "set_atom", "an atom comes back changed from the system", changed=[k for k in full if not same(read(y, names)[k], full[k])])
    m.check(same([read(a, names) for j, a in enumerate(s.atoms) if j != i], others), "set_atom-others", "set_atom changed another atom")
    lst = s.atoms
    m.check(same(read(lst[i], names), full), "atoms-list", "an atom of the list differs from the one that was set")
    lst2 = lst[i:] + lst[:i]
    s.atoms = lst2
    full["loc"] = 0
    m.check(same(read(s.get_atom(0), names), full), "atoms-set", "an atom changed when the list was assigned", changed=[k for k in full if not same(read(s.get_atom(0), names)[k], full[k])])
    # copies are independent
    y = s.get_atom(0)
    for k, v in attr_values(rng, nn)[0].items():
        if k not in ("custom",):
            setattr(y, k, v)
    y.set_q(5, -7.0)
    y.neighbors = [1, 2, 3]
    m.check(same(read(s.get_atom(0), names), full), "copy", "changing a copy changed the atom of the system", changed=[k for k in full if not same(read(s.get_atom(0), names)[k], full[k])])
    # sizes that do not fit are refused and nothing changes
    z = s.get_atom(0)
    ref0 = read(z, names)
    for k, v in [("pos", [1.0, 2.0]), ("pos", [1.0] * 4), ("allq", [1.0] * 10), ("allaq", [1.0] * 12), ("vorovector", [1, 2, 3]), ("neighbors", list(range(301))), ("neighbor_weights", [1.0] * 301),
                 ("neighbor_distance", [1.0] * 301), ("neighbor_vector", [[1.0] * 3] * 301), ("face_vertices", [1] * 301), ("face_perimeters", [1.0] * 301), ("sij", [1.0] * 301)]:
        if m.raises(lambda: setattr(z, k, v), (ValueError, TypeError, IndexError), "attr-size:" + k, "a value of the wrong length was accepted", length=len(v)):
            m.check(same(read(z, names), ref0), "attr-size-state:" + k, "a refused value changed the atom")
    for q in (0, 1, 13, -3, 10 ** 6):
        m.raises(lambda: z.get_q(q), ValueError, "q-range", "get_q outside 2-12", q=q)
        m.raises(lambda: z.set_q(q, 1.0), ValueError, "q-range", "set_q outside 2-12", q=q)
        m.raises(lambda: z.get_q([4, q]), ValueError, "q-range", "get_q outside 2-12", q=q)
        m.raises(lambda: z.get_qlm(q), ValueError, "q-range", "get_qlm outside 2-12", q=q)


def run_case(case, m):
    {"history": history, "attributes": attributes, "repeat": repeat, "remap": remap, "embed": embed, "cubic": cubic}[case["kind"]](case, m)
