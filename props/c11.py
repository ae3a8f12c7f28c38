"""C11: (adaptive) common neighbor analysis and diamond identification against independent bond signatures."""
import itertools

import numpy as np

from vlib import gen, ref
from vlib.sysu import calcbox, caser, pick

RULE = "one signature per (method, structure, cell, disturbance, size class) in which every decidable atom was classified by the reference too"
ASSUMPTIONS = ["atoms whose nearest 12 (or 14) are tied with the next, or with a distance within 1e-6 of the bond cutoff, are judged only in perfect lattices",
               "an atom that has both cubic and hexagonal diamond neighbors may carry either label of the same shell"]
NEED = {"atoms": 5000, "fcc": 300, "hcp": 100, "bcc": 100, "others": 300, "cubic": 100, "hex": 50, "1nn": 10, "2nn": 10, "ico": 2, "second_shells": 500}

STACK = {"fcc": "ABC", "hcp": "AB", "dhcp": "ABAC", "fault": "ABCABABC", "twin": "ABCABCBACB", "9R": "ABCBCACAB"}


def close_packed(seq, nx, ny, reps, diamond=False):
    """Orthogonal cell of close-packed layers (nearest neighbor distance 1) stacked as seq."""
    a = 1.0 if not diamond else np.sqrt(8 / 3.0)
    h = a * np.sqrt(2 / 3.0)
    off = {"A": (0, 0), "B": (0.5, 0.5 / np.sqrt(3)), "C": (0.0, 1 / np.sqrt(3))}
    s = seq * reps
    P = []
    for k, c in enumerate(s):
        for i in range(nx):
            for j in range(ny):
                for b in ((0, 0), (0.5, np.sqrt(3) / 2)):
                    x, y = i + b[0] + off[c][0], j * np.sqrt(3) + b[1] + off[c][1]
                    P.append((x * a, y * a, k * h))
                    if diamond:
                        P.append((x * a, y * a, k * h + 1.0))
    box = np.diag([nx * a, ny * np.sqrt(3) * a, len(s) * h])
    return box, np.array(P, float)


def cases(tier, seed):
    add, out = caser("C11", seed)
    rng = np.random.default_rng([seed, 11])
    big = tier == "thorough"
    dist = ["none", "noise", "strain", "vacancy", "hot"]
    for rep in range(6 if big else 1):
        for st in list(STACK) + ["bcc"]:
            for d in dist:
                add("cna", struct=st, dist=d, diamond=False, trans=pick(rng, ["none", "rotate", "permute", "images"]), size=pick(rng, ["small", "large"]))
        for st in STACK:
            for d in ("none", "noise", "vacancy", "hot"):
                add("dia", struct=st, dist=d, diamond=True, trans=pick(rng, ["none", "rotate", "permute", "images"]), size=pick(rng, ["small", "large"]))
        for st in ("fcc", "hcp", "bcc"):
            add("fixed", struct=st, dist=pick(rng, ["noise", "none", "vacancy"]), diamond=False, trans=pick(rng, ["none", "rotate", "images"]), size=pick(rng, ["small", "large"]))
        add("gas", n=int(rng.choice([60, 250])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), diamond=False)
        add("gas", n=int(rng.choice([60, 250])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), diamond=True)
        add("ico", n=1)
        add("history", struct="fcc", dist="noise", diamond=False, trans="none", size="large")
        add("unitcells", n=1)
    return out


def build(case, rng):
    st, big = case["struct"], case["size"] == "large"
    if st == "bcc":
        k = 6 if big else 3
        box = np.eye(3) * k * 2 / np.sqrt(3)
        pos = gen.lattice("bcc", [k] * 3) @ box
    else:
        seq = STACK[st]
        reps = max(1, int(np.ceil((6 if big else 3) / len(seq)))) if len(seq) < 6 else 1
        n = (5, 3) if big else (3, 2)
        box, pos = close_packed(seq, n[0], n[1], reps, case["diamond"])
    perfect = True
    d = case["dist"]
    if d == "noise":
        pos = pos + rng.normal(scale=0.03, size=pos.shape)
        perfect = False
    elif d == "hot":
        pos = pos + rng.normal(scale=0.10, size=pos.shape)
        perfect = False
    elif d == "strain":
        E = np.eye(3) + rng.uniform(-0.02, 0.02, (3, 3))
        box, pos = box @ E, pos @ E
        pos = pos + rng.normal(scale=0.002, size=pos.shape)
        perfect = False
    elif d == "vacancy":
        pos = pos + rng.normal(scale=0.01, size=pos.shape)
        keep = np.ones(len(pos), bool)
        keep[rng.choice(len(pos), max(1, len(pos) // 40), replace=False)] = False
        pos = pos[keep]
        perfect = False
    lam = float(rng.uniform(0.7, 4))
    box, pos = box * lam, pos * lam
    t = case["trans"]
    pos = pos + rng.uniform(-1, 1, 3)
    if t == "rotate":
        R = gen.random_rotation(rng)
        box, pos = box @ R.T, pos @ R.T
    elif t == "permute":
        o = rng.permutation(3)
        box, pos = box[o], pos
        pos = pos[rng.permutation(len(pos))]
    elif t == "images":
        pos = pos + rng.integers(-2, 3, pos.shape) @ box
    return box, pos, lam, perfect


def signatures(P, cut):
    """Signatures (common, bonds, max, min) of the members of a shell with positions P (relative), and closeness to cut."""
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    near = D[np.triu_indices(len(P), 1)]
    margin = np.abs(near - cut).min()
    A = (D <= cut) & ~np.eye(len(P), dtype=bool)
    out = []
    for k in range(len(P)):
        c = np.nonzero(A[k])[0]
        sub = A[np.ix_(c, c)]
        deg = sub.sum(axis=1)
        out.append((len(c), int(sub.sum() // 2), int(deg.max(initial=0)), int(deg.min(initial=8))))
    return out, margin


def classify12(sig):
    if all(s == (4, 2, 1, 1) for s in sig):
        return 1
    f = sum(s == (4, 2, 1, 1) for s in sig)
    h = sum(s == (4, 2, 2, 0) for s in sig)
    if f == 6 and h == 6:
        return 2
    if all(s == (5, 5, 2, 2) for s in sig):
        return 4
    return 0


def classify14(sig):
    a = sum(s == (4, 4, 2, 2) for s in sig)
    b = sum(s == (6, 6, 2, 2) for s in sig)
    return 3 if (a == 6 and b == 8) else 0


def reference_cna(box, pos, lat=None):
    """(structure, decidable) of every atom."""
    n = len(pos)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    c = ref.Crystal(box, pos, 2.6 * sp)
    st, ok = np.zeros(n, int), np.ones(n, bool)
    for i in range(n):
        p, v, d = c.nearest(i, 16)
        if len(d) < 15 or d[14] > 2.55 * sp:
            ok[i] = False
            continue
        cut = 1.207 * d[:12].mean() if lat is None else 0.854 * lat
        sig, mg = signatures(v[:12], cut)
        tie = d[12] - d[11] < 1e-6
        x = classify12(sig)
        if tie or mg < 1e-6:
            ok[i] = False
            continue
        if x:
            st[i] = x
            continue
        cut = 1.207 * (1.1547 * d[:8].sum() + d[8:14].sum()) / 14 if lat is None else 1.207 * lat
        sig, mg = signatures(v[:14], cut)
        if d[14] - d[13] < 1e-6 or mg < 1e-6:
            ok[i] = False
            continue
        st[i] = classify14(sig)
    return st, ok


def reference_dia(box, pos):
    """Set of acceptable labels of every atom (None: not decidable)."""
    n = len(pos)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    c = ref.Crystal(box, pos, 2.6 * sp)
    four, ok = [], np.ones(n, bool)
    for i in range(n):
        p, v, d = c.nearest(i, 6)
        if len(d) < 5 or d[4] - d[3] < 1e-6:
            ok[i] = False
        four.append((p[:4], v[:4]))
    core = np.zeros(n, int)
    second = []
    for i in range(n):
        V, Q = [], []
        good = ok[i]
        for p, v in zip(*four[i]):
            good &= ok[p]
            for q, w in zip(*four[p]):
                u = v + w
                if np.linalg.norm(u) > 1e-6:
                    V.append(u)
                    Q.append(q)
        second.append(Q)
        V = np.array(V)
        if not good:
            ok[i] = False
            continue
        D = np.linalg.norm(V[:, None] - V[None], axis=2) + np.eye(len(V)) * 9
        if len(V) != 12 or D.min() < 1e-6:
            # not the second shell of a diamond-like atom
            continue
        cut = 1.207 * np.linalg.norm(V, axis=1).mean()
        sig, mg = signatures(V, cut)
        if mg < 1e-6:
            ok[i] = False
            continue
        core[i] = classify12(sig)
    labels = []
    for i in range(n):
        near1, near2 = four[i][0], second[i]
        if not ok[i] or any(not ok[j] for j in near1) or any(not ok[j] for j in near2):
            labels.append(None)
            continue
        if core[i] == 4:
            # an icosahedral second shell: no diamond label is documented for it
            labels.append(None)
            continue
        if core[i]:
            labels.append({1: {5}, 2: {8}}[core[i]])
            continue
        s = {core[j] for j in near1} - {0, 4}
        if s:
            labels.append({{1: 6, 2: 9}[x] for x in s})
            continue
        s = {core[j] for j in near2} - {0, 4}
        labels.append({{1: 7, 2: 10}[x] for x in s} or {0})
    return labels


NAMES = ["others", "fcc", "hcp", "bcc", "ico"]
DNAMES = NAMES + ["cubic diamond", "cubic diamond 1NN", "cubic diamond 2NN", "hex diamond", "hex diamond 1NN", "hex diamond 2NN"]


def tally(m, s, res, names, tag):
    st = np.array([a.structure for a in s.atoms])
    want = {k: int((st == i).sum()) for i, k in enumerate(names)}
    m.check(dict(res) == want, "counts" + tag, "returned counts are not those of the structures of the atoms", got=res, want=want)
    m.check(sum(res.values()) == len(st), "sum" + tag, "counts do not add up to the number of atoms", got=res)
    return st


def judge_cna(m, s, box, pos, lat=None, tag="", perfect=None):
    res = s.calculate_cna() if lat is None else s.calculate_cna(lattice_constant=lat)
    st = tally(m, s, res, NAMES, tag)
    want, ok = reference_cna(box, pos, lat)
    m.count("atoms", len(st))
    m.count("decided", ok.sum())
    for i, k in enumerate(NAMES):
        m.count(k, int((st == i).sum()))
    bad = np.nonzero(ok & (st != want))[0]
    m.check(len(bad) == 0, "structure" + tag, "%d atoms have another structure than their bond signatures" % len(bad),
            first=[(int(i), int(st[i]), int(want[i])) for i in bad[:3]], n=len(st))
    return st, ok


def judge_dia(m, s, box, pos, tag="", **kw):
    res = s.identify_diamond(**kw)
    st = tally(m, s, res, DNAMES, tag)
    want = reference_dia(box, pos)
    m.count("atoms", len(st))
    m.count("cubic", int((st == 5).sum()))
    m.count("hex", int((st == 8).sum()))
    m.count("1nn", int(((st == 6) | (st == 9)).sum()))
    m.count("2nn", int(((st == 7) | (st == 10)).sum()))
    m.count("decided", sum(w is not None for w in want))
    bad = [i for i, w in enumerate(want) if w is not None and st[i] not in w]
    m.check(len(bad) == 0, "diamond" + tag, "%d atoms have another label than their environment" % len(bad),
            first=[(int(i), int(st[i]), sorted(want[i])) for i in bad[:3]], n=len(st))
    return st


def judge_fcc(m, s, box, pos, tag):
    """find_diamond_neighbors: the four nearest atoms of each of the four nearest atoms, without the atom itself."""
    try:
        s.find_diamond_neighbors()
    except RuntimeError:
        m.count("fcc_refused")
        return
    n = len(pos)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    c = ref.Crystal(box, pos, 2.6 * sp)
    four = []
    for i in range(n):
        p, v, d = c.nearest(i, 5)
        four.append((p[:4], v[:4]) if len(d) == 5 and d[4] - d[3] > 1e-6 and d[4] < 2.6 * sp else None)
    half = 0.5 * gen.heights(calcbox(s)).min()
    for i, a in enumerate(s.atoms):
        if four[i] is None or any(four[j] is None for j in four[i][0]):
            continue
        W = np.array([v + w for j, v in zip(*four[i]) for w in four[j][1]])
        W = W[np.linalg.norm(W, axis=1) > 1e-6]
        if np.linalg.norm(W, axis=1).max() >= half:
            continue
        got = np.array(a.neighbor_vector, float).reshape(-1, 3)
        m.count("second_shells")
        d = np.linalg.norm(got[:, None] - W[None], axis=2) if len(got) else np.ones((1, 1))
        if not m.check(d.min(0).max() < 1e-6 * sp and d.min(1).max() < 1e-6 * sp, "second" + tag, "neighbors are not the nearest neighbors of the nearest neighbors", atom=i, n=n, got=len(got), want=len(W)):
            return
        D = np.linalg.norm(W[:, None] - W[None], axis=2) + np.eye(len(W)) * 9
        if D.min() > 1e-6:
            m.check(len(got) == len(W) == a.coordination, "second-count" + tag, "a neighbor of the nearest neighbors is listed twice", atom=i, n=n, got=len(got), want=len(W))
        m.close(a.neighbor_distance, np.linalg.norm(got, axis=1), "second-dist" + tag, "distances of the neighbors are not those of their vectors", rtol=0, atol=1e-8)


def run_case(case, m):
    rng = m.rng
    k = case["kind"]
    if k in ("ico", "unitcells"):
        return globals()["run_" + k](case, m)
    if k == "gas":
        box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), dmin=0.7)
        s = gen.make_system(box, pos)
        if case["diamond"]:
            judge_fcc(m, gen.make_system(box, pos), box, pos, "-gas")
            judge_dia(m, s, box, pos, "-gas")
            judge_fcc(m, s, box, pos, "-gas-again")
        else:
            judge_cna(m, s, box, pos, tag="-gas")
        m.nontrivial("gas", case["diamond"], case["cell"], case["n"])
        return
    box, pos, lam, perfect = build(case, rng)
    s = gen.make_system(box, pos)
    seq = case["struct"]
    if case["diamond"]:
        st = judge_dia(m, s, box, pos, "-dia")
        if perfect:
            want = {"fcc": {5}, "hcp": {8}}.get(seq)
            m.check(set(st.tolist()) <= (want or {5, 8}), "perfect-dia", "perfect %s diamond stacking" % seq, got=sorted(set(st.tolist())))
        judge_fcc(m, s if rng.random() < 0.5 else gen.make_system(box, pos), box, pos, "-dia")
        if rng.random() < 0.4:
            # the search for neighbors may be made separately
            s2 = gen.make_system(box, pos)
            s2.find_neighbors(method="number", nmax=4, assign_neighbor=False, threshold=3)
            judge_dia(m, s2, box, pos, "-dia-separate", find_neighbors=False)
    elif k == "fixed":
        a = {"fcc": np.sqrt(2), "hcp": np.sqrt(2), "bcc": 2 / np.sqrt(3)}[seq] * lam
        judge_cna(m, s, box, pos, lat=a * float(rng.uniform(0.99, 1.01)), tag="-fixed")
    else:
        if k == "history":
            rc = 1.3 * lam
            for step in range(4):
                w = int(rng.integers(5))
                if w == 0:
                    s.find_neighbors(method="cutoff", cutoff=rc)
                elif w == 1:
                    s.find_neighbors(method="voronoi")
                elif w == 2:
                    s.find_neighbors(method="number", nmax=6)
                elif w == 3:
                    s.identify_diamond()
                else:
                    s.calculate_centrosymmetry(nmax=8)
                judge_cna(m, s, box, pos, tag="-history")
        st, ok = judge_cna(m, s, box, pos)
        if perfect:
            want = {"fcc": {1}, "hcp": {2}, "bcc": {3}}.get(seq, {1, 2})
            m.check(set(st.tolist()) <= want, "perfect", "perfect %s" % seq, got=sorted(set(st.tolist())))
            if seq in ("dhcp", "fault", "twin", "9R"):
                # a layer is hcp-like exactly if the layers above and below are the same
                q = STACK[seq]
                hc = sum(q[i - 1] == q[(i + 1) % len(q)] for i in range(len(q)))
                m.check(int((st == 2).sum()) * len(q) == hc * len(st), "stacking", "hcp fraction of stacking %s" % q, got=int((st == 2).sum()), n=len(st))
    m.nontrivial(k, seq, case["dist"], case["trans"], len(pos) < 200)


def run_ico(case, m):
    """Icosahedra embedded in a dilute surrounding."""
    rng = m.rng
    g = (1 + np.sqrt(5)) / 2
    V = np.array([(0, s, t * g) for s in (-1, 1) for t in (-1, 1)] + [(s, t * g, 0) for s in (-1, 1) for t in (-1, 1)] + [(t * g, 0, s) for s in (-1, 1) for t in (-1, 1)], float)
    V /= np.linalg.norm(V[0])
    for rep in range(4):
        R = gen.random_rotation(rng)
        P = [np.zeros(3)] + list(V @ R.T)
        L = 7.0
        box = gen.cell(rng, pick(rng, gen.CELLS), L)
        P = np.array(P) + rng.normal(scale=0.01, size=(13, 3))
        extra = []
        X = rng.uniform(0, 1, (400, 3)) @ box
        X = X[np.linalg.norm(ref.mic(box, X), axis=1) > 2.1]
        for x in X:
            if not extra or np.linalg.norm(ref.mic(box, x - np.array(extra)), axis=1).min() > 0.9:
                extra.append(x)
        P = np.concatenate([P, np.array(extra).reshape(-1, 3)])
        s = gen.make_system(box, P + rng.uniform(-3, 3, 3))
        st, ok = judge_cna(m, s, box, P, tag="-ico")
        m.check(not ok[0] or st[0] == 4, "ico", "the centre of an icosahedron is not icosahedral", got=int(st[0]))
        m.nontrivial("ico", len(P))


def run_unitcells(case, m):
    """Conventional and primitive cells of perfect lattices."""
    for st, want in (("fcc", 1), ("bcc", 3)):
        for reps in ([1, 1, 1], [1, 1, 2], [2, 3, 2], [6, 5, 6]):
            f = gen.lattice(st, reps)
            box = np.diag(np.array(reps, float)) * 3.1
            s = gen.make_system(box, f @ box)
            res = s.calculate_cna()
            m.check(res[{1: "fcc", 3: "bcc"}[want]] == len(f), "unit", "cell of %s with %s repetitions" % (st, reps), got=res)
            m.count("atoms", len(f))
            m.nontrivial("unit", st, str(reps))
    for reps in ([1, 1, 1], [2, 1, 2], [3, 3, 3]):
        f = gen.lattice("diamond", reps)
        box = np.diag(np.array(reps, float)) * 5.4
        s = gen.make_system(box, f @ box)
        res = s.identify_diamond()
        m.check(res["cubic diamond"] == len(f), "unit-dia", "cell of diamond with %s repetitions" % (reps,), got=res)
        m.nontrivial("unit", "diamond", str(reps))
    prim = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]) * 4
    s = gen.make_system(prim, [[0.1, 0.2, 0.3]])
    m.check(s.calculate_cna()["fcc"] == 1, "prim", "primitive cell of fcc")
    prim = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]) * 3
    s = gen.make_system(prim, [[0.1, 0.2, 0.3]])
    m.check(s.calculate_cna()["bcc"] == 1, "prim", "primitive cell of bcc")
    for seq in ("ABC", "AB", "ABAC", "ABCBCACAB"):
        for n in ((1, 1), (2, 1), (1, 2), (4, 2)):
            for dia in (False, True):
                box, pos = close_packed(seq, n[0], n[1], 1, dia)
                s = gen.make_system(box * 2.5, pos * 2.5)
                hc = sum(seq[i - 1] == seq[(i + 1) % len(seq)] for i in range(len(seq)))
                res = s.identify_diamond() if dia else s.calculate_cna()
                got = (res["hex diamond"], res["cubic diamond"]) if dia else (res["hcp"], res["fcc"])
                want = (hc * len(pos) // len(seq), (len(seq) - hc) * len(pos) // len(seq))
                m.check(got == want, "unit-layers", "cell of stacking %s with %d x %d repetitions, diamond %s" % (seq, n[0], n[1], dia), got=got, want=want)
                m.count("atoms", len(pos))
                m.nontrivial("unit", seq, str(n), dia)
