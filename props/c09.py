"""C09: clusters are connected components of the graph of selected atoms."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, env, pick

RULE = "one signature per (kind of graph, way of giving the condition, cell, size class, cutoff given or not) in which the partition was compared"
ASSUMPTIONS = ["after a Voronoi search, which has no cutoff, the clustering cutoff is always given", "symmetric neighbor lists (cutoff and Voronoi methods); no distance within 1e-7 of the clustering cutoff"]
NEED = {"partitions": 40, "atoms": 5000, "multi": 10, "across": 2}


def cases(tier, seed):
    add, out = caser("C09", seed)
    rng = np.random.default_rng([seed, 9])
    big = tier == "thorough"
    conds = ["callable", "attr", "custom", "none", "all", "type"]
    for rep in range(10 if big else 2):
        for ck in gen.CELLS:
            add("perc", n=int(rng.choice([3, 10, 60, 150, 199, 200, 320])), cell=ck, place=pick(rng, gen.PLACES), cond=pick(rng, conds), struct=pick(rng, [None, None, "sc", "bcc"]))
        for c in conds:
            add("perc", n=int(rng.choice([20, 250])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), cond=c, struct=None)
        add("chain", n=int(rng.choice([300, 900])), cond="callable")
        add("across", n=int(rng.choice([40, 400])), cell=pick(rng, gen.CELLS), cond="attr")
    add("chain", n=20000 if big else 6000, cond="all")
    add("perc", n=2600, cell=pick(rng, gen.ORTH), place="far", cond="custom", struct=None)
    add("perc", n=2700, cell=pick(rng, gen.EXTREME), place="images", cond="attr", struct=None)
    return out


def flags_for(case, rng, s, n):
    """Boolean flags and the condition argument that selects them. May change attributes of the atoms."""
    k = case["cond"]
    fl = rng.random(n) < rng.uniform(0.15, 0.6)
    if k == "none":
        fl[:] = False
    if k == "all":
        fl[:] = True
    at = s.atoms
    if k in ("callable", "none", "all"):
        ids = {a.id: i for i, a in enumerate(at)}
        truth = pick(rng, [bool, int, np.bool_])
        return fl, (lambda a: truth(fl[ids[a.id]]))
    if k == "type":
        want = 2
        return np.array([a.type == want for a in at]), (lambda a: a.type == want)
    for i, a in enumerate(at):
        if k == "attr":
            a.solid = bool(fl[i])
        else:
            a.custom = {"sel": int(fl[i])}
    s.update_atoms(at)
    return fl, ("solid" if k == "attr" else "sel")


def check(m, s, fl, got, cut, tag, par=None):
    atoms = s.atoms
    n = len(atoms)
    allat = s.get_all_atoms()
    edges = []
    across = False
    for i in range(n):
        if not fl[i]:
            continue
        idx, v, d = env(atoms[i])
        for j, dd in zip(idx, d):
            h = int(j) if j < n else allat[j].head
            across |= j >= n
            if fl[h] and (not cut or dd <= cut):
                edges.append((i, h))
    lab = np.array(ref.components(n, edges))
    ids = np.array([a.cluster for a in atoms])
    m.count("atoms", n)
    m.count("partitions")
    if across:
        m.count("across_ghosts")
    if not m.check(np.array_equal(ids == -1, ~fl), "members" + tag, "atoms in clusters are not those that satisfy the condition",
                   extra=int(((ids != -1) & ~fl).sum()), missing=int(((ids == -1) & fl).sum())):
        return None
    # bijection between ids and components
    pairs = set(zip(ids[fl].tolist(), lab[fl].tolist()))
    ncl = len(set(lab[fl].tolist()))
    if not m.check(len(pairs) == ncl == len(set(ids[fl].tolist())), "partition" + tag, "clusters are not the connected components: %d ids, %d components" % (len(set(ids[fl].tolist())), ncl)):
        return None
    m.count("multi", ncl > 1)
    sizes = {x: int((lab == x).sum()) for x in set(lab[fl].tolist())}
    size = max(sizes.values(), default=0)
    if got is not None:
        m.check(got == size, "largest" + tag, "cluster_atoms returned %r, the largest component has %d" % (got, size))
    lf = np.array([bool(a.largest_cluster) for a in atoms])
    m.check(int(lf.sum()) == size and len(set(lab[lf].tolist())) <= 1 and not np.any(lf & ~fl), "flags" + tag, "largest_cluster does not mark one largest component",
            marked=int(lf.sum()), want=size)
    m.check(s.find_largestcluster() == size, "find_largestcluster" + tag, "find_largestcluster disagrees")
    if size:
        m.check(set(ids[lf].tolist()) == {s.largest_clusterid}, "id" + tag, "largest_clusterid is not the id of the marked cluster", got=s.largest_clusterid)
    return ncl


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "chain":
        return run_chain(case, m)
    if case["kind"] == "across":
        return run_across(case, m)
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), nt=2, struct=case["struct"], noise=0.05, dmin=0.4, shape="any")
    n = len(pos)
    h = gen.heights(box).min()
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    lim = h * (2.4 if n <= 4 else 1.45 if n < 200 else 0.49)
    rc = ref.cutoff_in_gap(box, pos, min(rng.uniform(*pick(rng, [(1.0, 1.5), (1.0, 1.5), (0.55, 1.0)])) * sp, lim))
    if rc is None:
        return
    s = gen.make_system(box, pos, typ)
    voronoi = 20 < n < 1000 and case["cell"] not in gen.EXTREME and rng.random() < 0.25
    if voronoi:
        s.find_neighbors(method="voronoi")
        rc = 1.3 * sp
        m.count("voronoi")
    else:
        s.find_neighbors(method="cutoff", cutoff=rc)
    m.count("isolated", sum(a.coordination == 0 for a in s.atoms))
    for step in range(3):
        fl, cond = flags_for(case, rng, s, n)
        cut = 0
        if rng.random() < 0.5:
            c = ref.cutoff_in_gap(box, pos, min(rc * rng.uniform(0.6, 1.2), lim))
            cut = c or 0
        if voronoi and not cut:      # a Voronoi search has no cutoff of its own
            cut = 50 * sp
        kw = dict(cutoff=cut) if cut else {}
        largest = bool(rng.random() < 0.8)
        if not largest:
            kw["largest"] = False
        got = s.cluster_atoms(cond, **kw)
        m.check((got is not None) == largest, "return", "largest=%r returned %r" % (largest, got))
        k = check(m, s, fl, got, cut, "" if step == 0 else "-repeated")
        if k is None:
            return
        m.nontrivial("perc", case["cond"], case["cell"], n < 200, bool(cut), step, min(k, 5))


def run_chain(case, m):
    """Long chains and spirals: depth of the search must not matter, nor the numbering."""
    rng = m.rng
    n = case["n"]
    L = int(np.ceil(n / 40.0)) * 1.0 + 45
    k = np.arange(n)
    row, colm = k // 40, k % 40
    x = np.where(row % 2 == 0, colm, 39 - colm) * 1.0
    y = row * 2.0
    # consecutive rows are linked by one atom halfway
    links = [(x[40 * r + 39], 2 * r + 1.0) for r in range(int(row.max())) if 40 * r + 40 < n]
    P = np.concatenate([np.c_[x, y, np.zeros(n)], np.array([[a, b, 0.0] for a, b in links]).reshape(-1, 3)])
    o = rng.permutation(len(P))
    P = P[o]
    box = np.diag([50.0, 2 * row.max() + 12.0, 30.0])
    s = gen.make_system(box, P + rng.uniform(-30, 30, 3))
    s.find_neighbors(method="cutoff", cutoff=1.2)
    fl = np.ones(len(P), bool)
    if case["cond"] != "all":
        fl[rng.choice(len(P), 3, replace=False)] = False
    ids = {a.id: i for i, a in enumerate(s.atoms)}
    got = s.cluster_atoms(lambda a: bool(fl[ids[a.id]]))
    k = check(m, s, fl, got, 0, "-chain")
    m.nontrivial("chain", n, case["cond"], k)


def run_across(case, m):
    """A compact cluster cut by all periodic boundaries is one cluster."""
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], "inside", spacing=2.0, struct=None, dmin=0.6)
    n = len(pos)
    h = gen.heights(box).min()
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    d = np.linalg.norm(ref.mic(box, pos), axis=1)      # distance from the corner of the cell
    rc = ref.cutoff_in_gap(box, pos, min(1.5 * sp, h * (1.45 if n < 200 else 0.49)))
    fl = d < 0.4 * h
    s = gen.make_system(box, pos, typ)
    at = s.atoms
    for i, a in enumerate(at):
        a.solid = bool(fl[i])
    s.update_atoms(at)
    s.find_neighbors(method="cutoff", cutoff=rc)
    got = s.cluster_atoms("solid")
    k = check(m, s, fl, got, 0, "-across")
    m.count("across")
    m.nontrivial("across", case["cell"], n < 200, k)
