"""C08: solid bonds, their averages, solid atoms and the largest solid cluster from first principles."""
import numpy as np

from props.c06 import QRef, search
from vlib import gen, ref
from vlib.sysu import caser, env, pick

RULE = "one signature per (neighbor method, cell, structure, criterion, comparison, l) in which all atoms were judged"
ASSUMPTIONS = ["atoms with a value within 1e-7 of a threshold are not judged", "clusters are compared for symmetric neighbor lists"]
NEED = {"atoms": 3000, "solid": 100, "liquid": 100, "clusters": 10, "right_false": 3}


def cases(tier, seed):
    add, out = caser("C08", seed)
    rng = np.random.default_rng([seed, 8])
    big = tier == "thorough"
    for rep in range(10 if big else 2):
        for ck in gen.CELLS:
            add("solid", n=int(rng.choice([8, 30, 90, 199, 200, 300])), cell=ck, place=pick(rng, gen.PLACES), method=pick(rng, ["cutoff", "cutoff", "voronoi", "adaptive", "number", "type"]),
                struct=pick(rng, [None, "fcc", "bcc", "sc"]), noise=float(pick(rng, [0.02, 0.08, 0.14])))
        for st in ("fcc", "bcc"):
            add("nucleus", n=int(rng.choice([500, 864])), cell=pick(rng, gen.CELLS[:2]), place=pick(rng, ["inside", "images", "boundary"]), method="cutoff", struct=st)
        add("sequence", n=int(rng.choice([60, 250])), cell=pick(rng, gen.CELLS), place="inside", method="cutoff", struct="fcc", noise=0.1)
        for k in range(2):
            add("resequence", n=int(rng.choice([60, 250])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), method="cutoff", struct=pick(rng, ["fcc", "bcc"]), noise=0.1)
    return out


def correlations(R, l):
    """s_ij for every neighbor of every real atom, from reference components."""
    c = R.all(l)
    nrm = np.sqrt((np.abs(c) ** 2).sum(axis=1))
    out = []
    for i in range(R.n):
        p = R.nb[i][0]
        out.append(np.real((c[p] * np.conj(c[i])).sum(axis=1)) / (nrm[p] * nrm[i]))
    return out


def verdict(sij, bonds, thr, avt, right):
    """(bond count, mean, solid, doubtful)"""
    k = len(sij)
    if k == 0:
        return 0, np.nan, False, False
    cnt = int((sij > thr).sum() if right else (sij < thr).sum())
    doubt = np.abs(sij - thr).min() < 1e-7
    mean = sij.mean()
    okavg = mean > avt if right else mean < avt
    doubt |= abs(mean - avt) < 1e-7
    if isinstance(bonds, int):
        ok = cnt > bonds
    else:
        ok = cnt / k > bonds
        doubt |= abs(cnt / k - bonds) < 1e-9
    return cnt, mean, bool(ok and okavg), bool(doubt)


def judge(m, s, R, l, bonds, thr, avt, right, tag=""):
    sij = correlations(R, l)
    atoms = s.atoms
    flags = np.array([bool(a.solid) for a in atoms])
    for i, a in enumerate(atoms):
        cnt, mean, sol, doubt = verdict(sij[i], bonds, thr, avt, right)
        if not len(sij[i]):
            m.check(not a.solid, "isolated" + tag, "an atom without neighbors is solid")
            continue
        got = np.array(a.sij, float)[:len(sij[i])]
        if not m.close(got, sij[i], "sij" + tag, "s_ij differs from the normalised product of q_%d" % l, rtol=1e-6, atol=1e-7):
            return None
        if not m.close(a.avg_sij, mean, "avg_sij" + tag, "average of s_ij", rtol=1e-6, atol=1e-7):
            return None
        m.count("atoms")
        m.count("solid" if sol else "liquid")
        if doubt:
            m.count("doubtful")
            flags[i] = sol      # either is fine
            continue
        if not m.check(a.bonds == cnt, "bonds" + tag, "number of solid bonds", got=a.bonds, want=cnt, thr=thr, right=right):
            return None
        if not m.check(bool(a.solid) == sol, "solid" + tag, "atom %d is %s" % (i, "not solid" if sol else "solid"), bonds=bonds, thr=thr, avt=avt, right=right, cnt=cnt, mean=mean, nn=len(sij[i])):
            return None
    return np.array([bool(a.solid) for a in atoms])


def clusters_of(R, flags, cut=None):
    edges = []
    for i in range(R.n):
        if not flags[i]:
            continue
        idx, v, w = R.nb[i]
        d = np.linalg.norm(v, axis=1)
        for j, dd in zip(idx, d):
            h = R.heads[j]
            if flags[h] and (cut is None or dd <= cut):
                edges.append((i, h))
    lab = np.array(ref.components(R.n, edges))
    return np.where(flags, lab, -1)


def pars(rng):
    fr = rng.random() < 0.5
    bonds = float(rng.choice([0.0, 0.25, 0.5, 0.75, rng.uniform(0, 1), 1.0])) if fr else int(rng.choice([0, 3, 6, 7, 8, 11, 20]))
    return bonds, float(pick(rng, [0.5, rng.uniform(0, 1), rng.uniform(0, 0.4), 0.0, 1.0])), float(pick(rng, [0.6, rng.uniform(0, 1), rng.uniform(0, 0.3), 0.0]))


def one(m, s, R, rng, symmetric, rc, tag=""):
    bonds, thr, avt = pars(rng)
    right = bool(rng.random() < 0.65)
    l = int(pick(rng, [6, 6, 4, int(rng.integers(2, 13))]))
    clus = bool(rng.random() < 0.75)
    kw = dict(bonds=bonds, threshold=thr, avgthreshold=avt, cluster=clus, q=l, right=right)
    cut = 0
    if clus and rc is not None and rng.random() < 0.3:
        cut = rc * 0.85
        kw["cutoff"] = cut
    if rng.random() < 0.2 and l == 6 and right and not cut:
        kw.pop("right")
        kw.pop("q")
    got = s.find_solids(**kw)
    flags = judge(m, s, R, l, bonds, thr, avt, right, tag)
    if flags is None:
        return
    if not right:
        m.count("right_false")
    if clus:
        m.count("clusters")
        if symmetric and (not cut or near(R, cut) > 1e-7):
            lab = clusters_of(R, flags, cut or None)
            size = max([int((lab == x).sum()) for x in set(lab[flags])], default=0)
            m.check(got == size, "largest" + tag, "find_solids returned %r, the largest cluster of solid atoms has %d" % (got, size), cutoff=cut)
            fl = np.array([bool(a.largest_cluster) for a in s.atoms])
            m.check(fl.sum() == size and (size == 0 or len(set(lab[fl])) == 1), "largest-flags" + tag, "flags of the largest cluster", got=int(fl.sum()), want=size)
            m.check(not np.any(fl & ~flags), "largest-flags" + tag, "an atom that is not solid is in the largest solid cluster")
            for a, f, i in zip(s.atoms, flags, range(R.n)):
                nb = [R.heads[j] for j in R.nb[i][0]]
                want = (not f) or any(not flags[h] for h in nb)
                if not m.check(bool(a.surface) == want, "surface" + tag, "surface flag of atom %d" % i, got=a.surface, solid=bool(f)):
                    break
    if rng.random() < 0.3:
        # the same bonds again, and one at a time
        keep = [(a.bonds, list(a.sij), a.avg_sij) for a in s.atoms]
        s.calculate_solidneighbors()
        m.check([(a.bonds, list(a.sij), a.avg_sij) for a in s.atoms] == keep, "bonds-again" + tag, "calculate_solidneighbors gives other bonds than find_solids")
        al = s.get_all_atoms()
        for i in rng.integers(0, R.n, 3):
            for j, x in list(zip(al[i].neighbors, keep[i][1]))[:3]:
                m.close(s.get_number_from_bond(al[int(i)], al[j]), x, "one-bond" + tag, "get_number_from_bond of an atom and its neighbor", rtol=1e-9, atol=1e-10)
                m.count("single_bonds")
    if not clus:
        m.check(got is None, "return" + tag, "find_solids(cluster=False) returned %r" % (got,))
    return l, isinstance(bonds, int), right


def near(R, cut):
    d = np.concatenate([np.linalg.norm(R.nb[i][1], axis=1) for i in range(R.n)] + [np.zeros(1)])
    return np.abs(d - cut).min()


def config(case, rng):
    nt = 2 if case["method"] == "type" else 1
    return gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), nt=nt, struct=case["struct"],
                      noise=case.get("noise", 0.05), dmin=0.45, shape="any")


def run_case(case, m):
    rng = m.rng
    kind = case["kind"]
    box, pos, typ = config(case, rng)
    n = len(pos)
    if kind == "nucleus":
        # melt everything outside a sphere that crosses the periodic boundary
        sp = np.cbrt(abs(np.linalg.det(box)) / n)
        c = rng.uniform(0, 1, 3) @ box
        d = np.linalg.norm(ref.mic(box, pos - c), axis=1)
        out = d > 0.33 * gen.heights(box).min()
        pos = pos + np.where(out[:, None], rng.normal(scale=0.22 * sp, size=pos.shape), rng.normal(scale=0.02 * sp, size=pos.shape))
    s = gen.make_system(box, pos, typ)
    try:
        search(s, case["method"], box, n, rng)
    except RuntimeError:
        m.count("refused")
        m.nontrivial("refused", case["method"])
        return
    sym = case["method"] in ("cutoff", "type", "voronoi")
    rc = s.atoms[0].cutoff if case["method"] in ("cutoff", "type") else None
    R = QRef(s)
    if kind == "resequence":
        # other neighbors, moved atoms and q values in between, often with the same l
        for k in range(5):
            for f in rng.permutation(["search", "move", "q"])[:int(rng.integers(1, 4))]:
                if f == "search":
                    me = pick(rng, ["cutoff", "adaptive", "number", "short"])
                    if me == "short":
                        s.find_neighbors(method="cutoff", cutoff=min(1.25 * np.cbrt(abs(np.linalg.det(box)) / n), gen.heights(box).min() * (1.4 if n < 200 else 0.49)))
                    else:
                        search(s, me, box, n, rng)
                elif f == "move":
                    at = s.atoms
                    pos = pos + rng.normal(scale=0.04 * np.cbrt(abs(np.linalg.det(box)) / n), size=pos.shape)
                    for a, x in zip(at, pos):
                        a.pos = x.tolist()
                    s.atoms = at
                    s.find_neighbors(method="cutoff", cutoff=min(1.45 * np.cbrt(abs(np.linalg.det(box)) / n), gen.heights(box).min() * (1.4 if n < 200 else 0.49)))
                else:
                    s.calculate_q([4, 6], averaged=bool(rng.integers(2)))
            R = QRef(s)
            r = one(m, s, R, rng, False, None, "-resequence")
            if r is None or m.fails:
                return
            m.nontrivial(kind, case["cell"], case["struct"], *r)
        return
    got = None
    for k in range(8 if kind == "sequence" else 3):
        r = one(m, s, R, rng, sym and case["method"] != "voronoi", rc, "-sequence" if kind == "sequence" else "")
        if r is None or m.fails:
            return
        m.nontrivial(kind, case["method"], case["cell"], case["struct"], *r)
