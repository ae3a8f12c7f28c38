"""Recipes: calculations on a System that give per-atom arrays, used by the metamorphic and differential monitors.

Every recipe takes (system, p) with p a dict of lengths and parameters and returns {name: (array of n rows, power of
length)}.  They are invariant under rotation, translation, renumbering and periodic images of generic configurations.
"""
import numpy as np


def params(rng, sp, lim):
    """Parameters for a configuration with `sp`**3 volume per atom, in which distances below `lim` are valid."""
    rc = float(min(rng.uniform(1.3, 1.75) * sp, lim))
    return dict(rc=rc, sp=float(sp), lim=float(lim), l=int(rng.integers(2, 13)), thr=float(rng.uniform(0.2, 0.7)), avt=float(rng.uniform(0.2, 0.6)),
                bonds=float(rng.uniform(0.2, 0.8)), ibonds=int(rng.integers(3, 8)), right=bool(rng.random() < 0.7), nmax=int(rng.choice([6, 8, 12, 14])),
                sigma=float(rng.uniform(0.08, 0.2) * sp), rstart=0.002 * sp, h=0.02 * sp, voroexp=int(rng.integers(1, 4)), local=bool(rng.random() < 0.4),
                rdfmax=float(0.95 * lim), bins=int(rng.integers(5, 40)), alat=float(sp * 4 ** (1 / 3.)), factor=float(rng.uniform(0.9, 1.4)))


def scaled(p, lam):
    q = dict(p)
    for k in ("rc", "sp", "lim", "sigma", "rstart", "h", "rdfmax", "alat"):
        q[k] = p[k] * lam
    return q


def col(s, f, dim=0):
    return np.array([f(a) for a in s.atoms], dtype=float), dim


def padded(s, f, dim, n):
    """Rows of different length as sorted rows padded with nan."""
    rows = [np.sort(np.array(f(a), float)) for a in s.atoms]
    out = np.full((len(rows), n), np.nan)
    for i, r in enumerate(rows):
        out[i, :min(n, len(r))] = r[:n]
    return out, dim


def neighbors(s, **kw):
    s.find_neighbors(**kw)


def nbdata(s):
    return {"coordination": col(s, lambda a: a.coordination), "distances": padded(s, lambda a: a.neighbor_distance, 1, 40)}


def qs(s, ls):
    out = {}
    for l in ls:
        out["q%d" % l] = (np.array(s.get_qvals(l)), 0)
        out["aq%d" % l] = (np.array(s.get_qvals(l, averaged=True)), 0)
    return out


def cutoff(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    out = nbdata(s)
    out["cutoff"] = col(s, lambda a: a.cutoff, 1)
    return out


def cutoff_type(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"], filter="type")
    a = nbdata(s)
    neighbors(s, method="cutoff", cutoff=p["rc"], filter="type_r")
    b = nbdata(s)
    out = {k + "_type": v for k, v in a.items()}
    out.update({k + "_type_r": v for k, v in b.items()})
    return out


def adaptive(s, p):
    neighbors(s, method="cutoff", cutoff="adaptive", threshold=2)
    out = nbdata(s)
    out["cutoff"] = col(s, lambda a: a.cutoff, 1)
    return out


def sann(s, p):
    neighbors(s, method="cutoff", cutoff="sann", threshold=2)
    out = nbdata(s)
    return out


def number(s, p):
    neighbors(s, method="number", nmax=p["nmax"], threshold=2)
    return nbdata(s)


def voronoi(s, p):
    neighbors(s, method="voronoi", voroexp=p["voroexp"])
    s.calculate_vorovector()
    out = {"volume": col(s, lambda a: a.volume, 3), "avg_volume": col(s, lambda a: a.avg_volume, 3),
           "vorovector": col(s, lambda a: a.vorovector)}
    s.calculate_q([4, 6], averaged=True)
    out.update(qs(s, [4, 6]))
    return out


def steinhardt(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    ls = sorted(set([4, 6, p["l"]]))
    s.calculate_q(ls, averaged=True)
    return qs(s, ls)


def steinhardt_adaptive(s, p):
    neighbors(s, method="cutoff", cutoff="adaptive", threshold=2)
    s.calculate_q([p["l"]], averaged=True)
    return qs(s, [p["l"]])


def disorder(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    s.calculate_q([p["l"]])
    s.calculate_disorder(averaged=True, q=p["l"])
    return {"disorder": col(s, lambda a: a.disorder), "avg_disorder": col(s, lambda a: a.avg_disorder)}


def solids(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    s.find_solids(bonds=p["bonds"], threshold=p["thr"], avgthreshold=p["avt"], q=p["l"], right=p["right"], cluster=False)
    return {"avg_sij": col(s, lambda a: a.avg_sij), "solid": col(s, lambda a: a.solid), "bonds": col(s, lambda a: a.bonds)}


def clusters(s, p):
    """The size of the cluster of every atom is not a per-cell quantity; the flags of membership are."""
    neighbors(s, method="cutoff", cutoff=p["rc"])
    lc = s.find_solids(bonds=p["ibonds"], threshold=p["thr"], avgthreshold=p["avt"] * 0.5, q=6)
    ids = np.array([a.cluster for a in s.atoms])
    size = np.array([np.sum(ids == i) if i != -1 else 0 for i in ids], float)
    return {"cluster_size": (size, 0), "in_cluster": ((ids != -1).astype(float), 0), "largest": (np.full(len(ids), float(lc)), 0),
            "surface": col(s, lambda a: a.surface)}


def cna(s, p):
    res = s.calculate_cna()
    return {"structure": col(s, lambda a: a.structure)}


def cna_fixed(s, p):
    s.find_neighbors(method="cutoff", cutoff=p["rc"])
    s.calculate_cna(lattice_constant=p["alat"])
    return {"structure": col(s, lambda a: a.structure)}


def diamond(s, p):
    s.identify_diamond()
    return {"structure": col(s, lambda a: a.structure)}


def centro(s, p):
    v = s.calculate_centrosymmetry(nmax=p["nmax"])
    return {"csm": (np.array(v, float), 2)}


def angular(s, p):
    neighbors(s, method="number", nmax=max(4, p["nmax"]), threshold=2)
    s.calculate_angularcriteria()
    return {"angular": col(s, lambda a: a.angular)}


def chi(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    s.calculate_chiparams()
    return {"chiparams": col(s, lambda a: a.chiparams)}


def entropy(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    s.calculate_entropy(p["rc"], sigma=p["sigma"], rstart=p["rstart"], h=p["h"], local=p["local"], averaged=True)
    out = {"entropy": col(s, lambda a: a.entropy), "avg_entropy": col(s, lambda a: a.avg_entropy)}
    s.calculate_entropy(p["rc"], sigma=p["sigma"], rstart=p["rstart"], h=p["h"], averaged=True, switching_function=True, ra=p["rc"] * 0.8, M=12, N=6)
    out["entropy_switch"] = col(s, lambda a: a.avg_entropy)
    return out


def sro(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    out = {}
    v = s.calculate_sro(reference_type=1, average=True, shells=2)
    out["sro"] = (np.tile(np.array(v, float), (s.natoms, 1)), 0)
    out["sro_atoms"] = col(s, lambda a: list(a.sro) if a.type == 1 else [0.0, 0.0])
    v = s.calculate_pmsro(reference_type=2, compare_type=1, average=True, shells=1)
    out["pmsro"] = (np.tile(np.array(v, float), (s.natoms, 1)), 0)
    return out


def atomcut(s, p):
    neighbors(s, method="cutoff", cutoff=p["rc"])
    s.set_atom_cutoff(factor=p["factor"])
    return {"cutoff": col(s, lambda a: a.cutoff, 1)}


def rdf(s, p):
    g, r = s.calculate_rdf(histobins=p["bins"], histomin=0.0, histomax=p["rdfmax"])
    n = s.natoms
    return {"rdf": (np.tile(np.array(g, float), (n, 1)), 0), "r": (np.tile(np.array(r, float), (n, 1)), 1)}


RECIPES = {f.__name__: f for f in (cutoff, cutoff_type, adaptive, sann, number, voronoi, steinhardt, steinhardt_adaptive, disorder,
                                   solids, clusters, cna, cna_fixed, diamond, centro, angular, chi, entropy, sro, atomcut, rdf)}
PER_CELL = [k for k in RECIPES if k not in ("clusters", "rdf")]    # comparable between a cell and a supercell of it
NEED_TYPES = ("sro", "cutoff_type")
LATTICE = {"cna": ["fcc", "bcc"], "cna_fixed": ["fcc"], "diamond": ["diamond"], "solids": ["fcc", "bcc"], "clusters": ["fcc", "bcc"]}


def compare(m, a, b, key, msg, perm=None, lam=1.0, rtol=1e-6, atol=1e-7, **detail):
    """Row perm[i] of b (times the scale) is row i of a. True if everything agrees."""
    ok = True
    for k in a:
        x, dim = a[k]
        y = b[k][0]
        if perm is not None:
            y = y[perm]
        ok &= m.close(y / lam ** dim, x, "%s:%s" % (key, k), "%s: %s" % (msg, k), rtol=rtol, atol=atol, **detail)
        m.count("compared_" + k, len(x))
    return ok
