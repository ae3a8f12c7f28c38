"""C21: calculations on a used system give what they give on a fresh one."""
import numpy as np

from vlib import gen, quant, ref
from vlib.sysu import caser, pick

RULE = "one signature per (final calculation, kinds of steps before it, size class) that was compared with a fresh system"
ASSUMPTIONS = ["both sides run the same code; conditions given to calculate_q stay in force until cleared, as documented, and are not part of the histories"]
NEED = {"finals": 100, "steps": 300, "failed_steps": 10, "derived": 60}


def cases(tier, seed):
    add, out = caser("C21", seed)
    rng = np.random.default_rng([seed, 21])
    R = list(quant.RECIPES)
    for rep in range(8 if tier == "thorough" else 3):
        for r in R:
            for big in (False, True):
                add("history", final=r, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), n=int(rng.choice([210, 260] if big else [8, 25, 60])), steps=int(rng.integers(2, 6)))
        for r in R:
            # the calculation that is wrong may need the same calculation before
            add("pair", final=r, first=pick(rng, R), cell=pick(rng, gen.CELLS), place="inside", n=int(rng.choice([20, 220])))
        for d in DERIVED:
            add("derived", final=d, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), n=int(rng.choice([25, 60, 220])), steps=int(rng.integers(2, 7)))
            add("derived", final=d, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), n=int(rng.choice([25, 220])), steps=int(rng.integers(2, 4)))
        for k in range(4):
            add("reload", final=pick(rng, R), cell=pick(rng, gen.CELLS), place="inside", n=30, steps=4)
    return out


def lim(box, n):
    h = gen.heights(box).min()
    return 2.4 * h if n <= 4 else (1.45 * h if n < 200 else 0.49 * h)


def config(case, rng, n=None, cell=None, k=0):
    sp = float(rng.uniform(1, 4))
    n = n or case["n"]
    lat = quant.LATTICE.get(case.get("final"))
    st = pick(rng, lat) if lat and rng.random() < 0.7 else None
    box, pos, typ = gen.config(case["seed"] + 17 * k, n, cell or case["cell"], case["place"], spacing=sp, nt=2, struct=st, dmin=0.6, shape="any")
    return box, pos, typ, quant.params(rng, sp, lim(box, len(pos)))


# ---- calculations on a given set of neighbors
def d_q(s, p):
    s.calculate_q([p["l"], 4], averaged=True)
    return quant.qs(s, [p["l"], 4])


def d_qavg(s, p):
    s.calculate_q([6], only_averaged=False, averaged=True)
    return quant.qs(s, [6])


def d_solids(s, p):
    s.find_solids(bonds=p["bonds"], threshold=p["thr"], avgthreshold=p["avt"], q=p["l"], right=p["right"], cluster=False)
    return {"avg_sij": quant.col(s, lambda a: a.avg_sij), "solid": quant.col(s, lambda a: a.solid), "bonds": quant.col(s, lambda a: a.bonds)}


def d_clusters(s, p):
    lc = s.find_solids(bonds=p["ibonds"], threshold=p["thr"], avgthreshold=p["avt"] * 0.5, q=6)
    ids = np.array([a.cluster for a in s.atoms])
    size = np.array([np.sum(ids == i) if i != -1 else 0 for i in ids], float)
    return {"size": (size, 0), "largest": (np.full(len(ids), float(lc)), 0), "surface": quant.col(s, lambda a: a.surface),
            "flag": quant.col(s, lambda a: a.largest_cluster)}


def d_cond(s, p):
    lc = s.cluster_atoms(lambda a: a.type == 1, largest=True)
    ids = np.array([a.cluster for a in s.atoms])
    size = np.array([np.sum(ids == i) if i != -1 else 0 for i in ids], float)
    return {"size": (size, 0), "largest": (np.full(len(ids), float(lc)), 0), "flag": quant.col(s, lambda a: a.largest_cluster)}


def d_disorder(s, p):
    s.calculate_q([p["l"]])
    s.calculate_disorder(averaged=True, q=p["l"])
    return {"disorder": quant.col(s, lambda a: a.disorder), "avg": quant.col(s, lambda a: a.avg_disorder)}


def d_chi(s, p):
    s.calculate_chiparams()
    return {"chi": quant.col(s, lambda a: a.chiparams)}


def d_sro(s, p):
    v = s.calculate_sro(reference_type=1, average=True, shells=2)
    w = s.calculate_pmsro(reference_type=2, compare_type=1, average=True, shells=1)
    return {"sro": (np.tile(np.array(v, float), (s.natoms, 1)), 0), "pm": (np.tile(np.array(w, float), (s.natoms, 1)), 0)}


def d_entropy(s, p):
    s.calculate_entropy(p["rc"], sigma=p["sigma"], rstart=p["rstart"], h=p["h"], local=p["local"], averaged=True)
    return {"s": quant.col(s, lambda a: a.entropy), "avg": quant.col(s, lambda a: a.avg_entropy)}


def d_neighbors(s, p):
    return dict(quant.nbdata(s), vec=(np.array([np.sum(a.neighbor_vector, axis=0) if a.neighbors else np.zeros(3) for a in s.atoms]), 1),
                weight=(np.array([np.sum(a.neighbor_weights) for a in s.atoms]), 0))


def d_rdf(s, p):
    return quant.rdf(s, p)


def d_energy(s, p):
    """Nothing of the neighbors may be changed by reading."""
    s.atoms, s.iter_atoms(), s.get_concentration(), s.get_pairdistances()
    return d_neighbors(s, p)


DERIVED = {f.__name__: f for f in (d_q, d_qavg, d_solids, d_clusters, d_cond, d_disorder, d_chi, d_sro, d_entropy, d_neighbors, d_rdf, d_energy)}


def failing(s, rng):
    """A call that raises."""
    calls = [lambda: s.calculate_q([1]), lambda: s.calculate_q([13]), lambda: s.find_neighbors(method="nonsense"), lambda: s.find_neighbors(method="cutoff", cutoff="nonsense"),
             lambda: s.find_neighbors(method="number", nmax=-1), lambda: s.find_neighbors(method="number", nmax=5, threshold=0.01), lambda: s.calculate_centrosymmetry(nmax=3),
             lambda: s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=0.05), lambda: s.find_neighbors(method="cutoff", cutoff="sann", threshold=0.05),
             lambda: s.find_solids(threshold=7), lambda: s.calculate_sro(reference_type=9), lambda: s.calculate_pmsro(compare_type=77),
             lambda: s.to_file("/nonexistent/dir/file"), lambda: s.read_inputfile("/nonexistent/file"), lambda: s.get_qvals(55)]
    k = int(rng.integers(len(calls)))
    try:
        calls[k]()
    except Exception:
        return True
    return False


def step(m, s, case, rng, box, pos, typ, state):
    """One step of the history; leaves cell and atoms as they are at its end."""
    n = len(pos)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    p = quant.params(rng, sp, lim(box, n))
    m.count("steps")
    w = rng.random()
    if w < 0.6:
        r = pick(rng, list(quant.RECIPES))
        try:
            quant.RECIPES[r](s, p)
        except (RuntimeError, ValueError):
            m.count("failed_steps")
        return r
    if w < 0.75:
        m.count("failed_steps", failing(s, rng))
        return "failed"
    if w < 0.85:
        b2, p2, t2, q2 = config(case, rng, n=int(rng.choice([5, 30, 205])), cell=pick(rng, gen.CELLS), k=int(rng.integers(1, 5)))
        s.box = b2.tolist()
        s.atoms = gen.make_atoms(p2, t2)
        r = pick(rng, list(quant.RECIPES))
        try:
            quant.RECIPES[r](s, q2)
        except (RuntimeError, ValueError):
            m.count("failed_steps")
        if rng.random() < 0.5:
            s.box = box.tolist()
            s.atoms = gen.make_atoms(pos, typ)
        else:
            s.atoms = gen.make_atoms(pos, typ)
            s.box = box.tolist()
        return "other"
    if w < 0.92:
        s.box = box.tolist()
        return "box"
    if w < 0.96:
        s.atoms = s.atoms
        return "atoms"
    i = int(rng.integers(n))
    a = s.get_atom(i)
    a.pos = (np.array(a.pos) + sp * 0.3).tolist()
    s.set_atom(a)
    s.find_neighbors(method="cutoff", cutoff=p["rc"])
    a = s.get_atom(i)
    a.pos = pos[i].tolist()
    s.set_atom(a)
    return "moved"


def run(fn, s, p):
    try:
        return fn(s, p), None
    except (RuntimeError, ValueError) as e:
        return None, type(e).__name__


def run_case(case, m):
    rng = m.rng
    k = case["kind"]
    box, pos, typ, p = config(case, rng)
    n = len(pos)
    if k == "derived":
        fn = DERIVED[case["final"]]
        method = [dict(method="cutoff", cutoff=p["rc"]), dict(method="number", nmax=max(p["nmax"], 4), threshold=3), dict(method="voronoi"),
                  dict(method="cutoff", cutoff="adaptive", threshold=3)][int(rng.integers(4))]
        s = gen.make_system(box, pos, typ)
        f = gen.make_system(box, pos, typ)
        s.find_neighbors(**method)
        f.find_neighbors(**method)
        before = []
        for _ in range(case["steps"]):
            q = dict(quant.params(rng, p["sp"], p["lim"]), rc=p["rc"])
            d = pick(rng, list(DERIVED))
            run(DERIVED[d], s, q)
            before.append(d)
            m.count("steps")
            if rng.random() < 0.25:
                before.append("failed")
                # calls that fail before anything is done keep the neighbors
                for bad in (lambda: s.calculate_q([1]), lambda: s.find_solids(threshold=7), lambda: s.calculate_sro(reference_type=9), lambda: s.get_qvals(55)):
                    try:
                        bad()
                    except Exception:
                        m.count("failed_steps")
        a, ea = run(fn, f, p)
        b, eb = run(fn, s, p)
        m.count("derived")
    else:
        s = gen.make_system(box, pos, typ)
        before = []
        if k == "reload":
            # another system first, then this one through the same object
            b2, p2, t2, q2 = config(case, rng, n=int(rng.choice([6, 205])), cell="tri+", k=9)
            s = gen.make_system(b2, p2, t2)
            for _ in range(case["steps"]):
                before.append(pick(rng, list(quant.RECIPES)))
                run(quant.RECIPES[before[-1]], s, q2)
            s.box = box.tolist()
            s.atoms = gen.make_atoms(pos, typ)
        elif k == "pair":
            before = [case["first"], case["final"]]
            for r in before:
                run(quant.RECIPES[r], s, quant.params(rng, p["sp"], p["lim"]))
                m.count("steps")
        else:
            for _ in range(case["steps"]):
                before.append(step(m, s, case, rng, box, pos, typ, None))
        fn = quant.RECIPES[case["final"]]
        f = gen.make_system(box, pos, typ)
        m.check((s.natoms, s.ntotal) == (f.natoms, f.ntotal), "natoms", "numbers of atoms depend on the history", got=(s.natoms, s.ntotal), want=(f.natoms, f.ntotal), before=before)
        m.close(s.box, box, "box", "cell after the history", rtol=0, atol=1e-12)
        m.close([x.pos for x in s.atoms], pos, "pos", "positions after the history", rtol=0, atol=1e-12)
        a, ea = run(fn, f, p)
        b, eb = run(fn, s, p)
    m.count("finals")
    m.check(ea == eb, "outcome", "the calculation fails or not depending on the history", fresh=ea, used=eb, before=before, final=case["final"])
    if a is not None and b is not None:
        quant.compare(m, a, b, "history:" + case["final"], "result depends on the history", rtol=1e-9, atol=1e-10, before=before, n=n, cell=case["cell"])
        for key in sorted(set(before)):
            m.nontrivial(case["final"], key, n < 200)
        if k != "derived":
            # and once more on the same system
            c, ec = run(fn, s, p)
            m.check(ec is None, "repeat-outcome", "the calculation fails when repeated", err=ec, final=case["final"])
            if c is not None:
                quant.compare(m, a, c, "repeat:" + case["final"], "result differs when repeated", rtol=1e-9, atol=1e-10, n=n, cell=case["cell"])
