"""C01: fixed-cutoff neighbor lists are exactly the periodic images within the cutoff."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import box_tag, caser, env, match, pick

RULE = "one signature per (size class, cell, placement, filter, mean coordination) with at least one neighbor pair"
ASSUMPTIONS = ["cutoffs are below half the smallest perpendicular width of the periodic cell (of the 3x3x3 replicated "
               "cell when there are fewer than 200 atoms) and lie in a gap of the pair distances"]
NEED = {"pairs": 20000, "systems_over_2300": 3, "systems_under_200": 5, "filtered": 3}


def cases(tier, seed):
    add, out = caser("C01", seed)
    rng = np.random.default_rng([seed, 1])
    big = tier == "thorough"
    for rep in range(6 if big else 1):
        for ck in gen.CELLS + ["cancel"]:
            add("small", n=int(rng.integers(1, 9)), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, None, "type", "type_r"]))
            add("small", n=int(rng.integers(9, 200)), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, "type", "type_r"]))
            add("mid", n=int(rng.integers(200, 700)), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, "type", "type_r"]))
        for pl in gen.PLACES:
            add("mid", n=int(rng.integers(200, 700)), cell=pick(rng, gen.CELLS), place=pl, filt=None)
            add("big", n=int(rng.integers(2301, 2700)), cell=pick(rng, gen.ORTH), place=pl, filt=pick(rng, [None, "type", "type_r"]))
        for ck in ["tri+", "tri-", "trimix"]:
            add("big", n=int(rng.integers(2301, 2700)), cell=ck, place=pick(rng, gen.PLACES), filt=None)
        for ck in gen.EXTREME:
            add("big", n=int(rng.integers(2301, 3300)), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, None, "type", "type_r"]))
            add("mid", n=int(rng.integers(30, 900)), cell=ck, place=pick(rng, gen.PLACES), filt=None)
        for n in (199, 200, 2300, 2301):
            add("edge", n=n, cell=pick(rng, gen.ORTH), place="images", filt=None)
    if big:
        for k in range(4):
            add("huge", n=int(rng.integers(5000, 9000)), cell=pick(rng, gen.ORTH), place=pick(rng, gen.PLACES), filt=None)
        # lattices with tiny noise: many distances close to each other
        for st in gen.BASIS:
            for ck in ("cubic", "orth"):
                add("lattice", n=2400 if ck == "cubic" else 500, struct=st, cell=ck, place=pick(rng, gen.PLACES), filt=None)
    else:
        add("lattice", n=2400, struct="bcc", cell="cubic", place="boundary", filt=None)
        add("lattice", n=256, struct="fcc", cell="cubic", place="upper", filt="type")
    return out


def check_lists(m, s, box, pos, typ, r, filt, key="neighbors"):
    c = ref.Crystal(box, pos, r * 1.001)
    par, allp = ref.parents(s, box, pos)
    atoms = s.atoms
    m.require(len(atoms) == len(pos), "atom-count", "sys.atoms has %d atoms instead of %d" % (len(atoms), len(pos)))
    npairs = 0
    for i, a in enumerate(atoms):
        rp, rv, rd = c.neighbors(i, r)
        if filt == "type":
            k = typ[rp] == typ[i]
        elif filt == "type_r":
            k = typ[rp] != typ[i]
        else:
            k = np.ones(len(rp), bool)
        idx, v, d = env(a)
        m.count("atoms")
        if len(idx) and (idx.min() < 0 or idx.max() >= len(par)):
            m.fail("neighbor-index", "neighbor index outside the system", atom=i, idx=idx)
            return 0
        why = match(par[idx], v, d, rp[k], rv[k], rd[k], 1e-6)
        if why:
            m.fail(key, "neighbors of atom %d: %s" % (i, why), cutoff=r, box=box, n=len(pos), filter=filt)
            return 0
        m.check(a.coordination == len(idx), "coordination", "coordination is not the number of neighbors", atom=i,
                coordination=a.coordination, n=len(idx))
        m.check(len(a.neighbor_weights) == len(idx) and all(w == 1.0 for w in a.neighbor_weights), "weights",
                "weights of cutoff neighbors are not all one", atom=i)
        npairs += len(idx)
    m.count("pairs", npairs)
    return npairs


def run_case(case, m):
    rng = m.rng
    n = case["n"]
    nt = 2 if case["filt"] else int(rng.integers(1, 4))
    sp = float(rng.uniform(0.8, 3.5))
    box, pos, typ = gen.config(case["seed"], n, case["cell"], case["place"], spacing=sp, nt=nt,
                               struct=case.get("struct"), noise=1e-3, shape="any")
    n = len(pos)
    h = gen.heights(box).min()
    lim = h * (2.4 if n <= 4 else 1.45 if n < 200 else 0.49)
    top = min(lim, 3.3 * sp)
    r = ref.cutoff_in_gap(box, pos, float(rng.uniform(0.55, 0.97)) * top)
    if r is None or r >= lim / 0.98:
        m.inconclusive = None
        return
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=r, filter=case["filt"])
    k = check_lists(m, s, box, pos, typ, r, case["filt"])
    m.count("systems_under_200", n < 200)
    m.count("systems_over_2300", n > 2300)
    m.count("filtered", bool(case["filt"]))
    if k:
        m.nontrivial(case["kind"], case["cell"], case["place"], case["filt"], round(k / n, 1), box_tag(box))
    # a second search on the same system with another cutoff leaves nothing of the first one behind
    if case["kind"] in ("small", "mid"):
        r2 = ref.cutoff_in_gap(box, pos, 0.5 * r)
        if r2:
            s.find_neighbors(method="cutoff", cutoff=r2)
            check_lists(m, s, box, pos, typ, r2, None, key="neighbors-second-search")
