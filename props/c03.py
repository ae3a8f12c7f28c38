"""C03: adaptive, SANN and number-of-neighbors methods."""
import warnings

import numpy as np

from vlib import gen, ref
from vlib.sysu import box_tag, caser, env, match, pick

RULE = "one signature per (method, parameters, cell, size class, filter) in which every atom had a verified neighbor list"
ASSUMPTIONS = ["neighbor distances without ties at the decision boundary", "all used distances below half the smallest "
               "perpendicular width of the periodic cell"]
NEED = {"lists": 5000, "adaptive": 5, "sann": 5, "number": 5, "failures_reported": 1, "repeated_searches": 3, "long_lists": 1}


def cases(tier, seed):
    add, out = caser("C03", seed)
    rng = np.random.default_rng([seed, 3])
    big = tier == "thorough"
    for rep in range(8 if big else 1):
        for ck in gen.CELLS:
            for meth in ("adaptive", "sann", "number"):
                add(meth, n=int(rng.choice([2, 5, 17, 40, 120, 199, 200, 260, 400])), cell=ck, place=pick(rng, gen.PLACES),
                    filt=pick(rng, [None, "type", "type_r"]), struct=None, shape=pick(rng, [None, None] + gen.SHAPES[1:]))
        for st in gen.BASIS:
            for meth in ("adaptive", "sann", "number"):
                add(meth, n=int(rng.choice([16, 260, 500])), cell=pick(rng, gen.CELLS[:6]), place=pick(rng, gen.PLACES), filt=None, struct=st)
        for meth in ("adaptive", "sann", "number"):
            add(meth, n=4200, cell=pick(rng, gen.EXTREME), place=pick(rng, gen.PLACES), filt=None, struct=None)
            for pl in ("far", "negative") if not big else gen.PLACES:
                add(meth, n=4100, cell=pick(rng, gen.ORTH[:2]), place=pl, filt=None, struct=None)
            # many types, more neighbors than the defaults, and the cell lists with filters
            for f in ("type", "type_r"):
                for n in (120, 300, 600):
                    add(meth, n=n, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), filt=f, struct=None, nt=int(rng.integers(2, 5)), wide=True)
            add(meth, n=4300, cell="orth", place="images", filt=pick(rng, ["type", "type_r"]), struct=None, nt=3, wide=True,
                shape=pick(rng, gen.SHAPES))
        # guess distances that are too short at first: the search has to start again
        for n in (45, 150, 260, 600):
            add("sann", n=n, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), filt=pick(rng, [None, "type", "type_r"]), struct=None, tight=True)
        add("sann", n=4200, cell="orth", place="images", filt=None, struct=None, tight=True)
        # an atom in a large void has many neighbors
        for n in (500, 900):
            add("sann", n=n, cell=pick(rng, ["cubic", "orth", "tri+"]), place=pick(rng, gen.PLACES), filt=None, struct=pick(rng, [None, "fcc"]), void=float(rng.uniform(1.7, 2.4)))
        for k in range(3):
            add("fail", n=int(rng.choice([20, 250])), cell=pick(rng, gen.CELLS), place="inside", which=["adaptive", "number", "sann"][k])
            add("heavy", n=int(rng.choice([60, 300])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), which=["adaptive", "number", "sann"][k])
    return out


def gas_cell(case, rng, nt):
    return gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(0.8, 4)), nt=nt,
                      struct=case.get("struct"), noise=0.03, dmin=0.45, shape=case.get("shape"))


def limit(box, n):
    h = gen.heights(box).min()
    return h * (1.49 if n < 200 else 0.499)


def sann_lists(d):
    """Number of SANN neighbors of sorted distances d, by the definition of the method (van Meel et al.)."""
    m = 3
    while m < len(d):
        r = d[:m].sum() / (m - 2)
        if r <= d[m]:
            return m, r, abs(r - d[m])
        m += 1
    return None, None, 0


def sann_skipping(d):
    """The indices the recorded finding takes: the fourth neighbor is left out, each later step takes the next one."""
    idx = [0, 1, 2]
    m = 3
    summ = d[:3].sum()
    dcut = summ
    mg = 1.0
    while m < len(d) and dcut >= d[m]:
        mg = min(mg, abs(dcut - d[m]))
        m += 1
        if m == len(d):
            return None, None, 0
        idx.append(m)
        summ += d[m]
        dcut = summ / (m - 2)
    mg = min(mg, abs(dcut - d[m])) if m < len(d) else 0
    return idx, dcut, mg


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "fail":
        return run_fail(case, m)
    if case["kind"] == "heavy":
        return run_heavy(case, m)
    filt = case["filt"]
    nt = case.get("nt", 2 if filt else 1)
    box, pos, typ = gas_cell(case, rng, nt)
    n = len(pos)
    if case.get("void"):
        d = np.linalg.norm(ref.mic(box, pos - pos[0]), axis=1)
        keep = d > case["void"] * np.cbrt(abs(np.linalg.det(box)) / n)
        keep[0] = True
        pos, typ = pos[keep], typ[keep]
        n = len(pos)
    lim = limit(box, n)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    kind = case["kind"]
    s = gen.make_system(box, pos, typ)
    par, _ = ref.parents(s, box, pos)
    kw = {}
    if kind == "adaptive":
        kw = dict(cutoff=pick(rng, ["adaptive", 0]), nlimit=int(rng.choice([4, 6, 6, 10])), padding=float(rng.choice([1.05, 1.2, 1.2])), threshold=2)
    elif kind == "sann":
        kw = dict(cutoff="sann", threshold=3.5 if case.get("void") else 2)
    else:
        kw = dict(method="number", nmax=int(rng.choice([1, 4, 12, 14])), threshold=2)
    if case.get("wide"):
        kw["threshold"] = thr = pick(rng, [2, 2.5, 3])
        if kind == "number":
            kw["nmax"] = int(rng.integers(5, 22))
        elif kind == "adaptive":
            kw.update(nlimit=int(rng.integers(2, 16)), padding=float(rng.uniform(1.0, 1.6)))
    if case.get("tight"):
        kw["threshold"] = float(rng.uniform(1, 1.4))
    thr = kw["threshold"]
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            s.find_neighbors(filter=filt, **kw)
        m.count("repeated_searches", any("higher threshold" in str(w.message) for w in seen))
    except RuntimeError as e:
        # a refusal is allowed only when the guess distance really does not hold what is needed
        m.count("refused")
        m.check(not case.get("tight"), "refused", "find_neighbors gave up although longer guess distances hold all that is needed: %s" % e, kw=kw, n=n)
        need = required(kind, kw, box, pos, typ, filt, thr * sp)
        m.check(need, "refused", "find_neighbors gave up although the guess distance holds all that is needed: %s" % e, kw=kw, n=n)
        return
    full = ref.Crystal(box, pos, (thr + 0.05) * sp if kind != "sann" else (max(thr, 2) + 1.0) * sp)
    atoms = s.atoms
    which = set()
    for i, a in enumerate(atoms):
        rp, rv, rd = full.nearest(i, 250)
        keep = rd < full.reach
        rp, rv, rd = rp[keep], rv[keep], rd[keep]
        same = typ[rp] == typ[i]
        f = same if filt == "type" else ~same if filt == "type_r" else np.ones(len(rp), bool)
        idx, v, d = env(a)
        m.count("atoms")
        if kind == "adaptive":
            rc = kw["padding"] * rd[:kw["nlimit"]].mean()
            if rc > lim or np.abs(rd - rc).min() < 1e-7:
                continue
            sel = (rd < rc) & f
            want_cut = rc
        elif kind == "number":
            ks = np.nonzero(f)[0]
            if len(ks) < kw["nmax"] or rd[ks[kw["nmax"] - 1]] > lim:
                continue
            if len(ks) > kw["nmax"] and rd[ks[kw["nmax"]]] - rd[ks[kw["nmax"] - 1]] < 1e-7:
                continue
            sel = np.zeros(len(rp), bool)
            sel[ks[:kw["nmax"]]] = True
            want_cut = rd[ks[kw["nmax"] - 1]]
        else:
            k, rc, margin = sann_lists(rd)
            ki, rc2, margin2 = sann_skipping(rd)
            if k is None or ki is None or margin < 1e-7 or margin2 < 1e-7 or max(rc, rc2, rd[k], rd[max(ki)]) > lim or \
                    np.diff(rd[:max(k, max(ki)) + 2]).min() < 1e-7:
                continue
            sel = np.zeros(len(rp), bool)
            sel[:k] = True
            sel2 = np.zeros(len(rp), bool)
            sel2[ki] = True
            m.count("long_lists", k > 24)
            w1 = match(par[idx], v, d, rp[sel & f], rv[sel & f], rd[sel & f], 1e-6)
            w2 = match(par[idx], v, d, rp[sel2 & f], rv[sel2 & f], rd[sel2 & f], 1e-6)
            m.count("lists")
            if w1 is None and w2 is None:
                ok = min(abs(a.cutoff - rc), abs(a.cutoff - rc2)) < 1e-6
                m.check(ok, "sann-cutoff", "cutoff of SANN is not the radius of the method", got=a.cutoff, want=rc)
            elif w1 is None:
                m.check(abs(a.cutoff - rc) < 1e-6, "sann-cutoff", "cutoff of SANN is not the radius of the method", got=a.cutoff, want=rc)
            elif w2 is None:
                m.check(abs(a.cutoff - rc2) < 1e-6, "sann-cutoff", "cutoff of SANN is not the radius of the method", got=a.cutoff, want=rc2)
                m.fail("sann-fourth-neighbor", "SANN leaves out the fourth nearest neighbor", atom=i, distances=rd[:k + 2], got=d)
            else:
                m.fail("sann", "SANN neighbors of atom %d: %s" % (i, w1), n=n, box=box, distances=rd[:k + 3], got=np.sort(d))
                return
            continue
        m.count("lists")
        why = match(par[idx], v, d, rp[sel], rv[sel], rd[sel], 1e-6)
        if why:
            m.fail(kind, "%s neighbors of atom %d: %s" % (kind, i, why), kw=kw, n=n, box=box, filter=filt, distances=rd[:20])
            return
        m.check(abs(a.cutoff - want_cut) < 1e-6, kind + "-cutoff", "atom.cutoff is not the cutoff of the method", got=a.cutoff, want=want_cut, kw=kw)
    factor = float(rng.uniform(0.5, 2.5))
    s.set_atom_cutoff(factor=factor)
    for i, a in enumerate(s.atoms):
        if a.coordination:
            m.count("set_cutoff")
            if not m.check(abs(a.cutoff - factor * np.mean(env(a)[2])) < 1e-6, "set-cutoff", "the cutoff set for atom %d is not the mean distance of its neighbors times the factor" % i, got=a.cutoff, factor=factor):
                break
    m.count(kind)
    m.nontrivial(kind, kw, case["cell"], n < 200, filt, case["struct"])


def required(kind, kw, box, pos, typ, filt, guess):
    """True if some atom lacks what the method needs within the guess distance."""
    c = ref.Crystal(box, pos, guess * 1.001)
    for i in range(len(pos)):
        rp, rv, rd = c.neighbors(i, guess)
        o = np.argsort(rd)
        rp, rd = rp[o], rd[o]
        if kind == "adaptive":
            if len(rd) < kw["nlimit"] or kw["padding"] * rd[:kw["nlimit"]].mean() > guess * (1 - 1e-9):
                return True
        elif kind == "number":
            same = typ[rp] == typ[i]
            f = same if filt == "type" else ~same if filt == "type_r" else np.ones(len(rp), bool)
            if f.sum() < kw["nmax"]:
                return True
        else:
            return True     # the number of retries is not specified
    return False


def run_fail(case, m):
    """With a guess distance that cannot work, the search must say so and leave no neighbors behind as if it had worked."""
    rng = m.rng
    box, pos, typ = gas_cell(case, rng, 1)
    s = gen.make_system(box, pos, typ)
    which = case["which"]
    if which == "adaptive":
        kw = dict(cutoff="adaptive", nlimit=30, threshold=1, padding=1.5)
    elif which == "number":
        kw = dict(method="number", nmax=40, threshold=1)
    else:
        # nothing within reach: two atoms of a very dilute pair of rows
        kw = dict(cutoff="sann", threshold=1)
    if which == "sann":
        return
    if m.raises(lambda: s.find_neighbors(**kw), RuntimeError, "no-error", "search that cannot succeed", kw=kw, n=len(pos)):
        m.check(not s.neighbors_found, "found-after-failure", "neighbors_found is set after a failed search")
        m.count("failures_reported")
    m.nontrivial("fail", which, case["cell"], len(pos))
    for kw in (dict(cutoff="adaptive", threshold=0.5), dict(cutoff="sann", threshold=0.5), dict(method="number", threshold=0.5)):
        m.raises(lambda: s.find_neighbors(**kw), ValueError, "threshold", "threshold below one", kw=kw)


def run_heavy(case, m):
    """Very uneven density: dense cluster in a dilute box. Whatever is returned must be right (or an error)."""
    rng = m.rng
    n = case["n"]
    box = gen.cell(rng, case["cell"], 2.0 * np.cbrt(n))
    f = gen.gas(rng, n, box, 0.5)
    f = np.where(rng.random((n, 1)) < 0.5, f, f * 0.8 + 0.1 * (f - 0.5) ** 2)
    pos = gen.place(rng, f, box, case["place"])
    typ = np.ones(n, int)
    d2 = dict(case, kind=case["which"])
    s = gen.make_system(box, pos, typ)
    kw = {"adaptive": dict(cutoff="adaptive", threshold=2), "number": dict(method="number", nmax=12, threshold=2),
          "sann": dict(cutoff="sann", threshold=2)}[case["which"]]
    try:
        s.find_neighbors(**kw)
    except RuntimeError:
        m.count("refused")
        return
    par, _ = ref.parents(s, box, pos)
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    lim = limit(box, n)
    full = ref.Crystal(box, pos, 2.05 * sp)
    for i, a in enumerate(s.atoms):
        idx, v, d = env(a)
        rp, rv, rd = full.nearest(i, 60)
        if case["which"] == "sann" or not len(d) or d.max() > lim:
            continue
        if case["which"] == "number":
            k = 12
            if len(rd) < 13 or rd[12] - rd[11] < 1e-7 or rd[11] > full.reach:
                continue
        else:
            rc = 1.2 * rd[:6].mean()
            if rc > full.reach or np.abs(rd - rc).min() < 1e-7:
                continue
            k = int((rd < rc).sum())
        m.count("lists")
        why = match(par[idx], v, d, rp[:k], rv[:k], rd[:k], 1e-6)
        if why:
            m.fail(case["which"] + "-uneven", "neighbors of atom %d: %s" % (i, why), n=n, box=box)
            return
    m.nontrivial("heavy", case["which"], case["cell"], n)
