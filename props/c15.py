"""C15: Warren-Cowley and pairwise short range order against explicit images."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (function, composition, cell, size class, shells, delta) in which every reference atom was recomputed"
ASSUMPTIONS = ["two shells are separated at the mean neighbor distance, as in the reference implementation; atoms with a neighbor within 1e-7 of it, or with an empty shell, are skipped"]
NEED = {"atoms": 2000, "means": 40, "ordered": 6}


def cases(tier, seed):
    add, out = caser("C15", seed)
    rng = np.random.default_rng([seed, 15])
    for rep in range(5 if tier == "thorough" else 1):
        for cell in gen.CELLS:
            add("random", n=int(rng.choice([12, 40, 120, 230, 300])), cell=cell, place=pick(rng, gen.PLACES), nt=2, fn="sro", shells=int(rng.integers(1, 3)))
            add("random", n=int(rng.choice([12, 40, 120, 230, 300])), cell=cell, place=pick(rng, gen.PLACES), nt=int(rng.integers(2, 5)), fn="pmsro", shells=int(rng.integers(1, 3)))
        add("random", n=2, cell="cubic", place="inside", nt=2, fn="pmsro", shells=2)
        for st in ("b2", "l12", "nacl", "random-bcc"):
            for reps in ([1, 1, 1], [3, 2, 3], [6, 6, 6]):
                add("ordered", struct=st, reps=reps)
    return out


def reference(c, typ, i, rc, fn, rt, ct, shells, delta, conc):
    p, v, d = c.neighbors(i, rc)
    if len(d) == 0:
        return None
    mean = d.mean()
    if shells == 2:
        if np.abs(d - mean).min() < 1e-7 or (d <= mean).all() or (d > mean).all():
            return None
        sets = [p[d <= mean], p[d > mean]]
    else:
        sets = [p]
    out = []
    for q in sets:
        if fn == "sro":
            out.append(1 - np.mean(typ[q] != rt) / (1 - conc[rt]))
        else:
            f = np.mean(typ[q] == ct)
            if rt == ct and delta:
                out.append((f - conc[ct]) / (1 - conc[ct]))
            else:
                out.append(1 - f / conc[ct])
    return out


def judge(m, s, box, pos, typ, rc, fn, rt, ct, shells, delta, average=True):
    n = len(pos)
    conc = {t: np.mean(typ == t) for t in set(typ.tolist())}
    c = ref.Crystal(box, pos, rc * 1.01)
    if fn == "sro":
        vec = s.calculate_sro(reference_type=rt, average=average, shells=shells)
    else:
        vec = s.calculate_pmsro(reference_type=rt, compare_type=ct, average=average, shells=shells, delta=delta)
    got = s.atoms
    rows, ok = [], True
    for i in range(n):
        if typ[i] != rt:
            continue
        w = reference(c, typ, i, rc, fn, rt, ct, shells, delta, conc)
        if w is None:
            ok = False
            continue
        rows.append(w)
        m.count("atoms")
        m.close(got[i].sro, w, fn, "short range order of an atom", rtol=1e-9, atol=1e-9, atom=i, shells=shells, rt=rt, ct=ct, delta=delta, n=n)
    if ok and rows and average:
        m.count("means")
        m.close(vec, np.mean(rows, axis=0), fn + "-mean", "average short range order", rtol=1e-8, atol=1e-9, rt=rt, ct=ct, shells=shells, n=n)
    types = [a.type for a in got]
    m.check(types == list(typ), "types", "the types of the atoms changed")
    return rows


def lim(box, n):
    h = gen.heights(box).min()
    return 2.4 * h if n <= 4 else (1.45 * h if n < 200 else 0.49 * h)


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "ordered":
        return run_ordered(case, m)
    sp = float(rng.uniform(1, 4))
    labels = None
    if case["fn"] == "pmsro":
        labels = gen.somelabels(np.random.default_rng(case["seed"]), case["nt"])
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp, nt=case["nt"], labels=labels, shape="any")
    rc = min(sp * float(rng.uniform(1.5, 1.9)), lim(box, len(pos)))
    rc = ref.cutoff_in_gap(box, pos, rc * 0.98)
    if rc is None:
        return
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=rc)
    t = sorted(set(typ.tolist()))
    hist = []
    for rep in range(3):
        # the parameters may be calculated again with other arguments
        rt, ct = pick(rng, t), pick(rng, t)
        shells = case["shells"] if rep == 0 else int(rng.integers(1, 3))
        delta = bool(rng.random() < 0.5)
        fn = case["fn"] if rep != 2 or len(t) > 2 or set(t) != {1, 2} else pick(rng, ["sro", "pmsro"])
        rows = judge(m, s, box, pos, typ, rc, fn, rt, ct, shells, delta, average=bool(rng.random() < 0.8))
        if rows:
            m.nontrivial(fn, len(t), case["cell"], len(pos) < 200, shells, rt == ct, delta)


def run_ordered(case, m):
    """Ordered alloys with known parameters of the crystallographic shells."""
    rng = m.rng
    st, reps = case["struct"], case["reps"]
    a = float(rng.uniform(2.5, 5))
    base = {"b2": "bcc", "random-bcc": "bcc", "l12": "fcc", "nacl": "sc"}[st]
    f = gen.lattice(base, [2 * r for r in reps] if st == "nacl" else reps)
    L = np.array([2 * r for r in reps] if st == "nacl" else reps, float)
    g = np.rint(f * L * 2).astype(int)
    if st == "b2":
        typ = 1 + (g[:, 0] % 2)
    elif st == "l12":
        typ = np.where((g % 2 == 0).all(axis=1), 1, 2)
    elif st == "nacl":
        typ = 1 + ((g // 2).sum(axis=1) % 2)
    else:
        typ = 1 + (rng.random(len(f)) < 0.4)
        typ[:2] = [1, 2]
    box = np.diag(L * a)
    pos = f @ box + rng.uniform(-5, 5, 3)
    if rng.random() < 0.5:
        R = gen.random_rotation(rng)
        box, pos = box @ R.T, pos @ R.T
    shell = {"bcc": (np.sqrt(3) / 2, 1.0, np.sqrt(2)), "fcc": (np.sqrt(.5), 1.0, np.sqrt(1.5)), "sc": (1.0, np.sqrt(2), np.sqrt(3))}[base]
    rc = a * (shell[1] + shell[2]) / 2
    if rc > lim(box, len(pos)):
        return
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=rc)
    known = {"b2": {1: (-1.0, 1.0), 2: (-1.0, 1.0)}, "nacl": {1: (-1.0, 1.0), 2: (-1.0, 1.0)},
             # type 1 in L1_2 sees only type 2 (concentration 3/4) first, and only itself second
             "l12": {1: (-1 / 3.0, 1.0), 2: (1 - (4 / 12.0) / 0.25, 1.0)}}.get(st)
    for rt in (1, 2):
        if known:
            got = s.calculate_sro(reference_type=rt, average=True, shells=2)
            m.close(got, known[rt], "ordered-sro", "short range order of %s" % st, rtol=1e-8, reps=reps, rt=rt)
            got = s.calculate_pmsro(reference_type=rt, compare_type=3 - rt, average=True, shells=2)
            m.close(got, known[rt], "ordered-pmsro", "pairwise short range order of %s" % st, rtol=1e-8, reps=reps, rt=rt)
            m.count("ordered", 2)
        judge(m, s, box, pos, typ, rc, "sro", rt, 3 - rt, 2, True)
        for ct in (1, 2):
            for delta in (True, False):
                judge(m, s, box, pos, typ, rc, "pmsro", rt, ct, 2, delta)
    m.nontrivial("ordered", st, str(reps))
