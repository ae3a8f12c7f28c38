"""C06: Steinhardt parameters against spherical harmonics of scipy over the recorded neighbor vectors."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, env, pick

RULE = "one signature per (neighbor method, cell, size class, set of l, condition kind, mode) in which all atoms were compared"
ASSUMPTIONS = ["one convention of spherical harmonics (phase, conjugation, direction of the vector) per run of the library"]
NEED = {"atoms": 3000, "qlm": 20000, "conditions": 5, "averaged": 1000}

METHODS = ["cutoff", "adaptive", "sann", "number", "voronoi", "voronoi2", "type", "type_r", "vtype"]


def cases(tier, seed):
    add, out = caser("C06", seed)
    rng = np.random.default_rng([seed, 6])
    big = tier == "thorough"
    for rep in range(12 if big else 1):
        for me in METHODS:
            for k in range(3):
                add("q", n=int(rng.choice([3, 12, 40, 100, 199, 200, 260])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), method=me,
                    struct=pick(rng, [None, None, "bcc", "fcc"]), cond=pick(rng, [None, "callable", "attr", "custom", "two-step"]),
                    ls=pick(rng, [[2], [3], [4, 6], [6], [8], [12], [11, 5], list(range(2, 13)), [9, 7, 10], [6, 4, 6]]))
        add("poles", n=1)
        add("isolated", n=20)
        for me in ("cutoff", "voronoi"):
            add("history", n=int(rng.choice([30, 220])), cell=pick(rng, gen.CELLS), place="inside", method=me, struct=None)
        add("perfect", n=1)
        # cell lists
        add("q", n=int(rng.integers(2310, 2500)), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), method=pick(rng, ["cutoff", "type"]), struct=None, cond=None, ls=pick(rng, [[3], [5], [7, 4]]))
    if big:
        add("q", n=2600, cell="orth", place="far", method="cutoff", struct=None, cond=None, ls=[4, 6])
        add("q", n=4200, cell="tri+", place="images", method="adaptive", struct=None, cond="attr", ls=[6])
    return out


def search(s, me, box, n, rng):
    h = gen.heights(box).min()
    sp = np.cbrt(abs(np.linalg.det(box)) / n)
    lim = h * (1.45 if n < 200 else 0.49)
    rc = min(1.6 * sp, lim)
    if me in ("cutoff", "type", "type_r"):
        s.find_neighbors(method="cutoff", cutoff=rc, filter=None if me == "cutoff" else me)
    elif me in ("adaptive", "sann"):
        s.find_neighbors(method="cutoff", cutoff=me, threshold=2)
    elif me == "number":
        s.find_neighbors(method="number", nmax=int(rng.choice([8, 12])), threshold=2)
    elif me == "voronoi":
        s.find_neighbors(method="voronoi")
    elif me == "voronoi2":
        s.find_neighbors(method="voronoi", voroexp=int(rng.choice([2, 3])))
    elif me == "vtype":
        s.find_neighbors(method="voronoi", filter="type")


CONV = [(par, conj, cs) for par in (0, 1) for conj in (0, 1) for cs in (0, 1)]


def conv_of(c, l, k):
    """The reference components in convention k."""
    par, conj, cs = CONV[k]
    m = np.arange(-l, l + 1)
    x = c
    if conj:
        x = np.conj(x)
    if cs:
        x = x * (-1.0) ** m
    if par:
        x = x * (-1.0) ** l
    return x


def same_conv(m, got, want, l, key, what):
    """The components agree in a convention that fits everything seen in this case."""
    ok = getattr(m, "conv", None)
    ok = set(range(len(CONV))) if ok is None else ok
    dev = {k: np.nanmax(np.abs(got - conv_of(want, l, k)), initial=0) for k in ok}
    m.conv = {k for k in ok if dev[k] < 1e-7}
    return m.check(len(m.conv) > 0, key, "%s differ from spherical harmonics by %g in every possible convention" % (what, min(dev.values(), default=0)), l=l)


class QRef:
    """Reference q_lm and q of all atoms from the neighbors the system reports (for ghost atoms from their own lists)."""

    def __init__(self, s, cond=None):
        self.n = s.natoms
        self.atoms = s.get_all_atoms()
        heads = [i if i < self.n else a.head for i, a in enumerate(self.atoms)]
        self.heads = heads
        self.cond = cond
        self.nb = {}
        for i in range(self.n):
            self.add(i)
        for i in range(self.n):
            for j in self.nb[i][0]:
                if j not in self.nb:
                    self.add(j)
        self.cache = {}

    def add(self, i):
        a = self.atoms[i]
        idx, v, d = env(a)
        w = np.array(a.neighbor_weights, float)
        if len(w) != len(idx):
            raise AssertionError("weights %d neighbors %d" % (len(w), len(idx)))
        keep = np.ones(len(idx), bool)
        if self.cond is not None:
            keep = np.array([self.cond[self.heads[j]] == self.cond[self.heads[i]] for j in idx], bool).reshape(-1)
        self.nb[i] = (idx[keep], v[keep], w[keep])

    def all(self, l):
        if l not in self.cache:
            out = np.full((len(self.atoms), 2 * l + 1), np.nan, complex)
            for i, (p, v, w) in self.nb.items():
                if len(p) and w.sum() > 0:
                    out[i] = ref.qlm(l, v, w)
            self.cache[l] = out
        return self.cache[l]

    def qlm(self, l):
        return self.all(l)[:self.n]

    def aqlm(self, l, base=None):
        c = self.all(l) if base is None else base
        out = np.full((self.n, 2 * l + 1), np.nan, complex)
        for i in range(self.n):
            p = self.nb[i][0]
            out[i] = (c[i] + c[p].sum(axis=0)) / (1 + len(p))
        return out


def norm(c):
    l = (c.shape[1] - 1) // 2
    return np.sqrt(4 * np.pi / (2 * l + 1) * (np.abs(c) ** 2).sum(axis=1))


def compare_q(m, s, R, ls, averaged, only=False, what="q", raw=True, base=None, tag=""):
    """Compare everything the system reports about the l in ls with the reference R (base: reference of the raw q_lm)."""
    atoms = s.atoms
    for l in sorted(set(ls)):
        if raw:
            want = norm(R.qlm(l))
            ok = ~np.isnan(want)
            got = np.array(s.get_qvals(l))
            if not m.check(len(got) == R.n, "shape", "get_qvals returned %d values for %d atoms" % (len(got), R.n)):
                return False
            got2 = np.array([a.get_q(l) for a in atoms])
            if not m.close(got[ok], want[ok], "q-value" + tag, "q%d differs from its definition" % l, rtol=1e-7, atol=1e-8):
                return False
            m.check(np.array_equal(got, got2, equal_nan=True), "get_q", "Atom.get_q and System.get_qvals disagree", l=l)
            comp = np.array([a.get_qlm(l) for a in atoms])
            m.count("qlm", ok.sum() * (2 * l + 1))
            if not same_conv(m, comp[ok], R.qlm(l)[ok], l, "qlm" + tag, "q_lm"):
                return False
        if averaged:
            ac = R.aqlm(l, None if base is None else base[l])
            want = norm(ac)
            ok = ~np.isnan(want)
            got = np.array(s.get_qvals(l, averaged=True))
            m.count("averaged", ok.sum())
            if not m.close(got[ok], want[ok], "aq-value" + tag, "averaged q%d differs from its definition" % l, rtol=1e-7, atol=1e-8):
                return False
            got2 = np.array([a.get_q(l, averaged=True) for a in atoms])
            m.check(np.array_equal(got, got2, equal_nan=True), "get_q", "Atom.get_q and System.get_qvals disagree (averaged)", l=l)
            comp = np.array([a.get_qlm(l, averaged=True) for a in atoms])
            if not same_conv(m, comp[ok], ac[ok], l, "aqlm" + tag, "averaged q_lm"):
                return False
    if len(ls) > 1:
        order = [int(x) for x in m.rng.permutation(list(set(ls)))]
        for a in atoms[:20]:
            for av in (False, True):
                m.check(np.array_equal(a.get_q(order, averaged=av), [a.get_q(l, averaged=av) for l in order], equal_nan=True), "get_q-list",
                        "Atom.get_q of a list is not the values one by one", ls=order, averaged=av)
                qa = a.allaq if av else a.allq
                m.check(np.array_equal([qa[l - 2] for l in order], a.get_q(order, averaged=av), equal_nan=True), "allq", "allq/allaq and get_q disagree", ls=order)
        g = s.get_qvals(list(ls), averaged=averaged)
        m.check(len(g) == len(ls) and all(np.array_equal(g[k], s.get_qvals(l, averaged=averaged), equal_nan=True) for k, l in enumerate(ls)),
                "get_qvals-list", "get_qvals of a list is not the list of get_qvals", ls=ls)
    m.count("atoms", R.n)
    return True


def conf(case, rng):
    nt = 2 if case["method"] in ("type", "type_r", "vtype") else 1
    return gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), nt=nt,
                      struct=case.get("struct"), noise=0.04, dmin=0.4, shape="any")


def run_case(case, m):
    rng = m.rng
    if case["kind"] != "q":
        return globals()["run_" + case["kind"]](case, m)
    box, pos, typ = conf(case, rng)
    n = len(pos)
    s = gen.make_system(box, pos, typ)
    try:
        search(s, case["method"], box, n, rng)
    except RuntimeError:
        m.count("refused")
        m.nontrivial("refused", case["method"])
        return
    ls = case["ls"]
    cond = None
    kw = {}
    ck = case["cond"]
    if ck is not None:
        flags = (rng.random(n) < rng.uniform(0.2, 0.8)).astype(int)
        m.count("conditions")
        if ck in ("callable", "two-step"):
            ident = {a.id: k for k, a in enumerate(s.atoms)}
            kw = dict(condition=lambda a: bool(flags[ident[a.id]]))
        else:
            at = s.atoms
            for k, a in enumerate(at):
                if ck == "attr":
                    a.solid = bool(flags[k])
                else:
                    a.custom = {"mine": int(flags[k])}
            s.atoms = at
            if len(s.atoms[0].neighbors) == 0 or n < 200:
                search(s, case["method"], box, n, np.random.default_rng(1))
            kw = dict(condition="solid" if ck == "attr" else "mine")
        cond = flags
    q = ls[0] if len(ls) == 1 and rng.random() < 0.5 else ls
    if ck == "two-step":
        R0 = QRef(s)
        s.calculate_q(q)
        if not compare_q(m, s, R0, ls, False):
            return
        s.calculate_q(q, only_averaged=True, **kw)
        R = QRef(s, cond)
        # neighbors with the same condition, of components found without a condition
        compare_q(m, s, R, ls, True, raw=False, base={l: R0.all(l) for l in ls}, tag="-condition")
        s.calculate_q(q, averaged=True, clear_condition=True)
        compare_q(m, s, R0, ls, True, tag="-cleared")
    else:
        R = QRef(s, cond)
        mode = int(rng.integers(3))
        if mode == 0:
            s.calculate_q(q, **kw)
            compare_q(m, s, R, ls, False, tag="-condition" if ck else "")
        elif mode == 1:
            s.calculate_q(q, averaged=True, **kw)
            compare_q(m, s, R, ls, True, tag="-condition" if ck else "")
        else:
            s.calculate_q(q, **kw)
            s.calculate_q(q, only_averaged=True)
            compare_q(m, s, R, ls, True, tag="-condition" if ck else "")
    m.nontrivial(case["method"], case["cell"], n < 200, str(ls), ck, case.get("struct"))


def run_poles(case, m):
    """Neighbors exactly along the axes and in the coordinate planes, where spherical coordinates are delicate."""
    rng = m.rng
    for rep in range(6):
        L = 30.0
        box = np.diag([L, L, L])
        dirs = np.array([[0, 0, 1], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [1, 1, 0], [-1, -1, 0], [0, 1, 1], [1, 0, -1]], float)
        sel = rng.permutation(len(dirs))[:int(rng.integers(1, 9))]
        dv = dirs[sel] / np.linalg.norm(dirs[sel], axis=1)[:, None] * rng.uniform(1, 1.3, (len(sel), 1))
        c = np.array([15.0, 15, 15])
        far = rng.uniform(0, 4, (210, 3)) * [7, 7, 1]
        pos = np.concatenate([[c], c + dv, far])
        s = gen.make_system(box, pos)
        s.find_neighbors(method="cutoff", cutoff=1.5)
        ls = list(range(2, 13))
        s.calculate_q(ls, averaged=True)
        R = QRef(s)
        # atoms without neighbors have no q
        if not compare_q(m, s, R, ls, False, tag="-axes"):
            return
        a = s.atoms[0]
        m.check(a.coordination == len(sel), "axes-coordination", "the central atom does not have its neighbors", got=a.coordination, want=len(sel))
        m.nontrivial("poles", sorted(sel.tolist()))


def run_isolated(case, m):
    """Isolated atoms must not spoil the values of others."""
    rng = m.rng
    L = 60.0
    box = np.diag([L, L, L])
    f = gen.gas(rng, 230, box, 0.3)
    pos = f @ box
    iso = pos[:20]
    pos2 = np.concatenate([pos, pos[30:] + rng.uniform(-1, 1, (200, 3))])
    s = gen.make_system(box, pos2)
    s.find_neighbors(method="cutoff", cutoff=2.0)
    s.calculate_q([4, 6], averaged=True)
    R = QRef(s)
    compare_q(m, s, R, [4, 6], True, tag="-isolated")
    q = np.array(s.get_qvals(6))
    lonely = np.array([a.coordination == 0 for a in s.atoms])
    m.check(np.all(np.isnan(q[lonely]) | (q[lonely] == 0)), "isolated", "an atom without neighbors has a value of q6", got=q[lonely][:5])
    m.check(lonely.sum() > 0 and (~lonely).sum() > 0, "setup", "no isolated atoms")
    m.nontrivial("isolated", int(lonely.sum()))


def run_history(case, m):
    """l values calculated in several calls, in any order and repeated, keep their values."""
    rng = m.rng
    box, pos, typ = conf(case, rng)
    s = gen.make_system(box, pos, typ)
    search(s, case["method"], box, len(pos), rng)
    R = QRef(s)
    done, adone = set(), set()
    for step in range(8):
        ls = [int(x) for x in rng.choice(np.arange(2, 13), size=int(rng.integers(1, 4)), replace=False)]
        av = bool(rng.random() < 0.5)
        if av and rng.random() < 0.3 and set(ls) <= done:
            s.calculate_q(ls, only_averaged=True)
        else:
            s.calculate_q(ls, averaged=av)
        done |= set(ls)
        adone |= set(ls) if av else set()
        if not compare_q(m, s, R, sorted(done), False, tag="-history"):
            return
        if adone and not compare_q(m, s, R, sorted(adone), True, raw=False, tag="-history"):
            return
    m.nontrivial("history", case["method"], case["cell"], len(pos) < 200)


KNOWN = {"fcc": {4: 0.190940653956493, 6: 0.574524259714230}, "bcc": {4: 0.0363696483726654, 6: 0.510688230857}, "sc": {4: 0.763762615825973, 6: 0.353553390593274}}


def run_perfect(case, m):
    """Textbook values of perfect lattices."""
    from pyscal.crystal_structures import make_crystal
    import pyscal.core as pc
    for st, vals in KNOWN.items():
        atoms, box = make_crystal(st, lattice_constant=3.0, repetitions=[6, 6, 6])
        s = pc.System()
        s.box = box
        s.atoms = atoms
        s.find_neighbors(method="cutoff", cutoff={"fcc": 2.5, "bcc": 3.6, "sc": 3.3}[st])
        s.calculate_q([4, 6], averaged=True)
        for l, v in vals.items():
            m.close(np.array(s.get_qvals(l)), v, "textbook", "q%d of %s" % (l, st), rtol=1e-6, atol=0)
            m.close(np.array(s.get_qvals(l, averaged=True)), v, "textbook", "averaged q%d of %s" % (l, st), rtol=1e-6, atol=0)
        m.nontrivial("perfect", st)
