"""C28: systems are independent of each other; energies from the engine go to the right atoms and nothing is left behind."""
import os
import sys
import threading
import types

import numpy as np

from props.c21 import DERIVED, lim
from props.c26 import BASE, MORE, snapshot
from vlib import gen, quant, ref
from vlib.sysu import caser, pick

RULE = "one signature per (kind of sharing, operations, size classes) whose interleaved results equalled the isolated ones, and per (size class, cell, species, neighbors, fault) of an energy calculation"
ASSUMPTIONS = ["the dictionary of custom values of an atom is held by reference and shared between copies of the atom",
               "a stand-in for the lammps Python module reads the data file, evaluates a known energy for each atom and returns the atoms in another order",
               "threads run Python code in turn; the extension does not release the interpreter lock"]
NEED = {"interleaved": 150, "threads": 8, "shared": 100, "energies": 800, "faults": 40, "averages": 400}


def cases(tier, seed):
    add, out = caser("C28", seed)
    rng = np.random.default_rng([seed, 28])
    for rep in range(8 if tier == "thorough" else 2):
        for k in range(8):
            add("interleave", systems=int(rng.integers(2, 5)), steps=int(rng.integers(3, 7)), cell=pick(rng, gen.CELLS))
        for k in range(3):
            add("threads", systems=int(rng.integers(3, 6)), steps=4, cell=pick(rng, gen.CELLS))
        for k in range(4):
            add("shared", n=int(pick(rng, [3, 30, 60, 210])), cell=pick(rng, gen.CELLS))
            add("files", n=int(pick(rng, [5, 30, 205])), cell=pick(rng, gen.CELLS))
        for n in (1, 7, 60, 199, 200, 230):
            add("energy", n=n, cell=pick(rng, [c for c in gen.CELLS if c != "lefthanded"]), nt=int(rng.integers(1, 4)))
            add("fault", n=n, cell=pick(rng, [c for c in gen.CELLS if c != "lefthanded"]), nt=int(rng.integers(1, 4)))
            if n in (60, 230):
                add("energy", n=n, cell=pick(rng, [c for c in gen.CELLS if c != "lefthanded"]), nt=2, mode="none")
    return out


# ---- histories of several systems
class Run:
    """A system with its history; each step returns what it computed."""

    def __init__(self, seed, k, cell):
        self.rng = np.random.default_rng([seed, 77, k])
        n = int(pick(self.rng, [4, 20, 60, 205]))
        self.box, self.pos, self.typ = gen.config(seed + 31 * k, n, cell if k else pick(self.rng, gen.CELLS), spacing=2.0, nt=2, dmin=0.6, shape="any")
        self.n = len(self.pos)
        self.p = quant.params(self.rng, 2.0, lim(self.box, self.n))
        self.s = None
        self.names = []

    def step(self):
        r = self.rng
        if self.s is None:
            self.names.append("make")
            self.s = gen.make_system(self.box, self.pos, self.typ)
            return [np.array(self.s.box).tobytes()]
        x = r.random()
        if x < 0.7:
            name = pick(r, sorted(quant.RECIPES))
            fn = quant.RECIPES[name]
        elif x < 0.82:
            name = pick(r, sorted(DERIVED))
            def fn(s, p):
                s.find_neighbors(method="cutoff", cutoff=p["rc"])
                return DERIVED[name](s, p)
        elif x < 0.9:
            name = "move"
            def fn(s, p):
                a = s.get_atom(0)
                a.pos = (np.array(a.pos) + 0.01).tolist()
                a.custom = {"moved": 1}
                s.set_atom(a)
                return {"pos": quant.col(s, lambda a: a.pos[0])}
        elif x < 0.95:
            name = "box"
            def fn(s, p):
                s.box = (np.array(s.box) * 1.001).tolist()
                return {"box": (np.array(s.box), 1)}
        else:
            name = "fail"
            def fn(s, p):
                s.calculate_q(14)
        self.names.append(name)
        try:
            out = fn(self.s, self.p)
        except (RuntimeError, ValueError) as e:
            return [type(e).__name__.encode(), str(e).encode()]
        return [np.asarray(out[k][0]).tobytes() for k in sorted(out)]

    def end(self):
        return snapshot(self.s, BASE + MORE)


def isolated(case):
    runs = [Run(case["seed"], k, case["cell"]) for k in range(case["systems"])]
    res = [[r.step() for _ in range(case["steps"] + 1)] for r in runs]
    return runs, res, [r.end() for r in runs]


def compare(m, key, want, got, ends, runs, ref_runs):
    for k in range(len(want)):
        m.check(runs[k].names == ref_runs[k].names, "harness", "the histories are not the same")
        for i, (a, b) in enumerate(zip(want[k], got[k])):
            m.count("interleaved" if key == "interleaved" else "threads")
            if not m.check(a == b, key, "results depend on operations on other systems", system=k, step=i, history=runs[k].names[:i + 1]):
                return
        m.check(runs[k].end() == ends[k], key + "-state", "the state of a system depends on operations on other systems", system=k, history=runs[k].names)
    for r in runs:
        m.nontrivial(key, r.names[1:3], r.n < 200)


def interleave(case, m):
    ref_runs, want, ends = isolated(case)
    runs = [Run(case["seed"], k, case["cell"]) for k in range(case["systems"])]
    todo = [k for k in range(len(runs)) for _ in range(case["steps"] + 1)]
    got = [[] for _ in runs]
    for k in m.rng.permutation(todo):
        got[k].append(runs[k].step())
    compare(m, "interleaved", want, got, ends, runs, ref_runs)


def threads(case, m):
    ref_runs, want, ends = isolated(case)
    runs = [Run(case["seed"], k, case["cell"]) for k in range(case["systems"])]
    got = [[] for _ in runs]
    errors = []
    barrier = threading.Barrier(len(runs))

    def work(k):
        try:
            barrier.wait()
            for _ in range(case["steps"] + 1):
                got[k].append(runs[k].step())
        except BaseException as e:
            errors.append("%s: %s" % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(runs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if not m.check(not errors, "threads-error", "an operation failed when several threads work on systems of their own", errors=errors[:3]):
        return
    compare(m, "threads", want, got, ends, runs, ref_runs)


def shared(case, m):
    """Atoms taken from one system and given to others."""
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6, shape="any")
    n = len(pos)
    p = quant.params(rng, 2.0, lim(box, n))
    a = gen.make_system(box, pos, typ)
    a.find_neighbors(method="cutoff", cutoff=p["rc"])
    a.calculate_q([4, 6], averaged=True)
    atoms = a.atoms
    given = [list(v) for v in np.array(box)]
    import pyscal.core as pc
    b = pc.System()
    b.box = given
    b.atoms = atoms
    before = snapshot(a, BASE + MORE)
    held = [repr([getattr(x, k) for k in MORE + ["pos", "type", "id"]]) for x in atoms]

    def same(what):
        m.count("shared")
        m.check(snapshot(a, BASE + MORE) == before, "shared:" + what, "a system changed although another one was used", what=what, n=n)
        m.nontrivial("shared", what, n < 200)

    def kept(what):
        m.check([repr([getattr(x, k) for k in MORE + ["pos", "type", "id"]]) for x in atoms] == held, "held:" + what, "atoms that were taken from a system changed with it", what=what, n=n)
    for r in ("voronoi", "solids", "centro", pick(rng, sorted(quant.RECIPES))):
        try:
            quant.RECIPES[r](b, p)
        except (RuntimeError, ValueError):
            pass
        same(r)
        kept(r)
    x = b.get_atom(0)
    x.pos = [0.1, 0.2, 0.3]
    x.custom = {"a": 1}
    x.neighbors = []
    x.allq = [9.0] * 11
    b.set_atom(x)
    same("set_atom")
    kept("set_atom")
    given[0][0] += 1.0
    same("box-list")
    m.check(np.allclose(b.box, box), "box-alias", "the cell of a system changed with the list it was given", got=np.array(b.box) - box)
    b.box = (np.array(box) * 1.3).tolist()
    same("box")
    kept("box")
    got = a.box
    try:
        got[0][0] = 1e6
    except (TypeError, ValueError):
        pass
    m.check(n >= 200 or np.allclose(a.box, box), "box-returned", "the cell of a small system changed with the list that was returned")
    if n >= 200:
        a.box = np.array(box).tolist()
    b.reset_neighbors()
    same("reset")
    b.atoms = []
    same("empty")
    # atoms that were taken are copies
    for x in atoms:
        x.pos = [7.0, 7.0, 7.0]
        x.type = 5
        x.cluster = 3
        x.neighbors = [0]
    same("copies")
    if atoms:
        l = atoms[0].pos
        if isinstance(l, list):
            l[0] = 99.0
        m.check(atoms[0].pos[0] == 7.0, "pos-alias", "the position of an atom changed with the list that was returned")
    del b
    import gc
    gc.collect()
    same("deleted")
    # two systems from the same atoms give the same values
    c, e = gen.make_system(box, pos, typ), gen.make_system(box, pos, typ)
    r = pick(rng, ["steinhardt", "voronoi", "entropy"])
    e_first = quant.RECIPES["centro"](e, dict(p, nmax=2))
    u = quant.RECIPES[r](c, p)
    v = quant.RECIPES[r](e, p)
    m.check(all(np.array_equal(u[k][0], v[k][0], equal_nan=True) for k in u), "same-values", "equal systems give different values", recipe=r)


def files(case, m):
    """Readers and trajectories side by side."""
    import pyscal.core as pc
    from pyscal.trajectory import Trajectory
    rng = m.rng
    d = m.scratch()
    sets = []
    for k in range(3):
        box, pos, typ = gen.config(case["seed"] + k, case["n"] + k, pick(rng, gen.ORTH), spacing=2.0, nt=2, dmin=0.6, shape="any")
        s = gen.make_system(box, pos, typ)
        for t in range(3):
            s.to_file(os.path.join(d, "%d.%d" % (k, t)), timestep=t)
        with open(os.path.join(d, "t%d" % k), "w") as fh:
            for t in range(3):
                fh.write(open(os.path.join(d, "%d.%d" % (k, t))).read())
        sets.append((box, pos, s, snapshot(s, BASE)))
    ts = [Trajectory(os.path.join(d, "t%d" % k)) for k in range(3)]
    for _ in range(10):
        k, t = int(rng.integers(3)), int(rng.integers(3))
        box, pos, s, snap = sets[k]
        x = rng.random()
        if x < 0.4:
            got = ts[k][t].to_system()[0]
            m.check(got.natoms == len(pos) and np.allclose([a.pos for a in got.atoms], pos, atol=1e-4), "trajectory", "a block is not that of its trajectory", traj=k, block=t)
        elif x < 0.6:
            ts[k].load(t)
            ts[k].data[t]["atoms"]["type"][0] = 9 if isinstance(ts[k].data[t]["atoms"]["type"], list) else ts[k].data[t]["atoms"]["type"][0]
            ts[k].unload(t)
        elif x < 0.8:
            r = pc.System()
            r.read_inputfile(os.path.join(d, "%d.%d" % (k, t)))
            m.check(r.natoms == len(pos) and np.allclose([a.pos for a in r.atoms], pos, atol=1e-4), "read", "a file read is not the one written", file=k)
        else:
            s.to_file(os.path.join(d, "w"), customkeys=["type"])
        m.count("shared")
        for q in range(3):
            m.check(snapshot(sets[q][2], BASE) == sets[q][3], "files", "a system changed with files of others", system=q)
    m.nontrivial("files", case["n"])


# ---- energies
class Fault(Exception):
    pass


def parse(path):
    """Box rows, ids, types, positions of a LAMMPS data file."""
    L = open(path).read().split("\n")
    lo, hi, tilt, n, nt = {}, {}, [0, 0, 0], None, None
    atoms = []
    section = False
    for x in L:
        w = x.split()
        if not w:
            continue
        if section:
            atoms.append(w[:5])
        elif x.rstrip().endswith("atoms"):
            n = int(w[0])
        elif x.rstrip().endswith("atom types"):
            nt = int(w[0])
        elif w[-1] in ("xhi", "yhi", "zhi"):
            lo[w[-1][0]], hi[w[-1][0]] = float(w[0]), float(w[1])
        elif w[-1] == "yz":
            tilt = [float(k) for k in w[:3]]
        elif w[0] == "Atoms":
            section = True
    box = np.array([[hi["x"] - lo["x"], 0, 0], [tilt[0], hi["y"] - lo["y"], 0], [tilt[1], tilt[2], hi["z"] - lo["z"]]])
    a = np.array(atoms, float)
    return box, a[:, 0].astype(int), a[:, 1].astype(int), a[:, 2:5], n, nt


class Engine:
    """Stands in for lammps.lammps; records what it is asked for and can fail at any call."""

    def __init__(self, seed, fail_at=None):
        self.calls, self.fail_at, self.rng = [], fail_at, np.random.default_rng(seed)
        self.data, self.table, self.path = None, None, None

    def __call__(self, *a, **k):
        self.hit("init")
        return self

    def hit(self, what):
        self.calls.append(what)
        if self.fail_at is not None and len(self.calls) > self.fail_at:
            raise Fault(what)

    def command(self, c):
        self.hit(c)
        w = c.split()
        if w and w[0] == "read_data":
            self.path = w[1]
            self.data = parse(w[1])
            self.order = self.rng.permutation(len(self.data[1]))
            self.table = dict(zip(self.data[1].tolist(), self.rng.uniform(-5, -1, len(self.data[1]))))

    def commands_list(self, cs):
        for c in cs:
            self.command(c)

    def commands_string(self, s):
        for c in s.split("\n"):
            if c.strip():
                self.command(c)

    def extract_compute(self, cid, style, kind):
        self.hit("extract_compute")
        return [self.table[int(self.data[1][i])] for i in self.order] + [float("nan")] * 5

    def extract_atom(self, name, *a):
        self.hit("extract_atom")
        return [int(self.data[1][i]) for i in self.order] + [0] * 5

    def get_natoms(self):
        self.hit("get_natoms")
        return len(self.data[1])

    def close(self):
        pass


def with_engine(eng, d, fn):
    mod = types.ModuleType("lammps")
    mod.lammps = eng
    old, cwd = sys.modules.get("lammps"), os.getcwd()
    sys.modules["lammps"] = mod
    os.chdir(d)
    try:
        return fn()
    finally:
        os.chdir(cwd)
        if old is None:
            del sys.modules["lammps"]
        else:
            sys.modules["lammps"] = old


def setup(case, m):
    rng = m.rng
    box, pos, _ = gen.config(case["seed"], case["n"], case["cell"], pick(rng, gen.PLACES), spacing=2.0, dmin=0.6)
    n = len(pos)
    nt = min(case["nt"], n)
    typ = gen.types(rng, n, nt, list(range(1, nt + 1)))
    species = [str(x) for x in rng.permutation(["Au", "Cu", "Fe", "Zr", "Al"])[:nt]]
    s = gen.make_system(box, pos, typ)
    mode = case.get("mode") or pick(rng, ["none", "cutoff", "voronoi", "number"])
    p = quant.params(rng, 2.0, lim(box, n))
    try:
        if mode == "cutoff":
            s.find_neighbors(method="cutoff", cutoff=p["rc"])
        elif mode == "voronoi":
            s.find_neighbors(method="voronoi")
        elif mode == "number":
            s.find_neighbors(method="number", nmax=min(6, max(1, n - 1)), threshold=2.5)
    except RuntimeError:
        s.find_neighbors(method="cutoff", cutoff=p["rc"])
    return box, pos, np.array(typ), species, s, mode


def energy(case, m):
    rng = m.rng
    box, pos, typ, species, s, mode = setup(case, m)
    n = len(pos)
    d = m.scratch()
    eng = Engine(case["seed"])
    averaged = bool(rng.integers(2)) or case.get("mode") == "none"
    if averaged and n < 8 and mode == "none":
        s.find_neighbors(method="cutoff", cutoff=1.2 * lim(box, n) / 1.45)
        mode = "cutoff"
    mass = float(pick(rng, [1.0, 63.5]))
    keep = [k for k in MORE if "energy" not in k]
    before = snapshot(s, BASE + (keep if not averaged or mode != "none" else []))
    sp = species[0] if len(species) == 1 and rng.integers(2) else species
    with_engine(eng, d, lambda: s.calculate_energy(species=sp, pair_style="eam/alloy", pair_coeff="* * pot.%d" % n, mass=mass, averaged=averaged))
    m.check(os.listdir(d) == [], "left", "the energy calculation left files", files=os.listdir(d))
    m.require(eng.data is not None, "no-data", "no atoms were given to the engine", calls=eng.calls)
    m.check(os.path.dirname(eng.path) in (d, os.path.realpath(d)) or not os.path.exists(eng.path), "left", "the energy calculation left files", files=eng.path)
    after = snapshot(s, BASE + (keep if not averaged or mode != "none" else []))
    m.check(before == after, "changed", "the energy calculation changed something else than energies", n=n, mode=mode)
    c = eng.calls
    pos_of = lambda w: next((i for i, x in enumerate(c) if x.split()[0] == w), None)
    m.check("pair_style eam/alloy" in [" ".join(x.split()) for x in c] and "pair_coeff * * pot.%d" % n in [" ".join(x.split()) for x in c], "potential", "the potential given was not used", calls=c)
    want = next((x.split() for x in c if x.startswith("mass")), [])
    m.check(len(want) == 3 and want[1] == "*" and abs(float(want[2]) - mass) < 1e-5, "mass", "the mass given was not used", calls=c)
    ok = all(pos_of(k) is not None for k in ("units", "read_data", "pair_style", "pair_coeff", "compute", "run", "extract_compute")) and pos_of("units") < pos_of("read_data") < pos_of("pair_style") < pos_of("pair_coeff") < pos_of("run") < pos_of("extract_compute") and pos_of("compute") < pos_of("run")
    m.check(ok, "order", "commands are not in an order the engine can work with", calls=c)
    # what the engine was given is the system
    fbox, ids, ftyp, fpos, fn, fnt = eng.data
    m.require(fn == n == len(ids) and sorted(ids.tolist()) == list(range(1, n + 1)), "atoms", "the engine was not given every atom once", got=len(ids), n=n)
    m.check(fnt == len(species), "types", "number of types", got=fnt)
    o = np.argsort(ids)
    m.check((ftyp[o] == typ).all(), "types", "the types of the atoms given to the engine", got=ftyp[o][:8], want=typ[:8], species=species)
    a, b = np.linalg.norm(fbox, axis=1), np.linalg.norm(box, axis=1)
    m.close(fbox @ fbox.T, np.array(box) @ np.array(box).T, "cell", "the cell given to the engine", rtol=1e-6, atol=1e-6)
    df = fpos[o] @ np.linalg.inv(fbox) - pos @ np.linalg.inv(box)
    m.close(df - np.round(df), 0 * df, "positions", "the positions given to the engine", atol=1e-6)
    E = np.array([eng.table[i + 1] for i in range(n)])
    atoms = s.atoms
    m.count("energies", n)
    if not m.close([x.energy for x in atoms], E, "energy", "an atom does not have the energy calculated for it", rtol=1e-12):
        return
    par, _ = ref.parents(s, box, pos)
    av = np.array([(E[i] + sum(E[par[j]] for j in x.neighbors)) / (1 + len(x.neighbors)) for i, x in enumerate(atoms)])
    m.close([x.avg_energy for x in atoms], av, "avg_energy", "the averaged energy is not the mean over the atom and its neighbors", rtol=1e-10, mode=mode, averaged=averaged)
    if any(len(x.neighbors) for x in atoms):
        m.count("averages", n)
    elif averaged:
        m.fail("no-neighbors", "an averaged energy was requested and no neighbors were found", n=n)
    m.nontrivial("energy", n, case["cell"], len(species), mode, averaged)


def fault(case, m):
    rng = m.rng
    box, pos, typ, species, s, mode = setup(case, m)
    n = len(pos)
    d = m.scratch()
    with open(os.path.join(d, "precious"), "w") as fh:
        fh.write("x")
    total = Engine(1)
    with_engine(total, d, lambda: s.calculate_energy(species=species, pair_style="a", pair_coeff="* * b"))
    E0 = [a.energy for a in s.atoms]
    before = snapshot(s, BASE + MORE)
    for k in range(len(total.calls)):
        eng = Engine(2, fail_at=k)
        m.count("faults")
        m.raises(lambda: with_engine(eng, d, lambda: s.calculate_energy(species=species, pair_style="a", pair_coeff="* * b", averaged=bool(mode != "none" and k % 2))), Fault, "fault", "a failure of the engine was hidden", at=eng.calls[-1:], n=n)
        m.check(os.listdir(d) == ["precious"], "fault-left", "a failed energy calculation left files", files=os.listdir(d), at=eng.calls[-1])
        m.check(snapshot(s, BASE + MORE) == before, "fault-state", "a failed energy calculation changed the system", at=eng.calls[-1])
        m.nontrivial("fault", eng.calls[-1].split()[0], n < 200)
    for kw in ({"pair_style": None, "pair_coeff": "* * b"}, {"pair_style": "a", "pair_coeff": None}):
        m.count("faults")
        m.raises(lambda: with_engine(Engine(3), d, lambda: s.calculate_energy(species=species, **kw)), ValueError, "fault-args", "a missing potential was accepted")
        m.check(os.listdir(d) == ["precious"], "fault-left", "a refused energy calculation left files", files=os.listdir(d))
    m.raises(lambda: with_engine(Engine(3), d, lambda: s.calculate_energy(species=species + ["H"], pair_style="a", pair_coeff="b")), ValueError, "fault-species", "a wrong number of species was accepted")
    m.check(os.listdir(d) == ["precious"], "fault-left", "a refused energy calculation left files", files=os.listdir(d))
    # without the engine
    mod = sys.modules.get("lammps")
    sys.modules["lammps"] = None
    cwd = os.getcwd()
    os.chdir(d)
    try:
        m.raises(lambda: s.calculate_energy(species=species, pair_style="a", pair_coeff="b"), ModuleNotFoundError, "fault-missing", "a missing engine was not reported")
    finally:
        os.chdir(cwd)
        del sys.modules["lammps"]
        if mod is not None:
            sys.modules["lammps"] = mod
    m.check(os.listdir(d) == ["precious"], "fault-left", "an energy calculation without engine left files", files=os.listdir(d))
    m.check(snapshot(s, BASE + MORE) == before, "fault-state", "a refused energy calculation changed the system")
    eng = Engine(5)
    with_engine(eng, d, lambda: s.calculate_energy(species=species, pair_style="a", pair_coeff="* * b"))
    m.close([a.energy for a in s.atoms], [eng.table[i + 1] for i in range(n)], "after-fault", "energies after failures", rtol=1e-12)
    del E0


def run_case(case, m):
    {"interleave": interleave, "threads": threads, "shared": shared, "files": files, "energy": energy, "fault": fault}[case["kind"]](case, m)
