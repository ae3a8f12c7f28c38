"""C20: random histories of operations on trajectories against a list of blocks."""
import os

import numpy as np

from vlib import dump, gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (operation, kind of block, kind of selection) whose outcome was compared with the model"
ASSUMPTIONS = ["every block has the same number of atoms, as the class assumes", "blocks are loaded as numbers, so only numeric columns are used where blocks are loaded"]
NEED = {"ops": 200, "blocks_checked": 150, "modified_written": 10, "index_errors": 20, "systems": 50, "two_ase": 3}


def cases(tier, seed):
    add, out = caser("C20", seed)
    rng = np.random.default_rng([seed, 20])
    for rep in range(12 if tier == "thorough" else 3):
        for cell in ("orth", "tri", "onetilt", "zerotilt"):
            for scaled in (False, True):
                add("history", cell=cell, scaled=scaled, n=int(rng.choice([1, 2, 7, 40])), nb=int(rng.integers(1, 9)), ops=30)
        add("history", cell="orth", scaled=False, n=230, nb=3, ops=10)
        add("history", cell=pick(rng, ["orth", "tri"]), scaled=bool(rng.integers(2)), n=2, nb=int(rng.choice([11, 14, 23, 105])), ops=30)
        add("two", n=9)
        add("iter", n=4)
    return out


class Model:
    """A file of blocks, and what is loaded of it."""

    def __init__(self, rng, case, path, seed=0, final_newline=None):
        self.rng, n, self.nb = rng, case["n"], case["nb"]
        self.path, self.scaled = path, case["scaled"]
        box = dump.lammps_cell(rng, case["cell"], 4.0 * np.cbrt(n) + 1)
        typ = gen.types(rng, n, min(n, 3), gen.somelabels(rng, min(n, 3)))
        extra = [["vx"], ["c_pe", "fy"], []][int(rng.integers(3))]
        order = rng.permutation(5 + len(extra)) if rng.random() < 0.6 else None
        large = int(pick(rng, [0, 0, 999000, 12345670, 10 ** 9]))      # as in files of large systems
        self.blocks = []
        for k in range(self.nb):
            b = box * rng.uniform(0.9, 1.2)
            f = gen.gas(rng, n, b, 0.3)
            ids = rng.permutation(n) + 1 if rng.random() < 0.5 else np.arange(n) + 1
            if large:
                ids = ids + large
            ex = {e: ["%.9g" % x for x in rng.normal(size=n) * 10 ** rng.uniform(-3, 3)] for e in extra}
            self.blocks.append(dump.block(rng, b, f, ids, typ, rng.uniform(-5, 5, 3) if rng.random() < 0.7 else np.zeros(3), scaled=self.scaled,
                                          triclinic=case["cell"] != "orth", extra=ex, order=order, step=int(rng.integers(0, 10 ** 6)), flags=bool(rng.random() < 0.5)))
        self.extra = extra
        self.n = n
        nl = rng.random() < 0.7 if final_newline is None else final_newline
        lines = [x for b in self.blocks for x in b]
        # the writing of the last block was interrupted
        self.partial = rng.random() < 0.3
        if self.partial:
            lines += self.blocks[-1][:len(self.blocks[-1]) - int(pick(rng, [1, 1, 2, int(rng.integers(1, n + 9))]))]
        dump.save(path, lines, newline=nl)
        self.parsed = [dump.parse(b) for b in self.blocks]
        self.loaded = {}

    def content(self, k):
        """What writing block k must give."""
        return self.loaded.get(k, self.parsed[k])


def copy_block(p):
    return dict(p, box=p["box"].copy(), origin=p["origin"].copy(), cols={k: list(v) for k, v in p["cols"].items()})


def same_block(m, got, want, key, lines=None):
    m.count("blocks_checked")
    ok = m.check(got["step"] == want["step"], key + "-step", "timestep of the block", got=got["step"], want=want["step"])
    ok &= m.check(got["n"] == want["n"], key + "-n", "number of atoms of the block", got=got["n"], want=want["n"])
    ok &= m.close(got["box"], want["box"], key + "-box", "cell of the block", rtol=1e-9, atol=1e-9)
    ok &= m.close(got["origin"], want["origin"], key + "-origin", "origin of the block", rtol=1e-9, atol=1e-9)
    if not m.check(sorted(got["names"]) == sorted(want["names"]), key + "-columns", "columns of the block", got=got["names"], want=want["names"]):
        return False
    for c in want["names"]:
        ok &= m.close(np.array(got["cols"][c], float), np.array(want["cols"][c], float), key + "-values", "column %s of the block" % c, rtol=1e-12, atol=1e-12)
    return ok


def cart(p, scaled):
    c = np.array([p["cols"][x + ("s" if scaled else "")] for x in "xyz"], float).T
    return c @ p["box"] if scaled else c - p["origin"]


def check_system(m, s, M, k, keys):
    p = M.parsed[k]
    m.count("systems")
    at = s.atoms
    if not m.check(len(at) == p["n"], "system-natoms", "atoms of block %d" % k, got=len(at)):
        return
    m.close(s.box, p["box"], "system-box", "cell of block %d as a system" % k, rtol=1e-9, atol=1e-8)
    m.check([a.id for a in at] == [int(x) for x in p["cols"]["id"]], "system-ids", "ids of block %d" % k)
    m.check([a.type for a in at] == [int(x) for x in p["cols"]["type"]], "system-types", "types of block %d" % k)
    d = np.array([a.pos for a in at]) - cart(p, M.scaled)
    m.close(d - d[0], np.zeros_like(d), "system-pos", "positions of block %d" % k, rtol=0, atol=1e-7)
    for c in keys or []:
        m.check([float(a.custom[c]) for a in at] == [float(x) for x in p["cols"][c]], "system-custom", "custom column of block %d" % k)


def check_ase(m, a, M, k, species):
    p = M.parsed[k]
    m.close(np.array(a.cell), p["box"], "ase-box", "cell of block %d as an ASE object" % k, rtol=1e-9, atol=1e-8)
    t = [int(x) for x in p["cols"]["type"]]
    u = sorted(set(t))
    m.check(list(a.symbols) == [species[u.index(x)] for x in t], "ase-species", "species of block %d" % k)
    d = a.positions - cart(p, M.scaled)
    m.close(d - d[0], np.zeros_like(d), "ase-pos", "positions of block %d as an ASE object" % k, rtol=0, atol=1e-7)


def check_dict(m, d, p, key="dict"):
    m.check(sorted(d["atoms"]) == sorted(p["names"]), key + "-columns", "columns of the loaded block", got=sorted(d["atoms"]))
    for c in p["names"]:
        m.close(d["atoms"][c], np.array(p["cols"][c], float), key + "-values", "column %s of the loaded block" % c, rtol=1e-12, atol=1e-12)
    b = np.array(d["box"], float)
    want = np.diag(p["box"])
    if b.shape == (3, 2):
        m.close(b[:, 1] - b[:, 0], want, key + "-box", "bounds of the loaded block", rtol=1e-9, atol=1e-9)
    else:
        m.check(b.shape == (3, 3), key + "-boxshape", "bounds of the loaded block", got=b.shape)


def selection(rng, nb):
    """(argument, list of block numbers, kind)."""
    if rng.random() < 0.4:
        k = int(rng.integers(-nb, nb))
        return (np.int64(k) if rng.random() < 0.2 else k), [k % nb], "index"
    f = lambda: None if rng.random() < 0.3 else int(rng.integers(-nb - 2, nb + 3))
    step = None if rng.random() < 0.4 else int(rng.choice([-3, -2, -1, 1, 2, 3]))
    s = slice(f(), f(), step)
    return s, list(range(nb))[s], "slice"


def run_history(case, m):
    from pyscal.trajectory import Trajectory
    rng = m.rng
    M = Model(rng, case, os.path.join(m.scratch(), "traj.dump"))
    t = Trajectory(M.path)
    m.check((t.nblocks, t.natoms) == (M.nb, M.n), "size", "number of blocks and atoms", got=(t.nblocks, t.natoms), want=(M.nb, M.n))
    species = ["Au", "Ge", "Fe"][:len(set(M.parsed[0]["cols"]["type"]))]
    original = open(M.path).read()
    for step in range(case["ops"]):
        m.count("ops")
        sel, want, how = selection(rng, M.nb)
        ts, ids = t[sel], want
        for _ in range(int(rng.integers(0, 3)) if rng.random() < 0.4 else 0):
            sel2, w2, h2 = selection(rng, M.nb)
            if rng.random() < 0.5:
                ts, ids = ts + t[sel2], ids + w2
            else:
                ts, ids = sum([ts, t[sel2]]), ids + w2
            how = "sum"
        m.check(isinstance(repr(ts), str) and isinstance(repr(t), str), "repr", "text of a slice")
        op = pick(rng, ["system", "ase", "dict", "file", "file", "append", "load", "modify", "modify", "unload", "block", "bad", "keys"])
        if op in ("system", "keys"):
            keys = M.extra if op == "keys" and M.extra else None
            got = ts.to_system(customkeys=keys)
            if m.check(len(got) == len(ids), "system-count", "number of systems", got=len(got), want=len(ids), sel=str(sel)):
                for s, k in zip(got, ids):
                    check_system(m, s, M, k, keys)
        elif op == "ase":
            got = ts.to_ase(species=species)
            if m.check(len(got) == len(ids), "ase-count", "number of ASE objects", got=len(got), want=len(ids), sel=str(sel)):
                for a, k in zip(got, ids):
                    check_ase(m, a, M, k, species)
        elif op == "dict":
            got = ts.to_dict()
            if m.check(len(got) == len(ids), "dict-count", "number of dictionaries", got=len(got), want=len(ids)):
                for d, k in zip(got, ids):
                    check_dict(m, d, M.content(k))
        elif op in ("file", "append"):
            q = os.path.join(m.scratch(), "out%d.dump" % step)
            ts.to_file(q)
            if op == "append":
                ts.to_file(q, mode="a")
                ids = ids + ids
            B = dump.blocks(open(q).read())
            if m.check(len(B) == len(ids), "file-count", "number of blocks written", got=len(B), want=len(ids), sel=str(sel), how=how):
                for b, k in zip(B, ids):
                    same_block(m, b, M.content(k), "file" if k not in M.loaded else "file-loaded")
                    m.count("modified_written", k in M.loaded)
                if ids:
                    t2 = Trajectory(q)
                    m.check(t2.nblocks == len(ids), "reread", "trajectory written and read again", got=t2.nblocks)
                    j = int(rng.integers(len(ids)))
                    if ids[j] not in M.loaded:
                        check_system(m, t2[j].to_system()[0], M, ids[j], None)
        elif op == "load":
            k = int(rng.integers(-M.nb, M.nb))
            t.load(k)
            M.loaded[k % M.nb] = copy_block(M.parsed[k % M.nb])
            check_dict(m, t.data[k], M.loaded[k % M.nb], "load")
        elif op == "modify":
            k = int(rng.integers(M.nb))
            if k not in M.loaded:
                t.load(k)
                M.loaded[k] = copy_block(M.parsed[k])
            c = pick(rng, M.parsed[0]["names"])
            v = np.array(M.loaded[k]["cols"][c], float)
            v = rng.permutation(v) + 1 if c in ("id", "type") else rng.normal(size=M.n)
            if rng.random() < 0.5:
                t.data[k]["atoms"][c] = v.copy()
            else:
                t.data[k]["atoms"][c][:] = v
            M.loaded[k]["cols"][c] = v.tolist()
        elif op == "unload":
            if M.loaded:
                k = pick(rng, sorted(M.loaded))
                t.unload(k)
                del M.loaded[k]
                m.check(t.data[k] is None, "unload", "data of an unloaded block")
        elif op == "block":
            k = int(rng.integers(-M.nb, M.nb))
            m.check([x.rstrip("\n") for x in t.get_block(k)] == M.blocks[k % M.nb], "block", "lines of block %d" % k)
        else:
            for bad in (M.nb, -M.nb - 1, M.nb + 100):
                m.raises(lambda: t[bad], IndexError, "index", "index %d of %d blocks" % (bad, M.nb))
                m.raises(lambda: t.get_block(bad), IndexError, "block-index", "block %d of %d" % (bad, M.nb))
                m.raises(lambda: t.load(bad), IndexError, "load-index", "loading block %d of %d" % (bad, M.nb))
                m.count("index_errors", 3)
        m.nontrivial(op, case["cell"], case["scaled"], how)
        if m.fails:
            return
    m.check(open(M.path).read() == original, "file-changed", "the file was changed")
    for k in range(M.nb):
        m.check((t.data[k] is not None) == (k in M.loaded) and t.loadlist[k] == (k in M.loaded), "loaded", "blocks kept in memory")
    # iteration gives every block once
    got = [s for s in t]
    m.check(len(got) == M.nb, "iteration", "blocks of an iteration", got=len(got), want=M.nb)
    for k, s in enumerate(got):
        check_system(m, s.to_system()[0], M, k, None)


def run_two(case, m):
    """Slices of two trajectories added."""
    from pyscal.trajectory import Trajectory
    rng = m.rng
    Ms, ts = [], []
    for k in range(3):
        c = dict(n=int(rng.integers(1, 12)), nb=int(rng.integers(1, 5)), cell=pick(rng, ["orth", "tri"]), scaled=bool(rng.random() < 0.5))
        Ms.append(Model(rng, c, os.path.join(m.scratch(), "t%d.dump" % k), final_newline=k != 1))
        ts.append(Trajectory(Ms[-1].path))
    for rep in range(12):
        want, sl = [], []
        for _ in range(int(rng.integers(2, 5))):
            w = int(rng.integers(3))
            sel, ids, how = selection(rng, Ms[w].nb)
            sl.append(ts[w][sel])
            want += [(w, i) for i in ids]
        total = sum(sl) if rng.random() < 0.5 else sl[0]
        if total is sl[0]:
            for x in sl[1:]:
                total = total + x
        m.count("ops")
        got = total.to_system()
        if m.check(len(got) == len(want), "two-count", "systems of added slices", got=len(got), want=len(want)):
            for s, (w, i) in zip(got, want):
                check_system(m, s, Ms[w], i, None)
        got = total.to_dict()
        if m.check(len(got) == len(want), "two-dict-count", "dictionaries of added slices", got=len(got), want=len(want)):
            for d, (w, i) in zip(got, want):
                check_dict(m, d, Ms[w].parsed[i], "two-dict")
        nt = set(len(set(Ms[w].parsed[i]["cols"]["type"])) for w, i in want)
        if len(nt) == 1:
            species = ["Au", "Ge", "Fe"][:nt.pop()]
            got = total.to_ase(species=species)
            m.count("two_ase")
            if m.check(len(got) == len(want), "two-ase-count", "ASE objects of added slices", got=len(got), want=len(want)):
                for a, (w, i) in zip(got, want):
                    check_ase(m, a, Ms[w], i, species)
        q = os.path.join(m.scratch(), "sum.dump")
        total.to_file(q)
        B = dump.blocks(open(q).read())
        if m.check(len(B) == len(want), "two-file", "blocks written", got=len(B), want=len(want)):
            for b, (w, i) in zip(B, want):
                same_block(m, b, Ms[w].parsed[i], "two")
        # the parts are what they were
        part = sl[0].to_system()
        m.check(len(part) <= len(want), "two-part", "a part grew")
        m.nontrivial("two", len(sl), rep)


def run_iter(case, m):
    from pyscal.trajectory import Trajectory
    rng = m.rng
    for rep in range(5):
        c = dict(n=int(rng.integers(1, 12)), nb=int(rng.integers(1, 7)), cell=pick(rng, ["orth", "tri"]), scaled=bool(rng.random() < 0.5))
        M = Model(rng, c, os.path.join(m.scratch(), "i.dump"))
        t = Trajectory(M.path)
        for k in (None, 1, M.nb, M.nb + 3):
            kk = min(M.nb, k or M.nb)
            a = list(t.iter(n_slices=k))
            m.check(a == list(range(kk)), "iter-ascending", "ascending", got=a, want=kk)
            a = list(t.iter(method="descending", n_slices=k))
            m.check(a == list(range(M.nb))[::-1][:kk], "iter-descending", "descending", got=a, want=kk)
            a = list(t.iter(method="random", n_slices=k))
            m.check(len(a) == kk and len(set(a)) == kk and set(a) <= set(range(M.nb)), "iter-random", "random", got=a, want=kk)
            m.count("ops", 3)
        for i, s in enumerate(t.iter(method="descending", output="system")):
            check_system(m, s, M, M.nb - 1 - i, None)
        m.raises(lambda: list(t.iter(method="sideways")), ValueError, "iter-method", "unknown method")
        m.nontrivial("iter", M.nb, c["cell"], c["scaled"])


def run_case(case, m):
    return globals()["run_" + case["kind"]](case, m)
