"""C18: LAMMPS dumps: reading independent files, and writing files that an independent reader understands."""
import os

import numpy as np

from vlib import dump, gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (direction, cell kind, coordinates, columns, compression, size class) whose every atom was compared"
ASSUMPTIONS = ["written coordinates have six decimals; positions may be shifted as a whole and the cell may be rotated, which keeps all periodic distances"]
NEED = {"read_atoms": 1000, "written_atoms": 1000, "roundtrip_atoms": 1000, "columns": 20, "splits": 4}


def cases(tier, seed):
    add, out = caser("C18", seed)
    rng = np.random.default_rng([seed, 18])
    for rep in range(6 if tier == "thorough" else 1):
        for cell in ("orth", "tri", "onetilt", "zerotilt"):
            for scaled in (False, True):
                for comp in ("no", "gz", "flag"):
                    add("read", cell=cell, scaled=scaled, comp=comp, n=int(rng.choice([1, 3, 30, 150, 250])))
        for cell in gen.CELLS + ["cancel"]:
            for comp in ("no", "gz"):
                add("write", cell=cell, comp=comp, place=pick(rng, gen.PLACES), n=int(rng.choice([1, 2, 20, 120, 230])))
        for comp in ("no", "gz", "flag"):
            add("split", comp=comp, cell=pick(rng, ["orth", "tri"]), n=int(rng.choice([1, 5, 40])))
        add("customvals", n=1)
        add("repeat", n=1)
    return out


def path(m, comp, stem="conf.dump"):
    return os.path.join(m.scratch(), {"no": stem, "gz": stem + ".gz", "flag": stem + ".z"}[comp])


def state(s):
    return ([a.pos for a in s.get_all_atoms()], [a.id for a in s.get_all_atoms()], [a.type for a in s.get_all_atoms()], np.array(s.box).tolist())


def labels(rng, n, what):
    if what == "int":
        return ["%d" % x for x in rng.integers(-50, 50, n)]
    if what == "float":
        return ["%.8g" % x for x in rng.normal(size=n) * 10 ** rng.uniform(-6, 6)]
    return ["".join(rng.choice(list("abcXYZ_"), 4)) for _ in range(n)]


def run_case(case, m):
    return globals()["run_" + case["kind"]](case, m)


def run_read(case, m):
    import pyscal.core as pc
    import pyscal.traj_process as ptp
    rng = m.rng
    n, scaled, comp = case["n"], case["scaled"], case["comp"]
    L = float(rng.uniform(2, 4)) * np.cbrt(n) + 1
    box = dump.lammps_cell(rng, case["cell"], L)
    f = gen.gas(rng, n, box, 0.3)
    if rng.random() < 0.5:
        f = f + rng.integers(-1, 2, f.shape)
    ids = rng.permutation(np.arange(1, n + 1) + int(rng.choice([0, 0, 500])))
    nt = int(rng.integers(1, 4))
    typ = gen.types(rng, n, nt, gen.somelabels(rng, nt))
    origin = rng.uniform(-20, 20, 3) if rng.random() < 0.7 else np.zeros(3)
    extra = {}
    for k, w in enumerate(rng.permutation(["int", "float", "text"])[:rng.integers(0, 4)]):
        extra[["c_pe", "v_foo[2]", "vx", "element"][(k + int(rng.integers(4))) % 4 if k == 0 else k] + ("" if k == 0 else str(k))] = labels(rng, n, w)
    order = rng.permutation(5 + len(extra)) if rng.random() < 0.7 else None
    lines = dump.block(rng, box, f, ids, typ, origin, scaled=scaled, triclinic=case["cell"] != "orth", extra=extra, order=order, step=int(rng.integers(0, 10 ** 6)),
                       flags=bool(rng.random() < 0.7), sep=pick(rng, [" ", " ", "  ", "\t"]))
    if rng.random() < 0.3:
        lines = [x + " " for x in lines]     # LAMMPS ends lines of atoms with a blank
    if rng.random() < 0.3:
        # a second block must not be read
        lines = lines + dump.block(rng, box * 1.5, f, ids[::-1], typ[::-1], origin, scaled=scaled, triclinic=case["cell"] != "orth", step=99)
    p = path(m, comp)
    dump.save(p, lines, comp != "no", newline=bool(rng.random() < 0.8))
    keys = [k for k in extra if rng.random() < 0.7]
    kw = {}
    if comp == "flag":
        kw["compressed"] = True
    if keys or rng.random() < 0.3:
        kw["customkeys"] = keys
    s = pc.System()
    if rng.random() < 0.4:
        # a system that is used again
        s.box, s.atoms = np.eye(3).tolist(), gen.make_atoms([[0.1, 0.2, 0.3]])
    s.read_inputfile(p, **kw)
    at = s.atoms
    m.count("read_atoms", len(at))
    m.require(len(at) == n, "read-natoms", "number of atoms", got=len(at), want=n)
    m.close(s.box, box, "read-box", "cell of the file", rtol=1e-9, atol=1e-8)
    m.check([a.id for a in at] == ids.tolist(), "read-ids", "ids, in the order of the file")
    m.check([a.type for a in at] == typ.tolist(), "read-types", "types, in the order of the file")
    d = np.array([a.pos for a in at]) - f @ box
    m.close(d, np.tile(d[:1], (n, 1)), "read-positions", "positions relative to each other", rtol=0, atol=1e-8 * (1 + np.abs(d).max()), cell=case["cell"], scaled=scaled)
    for k in keys:
        m.count("columns")
        m.check([str(a.custom[k]) for a in at] == extra[k] or np.allclose([float(a.custom[k]) for a in at], [float(x) for x in extra[k]]), "read-custom", "custom column %s" % k, got=at[0].custom.get(k), want=extra[k][0])
    for _ in range(4):
        i, j = rng.integers(n, size=2)
        # distances are those of the cell of the calculation: small systems are replicated
        sup = box * np.round(np.cbrt(s.ntotal / n))
        h = gen.heights(sup).min()
        w = np.linalg.norm(ref.mic(sup, (f[i] - f[j]) @ box)[0])
        if w < 0.49 * h:
            m.close(s.get_distance(at[i], at[j]), w, "read-distance", "distance of two atoms", rtol=1e-7, atol=1e-7)
    if n >= 30:
        rc = ref.cutoff_in_gap(box, f @ box, 0.45 * gen.heights(box).min(), width=1e-6)
        if rc:
            s.find_neighbors(method="cutoff", cutoff=rc)
            c = ref.Crystal(box, f @ box, rc * 1.01)
            for i in rng.integers(n, size=8):
                m.check(len(c.neighbors(i, rc)[0]) == s.get_atom(int(i)).coordination, "read-neighbors", "coordination of an atom of the file", got=s.get_atom(int(i)).coordination)
    atoms, b2 = ptp.read_file(p, **kw)
    m.check(len(atoms) == n, "read-file", "read_file of traj_process", got=len(atoms))
    import pyscal.formats.lammps as pl
    kw2 = dict(kw)
    kw2["check_triclinic"] = True
    g = pl.read_snap(p, **kw2)
    m.check(len(g) == 3 and bool(g[2]) == (case["cell"] != "orth"), "read-triclinic", "read_snap with check_triclinic", got=g[2:], cell=case["cell"])
    for x in (pl.read_snap(p, **kw), (atoms, b2), g):
        m.check([(a.id, a.type, a.pos, dict(a.custom)) for a in x[0]] == [(a.id, a.type, a.pos, dict(a.custom)) for a in at], "read-direct", "functions that read the same file give different atoms")
        m.close(x[1], s.box, "read-direct-box", "functions that read the same file give different cells", rtol=0, atol=1e-12)
    m.nontrivial("read", case["cell"], scaled, comp, bool(extra), n < 200, order is not None)


def same(m, box, pos, typ, ids, gbox, gpos, gtyp, gids, key):
    """The got configuration is the wanted one up to a rotation and a shift, within printed precision."""
    n = len(pos)
    m.check(list(gids) == list(ids), key + "-ids", "ids", got=list(gids)[:4], want=list(ids)[:4])
    m.check(list(gtyp) == list(typ), key + "-types", "types", got=list(gtyp)[:4], want=list(typ)[:4])
    # each entry of the cell is printed to 5e-7; bounds of tilted cells are sums of up to three printed numbers
    e = 4e-6
    G, H = np.asarray(gbox) @ np.asarray(gbox).T, np.asarray(box) @ np.asarray(box).T
    m.close(G, H, key + "-cell", "lengths and angles of the cell", rtol=0, atol=e * np.abs(box).max() * 6)
    f, g = pos @ np.linalg.inv(box), gpos @ np.linalg.inv(gbox)
    d = (g - g[0]) - (f - f[0])
    tol = e * (2 + np.abs(f - f[0]).max() * 6) / gen.heights(box).min() * 2
    m.check(tol < 1e-2, key + "-precision", "the generated configuration is too small for the printed precision")
    m.close(d, np.zeros((n, 3)), key + "-positions", "fractional positions", rtol=0, atol=tol)


def run_write(case, m):
    import pyscal.core as pc
    rng = m.rng
    n = case["n"]
    sp = float(rng.uniform(2, 4))
    box, pos, typ = gen.config(case["seed"], n, case["cell"], case["place"], spacing=sp, nt=2, labels=gen.somelabels(np.random.default_rng(case["seed"]), 2))
    n = len(pos)
    ids = rng.permutation(np.arange(1, n + 1))
    s = gen.make_system(box, pos, typ, ids)
    keys, want = [], {}
    if rng.random() < 0.8:
        at = s.atoms
        foo = rng.normal(size=n)
        for i, a in enumerate(at):
            a.custom = {"foo": float(foo[i]), "name": "a%d" % i}
        s.atoms = at
        keys, want = ["foo", "name"], {"foo": [repr(float(x)) for x in foo], "name": ["a%d" % i for i in range(n)]}
        if n > 100 and rng.random() < 0.7:
            h = gen.heights(box).min()
            s.find_neighbors(method="cutoff", cutoff=min(1.5 * sp, (0.49 if n >= 200 else 1.45) * h))
            s.calculate_q([4, 6], averaged=True)
            keys += ["coordination", "q4", "aq6"]
            want["coordination"] = [str(a.coordination) for a in s.atoms]
            want["q4"] = [repr(float(x)) for x in s.get_qvals(4)]
            want["aq6"] = [repr(float(x)) for x in s.get_qvals(6, averaged=True)]
        k = rng.permutation(len(keys))
        keys = [keys[i] for i in k]
    before = state(s)
    comp = case["comp"]
    p = path(m, comp)
    step = int(rng.integers(0, 10 ** 7))
    kw = dict(compressed=True) if comp == "gz" else {}
    if keys:
        kw["customkeys"] = list(keys)
    if rng.random() < 0.7:
        kw["timestep"] = step
    else:
        step = 0
    s.to_file(p, **kw)
    m.check(state(s) == before, "write-unchanged", "writing a file changed the system")
    B = dump.blocks(dump.load(p, comp == "gz"))
    m.require(len(B) == 1, "write-blocks", "number of blocks in the file", got=len(B))
    b = B[0]
    m.count("written_atoms", b["n"])
    m.check(b["step"] == step, "write-step", "timestep", got=b["step"], want=step)
    m.require(b["n"] == n, "write-natoms", "number of atoms", got=b["n"], want=n)
    m.check([c for c in b["names"] if c in keys] == keys, "write-columns", "custom columns", got=b["names"], want=keys)
    gp = np.array([b["cols"][c] for c in "xyz"], float).T
    same(m, box, pos, typ, ids, b["box"], gp - b["origin"], np.array(b["cols"]["type"], int), np.array(b["cols"]["id"], int), "write")
    for k in keys:
        m.count("columns")
        got = b["cols"][k]
        try:
            ok = np.allclose([float(x) for x in got], [float(x) for x in want[k]], rtol=1e-9, atol=1e-12)
        except ValueError:
            ok = got == want[k]
        m.check(ok, "write-custom", "custom column %s" % k, got=got[0], want=want[k][0])
    # and back
    s2 = pc.System()
    s2.read_inputfile(p, customkeys=keys)
    at = s2.atoms
    m.count("roundtrip_atoms", len(at))
    m.require(len(at) == n, "back-natoms", "number of atoms read back", got=len(at), want=n)
    same(m, box, pos, typ, ids, np.array(s2.box), np.array([a.pos for a in at]), [a.type for a in at], [a.id for a in at], "back")
    for k in keys:
        m.check([a.custom[k] for a in at] == b["cols"][k], "back-custom", "custom column %s read back" % k)
    h = gen.heights(box).min()
    if np.linalg.det(box) != 0:
        A, A2 = s.atoms, s2.atoms
        for _ in range(6):
            i, j = (int(x) for x in rng.integers(n, size=2))
            w = s.get_distance(A[i], A[j])
            if w < 0.45 * h:
                m.close(s2.get_distance(A2[i], A2[j]), w, "back-distance", "distance after writing and reading", rtol=0, atol=1e-4)
    # a second round changes nothing any more beyond the printed precision
    p2 = path(m, "no", "second.dump")
    s2.to_file(p2, customkeys=keys)
    b2 = dump.blocks(dump.load(p2))[0]
    same(m, np.array(s2.box), np.array([a.pos for a in at]), typ, ids, b2["box"], np.array([b2["cols"][c] for c in "xyz"], float).T - b2["origin"],
         np.array(b2["cols"]["type"], int), np.array(b2["cols"]["id"], int), "second")
    m.check(all(b2["cols"][k] == b["cols"][k] for k in keys), "second-custom", "custom columns after two rounds")
    m.nontrivial("write", case["cell"], comp, bool(keys), n < 200)


def run_split(case, m):
    """split_trajectory gives one file per block, with exactly its lines."""
    import pyscal.traj_process as ptp
    import pyscal.core as pc
    rng = m.rng
    n, comp = case["n"], case["comp"]
    box = dump.lammps_cell(rng, case["cell"], 5.0 * np.cbrt(n))
    nb = int(rng.integers(1, 7))
    B = [dump.block(rng, box * rng.uniform(1, 1.2), gen.gas(rng, n, box, 0.3), rng.permutation(n) + 1, gen.types(rng, n, 2), np.zeros(3), step=10 * k) for k in range(nb)]
    p = path(m, comp, "traj.dat")
    dump.save(p, [x for b in B for x in b], comp != "no")
    kw = dict(compressed=True) if comp == "flag" else {}
    files = ptp.split_trajectory(p, **kw)
    m.require(len(files) == nb, "split-number", "number of files", got=len(files), want=nb)
    m.check(len(set(files)) == nb, "split-names", "names of the files are not distinct")
    for k, fn in enumerate(files):
        m.count("splits")
        m.check(dump.load(fn).split("\n")[:-1] == B[k], "split-lines", "lines of block %d" % k)
        s = pc.System()
        s.read_inputfile(fn)
        m.check(s.natoms == n, "split-read", "block read as a system", got=s.natoms)
        m.close(s.box, dump.parse(B[k])["box"], "split-box", "cell of block %d" % k, rtol=1e-8, atol=1e-8)
    m.nontrivial("split", comp, case["cell"], n, nb)


def run_customvals(case, m):
    """Values given with the call; documented shapes."""
    rng = m.rng
    for rep in range(6):
        n = int(rng.choice([1, 7, 60, 210]))
        box, pos, typ = gen.config(case["seed"] + rep, n, pick(rng, gen.CELLS), "inside", spacing=3.0)
        s = gen.make_system(box, pos, typ)
        k = int(rng.integers(1, 4)) if rep > 1 else 1
        v = rng.normal(size=(n, k))
        names = ["k%d" % i for i in range(k)]
        vals = v.tolist() if rng.random() < 0.5 else v
        if k == 1 and (rep < 2 or rng.random() < 0.7):
            vals, names = (v[:, 0].tolist(), names) if (rep == 0 or rng.random() < 0.5) else (v[:, 0], "k0")
        p = path(m, "no")
        s.to_file(p, customkeys=names, customvals=vals)
        b = dump.blocks(dump.load(p))[0]
        for i in range(k):
            m.close(np.array(b["cols"]["k%d" % i], float), v[:, i], "customvals", "values given with the call", rtol=1e-9, atol=1e-12)
            m.count("columns")
        bad = [(n + 1, k), (n, k + 1)]
        for sh in bad:
            m.raises(lambda: s.to_file(p, customkeys=["k%d" % i for i in range(k)], customvals=np.zeros(sh).tolist()), ValueError, "customvals-shape", "values of shape %s for %s" % (sh, (n, k)))
        m.raises(lambda: s.to_file(p, customkeys=["nosuchkey"]), AttributeError, "customkeys-unknown", "unknown key")
        m.nontrivial("customvals", n, k, isinstance(names, str))


def run_repeat(case, m):
    """Several systems written to the same name and to open files."""
    import pyscal.core as pc
    import pyscal.traj_process as ptp
    rng = m.rng
    p = path(m, "no", "many.dump")
    want = []
    with open(p, "w") as fh:
        for k in range(4):
            box, pos, typ = gen.config(case["seed"] + k, 25, "tri+", "inside", spacing=3.0)
            s = gen.make_system(box, pos, typ)
            ptp.write_file(s, fh, timestep=k)
            want.append((box, pos, typ))
    B = dump.blocks(dump.load(p))
    m.require(len(B) == 4, "many", "blocks written to one open file", got=len(B))
    for k, (b, w) in enumerate(zip(B, want)):
        m.check(b["step"] == k, "many-step", "timestep")
        same(m, w[0], w[1], w[2], list(range(1, 26)), b["box"], np.array([b["cols"][c] for c in "xyz"], float).T, np.array(b["cols"]["type"], int), np.array(b["cols"]["id"], int), "many")
    # the file of a larger system is replaced by that of a smaller one
    for n in (120, 3):
        box, pos, typ = gen.config(case["seed"] + n, n, "orth", "inside", spacing=3.0)
        gen.make_system(box, pos, typ).to_file(p)
        B = dump.blocks(dump.load(p))
        m.check(len(B) == 1 and B[0]["n"] == n, "overwrite", "a file written over another", got=[b["n"] for b in B])
    m.nontrivial("repeat")
