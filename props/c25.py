"""C25: repeated work keeps memory and open files bounded, and memory grows in proportion to the atoms."""
import ctypes
import gc
import gzip
import json
import os
import subprocess
import sys

import numpy as np

from vlib import build, gen, quant
from vlib.sysu import caser, pick
from props.c21 import DERIVED, lim

TIMEOUT = 300
RULE = "one signature per (operation, size class, on one system or new systems) repeated under the memory monitor"
ASSUMPTIONS = ["memory is the blocks that malloc and its relatives handed out and that were not freed, counted by a preloaded allocator, python objects included (PYTHONMALLOC=malloc)", "peaks are compared between sizes, with an allowance for fixed buffers; calculate_rdf, which makes a list of all pairs of atoms, is left out of these"]
NEED = {"repetitions": 900, "operations": 40, "peaks": 10}
LIB = os.path.join(build.BUILD, "liballoc.so")
ENV = {"PYTHONMALLOC": "malloc", "LD_PRELOAD": LIB}


def counter():
    """The counting allocator, which the workers of this property preload."""
    src = os.path.join(build.VERIF, "vlib", "alloc.cpp")
    os.makedirs(build.BUILD, exist_ok=True)
    tmp = LIB + ".%d" % os.getpid()
    subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-fno-builtin", "-w", "-o", tmp, src], check=True)
    os.replace(tmp, LIB)


def used():
    """Live blocks and bytes of operator new, live blocks and bytes of the heap, objects known to the garbage collector."""
    gc.collect()
    lib = ctypes.CDLL(None)
    f = [lib.vf_new_blocks, lib.vf_new_bytes, lib.vf_blocks, lib.vf_bytes]
    for x in f:
        x.restype = ctypes.c_long
    return [x() for x in f] + [len(gc.get_objects())]


def fds():
    return len(os.listdir("/proc/self/fd"))


def cases(tier, seed):
    counter()
    add, out = caser("C25", seed)
    rng = np.random.default_rng([seed, 25])
    th = tier == "thorough"
    for r in quant.RECIPES:
        add("same", calls=[r], n=int(pick(rng, [6, 30, 205])), cell=pick(rng, gen.CELLS), reps=60 if th else 26, env=ENV)
    for d in DERIVED:
        add("same", calls=[d], n=int(pick(rng, [20, 205])), cell=pick(rng, gen.CELLS), reps=60 if th else 26, env=ENV)
    for k in range(12 if th else 4):
        add("same", calls=[pick(rng, list(quant.RECIPES)) for _ in range(3)], n=int(pick(rng, [6, 30, 205])), cell=pick(rng, gen.CELLS), reps=40 if th else 24, env=ENV)
    # cell lists
    add("same", calls=["cutoff", "clusters"], n=2400, cell=pick(rng, ["cubic", "orth"]), reps=10, env=ENV)
    add("same", calls=[pick(rng, ["adaptive", "number", "sann"])], n=4100, cell=pick(rng, ["cubic", "orth"]), reps=8, env=ENV)
    for k in range(8 if th else 3):
        add("fresh", calls=[pick(rng, list(quant.RECIPES)) for _ in range(2)], n=int(pick(rng, [6, 30, 205])), cell=pick(rng, gen.CELLS), reps=40 if th else 24, env=ENV)
    for w in OPS:
        add("ops", what=w, n=20, cell=pick(rng, gen.CELLS), reps=60 if th else 30, env=ENV)
    for w in ("cells", "voronoi", "adaptive", "number", "solids", "cna", "file", "steinhardt", "clusters", "entropy", "sro", "chi", "sann", "csm", "diamond", "repeat", "access"):
        add("peak", what=w, cell="cubic" if w in ("cells", "adaptive", "cna", "sann", "diamond") else pick(rng, ["cubic", "orth", "tri+"]))
    return out


def judge(m, fn, reps, key, slack=60000, **detail):
    """Repeat fn and look at memory in use and open files after every repetition."""
    for _ in range(4):
        fn()
    f0 = fds()
    u = np.zeros((reps + 1, 5))      # the monitor itself takes no memory while it watches
    u[0] = used()
    for k in range(reps):
        fn()
        u[k + 1] = used()
    m.count("repetitions", reps)
    m.count("operations")
    m.note("growth", (u[-1] - u[1]).tolist())
    m.check(u[0, 0] > 0, "counter", "the counting allocator is not in use")
    half = u[len(u) // 2:]
    inc = np.diff(half, axis=0)
    pair = (half[2::2] - half[:-2:2]) / 2
    steady = np.minimum(np.median(inc, axis=0), np.median(pair, axis=0))
    trace = dict(trace=(u - u[0]).T.tolist(), **detail)
    # what the extension allocates is exact; the interpreter fills caches of its own for a while
    m.check(steady[0] < 0.9, "leak:" + key, "every repetition leaves memory of the extension behind", blocks=steady[0], **trace)
    m.check(steady[4] < 0.9, "objects:" + key, "every repetition leaves python objects behind", objects=steady[4], **trace)
    m.check(steady[2] < 12, "blocks:" + key, "every repetition leaves memory behind", blocks=steady[2], **trace)
    # lists that grow do so in rare large steps: compare late with early
    m.check(u[-1, 1] - u[1, 1] < 3000, "growth:" + key, "memory of the extension grows with repetitions", bytes=u[-1, 1] - u[1, 1], **trace)
    m.check(u[-1, 3] - u[1, 3] < slack, "growth:" + key, "memory in use grows with repetitions", bytes=u[-1, 3] - u[1, 3], **trace)
    m.check(fds() <= f0, "files:" + key, "open files accumulate", before=f0, after=fds(), **detail)


def guarded(fn):
    try:
        return fn()
    except Exception:
        return None


LISTS = ["neighbors", "neighbor_distance", "neighbor_vector", "neighbor_weights", "vertex_positions", "vertex_numbers", "vertex_vectors", "face_vertices", "edge_lengths", "next_neighbors",
         "next_neighbor_distances", "chiparams", "sro", "cna", "common", "local_angles"]


def lengths(s):
    return [[len(getattr(a, k)) for k in LISTS] for a in s.atoms]


def same(case, m):
    rng = m.rng
    sp = 2.0
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=sp, nt=2, dmin=0.6)
    s = gen.make_system(box, pos, typ)
    p = quant.params(rng, sp, lim(box, len(pos)))
    s.find_neighbors(method="cutoff", cutoff=p["rc"])
    fns = [quant.RECIPES.get(r) or DERIVED[r] for r in case["calls"]]

    def go():
        for f in fns:
            guarded(lambda: f(s, p))
    go()
    before = lengths(s)
    judge(m, go, case["reps"], "same:" + "+".join(case["calls"]), n=case["n"])
    m.check(lengths(s) == before, "lists", "the lists of an atom grow with repetitions", calls=case["calls"])
    m.nontrivial("same", case["calls"], case["n"] < 200)


def fresh(case, m):
    rng = m.rng
    sp = 2.0
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=sp, nt=2, dmin=0.6)
    p = quant.params(rng, sp, lim(box, len(pos)))
    fns = [quant.RECIPES[r] for r in case["calls"]]
    kept = gen.make_system(box, pos, typ)

    def go():
        s = gen.make_system(box, pos, typ)
        for f in fns:
            guarded(lambda: f(s, p))
        for a in s.atoms:
            a.custom = {"x": list(range(20))}
        kept.box = box.tolist()
        kept.atoms = gen.make_atoms(pos, typ)
        guarded(lambda: fns[0](kept, p))
    judge(m, go, case["reps"], "fresh", n=case["n"], calls=case["calls"])
    m.nontrivial("fresh", case["calls"], case["n"] < 200)


def o_failures(s, d, rng):
    for f in (lambda: s.calculate_q([1]), lambda: s.find_neighbors(method="x"), lambda: s.find_neighbors(method="cutoff", cutoff=1e9), lambda: s.calculate_centrosymmetry(nmax=3),
              lambda: s.find_neighbors(method="number", nmax=299, threshold=1.0), lambda: s.get_atom(10 ** 9), lambda: s.read_inputfile("/nonexistent/x"), lambda: s.set_atom("x"),
              lambda: s.to_file("/nonexistent/x"), lambda: s.find_solids(threshold=9), lambda: s.atoms[0].set_q([1], [2, 3]), lambda: s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=0.01)):
        guarded(f)


def o_files(s, d, rng):
    import pyscal.core as pc
    for kw in (dict(), dict(compressed=True)):
        f = os.path.join(d, "a.dump")
        if kw:
            f += ".gz"
        s.to_file(f, **kw)
        pc.System().read_inputfile(f, compressed=bool(kw))
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
    s.to_file(os.path.join(d, "P"), format="poscar", species=["Au", "Cu"])
    pc.System().read_inputfile(os.path.join(d, "P"), format="poscar")


def o_badfiles(s, d, rng):
    import pyscal.core as pc
    f = os.path.join(d, "bad")
    for t in ("", "ITEM: TIMESTEP\n0\n", "ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n3\nITEM: BOX BOUNDS\n0 1\n0 1\n0 1\nITEM: ATOMS id type x y z\n1 1 0 0\n", "x\n1.0\n1 0\n"):
        with open(f, "w") as fh:
            fh.write(t)
        guarded(lambda: pc.System().read_inputfile(f))
        guarded(lambda: pc.System().read_inputfile(f, format="poscar"))
        with open(f + ".gz", "wb") as fh:
            fh.write(gzip.compress(t.encode())[:-4])
        guarded(lambda: pc.System().read_inputfile(f + ".gz"))


def o_atoms(s, d, rng):
    from pyscal.catom import Atom
    a = [Atom([1.0, 2, 3], i, 1) for i in range(50)]
    for x in a:
        x.neighbors = list(range(12))
        x.neighbor_vector = [[1.0, 2, 3]] * 12
        x.vertex_vectors = [1.0] * 30
        x.custom = {"a": x.loc}
        guarded(lambda: setattr(x, "pos", [1]))
    for x in s.iter_atoms():
        x.pos, x.allq, x.neighbor_vector, x.custom
    b = s.get_atom(3)
    s.set_atom(b)
    s.atoms = s.atoms
    len(s.get_all_atoms())


def o_grow(s, d, rng):
    """A system that grows and is cut back."""
    import pyscal.core as pc
    q = pc.System()
    q.box = s.box
    q.atoms = s.atoms
    q.repeat((2, 2, 2))
    q.add_atoms(s.atoms)
    q.remap_atoms(assign=False) if q.natoms < 60 else None
    q.extract_cubic_box() if q.natoms < 60 else None


def o_crystal(s, d, rng):
    import pyscal.core as pc
    import pyscal.crystal_structures as pcs
    q = pc.System()
    at, q.box = pcs.make_crystal("bcc", repetitions=[3, 3, 3])
    q.atoms = at
    q.find_neighbors(method="voronoi")
    q.calculate_vorovector()
    q.calculate_cna()
    q.identify_diamond()


def o_conditions(s, d, rng):
    s.find_neighbors(method="cutoff", cutoff=2.6)
    s.cluster_atoms(lambda a: a.type == 1)
    s.calculate_q([4, 6], averaged=True, condition=lambda a: a.type == 1)
    s.find_solids(q=6, threshold=0.1, avgthreshold=0.1)
    s.cluster_atoms("solid", cutoff=2.4)


def o_trajectory(s, d, rng):
    import pyscal.trajectory as pt
    f = os.path.join(d, "t.dump")
    with open(f, "w") as fh:
        for k in range(4):
            fh.write("ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n6\nITEM: BOX BOUNDS\n0 5\n0 5\n0 5\nITEM: ATOMS id type x y z\n" % k)
            for i in range(6):
                fh.write("%d 1 %f %f %f\n" % (i + 1, i * 0.7, 0.3 * k, 1.0))
    t = pt.Trajectory(f)
    for ts in t:
        ts.to_system()
    t.load(1)
    t[1:3].to_system()
    guarded(lambda: (t[0] + t[1]).to_file(os.path.join(d, "o.dump")))
    t.unload(1)
    guarded(lambda: t[17])


def o_kept_trajectory(s, d, rng):
    """One trajectory that is read again and again."""
    import pyscal.trajectory as pt
    f = os.path.join(d, "k.dump")
    if f not in KEPT:
        with open(f, "w") as fh:
            for k in range(4):
                fh.write("ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n6\nITEM: BOX BOUNDS\n0 5\n0 5\n0 5\nITEM: ATOMS id type x y z e\n" % k)
                for i in range(6):
                    fh.write("%d 1 %f %f %f %d\n" % (i + 1, i * 0.7, 0.3 * k, 1.0, i))
        KEPT[f] = pt.Trajectory(f)
    t = KEPT[f]
    t[2].to_system(customkeys=["e"])
    t[:].to_ase(species=["Au"])
    t[1:].to_dict()
    list(t.iter("random", output="system"))
    list(t.iter("descending", n_slices=2))
    sum([t[0], t[2]]).to_file(os.path.join(d, "o.dump"))
    t.load(3)
    t[3].to_file(os.path.join(d, "o.dump"), mode="w")
    t.unload(3)
    t.get_block(0)
    guarded(lambda: t[0].to_file("/nonexistent/x"))
    guarded(lambda: t[0].to_system(customkeys=["nokey"]))
    repr(t), repr(t[0] + t[1])


KEPT = {}


def o_split(s, d, rng):
    import pyscal.traj_process as ptp
    f = os.path.join(d, "s.dump")
    with open(f, "w") as fh:
        for k in range(3):
            fh.write("ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n2\nITEM: BOX BOUNDS\n0 5\n0 5\n0 5\nITEM: ATOMS id type x y z\n1 1 0 0 0\n2 1 1 1 1\n" % k)
    for x in ptp.split_trajectory(f):
        os.unlink(x)
    guarded(lambda: ptp.split_trajectory(f, format="poscar"))
    guarded(lambda: ptp.split_trajectory(f + ".not"))


def o_lookup(s, d, rng):
    """Distances, remapping, custom values and everything else that is asked of atoms one by one."""
    a = s.atoms
    for i in range(0, len(a) - 1, 3):
        s.get_distance(a[i], a[i + 1])
        s.get_distance(a[i], a[i + 1], vector=True)
        s.get_custom(a[i], ["type", "pos"])
        s.set_atom(a[i])
    guarded(lambda: s.remap_atoms())
    guarded(lambda: s.get_concentration())
    s.calculate_rdf(histobins=20)
    s.box = s.box


def o_misc(s, d, rng):
    import pyscal.misc as pmi
    f = os.path.join(d, "POSCAR")
    s.to_file(f, format="poscar", species=["Au", "Cu"])
    pmi.compare_atomic_env(f, atomtype=1, print_results=False, return_system=True)
    pmi.find_tetrahedral_voids(f, print_results=False, return_system=True)


def o_written(s, d, rng):
    """Every format that is written, and requests to write that fail."""
    f = os.path.join(d, "w")
    s.to_file(f, customkeys=["e"], customvals=[[1.0]] * s.natoms)
    s.to_file(f, format="lammps-data", species=["Au", "Cu"])
    s.to_file(f + ".xyz", format="xyz", species=["Au", "Cu"])
    s.to_file(f, format="poscar")
    for kw in (dict(customkeys=["e"], customvals=[[1.0]]), dict(customkeys=["none"]), dict(format="xyz"), dict(format="nonsense", species=["Au", "Cu"]), dict(format="poscar", species=["Au"])):
        guarded(lambda: s.to_file(f, **kw))


def o_ase(s, d, rng):
    import pyscal.core as pc
    a = s.to_ase(species=["Au", "Cu"])
    q = pc.System()
    q.read_inputfile(a, format="ase")


OPS = {f.__name__: f for f in (o_failures, o_files, o_badfiles, o_atoms, o_grow, o_crystal, o_conditions, o_trajectory, o_kept_trajectory, o_split, o_lookup, o_misc, o_written, o_ase)}


def ops(case, m):
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6)
    s = gen.make_system(box, pos, typ)
    d = m.scratch()
    judge(m, lambda: OPS[case["what"]](s, d, m.rng), case["reps"], case["what"])
    m.nontrivial("ops", case["what"])


def peak(case, m):
    got = []
    for n in (600, 4800):
        p = subprocess.run([sys.executable, "-m", "vlib.memchild", json.dumps(dict(case, n=n, dir=m.scratch()))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250)
        m.require(p.returncode == 0, "peak-run", "the calculation failed", err=p.stderr.decode("utf-8", "replace")[-800:], n=n)
        r = json.loads(p.stdout.decode().strip().splitlines()[-1])
        got.append((r["n"], r["peak"] - r["base"]))
        m.count("peaks")
    (n1, a), (n2, b) = got
    m.check(b < 1.4 * a * n2 / n1 + 30e6, "peak:" + case["what"], "memory grows faster than the number of atoms", small=a, large=b, n=[n1, n2])
    m.note("peak", got)
    m.nontrivial("peak", case["what"], case["cell"])


def run_case(case, m):
    {"same": same, "fresh": fresh, "ops": ops, "peak": peak}[case["kind"]](case, m)
