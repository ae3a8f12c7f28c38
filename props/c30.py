"""C30: a calculation changes its own results and nothing else."""
import os
import random

import numpy as np

from props.c21 import lim
from vlib import gen, quant
from vlib.sysu import calcbox, caser, pick

RULE = "one signature per (calculation, calculations before it, size class) around which every attribute of every atom was compared, per (argument) that was compared and per (source of atoms) whose custom data were separate"
ASSUMPTIONS = ["what a calculation may change is taken from its documentation, in groups: a neighbor search changes neighbors and everything kept per neighbor, a Voronoi search also everything of the Voronoi cells"]
NEED = {"frames": 250, "attributes": 200000, "arguments": 60, "separate": 2000, "sources": 20, "q_kept": 2000}

SCALARS = ["cutoff", "avg_sij", "disorder", "avg_disorder", "volume", "avg_volume", "angular", "avg_angular", "centrosymmetry", "entropy", "avg_entropy", "energy", "avg_energy",
           "id", "condition", "type", "loc", "ghost", "head", "cluster", "bonds", "structure", "mask", "solid", "surface", "largest_cluster"]
LISTS = ["pos", "vorovector", "vertex_positions", "edge_lengths", "vertex_numbers", "vertex_vectors", "chiparams", "cna", "common", "common_bonds", "sro", "next_neighbors", "next_neighbor_distances",
         "neighbor_weights", "neighbor_distance", "neighbor_vector", "local_angles", "sij", "face_vertices", "face_perimeters", "neighbors", "coordination", "allq", "allaq"]

PER_NB = {"neighbors", "neighbor_weights", "neighbor_distance", "neighbor_vector", "local_angles", "coordination", "cutoff", "sij", "face_vertices", "face_perimeters", "condition"}
CELLS = {"volume", "avg_volume", "vorovector", "vertex_positions", "edge_lengths", "vertex_numbers", "vertex_vectors", "face_vertices", "face_perimeters"}
CLUSTER = {"cluster", "largest_cluster", "surface"}
SOLID = {"avg_sij", "bonds", "solid", "sij"}
CNA = PER_NB | {"structure", "cna", "common", "common_bonds", "next_neighbors", "next_neighbor_distances"}


def cases(tier, seed):
    add, out = caser("C30", seed)
    rng = np.random.default_rng([seed, 30])
    for rep in range(10 if tier == "thorough" else 2):
        for k in range(12):
            add("frame", n=int(pick(rng, [4, 20, 60, 120, 199, 200, 230])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), steps=14)
        for k in range(3):
            add("arguments", n=int(pick(rng, [8, 60, 205])), cell=pick(rng, gen.CELLS))
            add("sources", n=int(pick(rng, [5, 60, 205])), cell=pick(rng, gen.CELLS))
    return out


def read(s):
    return read_atoms(s.atoms)


def read_atoms(at):
    out = {}
    for k in SCALARS + LISTS:
        out[k] = [repr(getattr(a, k)) for a in at]
    out["custom"] = [dict(a.custom) for a in at]
    return out


def world(s):
    return repr(np.array(s.box).tolist()), repr(calcbox(s).tolist()), s.natoms, s.ntotal, s.nop


def noise():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2:]), random.getstate(), os.getcwd(), dict(os.environ)


def calculations(s, p, rng, n, scratch):
    """name -> (call, attributes it may change, l of q it may change, l of averaged q)"""
    l = int(rng.integers(2, 13))
    l2 = int(rng.integers(2, 13))
    av = bool(rng.integers(2))
    nm = int(pick(rng, [4, 6, 8, 12]))
    flag = {a.id: bool(rng.integers(2)) for a in s.atoms}
    cond = pick(rng, [lambda a: flag[a.id], "solid", "marked", lambda a: a.type == 1])
    cut = float(pick(rng, [0, 0, 0.9 * p["rc"]]))
    sb = pick(rng, [0.5, 6])
    half = s.natoms // 2
    return {
        "cutoff": (lambda: s.find_neighbors(method="cutoff", cutoff=p["rc"], filter=pick(rng, [None, "type", "type_r"])), PER_NB),
        "adaptive": (lambda: s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=2.5), PER_NB),
        "sann": (lambda: s.find_neighbors(method="cutoff", cutoff="sann", threshold=2.5), PER_NB),
        "number": (lambda: s.find_neighbors(method="number", nmax=nm, threshold=2.5), PER_NB),
        "voronoi": (lambda: s.find_neighbors(method="voronoi", voroexp=p["voroexp"]), PER_NB | CELLS),
        "reset": (lambda: s.reset_neighbors(), PER_NB),
        "vorovector": (lambda: s.calculate_vorovector(edge_cutoff=0.02, area_cutoff=0.02), CELLS - {"volume", "avg_volume"}),
        "q": (lambda: s.calculate_q([l, l2], averaged=av), {"allq", "allaq"}, {l, l2}, {l, l2} if av else set()),
        "q-condition": (lambda: s.calculate_q(l, averaged=True, condition=cond, clear_condition=False), {"allq", "allaq", "condition"}, {l}, {l}),
        "q-clear": (lambda: s.calculate_q(l, averaged=True, clear_condition=True), {"allq", "allaq", "condition"}, {l}, {l}),
        "solids": (lambda: s.find_solids(bonds=sb, threshold=p["thr"], avgthreshold=p["avt"], cluster=False, q=l, right=p["right"]), SOLID | {"allq"}, {l}, set()),
        "solids-cluster": (lambda: s.find_solids(bonds=sb, threshold=p["thr"], avgthreshold=p["avt"], cluster=True, q=l, cutoff=cut), SOLID | {"allq"} | CLUSTER, {l}, set()),
        "cluster": (lambda: s.cluster_atoms(cond, largest=av, cutoff=cut), CLUSTER),
        "cna": (lambda: s.calculate_cna(), CNA),
        "cna-fixed": (lambda: s.calculate_cna(lattice_constant=p["alat"]), CNA),
        "diamond": (lambda: s.identify_diamond(), CNA),
        "centro": (lambda: s.calculate_centrosymmetry(nmax=nm, get_vals=av), PER_NB | {"centrosymmetry"}),
        "angular": (lambda: s.calculate_angularcriteria(), {"angular", "avg_angular"}),
        "chi": (lambda: s.calculate_chiparams(angles=av), {"chiparams"} | ({"custom:cosines"} if av else set())),
        "entropy": (lambda: s.calculate_entropy(p["rc"], sigma=p["sigma"], rstart=p["rstart"], h=5 * p["h"], local=p["local"], averaged=av), {"entropy", "avg_entropy"}),
        "sro": (lambda: s.calculate_sro(reference_type=1, average=av, shells=2), {"sro"}),
        "pmsro": (lambda: s.calculate_pmsro(reference_type=1, compare_type=2, average=av, shells=1), {"sro"}),
        "disorder": (lambda: s.calculate_disorder(averaged=av, q=l), {"disorder", "avg_disorder"}),
        "cutoff-factor": (lambda: s.set_atom_cutoff(factor=p["factor"]), {"cutoff"}),
        "rdf": (lambda: s.calculate_rdf(histobins=p["bins"], histomax=p["rdfmax"]), set()),
        "reading": (lambda: (s.get_qvals([l, l2], averaged=av), s.get_concentration(), s.get_distance(s.get_atom(0), s.get_atom(n - 1), vector=av), s.get_custom(s.get_atom(0), ["q4", "type"]), s.box, s.natoms,
                             s.get_all_atoms()[0], list(s.iter_atoms())[0]), set()),
        "pairs": (lambda: s.get_pairdistances(), set()),
        "remap-list": (lambda: s.remap_atoms(remove_images=False, assign=False), set()),
        "repeat-list": (lambda: s.repeat((1, 0, 0), scale_box=False), set()),
        "write": (lambda: s.to_file(os.path.join(scratch, "w"), customkeys=["q%d" % l, "volume"]), set()),
        "write-values": (lambda: s.to_file(os.path.join(scratch, "w.gz"), customkeys=["mine"], customvals=[[float(x)] for x in range(n)], compressed=True), set()),
        "ase": (lambda: s.to_ase(species=["Cu", "Zr"]), set()),
        "plot": (lambda: s.show(colorby="type", filterby="solid"), set()),
        "extract": (lambda: s.find_largestcluster() if half else None, CLUSTER),
    }


def changed(a, b):
    out = [k for k in a if k != "custom" and a[k] != b[k]]
    for x, y in zip(a["custom"], b["custom"]):
        out += ["custom:" + k for k in set(x) | set(y) if (k in x) != (k in y) or repr(x.get(k)) != repr(y.get(k))]
    return sorted(set(out))


def frame(case, m):
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=2.0, nt=2, dmin=0.6, shape="any")
    n = len(pos)
    ids = rng.permutation(n) * 3 + 1
    s = gen.make_system(box, pos, typ, ids=ids)
    at = s.atoms
    for i, a in enumerate(at):
        a.custom = {"marked": int(rng.integers(2)), "species": str(typ[i]).replace("1", "Cu").replace("2", "Zr"), "v": [1.0 * i, 2.0]}
        a.energy = float(i)
        a.solid = bool(rng.integers(2))
        a.structure = int(rng.integers(7))
        a.centrosymmetry = float(rng.uniform(0, 1))
    s.atoms = at
    d = m.scratch()
    p = quant.params(rng, 2.0, lim(box, n))
    s.find_neighbors(method="voronoi")
    done = []
    before, w0 = read(s), world(s)
    names = sorted(calculations(s, p, rng, n, d))
    for k in range(case["steps"]):
        p = quant.params(rng, 2.0, lim(box, n))
        name = pick(rng, names)
        c = calculations(s, p, rng, n, d)[name]
        fn, may = c[0], c[1]
        ls, als = (c[2], c[3]) if len(c) > 2 else (set(), set())
        qa0 = [(list(a.allq), list(a.allaq)) for a in s.atoms] if "allq" in may else None
        g0 = noise()
        np.random.seed(int(rng.integers(2 ** 31))) if k == 0 else None
        g0 = noise()
        err = None
        try:
            fn()
        except (RuntimeError, ValueError) as e:
            err = type(e).__name__
            m.count("refused")
        after, w1 = read(s), world(s)
        m.count("frames")
        m.count("attributes", sum(len(v) for v in after.values()))
        m.check(w0 == w1, "frame-system:" + name, "a calculation changed the cell or the number of atoms", calculation=name, before=w0, after=w1, history=done[-4:])
        ch = [x for x in changed(before, after) if x not in may]
        if not m.check(not ch, "frame:" + name, "a calculation changed something else than its results", calculation=name, changed=ch, n=n, failed=err, history=done[-4:],
                       example=[(before[x][i], after[x][i]) for x in ch[:1] if x in before for i in range(n) if before[x][i] != after[x][i]][:1]):
            return
        if qa0 is not None:
            for (q0, a0), x in zip(qa0, s.atoms):
                q1, a1 = x.allq, x.allaq
                bad = [l for l in range(2, 13) if l not in ls and repr(q0[l - 2]) != repr(q1[l - 2])] + [-l for l in range(2, 13) if l not in als and repr(a0[l - 2]) != repr(a1[l - 2])]
                m.count("q_kept")
                if not m.check(not bad, "frame-q:" + name, "parameters of other l changed", calculation=name, l=bad):
                    return
        g1 = noise()
        m.check(g0[0] == g1[0] and g0[1] == g1[1], "frame-random:" + name, "a calculation used the random state of the user", calculation=name)
        m.check(g0[2:] == g1[2:], "frame-process:" + name, "a calculation changed the working directory or the environment", calculation=name)
        before = after
        done.append(name)
        m.nontrivial("frame", name, done[-2:-1], n < 200, err)
        if name == "reset" or err:
            s.find_neighbors(method="cutoff", cutoff=p["rc"])
            before = read(s)


def arguments(case, m):
    """Lists, arrays, atoms and files that are passed to calls are only read."""
    import pyscal.core as pc
    import pyscal.traj_process as ptp
    from pyscal.crystal_structures import make_crystal
    from pyscal.trajectory import Trajectory
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.0, nt=2, dmin=0.6, shape="any")
    n = len(pos)
    p = quant.params(rng, 2.0, lim(box, n))
    d = m.scratch()

    def kept(what, args, call):
        m.count("arguments")
        shot = lambda x: repr(x.tolist()) if isinstance(x, np.ndarray) else repr(x)
        b = [shot(a) for a in args]
        r = call(*args)
        m.check([shot(a) for a in args] == b, "argument:" + what, "an argument was changed by the call", call=what, n=n, after=[shot(a)[:200] for a in args], before=[x[:200] for x in b])
        m.nontrivial("argument", what, n < 200)
        return r
    s = pc.System()
    atoms = gen.make_atoms(pos, typ)
    for i, a in enumerate(atoms):
        a.custom = {"mine": i}
    for aslist in (True, False):
        b = [[float(x) for x in r] for r in box] if aslist else np.array(box, float)
        kept("box", [b], lambda x: setattr(s, "box", x))
        # atoms that were given stay as they are and in their list, also when the cell is repeated for calculations
        b0, lst = read_atoms(atoms), list(atoms)
        m.count("arguments")
        s.atoms = lst
        m.check(len(lst) == n and all(x is y for x, y in zip(lst, atoms)), "argument:atoms", "the list of atoms was changed", n=n, got=len(lst))
        m.check(not [k for k in changed(b0, read_atoms(atoms)) if k != "loc"], "argument:atoms", "atoms given to a system were changed", changed=changed(b0, read_atoms(atoms)), n=n)
        s.find_neighbors(method="cutoff", cutoff=p["rc"])
        s.calculate_q([4, 6], averaged=True)
        s.find_solids(bonds=0.3, threshold=0.3, avgthreshold=0.2)
        m.check(not [k for k in changed(b0, read_atoms(atoms)) if k != "loc"], "argument:atoms", "atoms given to a system changed with it", changed=changed(b0, read_atoms(atoms)), n=n)
    more = gen.make_atoms(pos[:2] + 0.3, [1, 2])
    b0 = read_atoms(more)
    x = pc.System()
    x.box = np.array(box).tolist()
    x.atoms = gen.make_atoms(pos, typ)
    x.add_atoms(more)
    m.check(len(more) == 2 and not [k for k in changed(b0, read_atoms(more)) if k != "loc"], "argument:add_atoms", "atoms given to a system were changed", n=n)
    kept("calculate_q", [[6, 4, 12]], lambda q: s.calculate_q(q))
    kept("calculate_q-array", [np.array([5, 2])], lambda q: s.calculate_q(q.tolist(), averaged=True))
    kept("get_qvals", [[6, 4]], lambda q: s.get_qvals(q, averaged=True))
    kept("repeat", [[1, 0, 1]], lambda r: s.repeat(r, scale_box=False))
    other = gen.make_atoms(pos[:3], typ[:3])
    b0, lst = read_atoms(other), list(other)
    s.repeat((1, 1, 0), atoms=lst, scale_box=False)
    m.check(len(lst) == 3 and not [k for k in changed(b0, read_atoms(other)) if k != "loc"], "argument:repeat-atoms", "atoms that were repeated were changed", n=n, length=len(lst))
    kept("to_file", [["energy", "mine"]], lambda k: s.to_file(os.path.join(d, "a"), customkeys=k))
    kept("to_file-values", [["e"], [[float(i)] for i in range(n)]], lambda k, v: s.to_file(os.path.join(d, "b"), customkeys=k, customvals=v))
    kept("to_file-array", [["e", "f"], np.arange(2.0 * n).reshape(n, 2)], lambda k, v: s.to_file(os.path.join(d, "b2"), customkeys=k, customvals=v))
    kept("to_ase", [["Cu", "Zr"]], lambda k: s.to_ase(species=k))
    kept("get_custom", [["mine", "q4"]], lambda k: s.get_custom(s.get_atom(0), k))
    kept("make_crystal", [[2, 3, 1]], lambda r: make_crystal("bcc", 2.0, repetitions=r))
    a0, a1 = s.get_atom(0), s.get_atom(n - 1)
    b0 = read_atoms([a0, a1])
    s.get_distance(a0, a1)
    s.set_atom(a0)
    m.check(not changed(b0, read_atoms([a0, a1])), "argument:get_distance", "atoms passed to get_distance or set_atom were changed", changed=changed(b0, read_atoms([a0, a1])))
    kept("write_file", [["type"]], lambda k: ptp.write_file(s, os.path.join(d, "c"), customkeys=k))
    # files that are read stay as they are
    if case["cell"] in gen.ORTH:
        s.to_file(os.path.join(d, "p"), format="poscar", species=["Cu", "Zr"])
        files = [("a", "lammps-dump"), ("p", "poscar")]
    else:
        files = [("a", "lammps-dump")]
    s.to_file(os.path.join(d, "t"), timestep=0)
    one = open(os.path.join(d, "t"), "rb").read()
    with open(os.path.join(d, "t"), "wb") as fh:
        fh.write(one * 3)
    for f, fmt in files:
        path = os.path.join(d, f)
        b, st, ls = open(path, "rb").read(), os.stat(path), sorted(os.listdir(d))
        r = pc.System()
        keys = ["mine"] if fmt == "lammps-dump" else None
        if keys:
            kept("read-" + fmt, [keys], lambda k: r.read_inputfile(path, format=fmt, customkeys=k))
        else:
            r.read_inputfile(path, format=fmt)
        m.count("arguments")
        m.check(open(path, "rb").read() == b and os.stat(path).st_mtime_ns == st.st_mtime_ns and sorted(os.listdir(d)) == ls, "argument:file", "reading changed the files", format=fmt, files=sorted(os.listdir(d)))
    path = os.path.join(d, "t")
    b, ls = open(path, "rb").read(), sorted(os.listdir(d))
    t = Trajectory(path)
    t.load(1)
    t[0:2].to_system()
    t.unload(1)
    list(t[2].to_dict())
    m.count("arguments")
    m.check(open(path, "rb").read() == b and sorted(os.listdir(d)) == ls, "argument:trajectory", "using a trajectory changed its file")
    # objects of other packages
    try:
        aobj = s.to_ase(species=["Cu", "Zr"])
    except ImportError:
        return
    m.count("arguments")
    b = (aobj.get_positions().tobytes(), np.array(aobj.get_cell()).tobytes(), aobj.get_chemical_symbols(), aobj.get_pbc().tolist(), sorted(aobj.arrays))
    r = pc.System()
    r.read_inputfile(aobj, format="ase")
    r.find_neighbors(method="cutoff", cutoff=p["rc"])
    m.check(b == (aobj.get_positions().tobytes(), np.array(aobj.get_cell()).tobytes(), aobj.get_chemical_symbols(), aobj.get_pbc().tolist(), sorted(aobj.arrays)), "argument:ase", "an Atoms object that was read changed")


def sources(case, m):
    """However atoms were made, their custom data are their own."""
    import pyscal.core as pc
    from pyscal.catom import Atom
    from pyscal.crystal_structures import make_crystal
    from pyscal.trajectory import Trajectory
    rng = m.rng
    cell = case["cell"]
    box, pos, typ = gen.config(case["seed"], case["n"], cell, spacing=2.0, nt=2, dmin=0.6, shape="any")
    d = m.scratch()
    s = gen.make_system(box, pos, typ)
    s.to_file(os.path.join(d, "a"))
    s.to_file(os.path.join(d, "k"), customkeys=["energy", "volume"])
    s.to_file(os.path.join(d, "z.gz"), compressed=True)
    with open(os.path.join(d, "t"), "wb") as fh:
        fh.write(open(os.path.join(d, "a"), "rb").read() * 2)

    def rd(path, **kw):
        def f():
            r = pc.System()
            r.read_inputfile(path, **kw)
            return r
        return f

    def held(atoms, b):
        r = pc.System()
        r.box = np.array(b).tolist()
        r.atoms = atoms
        return r
    src = {"atoms": lambda: gen.make_system(box, pos, typ),
           "atom-keywords": lambda: held([Atom(pos=x.tolist(), id=i + 1, type=1) for i, x in enumerate(pos)], box),
           "dump": rd(os.path.join(d, "a")), "dump-keys": rd(os.path.join(d, "k"), customkeys=["volume"]), "dump-gz": rd(os.path.join(d, "z.gz")),
           "crystal": lambda: held(*make_crystal(pick(rng, ["bcc", "fcc", "hcp", "diamond", "l12", "b2"]), 2.0, repetitions=[3, 3, 3])),
           "trajectory": lambda: Trajectory(os.path.join(d, "t"))[0:2].to_system()[1],
           "trajectory-keys": lambda: Trajectory(os.path.join(d, "t"))[1].to_system()[0],
           "repeat": lambda: held(s.repeat((1, 0, 0), scale_box=False), np.array(box) * [[3], [1], [1]]),
           "ase": lambda: (lambda r: (r.read_inputfile(s.to_ase(species=["Cu", "Zr"]), format="ase"), r)[1])(pc.System())}
    if cell in gen.ORTH:
        s.to_file(os.path.join(d, "p"), format="poscar", species=["Cu", "Zr"])
        src["poscar"] = rd(os.path.join(d, "p"), format="poscar")
    for name, fn in src.items():
        r = fn()
        n = r.natoms
        m.count("sources")
        before = [dict(a.custom) for a in r.atoms]
        # data are added to the dictionaries of some atoms
        chosen = [int(i) for i in rng.choice(n, size=min(n, 4), replace=False)]
        for i in chosen:
            a = r.get_atom(i)
            c = a.custom
            c["added"] = i
            a.custom = c
            r.set_atom(a)
        m.count("separate", n)
        got = [dict(a.custom) for a in r.atoms]
        bad = [i for i in range(n) if repr(got[i]) != repr(dict(before[i], added=i) if i in chosen else before[i])]
        m.check(not bad, "separate:" + name, "custom data given to one atom appear at another", source=name, atoms=bad[:5], n=n, got=[str(got[i])[:100] for i in bad[:2]], want=[str(before[i])[:100] for i in bad[:2]])
        # and another system from the same source has not got them
        if name not in ("repeat",):
            q = fn()
            m.check(not any("added" in a.custom for a in q.atoms), "separate-source:" + name, "custom data given to an atom appear in another system", source=name)
        try:
            r.find_neighbors(method="number", nmax=3, threshold=3)
            r.calculate_chiparams(angles=True)
        except (RuntimeError, ValueError):
            continue
        for i, a in enumerate(r.atoms):
            k = len(a.neighbors)
            if not m.check(len(a.custom.get("cosines", [])) == k * (k - 1) // 2 and {x: v for x, v in a.custom.items() if x != "cosines"} == {x: v for x, v in got[i].items() if x != "cosines"}, "separate-cosines:" + name, "custom data of an atom after a calculation", source=name, atom=i):
                break
        m.nontrivial("source", name, n < 200)


def run_case(case, m):
    {"frame": frame, "arguments": arguments, "sources": sources}[case["kind"]](case, m)
