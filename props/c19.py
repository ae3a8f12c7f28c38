"""C19: conversion from and to ASE, POSCAR, LAMMPS data, extended xyz and mdtraj objects."""
import gzip
import os
import warnings

import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (conversion, cell kind, number of species, size class) whose every atom was compared"
ASSUMPTIONS = ["ASE is the independent reader and writer", "files may rotate the cell and shift atoms by lattice vectors; numbers of types may be chosen freely as long as they map one to one to species"]
NEED = {"from_ase": 500, "to_ase": 500, "poscar": 500, "legacy": 200, "lammps-data": 200, "mdtraj": 100, "ase_files": 1}
EL = ["Au", "Ge", "Fe", "C", "Cu", "H", "Zr", "Al", "O", "U", "Ni", "Na", "N", "S", "Si"]


def cases(tier, seed):
    add, out = caser("C19", seed)
    rng = np.random.default_rng([seed, 19])
    ns = [1, 2, 9, 60, 210]
    for rep in range(6 if tier == "thorough" else 1):
        for cell in gen.CELLS + ["cancel"]:
            for kind in ("ase", "sysase", "poscar", "legacy"):
                add(kind, cell=cell, place=pick(rng, gen.PLACES), n=int(rng.choice(ns)), nt=int(rng.integers(1, 5)))
            add("readers", cell=cell, place=pick(rng, gen.PLACES), n=int(rng.choice(ns)), nt=int(rng.integers(1, 4)))
            if cell != "lefthanded":
                add("fallback", cell=cell, place=pick(rng, gen.PLACES), n=int(rng.choice(ns)), nt=int(rng.integers(1, 4)), fmt=pick(rng, ["lammps-data", "extxyz", "vasp", "xsf"]))
                add("fallback", cell=cell, place=pick(rng, gen.PLACES), n=int(rng.choice(ns)), nt=int(rng.integers(1, 4)), fmt="lammps-data")
        for k in range(4):
            add("md", n=ns[k + 1], cell=pick(rng, gen.ORTH), place="inside", nt=int(rng.integers(1, 4)))
    return out


def make(case, rng):
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(2, 4)))
    n = len(pos)
    k = min(case["nt"] if rng.random() < 0.8 else int(rng.integers(10, 15)), n)
    species = [str(x) for x in rng.permutation(EL)[:k]]
    sym = [species[i] for i in gen.types(rng, n, k, list(range(k)))]
    return box, pos, sym, species


def aseobj(box, pos, sym):
    from ase import Atoms
    return Atoms(sym, positions=pos, cell=box, pbc=True)


def bijection(m, types, sym, key):
    pairs = set(zip(list(types), list(sym)))
    m.check(len(pairs) == len(set(p[0] for p in pairs)) == len(set(p[1] for p in pairs)), key, "types and species do not correspond one to one", got=sorted(pairs)[:6])
    m.check(set(types) == set(range(1, len(pairs) + 1)), key + "-range", "types are not numbered from one", got=sorted(set(types)))


def state(s):
    al = s.get_all_atoms()
    return ([a.pos for a in al], [a.id for a in al], [a.type for a in al], [dict(a.custom) for a in s.atoms], [list(a.neighbors) for a in s.atoms], np.array(s.box).tolist())


def modcell(m, box, pos, gbox, gpos, key, tol, rotated=False):
    """Same cell and positions, up to lattice vectors (and a rotation)."""
    if rotated:
        e = tol * np.abs(box).max() * 12
        m.close(np.asarray(gbox) @ np.asarray(gbox).T, np.asarray(box) @ np.asarray(box).T, key + "-cell", "lengths and angles of the cell", rtol=0, atol=e)
    else:
        m.close(gbox, box, key + "-cell", "cell", rtol=0, atol=tol)
    f, g = pos @ np.linalg.inv(box), np.asarray(gpos) @ np.linalg.inv(gbox)
    if not m.check(f.shape == g.shape, key + "-natoms", "number of atoms", got=len(g), want=len(f)):
        return
    d = g - f
    t = tol * (2 + 6 * np.abs(f).max()) / gen.heights(box).min()
    m.close(d - np.round(d), np.zeros_like(d), key + "-positions", "fractional positions", rtol=0, atol=max(t, 1e-9))


def run_case(case, m):
    import pyscal.core as pc
    rng = m.rng
    k = case["kind"]
    box, pos, sym, species = make(case, rng)
    n = len(pos)
    globals()["run_" + k](case, m, rng, pc, box, pos, sym, species)
    m.nontrivial(k, case["cell"], len(species), n < 200, case.get("fmt"))


def run_ase(case, m, rng, pc, box, pos, sym, species):
    """ASE -> System -> ASE."""
    a = aseobj(box, pos, sym)
    a.info["tag"] = 1
    b = a.copy()
    s = pc.System()
    if rng.random() < 0.3:
        s.box, s.atoms = (np.eye(3) * 9).tolist(), gen.make_atoms([[0, 0, 0], [1, 1, 1]])
    s.read_inputfile(a, format="ase")
    m.count("from_ase", len(pos))
    if rng.random() < 0.8:
        # a file that ASE reads
        from ase.io import write
        q = os.path.join(m.scratch(), "conf." + pick(rng, ["traj", "extxyz"]))
        write(q, a)
        s2 = pc.System()
        s2.read_inputfile(q, format="ase")
        m.check([(x.type, x.id, str(x.custom["species"])) for x in s2.atoms] == [(x.type, x.id, str(x.custom["species"])) for x in s.atoms], "ase-file", "a file gives other atoms than the object")
        m.close([x.pos for x in s2.atoms], pos, "ase-file-pos", "positions read from a file with ASE", rtol=0, atol=1e-7)
        m.close(s2.box, box, "ase-file-box", "cell read from a file with ASE", rtol=0, atol=1e-7)
        m.count("ase_files")
    m.check(a == b and (a.pbc == b.pbc).all(), "ase-changed", "reading changed the ASE object")
    at = s.atoms
    m.require(len(at) == len(pos), "ase-natoms", "number of atoms", got=len(at), want=len(pos))
    m.close(s.box, box, "ase-box", "cell", rtol=0, atol=1e-12)
    m.close([x.pos for x in at], pos, "ase-pos", "positions", rtol=0, atol=1e-12)
    m.check([str(x.custom["species"]) for x in at] == sym, "ase-species", "species", got=at[0].custom)
    m.check([x.id for x in at] == list(range(1, len(pos) + 1)), "ase-ids", "ids")
    bijection(m, [x.type for x in at], sym, "ase-types")
    if len(pos) >= 9 and rng.random() < 0.6:
        s.find_neighbors(method="number", nmax=4, threshold=3)
    before = state(s)
    c = s.to_ase(species=None if rng.random() < 0.5 else species)
    m.count("to_ase", len(pos))
    m.check(state(s) == before, "system-changed", "conversion changed the system")
    m.check(list(c.symbols) == sym, "back-symbols", "species after conversion back", got=list(c.symbols)[:4], want=sym[:4])
    m.close(c.positions, pos, "back-pos", "positions after conversion back", rtol=0, atol=1e-12)
    m.close(np.array(c.cell), box, "back-cell", "cell after conversion back", rtol=0, atol=1e-12)
    m.check(bool(all(c.pbc)), "back-pbc", "conversion back is not periodic")
    # the objects are independent
    c.positions[0] += 1.0
    m.close(s.atoms[0].pos, pos[0], "alias", "changing the ASE object changed the system", rtol=0, atol=1e-12)


def labelled(case, rng, box, pos, sym, species):
    """A system with types only, whose numbers may have gaps."""
    labels = gen.somelabels(rng, len(species))
    t = {x: labels[i] for i, x in enumerate(species)}
    return gen.make_system(box, pos, [t[x] for x in sym])


def run_sysase(case, m, rng, pc, box, pos, sym, species):
    s = labelled(case, rng, box, pos, sym, species)
    if len(pos) >= 9 and rng.random() < 0.6:
        s.find_neighbors(method="voronoi")
    before = state(s)
    c = s.to_ase(species=list(species))
    m.count("to_ase", len(pos))
    m.check(state(s) == before, "system-changed", "conversion changed the system")
    m.check(list(c.symbols) == sym, "symbols", "species of the atoms", got=list(c.symbols)[:6], want=sym[:6])
    m.close(c.positions, pos, "pos", "positions", rtol=0, atol=1e-12)
    m.close(np.array(c.cell), box, "cell", "cell", rtol=0, atol=1e-12)
    m.raises(lambda: s.to_ase(species=list(species) + ["Pt"]), ValueError, "species-long", "more species than types")
    m.raises(lambda: s.to_ase(species=None), ValueError, "species-none", "unknown species")
    m.check(state(s) == before, "system-changed-error", "failed conversion changed the system")
    s2 = pc.System()
    s2.read_inputfile(c, format="ase")
    m.count("from_ase", len(pos))
    m.close([x.pos for x in s2.atoms], pos, "again-pos", "positions converted there and back", rtol=0, atol=1e-12)
    m.check([str(x.custom["species"]) for x in s2.atoms] == sym, "again-species", "species converted there and back")


def run_poscar(case, m, rng, pc, box, pos, sym, species):
    """POSCAR through ASE, plain and compressed."""
    from ase.io import read
    s = labelled(case, rng, box, pos, sym, species)
    before = state(s)
    p = os.path.join(m.scratch(), "POSCAR")
    s.to_file(p, format="poscar", species=list(species))
    m.check(state(s) == before, "system-changed", "writing changed the system")
    a = read(p, format="vasp")
    m.count("poscar", len(pos))
    m.check(list(a.symbols) == sym, "file-species", "species in the file", got=list(a.symbols)[:6], want=sym[:6])
    modcell(m, box, pos, np.array(a.cell), a.positions, "file", 1e-9)
    kw = {}
    w = int(rng.integers(3))
    if w:
        q = p + [".gz", ".z"][w - 1]
        with gzip.open(q, "wt") as f:
            f.write(open(p).read())
        p = q
        kw = dict(compressed=True) if w == 2 or rng.random() < 0.5 else {}
    s2 = pc.System()
    s2.read_inputfile(p, format="poscar", **kw)
    at = s2.atoms
    m.require(len(at) == len(pos), "back-natoms", "number of atoms", got=len(at), want=len(pos))
    m.check([str(x.custom["species"]) for x in at] == sym, "back-species", "species read back")
    bijection(m, [x.type for x in at], sym, "back-types")
    modcell(m, box, pos, np.array(s2.box), [x.pos for x in at], "back", 1e-9)
    # a system with known species writes the same file without the list
    s2.to_file(os.path.join(m.scratch(), "P2"), format="poscar", species=list(species))
    b = read(os.path.join(m.scratch(), "P2"), format="vasp")
    m.check(list(b.symbols) == sym, "second-species", "species after two rounds")


def run_legacy(case, m, rng, pc, box, pos, sym, species):
    """The writer used without species: cell, counts and positions grouped by increasing type."""
    s = labelled(case, rng, box, pos, sym, species)
    typ = np.array([a.type for a in s.atoms])
    before = state(s)
    p = os.path.join(m.scratch(), "POSCAR")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.to_file(p, format="poscar")
    m.check(state(s) == before, "system-changed", "writing changed the system")
    L = open(p).read().split("\n")
    if L[-1] == "":
        L.pop()
    scale = float(L[1])
    gbox = np.array([[float(x) for x in r.split()] for r in L[2:5]]) * scale
    counts = [int(x) for x in L[5].split()]
    m.check(counts == [int((typ == t).sum()) for t in sorted(set(typ.tolist()))], "legacy-counts", "numbers of atoms of the types", got=counts)
    m.check(L[6].strip().lower()[0] in "ck", "legacy-mode", "kind of coordinates", got=L[6])
    gp = np.array([[float(x) for x in r.split()[:3]] for r in L[7:]])
    order = np.argsort(typ, kind="stable")
    m.count("legacy", len(pos))
    modcell(m, box, pos[order], gbox, gp, "legacy", 1e-9)


def run_readers(case, m, rng, pc, box, pos, sym, species):
    """Files written by ASE itself."""
    from ase.io import write
    a = aseobj(box, pos, sym)
    p = os.path.join(m.scratch(), "file")
    direct = bool(rng.random() < 0.5)
    sort = bool(rng.random() < 0.5)
    write(p, a, format="vasp", direct=direct, sort=sort)
    s = pc.System()
    s.read_inputfile(p, format="poscar")
    vs, vp = sym, pos
    if sort:
        from ase.io import read
        vs, vp = list(read(p, format="vasp").symbols), read(p, format="vasp").positions
    m.count("poscar", len(pos))
    m.check([str(x.custom["species"]) for x in s.atoms] == vs, "vasp-species", "species of a POSCAR file", sort=sort)
    modcell(m, box, vp, np.array(s.box), [x.pos for x in s.atoms], "vasp", 1e-8)
    q = os.path.join(m.scratch(), "file.extxyz")
    write(q, a, format="extxyz")
    s.read_inputfile(q, format="extxyz")
    m.check([str(x.custom["species"]) for x in s.atoms] == sym, "extxyz-species", "species of an extxyz file")
    modcell(m, box, pos, np.array(s.box), [x.pos for x in s.atoms], "extxyz", 1e-7)
    m.raises(lambda: s.read_inputfile(q, format="nosuchformat"), TypeError, "format", "unknown format")
    m.raises(lambda: s.to_file(q + "2", format="nosuchformat", species=species), TypeError, "format-write", "unknown format")


def run_fallback(case, m, rng, pc, box, pos, sym, species):
    """Formats written through ASE and read back."""
    from ase.io import read
    fmt = case["fmt"]
    s = labelled(case, rng, box, pos, sym, species)
    before = state(s)
    p = os.path.join(m.scratch(), "file." + fmt)
    s.to_file(p, format=fmt, species=list(species))
    m.check(state(s) == before, "system-changed", "writing changed the system", fmt=fmt)
    m.count(fmt, len(pos))
    if fmt == "lammps-data":
        a = read(p, format="lammps-data")
        m.check(len(a) == len(pos), "data-natoms", "number of atoms in the file", got=len(a))
        bijection(m, a.arrays.get("type", a.numbers).tolist() if "type" in a.arrays else [sorted(set(a.numbers)).index(x) + 1 for x in a.numbers], sym, "data-types")
        modcell(m, box, pos, np.array(a.cell), a.positions, "data", 1e-7, rotated=True)
    s2 = pc.System()
    s2.read_inputfile(p, format=fmt)
    at = s2.atoms
    m.check(len(at) == len(pos), "fallback-natoms", "number of atoms read back", fmt=fmt)
    bijection(m, [x.type for x in at], sym, "fallback-types")
    if fmt != "lammps-data":
        m.check([str(x.custom["species"]) for x in at] == sym, "fallback-species", "species read back", fmt=fmt)
    modcell(m, box, pos, np.array(s2.box), [x.pos for x in at], "fallback", 1e-6, rotated=fmt == "lammps-data")


def run_md(case, m, rng, pc, box, pos, sym, species):
    import mdtraj
    top = mdtraj.Topology()
    res = top.add_residue("X", top.add_chain())
    for x in sym:
        top.add_atom(x, mdtraj.element.get_by_symbol(x), res)
    t = mdtraj.Trajectory(pos[None].astype(np.float32), top, unitcell_lengths=np.diag(box)[None], unitcell_angles=np.full((1, 3), 90.0))
    s = pc.System()
    s.read_inputfile(t, format="mdtraj")
    at = s.atoms
    m.count("mdtraj", len(at))
    m.require(len(at) == len(pos), "md-natoms", "number of atoms", got=len(at))
    m.close(s.box, box, "md-box", "cell", rtol=1e-5, atol=1e-5)
    m.close([x.pos for x in at], pos, "md-pos", "positions", rtol=1e-5, atol=1e-5)
    m.check([str(x.custom["species"]) for x in at] == sym, "md-species", "species")
    m.check([x.id for x in at] == list(range(1, len(pos) + 1)), "md-ids", "ids")
    bijection(m, [x.type for x in at], sym, "md-types")
