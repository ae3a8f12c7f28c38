"""Runs a list of jobs and pickles every result: the executions that C24 compares.

usage: detchild.py SPEC.json OUT.pkl      (PYTHONPATH holds the build and /verif)
"""
import json
import os
import pickle
import sys
import warnings

import numpy as np


def plain(o):
    """Results as nested tuples of bytes, numbers and text; floats by their bits."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return tuple(plain(x) for x in o)
        return ("array", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, (float, np.floating)):
        return float(o).hex()
    if isinstance(o, (np.integer, np.bool_)):
        return o.item()
    if isinstance(o, dict):
        return tuple((k, plain(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return tuple(plain(x) for x in o)
    return o if isinstance(o, (int, str, bytes, bool, type(None))) else repr(o)


NAMES = None


def attributes(a):
    """Every readable attribute of an atom."""
    global NAMES
    if NAMES is None:
        NAMES = [x for x in dir(type(a)) if not x.startswith("_") and not callable(getattr(type(a), x))]
    out = {}
    for x in NAMES:
        try:
            out[x] = getattr(a, x)
        except Exception as e:
            out[x] = type(e).__name__
    return out


def dirty(rng):
    """Leave used blocks of many sizes behind in the heap."""
    keep = [np.full(int(n), -3.7e77) for n in rng.integers(1, 3000, 300)] + [bytearray(b"\xa5" * int(n)) for n in rng.integers(8, 5000, 300)]
    del keep


def job(j):
    from vlib import gen, quant
    from props import c21
    import pyscal.core as pc
    import pyscal.crystal_structures as pcs
    k = j["kind"]
    if k == "calc":
        box, pos, typ = gen.config(j["seed"], j["n"], j["cell"], j["place"], spacing=2.3, nt=2, struct=j.get("struct"), dmin=0.6)
        if j.get("shape") == "cluster":
            pos = (pos - pos.mean(0)) * 0.45 + pos.mean(0)
        rng = np.random.default_rng(j["seed"])
        p = quant.params(rng, 2.3, c21.lim(box, len(pos)))
        s = gen.make_system(box, pos, typ)
        out = []
        for r in j["calls"]:
            try:
                fn = quant.RECIPES.get(r) or c21.DERIVED[r]
                out.append((r, fn(s, p)))
            except (ValueError, RuntimeError) as e:
                out.append((r, type(e).__name__))
            if not j.get("light"):
                out.append(("atoms after " + r, [attributes(a) for a in s.atoms]))
        if j.get("light"):
            return plain(out)
        ghosts = [attributes(a) for a in s.get_all_atoms()[:300]]
        out.append(("stored atoms", ghosts))
        return plain(out)
    if k == "atom":
        from pyscal.catom import Atom
        return plain([attributes(Atom()), attributes(Atom([1.0, 2.0, 3.0], 4, 2)), attributes(Atom(pos=[0.5] * 3))])
    if k == "files":
        box, pos, typ = gen.config(j["seed"], j["n"], j["cell"], j["place"], spacing=2.3, nt=3, dmin=0.6)
        s = gen.make_system(box, pos, typ)
        s.find_neighbors(method="cutoff", cutoff=2.6)
        s.calculate_q([4, 6], averaged=True)
        out = []
        d = j["dir"]
        s.to_file(os.path.join(d, "a.dump"), customkeys=["q6", "n"], customvals=np.transpose([s.get_qvals(6), [a.coordination for a in s.atoms]]).tolist())
        s.to_file(os.path.join(d, "b"), format="poscar", species=["Fe", "Al", "Cu"])
        s.to_file(os.path.join(d, "c"), format="lammps-data", species=["Fe", "Al", "Cu"])
        for f in ("a.dump", "b", "c"):
            with open(os.path.join(d, f), "rb") as fh:
                out.append((f, fh.read()))
        for f, kw in (("a.dump", dict(format="lammps-dump", customkeys=["q6"])), ("b", dict(format="poscar"))):
            q = pc.System()
            q.read_inputfile(os.path.join(d, f), **kw)
            out.append((f, [(a.pos, a.type, a.id, a.loc) for a in q.atoms], q.box))
        out.append(("concentration", s.get_concentration()))
        a = s.to_ase(species=["Fe", "Al", "Cu"]) if hasattr(s, "to_ase") else None
        if a is not None:
            out.append(("ase", a.get_chemical_symbols(), np.array(a.positions), np.array(a.cell)))
            q = pc.System()
            q.read_inputfile(a, format="ase")
            out.append(("from ase", [(x.pos, x.type, x.id, str(x.custom.get("species"))) for x in q.atoms], q.box))
            from ase.io import write
            write(os.path.join(d, "e.extxyz"), a, format="extxyz")
            q = pc.System()
            q.read_inputfile(os.path.join(d, "e.extxyz"), format="extxyz")
            a.set_chemical_symbols([["Co", "Al", "Cu", "Cr", "Au", "Ca", "Ag", "Cs"][(3 * i + i // 5) % 8] for i in range(len(a))])
            q = pc.System()
            q.read_inputfile(a, format="ase")
            out.append(("from ase, many species", [(x.pos, x.type, str(x.custom.get("species"))) for x in q.atoms], list(q.get_concentration().items())))
            q = pc.System()
            q.read_inputfile(os.path.join(d, "e.extxyz"), format="extxyz")
            out.append(("extxyz", [(x.pos, x.type, x.id, str(x.custom.get("species"))) for x in q.atoms], q.box))
        return plain(out + ([] if j.get("light") else more_files(j, s, d)))
    if k == "cells":
        return plain(cells(j))
    if k == "crystal":
        atoms, box = pcs.make_crystal(j["struct"], repetitions=j["reps"], lattice_constant=3.1)
        s = pc.System()
        s.box = box
        s.atoms = atoms
        s.find_neighbors(method="voronoi")
        s.calculate_vorovector()
        s.calculate_q([4, 6])
        out = [("vorovector", [a.vorovector for a in s.atoms]), ("volume", [a.volume for a in s.atoms]), ("q", s.get_qvals([4, 6])),
               ("cna", s.calculate_cna()), ("solids", s.find_solids(bonds=6, threshold=0.5, avgthreshold=0.6, cluster=True) if j["reps"][0] > 3 else None),
               ("atoms", [attributes(a) for a in s.atoms])]
        return plain(out)
    raise ValueError(k)


def more_files(j, s, d):
    """Trajectories and the analysis of files."""
    import contextlib
    import io
    import pyscal.misc as misc
    import pyscal.traj_process as ptp
    from pyscal.trajectory import Trajectory
    out = []
    s.to_file(os.path.join(d, "legacy"), format="poscar")
    p = os.path.join(d, "t.dump")
    with open(p, "w") as fh:
        for x in range(3):
            fh.write(open(os.path.join(d, "a.dump")).read())
    t = Trajectory(p)
    t.load(1)
    t.data[1]["atoms"]["x"] = t.data[1]["atoms"]["x"] + 0.125
    t[::-1].to_file(os.path.join(d, "u.dump"))
    out.append(("dictionaries", [(list(x["atoms"]), [v.tolist() for v in x["atoms"].values()], np.array(x["box"]).tolist()) for x in t[:].to_dict()]))
    out.append(("ase of blocks", [(x.get_chemical_symbols(), np.array(x.positions)) for x in t[1:].to_ase(species=["Fe", "Al", "Cu"])]))
    out.append(("systems of blocks", [[(a.pos, a.type, a.id, dict(a.custom)) for a in x.atoms] for x in (t[0] + t[2]).to_system(customkeys=["q6", "n"])]))
    files = ptp.split_trajectory(p)
    out.append(("split", [os.path.basename(f) for f in files]))
    for f in [os.path.join(d, "legacy"), os.path.join(d, "u.dump")] + files:
        with open(f, "rb") as fh:
            out.append((os.path.basename(f), fh.read()))
        if f in files:
            os.remove(f)
    txt = io.StringIO()
    with contextlib.redirect_stdout(txt):
        for kw in (dict(print_results=True), dict(print_results=False)):
            r = misc.compare_atomic_env(os.path.join(d, "b"), atomtype=1, **kw)
            out.append(("environments", None if r is None else [[str(x) for x in y] for y in r]))
            out.append(("voids", misc.find_tetrahedral_voids(os.path.join(d, "b"), **kw)))
    out.append(("printed", txt.getvalue()))
    return out


def cells(j):
    """Changes of the cell and the list of atoms."""
    from vlib import gen
    box, pos, typ = gen.config(j["seed"], j["n"], j["cell"], j["place"], spacing=2.3, nt=3, dmin=0.6)
    out = []

    def note(what, s):
        out.append((what, [(a.pos, a.type, a.id, a.loc, dict(a.custom)) for a in s.atoms], s.box, s.natoms, s.ntotal))

    s = gen.make_system(box, pos, typ)
    out.append(("concentration", list(s.get_concentration().items())))
    s.repeat((2, 1, 2))
    note("repeat", s)
    for what, fn in (("remap", lambda: s.remap_atoms(remove_images=False)), ("images", lambda: s.remap_atoms()), ("embed", lambda: s.embed_in_cubic_box()), ("extract", lambda: s.extract_cubic_box())):
        s = gen.make_system(box, pos, typ)
        try:
            fn()
        except (ValueError, RuntimeError, ZeroDivisionError, np.linalg.LinAlgError) as e:
            out.append((what, type(e).__name__))
            continue
        note(what, s)
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=1.4 * 2.3)
    from pyscal.catom import Atom
    s.add_atoms([Atom(pos=[0.3, 0.4, 0.5], id=7000, type=2)])
    note("add", s)
    return out


def main():
    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    spec = json.load(open(sys.argv[1]))
    spec["dir"] = os.path.dirname(os.path.abspath(sys.argv[2]))
    res = []
    rng = np.random.default_rng(5)
    state = None
    for j in spec["jobs"]:
        j["dir"] = spec["dir"]
        if spec.get("dirty"):
            dirty(rng)
        np.random.seed(spec.get("npseed", 0))
        before = plain(list(np.random.get_state()))
        r = job(j)
        res.append((j["kind"], r, plain(list(np.random.get_state())) == before))
        if spec.get("twice"):
            dirty(rng)
            res.append((j["kind"], job(j), True))
    with open(sys.argv[2], "wb") as fh:
        pickle.dump(res, fh)


if __name__ == "__main__":
    main()
