"""C27: tetrahedral voids and comparison of atomic environments."""
import contextlib
import io
import os

import numpy as np

from props.c04 import Cells
from vlib import gen, ref
from vlib.sysu import caser, pick

RULE = "one signature per (kind of crystal, cell, size class, format, options, number of atoms found) in which every atom of the file was classified by an independent tessellation"
ASSUMPTIONS = ["atoms whose classification is within rounding of a threshold (face area, edge length, distance, rounding of volumes) may or may not be listed",
               "cells of 200 or more atoms are wide enough that no atom neighbors two images of the same atom"]
NEED = {"atoms": 2500, "voids": 25, "not_voids": 800, "environments": 25, "multiple": 4}

BCC = {"tet": [[.5, .25, 0], [.5, .75, 0], [.25, .5, 0], [.75, .5, 0], [0, .5, .25], [0, .5, .75], [0, .25, .5], [0, .75, .5], [.5, 0, .25], [.5, 0, .75], [.25, 0, .5], [.75, 0, .5]],
       "oct": [[.5, .5, 0], [.5, 0, .5], [0, .5, .5], [.5, 0, 0], [0, .5, 0], [0, 0, .5]], "basis": [[0, 0, 0], [.5, .5, .5]]}
FCC = {"tet": [[a, b, c] for a in (.25, .75) for b in (.25, .75) for c in (.25, .75)], "oct": [[.5, .5, .5], [.5, 0, 0], [0, .5, 0], [0, 0, .5]], "basis": [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]}


def cases(tier, seed):
    add, out = caser("C27", seed)
    rng = np.random.default_rng([seed, 27])
    for rep in range(6 if tier == "thorough" else 1):
        for st in ("bcc", "bcc", "fcc"):
            for reps in (2, 3, 4, 5):
                for fm in ("poscar", "lammps-dump"):
                    add("interstitial", struct=st, reps=reps, format=fm, shape=pick(rng, ["cubic", "orth", "shear", "strain"]), noise=float(pick(rng, [0, 0.004, 0.012])),
                        nt=int(rng.integers(2, 7)), no=int(rng.integers(0, 3)))
        for fm in ("poscar", "lammps-dump"):
            for n in (30, 120, 210):
                add("random", n=n, cell=pick(rng, gen.CELLS), format=fm, struct=pick(rng, [None, "bcc", "fcc"]), noise=float(pick(rng, [0.03, 0.08])))
        for st in ("bcc", "fcc"):
            add("mixed", struct=st, reps=3, format=pick(rng, ["poscar", "lammps-dump"]), shape="cubic", noise=0.0, nt=int(rng.integers(1, 3)), no=int(rng.integers(1, 3)))
    return out


def crystal(rng, case):
    """A crystal with atoms of other types at tetrahedral and octahedral sites."""
    S = BCC if case["struct"] == "bcc" else FCC
    R = case["reps"]
    reps = [R, R, R]
    a = float(rng.uniform(2.8, 4.2))
    if case["shape"] == "orth":
        reps[int(rng.integers(3))] += 1
    box = np.diag(reps) * a
    f = np.array([(np.array(b) + [i, j, k]) / reps for i in range(reps[0]) for j in range(reps[1]) for k in range(reps[2]) for b in S["basis"]])
    if case["shape"] == "shear":         # the same lattice in a tilted cell
        box[1] += box[0]
        f = (f @ (np.diag(reps) * a)) @ np.linalg.inv(box)
    if case["shape"] == "strain":
        box = box @ (np.eye(3) + rng.normal(scale=0.015, size=(3, 3)))
    sites, kinds = [], []
    tries = 0
    while len(sites) < case["nt"] + case["no"] and tries < 200:
        tries += 1
        kind = "tet" if len(sites) < case["nt"] else "oct"
        x = (np.array(pick(rng, S[kind])) + [int(rng.integers(k)) for k in reps]) / reps
        if case["shape"] == "shear":
            x = (x @ (np.diag(reps) * a)) @ np.linalg.inv(box)
        if all(np.linalg.norm(ref.mic(box, (x - y) @ box)) > 1.45 * a for y in sites):
            sites.append(x)
            kinds.append(2 if kind == "tet" else 3)
    if case["kind"] == "mixed":          # both kinds of sites are of the same type
        kinds = [2] * len(kinds)
    f = np.concatenate([f, np.array(sites)]) if sites else f
    typ = np.array([1] * (len(f) - len(sites)) + kinds)
    f = f - np.floor(f)
    pos = f @ box + rng.normal(scale=case["noise"] * a, size=f.shape)
    o = rng.permutation(len(f))
    return box, pos[o], typ[o]


def write(path, fmt, box, pos, typ):
    """Written without pyscal. Returns the atoms in the order of the file, and the cell."""
    if fmt == "poscar":
        o = np.argsort(typ, kind="stable")
        pos, typ = pos[o], typ[o]
        el = {1: "Al", 2: "Cu", 3: "Zn"}
        with open(path, "w") as fh:
            fh.write("x\n1.0\n" + "\n".join("%.15f %.15f %.15f" % tuple(v) for v in box) + "\n")
            u = np.unique(typ)
            fh.write(" ".join(el[t] for t in u) + "\n" + " ".join(str((typ == t).sum()) for t in u) + "\nCartesian\n")
            fh.write("\n".join("%.15f %.15f %.15f" % tuple(p) for p in pos) + "\n")
        return box, pos, np.searchsorted(u, typ) + 1
    b = np.array(box)
    orth = np.abs(b - np.diag(np.diag(b))).max() < 1e-9
    if not orth:
        # a rotated, right-handed description for LAMMPS
        if np.linalg.det(b) < 0:
            b, pos = -b, -pos
        q, r = np.linalg.qr(b.T)
        sg = np.sign(np.diag(r))
        q, r = q * sg, (r.T * sg).T
        pos = pos @ q
        b = r.T
    with open(path, "w") as fh:
        fh.write("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n%d\n" % len(pos))
        if orth:
            fh.write("ITEM: BOX BOUNDS pp pp pp\n" + "".join("0 %.15f\n" % b[k, k] for k in range(3)))
        else:
            xy, xz, yz = b[1, 0], b[2, 0], b[2, 1]
            fh.write("ITEM: BOX BOUNDS xy xz yz pp pp pp\n")
            fh.write("%.15f %.15f %.15f\n" % (min(0, xy, xz, xy + xz), b[0, 0] + max(0, xy, xz, xy + xz), xy))
            fh.write("%.15f %.15f %.15f\n" % (min(0, yz), b[1, 1] + max(0, yz), xz))
            fh.write("0 %.15f %.15f\n" % (b[2, 2], yz))
        fh.write("ITEM: ATOMS id type x y z\n")
        fh.write("".join("%d %d %.15f %.15f %.15f\n" % ((i + 1, typ[i]) + tuple(pos[i])) for i in range(len(pos))))
    return b, pos, typ


def fingerprints(o, area_cut=0.01, edge_cut=0.05):
    """(n3..n6) of every cell, or None where that depends on rounding."""
    out = []
    for c in o.cells:
        tot = sum(f[2] for f in c["faces"])
        v, sure = [0, 0, 0, 0], True
        for f in c["faces"]:
            w = f[2] / tot
            if abs(w - area_cut) < 1e-7:
                sure = False
            if w <= area_cut:
                continue
            e = f[4] / f[4].sum()
            if np.abs(e - edge_cut).min() < 1e-7:
                sure = False
            k = int((e > edge_cut).sum())
            if 3 <= k <= 6:
                v[k - 3] += 1
        out.append(tuple(v) if sure else None)
    return out


def tetrahedral(o, fp, prec):
    """True, False, or None where that depends on rounding."""
    out = []
    for c, v in zip(o.cells, fp):
        if v is None:
            out.append(None)
            continue
        if v[1] != 4:
            out.append(False)
            continue
        tot = sum(f[2] for f in c["faces"])
        d, a = np.array([np.linalg.norm(f[1]) for f in c["faces"]]), np.array([f[2] for f in c["faces"]]) / tot
        x = d[a > 1e-7] / d[a > 1e-7].min()
        lo, hi = (x <= 1 + prec - 1e-7).sum(), (x <= 1 + prec + 1e-7).sum()
        out.append(None if lo != hi else bool(lo == 4))
    return out


def run_case(case, m):
    import pyscal.misc as misc
    rng = m.rng
    if case["kind"] == "random":
        box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], spacing=2.3, nt=3, struct=case["struct"], noise=case["noise"], dmin=0.5)
        typ = np.array(typ)
    else:
        box, pos, typ = crystal(rng, case)
    d = m.scratch()
    path = os.path.join(d, "conf")
    box, pos, typ = write(path, case["format"], box, pos, typ)
    n = len(pos)
    o = Cells(box, pos, 6.0)
    # a neighbor in two images of a cell that is not replicated
    double = [any(np.unique([f[0] for f in c["faces"]], return_counts=True)[1] > 1) for c in o.cells]
    if any(double) and n >= 200:
        m.nontrivial("narrow", n)
        return
    fp = fingerprints(o)
    prec = float(pick(rng, [0.1, 0.1, 0.05, 0.2, 0.02]))
    kw = {} if prec == 0.1 else {"precision": prec}
    want = tetrahedral(o, fp, prec)
    direct = bool(rng.integers(2))
    if not (direct and rng.integers(2)):
        kw["direct_coordinates"] = direct
    out = io.StringIO()
    show = bool(rng.integers(2))
    with contextlib.redirect_stdout(out):
        r = misc.find_tetrahedral_voids(path, format=case["format"], print_results=show, return_system=True, **kw)
    types, vols, xyz, sys = r
    m.check(len(types) == len(vols) == len(xyz), "lengths", "lists of voids of different length", got=[len(types), len(vols), len(xyz)])
    xyz = np.array(xyz, float).reshape(-1, 3)
    cart = xyz @ box if direct else xyz
    got = {}
    for k in range(len(xyz)):
        e = np.array([np.linalg.norm(ref.mic(box, cart[k] - p)) for p in pos])
        i = int(np.argmin(e))
        if not m.check(e[i] < 1e-6, "position", "the position of a void is not that of an atom", xyz=xyz[k], direct=direct, off=e[i]):
            return
        got[i] = k
    m.check(len(got) == len(xyz), "twice", "an atom is listed twice")
    m.count("atoms", n)
    for i in range(n):
        if want[i] is None:
            m.count("rounding")
            continue
        m.count("voids" if want[i] else "not_voids")
        if not m.check((i in got) == want[i], "voids", "an atom %s tetrahedral position is %s" % (("in a", "not listed") if want[i] else ("not in a", "listed")), atom=i, type=int(typ[i]), fingerprint=fp[i], n=n, precision=prec):
            return
        if want[i]:
            m.check(types[got[i]] == typ[i], "void-type", "the type of an atom in a void", got=types[got[i]], want=int(typ[i]))
            m.close(vols[got[i]], o.cells[i]["volume"], "void-volume", "the volume of an atom in a void", rtol=1e-6)
    m.check(list(got) == sorted(got) if len(set(map(tuple, np.round(pos, 5)))) == n else True, "void-order", "voids are not listed in the order of the atoms")
    if case["kind"] == "interstitial" and case["noise"] == 0 and case["shape"] in ("cubic", "orth", "shear") and case["struct"] == "bcc" and case["reps"] > 2:
        m.count("known", len(got))
    text = out.getvalue()
    if show:
        m.check(("%d atoms found in tetrahedral position" % len(got) if got else "no atoms found") in text and len(text.strip().split("\n")) == 1 + len(got), "printed", "the printed voids are not those returned", text=text[:200])
    else:
        m.check(text == "", "printed", "voids were printed although that was not requested", text=text[:100])
    m.check(len(misc.find_tetrahedral_voids(path, format=case["format"], print_results=False, **kw)) == 3, "return", "find_tetrahedral_voids without return_system")
    m.check(len(sys.atoms) == n and np.allclose(sys.box, box, atol=1e-6), "system", "the returned system is not that of the file")

    # environments of each type
    vol = np.array([c["volume"] for c in o.cells])
    for t in np.unique(typ):
        digits = int(pick(rng, [2, 2, 1, 3, 4]))
        sel = np.nonzero(typ == t)[0]
        v = vol[sel] * 10 ** digits
        if np.abs(v - np.floor(v) - 0.5).min() < 1e-5 or any(fp[i] is None for i in sel):
            m.count("rounding")
            continue
        r = np.round(vol[sel], digits)
        wv, wc = np.unique(r, return_counts=True)
        names = np.array([" ".join(str(k) for k in fp[i]) for i in sel])
        wf = np.unique(names)
        kw = dict(format=case["format"], print_results=False)
        if digits != 2:
            kw["precision"] = digits
        if t != 2:
            kw["atomtype"] = int(t)
        if rng.random() < 0.5:
            (gv, gf, gc), s3 = misc.compare_atomic_env(path, return_system=True, **kw)
            m.check(len(s3.atoms) == n and [a.type for a in s3.atoms] == [int(x) for x in typ], "environment-system", "the returned system is not that of the file")
        else:
            gv, gf, gc = misc.compare_atomic_env(path, **kw)
        gv, gc, gf = np.array(gv, float), np.array(gc, int), np.array(gf, str)
        m.count("environments")
        if not m.check(gv.shape == wv.shape and np.allclose(gv, wv, atol=1e-9) and gc.tolist() == wc.tolist(), "environments", "volumes and numbers of the environments", got=[gv, gc], want=[wv, wc], type=int(t)):
            return
        m.check(sorted(gf.tolist()) == sorted(wf.tolist()), "environment-fingerprints", "fingerprints of the environments", got=gf, want=wf, type=int(t))
        per = [np.unique(names[r == x]) for x in wv]
        if len(wf) == len(wv) and all(len(x) == 1 for x in per):
            if len(wv) > 1:
                m.count("multiple")
            m.check([x[0] for x in per] == gf.tolist(), "environment-order", "fingerprints do not belong to the volumes they are listed with", got=list(zip(gv.tolist(), gf.tolist())), want=[(float(a), b[0]) for a, b in zip(wv, per)])
        out = io.StringIO()
        kw["print_results"] = True
        with contextlib.redirect_stdout(out):
            s2 = misc.compare_atomic_env(path, return_system=True, **kw)
        L = out.getvalue().strip().split("\n")
        m.check(L[0] == "%d clusters found" % len(wv) and len(L) == 1 + len(wv) and all("counts = %d" % c in x for c, x in zip(wc, L[1:])), "environment-printed", "the printed environments are not those returned", text=L[:4])
        m.check(len(s2.atoms) == n, "environment-system", "the returned system is not that of the file")
        m.nontrivial(case["kind"], case.get("struct"), case.get("shape", case.get("cell")), n < 200, case["format"], len(wv), len(got), direct, prec)


