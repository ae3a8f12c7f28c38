"""C04: Voronoi tessellation: cells tile space; neighbors, weights, faces and vorovector are those of the cell."""
import numpy as np
from scipy.spatial import ConvexHull, Voronoi, cKDTree

from vlib import gen, ref
from vlib.sysu import box_tag, caser, env, match, pick

RULE = "one signature per (cell, placement, size class, exponent, filter) with every Voronoi cell compared with a scipy/qhull tessellation of explicit images"
ASSUMPTIONS = ["faces larger than 1e-5 of the surface of the cell are compared; smaller ones may or may not be listed",
               "vorovector is compared where no face weight or edge length is close to its cutoff"]
NEED = {"cells": 2000, "faces": 20000, "vorovectors": 500, "vorovectors_of_powers": 200}


def cases(tier, seed):
    add, out = caser("C04", seed)
    rng = np.random.default_rng([seed, 4])
    big = tier == "thorough"
    for rep in range(6 if big else 1):
        for ck in gen.CELLS + ["cancel"]:
            add("gas", n=int(rng.choice([5, 12, 30, 60, 120])), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, None, "type", "type_r"]), exp=int(rng.choice([1, 1, 2, 3])))
            add("gas", n=int(rng.integers(200, 300)), cell=ck, place=pick(rng, gen.PLACES), filt=pick(rng, [None, None, "type", "type_r"]), exp=int(rng.choice([1, 1, 2, 3])))
        for pl in gen.PLACES:
            add("gas", n=210, cell=pick(rng, gen.ORTH), place=pl, filt=None, exp=1)
        for st in gen.BASIS:
            add("lattice", n=250 if st != "bcc" else 60, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), filt=None, exp=1, struct=st)
            add("perfect", n=250 if st != "bcc" else 60, cell="cubic", place="inside", filt=None, exp=1, struct=st)
        for sh in ("cluster", "slab", "rod", "corner"):
            add("part", n=int(rng.choice([20, 60])), cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), filt=None, exp=1, shape=sh)
            add("part", n=205, cell=pick(rng, gen.CELLS), place=pick(rng, gen.PLACES), filt=None, exp=1, shape=sh)
            add("part", n=205, cell=pick(rng, gen.TRIC), place=pick(rng, gen.PLACES), filt=None, exp=1, shape=sh)
        add("tiny", n=1, cell="cubic", place="inside", filt=None, exp=1)
        add("tiny", n=2, cell="orth", place="images", filt=None, exp=2)
        add("tiny", n=3, cell="tri+", place="far", filt=None, exp=1)
    if big:
        add("gas", n=1500, cell="orth", place="far", filt=None, exp=1)
        add("gas", n=1500, cell="tri+", place="far", filt=None, exp=1)
    return out


class Cells:
    """Voronoi cells of the atoms of an infinite periodic configuration, from qhull."""

    def __init__(self, box, pos, reach):
        while True:
            c = ref.Crystal(box, pos, reach)
            v = Voronoi(c.pts)
            home = c.tree.query(c.p)[1]
            ok = True
            self.cells = []
            by = {}
            for k, (a, b) in enumerate(v.ridge_points):
                by.setdefault(a, []).append((k, b))
                by.setdefault(b, []).append((k, a))
            for i in range(c.n):
                reg = v.regions[v.point_region[home[i]]]
                if -1 in reg or not reg:
                    ok = False
                    break
                verts = v.vertices[reg]
                if 2 * np.linalg.norm(verts - c.p[i], axis=1).max() > reach * 0.98:
                    ok = False
                    break
                faces = []
                for k, b in by[home[i]]:
                    poly = v.vertices[v.ridge_vertices[k]]
                    e = np.linalg.norm(np.roll(poly, -1, axis=0) - poly, axis=1)
                    area = 0.5 * np.linalg.norm(np.cross(poly - poly[0], np.roll(poly, -1, axis=0) - poly[0]).sum(axis=0))
                    faces.append((c.par[b], c.pts[b] - c.p[i], area, len(poly), e))
                self.cells.append({"volume": ConvexHull(verts).volume, "verts": verts - c.p[i], "faces": faces})
            if ok:
                break
            reach *= 1.35
            if reach > 40 * np.cbrt(abs(np.linalg.det(box)) / len(pos)):
                raise RuntimeError("reference tessellation needs too many images")


def part(rng, case, box):
    """Atoms that fill only a part of the cell, around which there is vacuum."""
    f = gen.gas(rng, case["n"], box, 0.4)
    w = {"cluster": [.3, .3, .3], "slab": [1, 1, .3], "rod": [1, .3, .3], "corner": [.2, .4, .2]}[case["shape"]]
    f = f * w + {"cluster": .35, "slab": .35, "rod": .35, "corner": 0.0}[case["shape"]]
    return gen.place(rng, f + (0 if case["shape"] != "cluster" else rng.uniform(0, 1, 3) * rng.integers(2)), box, case["place"])


def run_case(case, m):
    rng = m.rng
    sp = float(rng.uniform(0.8, 3.5))
    noise = {"lattice": 0.04, "perfect": 0.0}.get(case["kind"], 0)
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=sp, nt=2,
                               struct=case.get("struct"), noise=noise, dmin=0.4)
    if case["kind"] == "part":
        pos = part(rng, case, box)
    n = len(pos)
    alpha = case["exp"]
    filt = case["filt"]
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="voronoi", voroexp=alpha, filter=filt)
    par, allp = ref.parents(s, box, pos)
    o = Cells(box, pos, 2.6 * sp if case["kind"] != "part" else 0.9 * gen.heights(box).max())
    atoms = s.atoms
    allatoms = s.get_all_atoms()
    V = abs(np.linalg.det(box))
    m.close(sum(a.volume for a in atoms), V, "tiling", "volumes of the Voronoi cells do not add up to the cell", rtol=1e-8, atol=0)
    edge_cut, area_cut = pick(rng, [(0.05, 0.01), (0.05, 0.01), (0.1, 0.02), (0.02, 0.002)])
    s.calculate_vorovector(edge_cutoff=edge_cut, area_cutoff=area_cut)
    vatoms = s.atoms
    perfect = case["kind"] == "perfect"
    for i, a in enumerate(atoms):
        c = o.cells[i]
        m.count("cells")
        if not m.close(a.volume, c["volume"], "volume", "Voronoi volume", rtol=1e-7, atol=1e-12, atom=i):
            return
        idx, v, d = env(a)
        w = np.array(a.neighbor_weights)
        tot = sum(f[2] for f in c["faces"])
        norm = sum(f[2] ** alpha for f in c["faces"])
        typef = lambda p: {None: True, "type": typ[p] == typ[i], "type_r": typ[p] != typ[i]}[filt]
        faces = [f for f in c["faces"] if f[2] > 1e-5 * tot and typef(f[0])]
        keep = w > (1e-5 * tot) ** alpha / norm
        if any(0.9e-5 * tot < f[2] < 1.1e-5 * tot for f in c["faces"]):
            continue
        gp = par[idx]
        why = match(gp[keep], v[keep], d[keep], np.array([f[0] for f in faces], int),
                    np.array([f[1] for f in faces]).reshape(-1, 3), np.array([np.linalg.norm(f[1]) for f in faces]), 1e-6 * sp + 1e-6)
        if why:
            m.fail("faces", "Voronoi neighbors of atom %d: %s" % (i, why), n=n, box=box, filter=filt)
            return
        m.check(a.coordination == len(idx) == len(w) == len(a.face_vertices) == len(a.face_perimeters), "lengths",
                "lists of neighbors, weights, faces differ in length", atom=i)
        if not faces:
            continue
        tree = cKDTree(np.array([f[1] for f in faces]))
        _, ii = tree.query(v[keep])
        m.count("faces", len(ii))
        m.close(w[keep], [faces[k][2] ** alpha / norm for k in ii], "weights", "weights are not the relative face areas to the power voroexp",
                rtol=1e-6, atol=1e-9, atom=i, exp=alpha)
        if filt is None:
            m.close(w.sum(), 1.0, "weight-sum", "weights do not add up to one", atol=1e-9)
        if not perfect:
            per = np.array(a.face_perimeters)[keep]
            m.close(per, [faces[k][4].sum() for k in ii], "perimeters", "face perimeters", rtol=1e-5, atol=1e-6 * sp, atom=i)
            nv = np.array(a.face_vertices)[keep]
            want = np.array([faces[k][3] for k in ii])
            short = np.array([faces[k][4].min() < 1e-6 * sp for k in ii])
            m.check(((nv == want) | short).all(), "face-vertices", "number of vertices of a face", atom=i, got=nv, want=want)
        # vertices
        vv = np.array(a.vertex_vectors).reshape(-1, 3)
        dd, _ = cKDTree(c["verts"]).query(vv)
        m.check(dd.max() < 1e-5 * sp, "vertices", "a vertex is not a vertex of the Voronoi cell", atom=i, off=dd.max())
        dd, _ = cKDTree(vv).query(c["verts"])
        m.check(dd.max() < 1e-5 * sp, "vertices-missing", "a vertex of the Voronoi cell is missing", atom=i, off=dd.max())
        m.close(np.array(a.vertex_positions) - np.array(a.pos), vv, "vertex-positions", "vertex_positions are not vertices around the atom", atol=1e-9 * (1 + np.abs(a.pos).max()))
        m.close(a.avg_volume, (a.volume + sum(allatoms[k].volume for k in idx)) / (len(idx) + 1), "avg-volume",
                "avg_volume is not the mean over the atom and its neighbors", rtol=1e-9)
        # vorovector
        if filt is None and not perfect:
            cnt = [0, 0, 0, 0]
            clear = True
            for p, vec, area, k, e in c["faces"]:
                wt = area / tot
                clear &= abs(wt - area_cut) > 1e-5
                if wt <= area_cut:
                    continue
                r = e / e.sum()
                clear &= np.abs(r - edge_cut).min() > 1e-5
                ne = int((r > edge_cut).sum())
                if 3 <= ne <= 6:
                    cnt[ne - 3] += 1
            if clear:
                m.count("vorovectors")
                m.count("vorovectors_of_powers", int(alpha != 1))
                got = list(vatoms[i].vorovector)
                m.check(got == cnt, "vorovector", "vorovector", atom=i, got=got, want=cnt, cutoffs=[edge_cut, area_cut])
            m.check(len(vatoms[i].edge_lengths) == len(idx), "edge-lengths", "edge_lengths do not list every face")
    if perfect:
        want = {"sc": [0, 6, 0, 0], "bcc": [0, 6, 0, 8], "fcc": [0, 12, 0, 0]}.get(case["struct"])
        if want:
            got = [list(a.vorovector) for a in vatoms]
            m.count("vorovectors", len(got))
            m.check(all(g == want for g in got), "vorovector-perfect", "vorovector of a perfect crystal", got=got[0], want=want, struct=case["struct"])
    m.nontrivial(case["kind"], case["cell"], case["place"], n < 200, alpha, filt, case.get("struct"))
