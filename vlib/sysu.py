"""Helpers shared by the property modules: case lists, and the comparison of neighbor environments."""
import itertools

import numpy as np
from scipy.spatial import cKDTree

from vlib import gen, ref


def caser(prop, seed):
    """Returns add(kind, **params), which gives every case a seed of its own, and the list it fills."""
    out = []
    base = int(seed) * 1000003 + sum(ord(c) * 131 ** i for i, c in enumerate(prop)) % 999983

    def add(kind, **kw):
        kw.setdefault("seed", (base + 7919 * len(out)) % (2 ** 31))
        out.append(dict(kind=kind, **kw))
    return add, out


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def calcbox(s):
    """The cell that calculations use, which consists of copies of the box for small systems."""
    b = getattr(s, "_box", None)
    if b is None:
        k = round(np.cbrt(s.ntotal / max(1, s.natoms)))
        b = np.array(s.box, float) * max(1, k)
    return np.array(b, float)


def env(atom):
    """(neighbor indices, vectors, distances) as arrays."""
    idx = np.array(atom.neighbors, dtype=int)
    d = np.array(atom.neighbor_distance, dtype=float)
    v = np.array(atom.neighbor_vector, dtype=float).reshape(-1, 3)
    return idx, v, d


def match(gp, gv, gd, rp, rv, rd, tol):
    """None if the two environments agree as multisets, else what differs."""
    if not (len(gp) == len(gv) == len(gd)):
        return "lists of different lengths: %d indices, %d vectors, %d distances" % (len(gp), len(gv), len(gd))
    if len(gp) != len(rp):
        extra = [x for x in np.round(gd, 6) if not np.any(np.abs(rd - x) < 1e-5)][:3]
        miss = [x for x in np.round(rd, 6) if not np.any(np.abs(gd - x) < 1e-5)][:3]
        return "%d neighbors instead of %d (distances not expected %s, missing %s)" % (len(gp), len(rp), extra, miss)
    if len(gp) == 0:
        return None
    n = np.linalg.norm(gv, axis=1)
    if np.abs(n - gd).max() > tol:
        return "neighbor_distance %r is not the length of neighbor_vector %r" % (gd[np.argmax(np.abs(n - gd))],
                                                                                n[np.argmax(np.abs(n - gd))])
    dd, ii = cKDTree(rv).query(gv)
    if dd.max() > tol:
        k = int(np.argmax(dd))
        return "vector %s (neighbor %d) is not a neighbor vector; nearest expected %s" % (gv[k], gp[k], rv[ii[k]])
    if len(np.unique(ii)) != len(ii):
        return "a neighbor appears twice"
    bad = np.nonzero(rp[ii] != gp)[0]
    if len(bad):
        return "vector %s belongs to atom %d, not to atom %d" % (gv[bad[0]], rp[ii[bad[0]]], gp[bad[0]])
    return None


def box_tag(box):
    """A coarse description of a cell for the evidence signatures."""
    h = gen.heights(box)
    return [round(float(x / h.max()), 2) for x in h] + [int(np.sign(np.linalg.det(box)))]


def gap_ok(sorted_d, k, eps=1e-6):
    """True if the k nearest are well separated from the rest."""
    return k >= len(sorted_d) or sorted_d[k] - sorted_d[k - 1] > eps
