"""An independent writer and reader of LAMMPS dump blocks."""
import gzip

import numpy as np

from vlib import gen


def lammps_cell(rng, kind, L):
    """A cell in the convention of LAMMPS (a along x, b in the xy plane), orthogonal or tilted."""
    f = L * rng.uniform(0.7, 1.4, 3)
    if kind == "orth":
        return np.diag(f)
    t = rng.uniform(-0.5, 0.5, 3) * np.array([f[0], f[0], f[1]])
    if kind == "onetilt":
        t *= np.eye(3)[int(rng.integers(3))]
    elif kind == "zerotilt":
        t *= 0
    return np.array([[f[0], 0, 0], [t[0], f[1], 0], [t[1], t[2], f[2]]])


def block(rng, box, frac, ids, typ, origin, scaled=False, triclinic=None, extra=None, order=None, step=0, flags=True, digits=12, sep=" "):
    """The lines of one block; extra = {name: list of strings}."""
    triclinic = (np.abs(np.tril(box, -1)).max() > 0) if triclinic is None else triclinic
    lo = np.asarray(origin, float)
    hi = lo + np.diag(box)
    xy, xz, yz = box[1, 0], box[2, 0], box[2, 1]
    fmt = "%%.%dg" % (digits + 3)
    out = ["ITEM: TIMESTEP", "%d" % step, "ITEM: NUMBER OF ATOMS", "%d" % len(frac)]
    if triclinic:
        b = [(lo[0] + min(0, xy, xz, xy + xz), hi[0] + max(0, xy, xz, xy + xz), xy), (lo[1] + min(0, yz), hi[1] + max(0, yz), xz), (lo[2], hi[2], yz)]
        out.append("ITEM: BOX BOUNDS xy xz yz" + (" pp pp pp" if flags else ""))
    else:
        b = list(zip(lo, hi))
        out.append("ITEM: BOX BOUNDS" + (" pp pp pp" if flags else ""))
    out += [" ".join(fmt % x for x in r) for r in b]
    pos = frac if scaled else frac @ box + lo
    cols = {"id": ["%d" % i for i in ids], "type": ["%d" % i for i in typ]}
    for k, name in enumerate("xyz"):
        cols[name + ("s" if scaled else "")] = [fmt % x for x in pos[:, k]]
    cols.update(extra or {})
    names = list(cols) if order is None else [list(cols)[i] for i in order]
    out.append("ITEM: ATOMS " + " ".join(names))
    for i in range(len(frac)):
        out.append(sep.join(cols[c][i] for c in names))
    return out


def parse(lines):
    """A block as a dict: step, box, origin, cols."""
    lines = [x.rstrip("\n") for x in lines]
    assert lines[0].split() == ["ITEM:", "TIMESTEP"], lines[0]
    assert lines[2].split()[:3] == ["ITEM:", "NUMBER", "OF"], lines[2]
    n = int(lines[3])
    head = lines[4].split()
    assert head[:3] == ["ITEM:", "BOX", "BOUNDS"], lines[4]
    b = [[float(x) for x in r.split()] for r in lines[5:8]]
    if "xy" in head:
        assert head[3:6] == ["xy", "xz", "yz"] and all(len(r) == 3 for r in b), lines[4:8]
        xy, xz, yz = b[0][2], b[1][2], b[2][2]
        lo = np.array([b[0][0] - min(0, xy, xz, xy + xz), b[1][0] - min(0, yz), b[2][0]])
        hi = np.array([b[0][1] - max(0, xy, xz, xy + xz), b[1][1] - max(0, yz), b[2][1]])
    else:
        assert all(len(r) == 2 for r in b), lines[4:8]
        xy = xz = yz = 0.0
        lo, hi = np.array([r[0] for r in b]), np.array([r[1] for r in b])
    d = hi - lo
    box = np.array([[d[0], 0, 0], [xy, d[1], 0], [xz, yz, d[2]]])
    names = lines[8].split()
    assert names[:2] == ["ITEM:", "ATOMS"], lines[8]
    names = names[2:]
    rows = [r.split() for r in lines[9:9 + n]]
    assert len(rows) == n and all(len(r) == len(names) for r in rows), (n, names, len(rows), rows[:1])
    return dict(step=int(lines[1]), n=n, box=box, origin=lo, names=names, cols={c: [r[k] for r in rows] for k, c in enumerate(names)}, tail=lines[9 + n:])


def blocks(text):
    """All blocks of a file."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    out = []
    while lines:
        p = parse(lines)
        out.append(p)
        lines = p.pop("tail")
    return out


def save(path, lines, compressed=False, newline=True):
    f = gzip.open(path, "wt") if compressed else open(path, "w")
    with f:
        f.write("\n".join(lines) + ("\n" if newline else ""))


def load(path, compressed=False):
    with (gzip.open(path, "rt") if compressed else open(path)) as f:
        return f.read()
