"""C29: plots show each selected atom once, at its position in the drawn box, with its value."""
import numpy as np

from props.c21 import lim
from vlib import gen, quant, ref
from vlib.sysu import caser, pick

RULE = "one signature per (cell, size class, placement, color, filter) of a rendered figure in which every marker and every edge of the box was compared"
ASSUMPTIONS = ["the widget and the browser are not part of the checks: the figures that would be shown are recorded"]
NEED = {"figures": 100, "markers": 4000, "edges": 600, "filtered": 20}


def cases(tier, seed):
    add, out = caser("C29", seed)
    rng = np.random.default_rng([seed, 29])
    for rep in range(8 if tier == "thorough" else 2):
        for ck in gen.CELLS:
            add("plot", cell=ck, n=int(pick(rng, [1, 5, 30, 90, 199])), place=pick(rng, gen.PLACES))
            add("plot", cell=ck, n=205, place=pick(rng, gen.PLACES))
    return out


class Recorder:
    """Records the figures that are shown and the interactive plots that are made."""

    def __enter__(self):
        import ipywidgets
        import plotly.basedatatypes as pb
        self.figs, self.plots = [], []
        self.fac = type(ipywidgets.interact_manual)
        self.fig = pb.BaseFigure
        self.old = self.fac.__call__, self.fig.show
        rec = self

        def call(fac, *args, **kw):
            f = args[0]
            w = ipywidgets.interactive(f, {"manual": True, "auto_display": False}, **kw)
            rec.plots.append((f, w))
            return f

        def show(fig, *a, **k):
            rec.figs.append(fig)
        self.fac.__call__, self.fig.show = call, show
        return self

    def __exit__(self, *a):
        self.fac.__call__, self.fig.show = self.old

    def render(self, radius=None):
        f, w = self.plots[-1]
        kw = {}
        for x in w.kwargs_widgets:
            if radius is not None and x._kwarg == "radius":
                x.value = radius
            kw[x._kwarg] = x.get_interact_value()
        f(**kw)
        return self.figs[-1]


def segments(fig):
    """The lines of a figure as a set of unordered pairs of points."""
    out = set()
    for t in fig.data:
        if "markers" in (t.mode or ""):
            continue
        p = np.round(np.array([t.x, t.y, t.z], float).T, 5) + 0.0
        for a, b in zip(p[:-1], p[1:]):
            if not np.array_equal(a, b):
                out.add(tuple(sorted([tuple(a.tolist()), tuple(b.tolist())])))
    return out


def near(a, b):
    """The same segments up to rounding."""
    if len(a) != len(b):
        return False
    B = [np.array(x) for x in b]
    for x in a:
        x = np.array(x)
        if not any(np.allclose(x, y, atol=1e-4) or np.allclose(x, y[::-1], atol=1e-4) for y in B):
            return False
    return True


def edges(box, origin=(0, 0, 0)):
    out = set()
    o = np.array(origin, float)
    for k in range(3):
        u, v = [box[j] for j in range(3) if j != k]
        for i in (0, 1):
            for j in (0, 1):
                a = o + i * u + j * v
                out.add((tuple(a.tolist()), tuple((a + box[k]).tolist())))
    return out


def figure(m, fig, box, pos, values, title, case, what):
    box = np.array(box, float)
    mk = [t for t in fig.data if "markers" in (t.mode or "")]
    m.count("figures")
    if not m.check(len(mk) == 1, "traces", "the atoms are not drawn once", got=len(mk), what=what):
        return False
    t = mk[0]
    p = np.array([t.x, t.y, t.z], float).T.reshape(-1, 3)
    if not m.check(len(p) == len(pos), "markers", "number of atoms that are drawn", got=len(p), want=len(pos), what=what):
        return False
    inv = np.linalg.inv(box)
    m.count("markers", len(p))
    if len(p):
        d = (p - pos) @ inv
        if not m.check(np.abs(d - np.round(d)).max() < 1e-6, "positions", "an atom is not drawn at its position", off=np.abs(d - np.round(d)).max(), what=what):
            return False
        f = p @ inv
        if not m.check(f.min() > -1e-7 and f.max() < 1 + 1e-7, "outside", "an atom is drawn outside the box", lo=f.min(), hi=f.max(), what=what):
            return False
        if values is not None:
            c = np.array(t.marker.color, float)
            m.check(c.shape == (len(p),) and np.allclose(c, values, equal_nan=True), "colors", "an atom is not drawn with the color of its value", got=c[:5], want=values[:5], n=[len(c), len(p)], what=what)
        else:
            m.check(len(set(np.ravel(t.marker.color).tolist())) <= 1, "plain", "atoms have different colors although no coloring was requested")
        if title:
            m.check(title in str(t.marker.colorbar.title.text), "title", "the color bar does not name the property", got=str(t.marker.colorbar.title.text), want=title)
    seg = segments(fig)
    m.count("edges", len(seg))
    return m.check(near(seg, edges(box)), "box", "the edges drawn are not those of the box", got=sorted(seg)[:3], n=len(seg), what=what)


def run_case(case, m):
    import pyscal.visualization as pv
    from props.c26 import BASE, MORE, snapshot
    rng = m.rng
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=2.0, nt=2, dmin=0.6, shape="any")
    n = len(pos)
    p = quant.params(rng, 2.0, lim(box, n))
    s = gen.make_system(box, pos, typ)
    s.find_neighbors(method="cutoff", cutoff=p["rc"])
    s.calculate_q([4, 6], averaged=True)
    atoms = s.atoms
    for i, a in enumerate(atoms):
        a.volume = float(rng.uniform(1, 9))
        a.custom = {"load": float(rng.normal()), "keep": bool(rng.random() < 0.4), "one": int(i == n - 1), "none": 0, "label": str(float(i))}
        a.solid = bool(rng.random() < 0.5)
        a.cluster = int(rng.integers(0, 4))
        a.condition = int(rng.integers(0, 2))
        s.set_atom(a)
    val = {"type": typ, "id": [a.id for a in atoms], "coordination": [len(a.neighbors) for a in atoms], "q6": s.get_qvals(6), "q4": s.get_qvals(4), "aq6": s.get_qvals(6, averaged=True), "volume": [a.volume for a in atoms],
           "load": [a.custom["load"] for a in atoms], "label": np.arange(n), "cluster": [a.cluster for a in atoms], "solid": [a.solid for a in atoms]}
    flt = {"keep": [a.custom["keep"] for a in atoms], "one": [a.custom["one"] for a in atoms], "none": [0] * n, "solid": [a.solid for a in atoms], "condition": [a.condition for a in atoms], "cluster": [a.cluster for a in atoms], "type": [1] * n}
    before = snapshot(s, BASE + MORE)
    with Recorder() as rec:
        combos = [(None, None), (pick(rng, sorted(val)), None), (None, pick(rng, sorted(flt)))] + [(pick(rng, sorted(val)), pick(rng, sorted(flt))) for _ in range(3)]
        for color, fl in combos:
            sel = np.nonzero(np.array(flt[fl], bool))[0] if fl else np.arange(n)
            kw = {}
            if color:
                kw["colorby"] = color
            if fl:
                kw["filterby"] = fl
                m.count("filtered")
            k = len(rec.plots)
            if rng.integers(2):
                s.show(**kw)
            else:
                pv.plot_system(s, **kw)
            m.require(len(rec.plots) == k + 1, "no-plot", "no plot was made", color=color, filter=fl)
            v = np.array(val[color], float)[sel] if color else None
            for times in range(2):
                r = float(rng.integers(2, 20))
                fig = rec.render(r)
                if not figure(m, fig, box, pos[sel], v, color, case, [color, fl, times, n]):
                    return
                if len(sel):
                    t = [t for t in fig.data if "markers" in (t.mode or "")][0]
                    m.check(float(t.marker.size) == r, "radius", "the radius chosen is not used", got=t.marker.size, want=r)
            m.check(snapshot(s, BASE + MORE) == before, "changed", "plotting changed the system", color=color, filter=fl)
            m.nontrivial(case["cell"], n < 200, case["place"], color, fl)
        for kw in ({"colorby": "nonsense"}, {"filterby": "nonsense"}):
            m.raises(lambda: pv.plot_system(s, **kw), (AttributeError, KeyError, ValueError), "unknown", "an unknown property was plotted", **kw)
        # the parts
        o = rng.normal(size=3) * 3
        tr = pv.create_box_plot(box, origin=o.tolist())
        import plotly.graph_objs as go
        m.check(near(segments(go.Figure(data=tr)), edges(np.array(box), o)), "origin", "the box is not drawn at its origin", origin=o)
        given = pv.create_box_plot(box)
        k = len(given)
        pv.plot_3d(np.array(pos), color=list(range(n)), traces=given)
        m.check(len(given) == k, "traces-changed", "the traces given were changed")
        pv.plot_3d(np.array(pos))
        m.check(len([t for t in rec.figs[-1].data]) == 1, "no-traces", "a plot without a box shows other things than the atoms")


