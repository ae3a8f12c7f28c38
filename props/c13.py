"""C13: pair entropy parameter: quadrature of the documented integral over the recorded neighbor distances."""
import numpy as np

from vlib import gen, ref
from vlib.sysu import caser, env, pick

RULE = "one signature per (structure, cell, size class, density, averaging mode, grid) in which the entropy of every atom was recomputed"
ASSUMPTIONS = ["the last, incomplete step of the grid may be left out"]
NEED = {"atoms": 3000, "local": 5, "averaged": 1000, "switched": 500, "at_ra": 100}


def cases(tier, seed):
    add, out = caser("C13", seed)
    rng = np.random.default_rng([seed, 13])
    big = tier == "thorough"
    for rep in range(8 if big else 2):
        for ck in gen.CELLS:
            add("ent", n=int(rng.choice([2, 12, 40, 120, 199, 200, 300])), cell=ck, place=pick(rng, gen.PLACES), struct=pick(rng, [None, None, "fcc", "bcc"]),
                mode=pick(rng, ["none", "averaged", "switch", "switch2"]), local=bool(rng.random() < 0.4))
        add("ent", n=250, cell="orth", place="inside", struct="fcc", mode="averaged", local=True)
        add("ideal", n=1)
        add("shell", n=1)
    return out


def integrand(r, d, rho, sigma):
    g = np.exp(-(r[:, None] - d[None]) ** 2 / (2 * sigma ** 2)).sum(axis=1) / (4 * np.pi * rho * r ** 2 * np.sqrt(2 * np.pi) * sigma)
    with np.errstate(all="ignore"):
        x = np.where(g > 0, g * np.log(np.where(g > 0, g, 1)), 0.0)
    return (x - g + 1) * r ** 2


def reference(d, rho, sigma, r0, rm, h):
    """[(value, value without the last but one point)] of the trapezoidal rule with steps h, for each number of steps that rounding allows"""
    x = (rm - r0) / h
    out = []
    for N in sorted({int(np.floor(x - 1e-7)), int(np.floor(x + 1e-7))}):
        r = r0 + np.arange(N + 1) * h
        y = integrand(r, d, rho, sigma)
        out.append((-rho * np.trapezoid(y, dx=h), rho * h * y[-2]))
    return out


def switching(d, ra, M, N):
    x = np.asarray(d) / ra
    # (1-x^N)/(1-x^M) as quotient of geometric sums, also defined at and precise around x=1
    return sum(x ** k for k in range(N)) / sum(x ** k for k in range(M))


def run_shell(case, m):
    """The cutoff of the switching function is the distance of a shell of neighbors of an ideal crystal"""
    rng = m.rng
    for st in ("sc", "fcc", "bcc", "diamond"):
        a0 = float(rng.choice([1.0, 0.3, rng.uniform(1, 5)]))
        k = {"sc": 6, "fcc": 4, "bcc": 5, "diamond": 3}[st]
        box = np.diag([k * a0] * 3)
        pos = gen.lattice(st, [k] * 3) @ box
        s = gen.make_system(box, pos)
        rc = 1.3 * a0
        s.find_neighbors(method="cutoff", cutoff=rc)
        d0 = np.unique(np.round(s.get_atom(0).neighbor_distance, 9))
        for shell in d0:
            exact = [x for x in s.get_atom(0).neighbor_distance if abs(x - shell) < 1e-6]
            for ra in (float(exact[0]), float(np.median(exact)), float(shell), float(exact[0]) * (1 + 2e-16), float(exact[0]) * (1 - 3e-15)):
                M, N = (12, 6) if rng.random() < 0.5 else (int(rng.choice([8, 10, 14])), int(rng.choice([3, 4, 7])))
                s.calculate_entropy(rc, sigma=0.1 * a0, h=0.01 * a0, averaged=True, switching_function=True, ra=ra, M=M, N=N)
                for i in rng.choice(len(pos), 10, replace=False):
                    a = s.get_atom(int(i))
                    idx, v, d = env(a)
                    e = np.array([s.get_atom(int(j)).entropy for j in idx])
                    f = switching(d, ra, M, N)
                    m.count("at_ra")
                    if not m.close(a.avg_entropy, (a.entropy + (e * f).sum()) / (1 + f.sum()), "switch-at-ra", "switched average entropy with neighbors at ra", rtol=1e-7, atol=1e-9, M=M, N=N, ra=ra, struct=st):
                        return
        m.nontrivial("shell", st, len(d0))


def run_case(case, m):
    rng = m.rng
    if case["kind"] == "ideal":
        return run_ideal(case, m)
    if case["kind"] == "shell":
        return run_shell(case, m)
    box, pos, typ = gen.config(case["seed"], case["n"], case["cell"], case["place"], spacing=float(rng.uniform(1, 4)), struct=case["struct"], noise=0.04, dmin=0.4, shape="any")
    n = len(pos)
    vol = abs(np.linalg.det(box))
    sp = np.cbrt(vol / n)
    h0 = gen.heights(box).min()
    lim = h0 * (2.4 if n <= 4 else 1.45 if n < 200 else 0.49)
    rc = ref.cutoff_in_gap(box, pos, min(rng.uniform(1.2, 2.0) * sp, lim))
    s = gen.make_system(box, pos)
    own = False
    if n > 40 and rng.random() < 0.3:
        # every atom has a cutoff of its own
        try:
            s.find_neighbors(method="cutoff", cutoff=0, nlimit=int(rng.integers(4, 12)), padding=float(rng.uniform(1.1, 1.3)))
            own = True
            rc = float(np.mean([a.cutoff for a in s.atoms]))
        except RuntimeError:
            pass
    if not own:
        s.find_neighbors(method="cutoff", cutoff=rc)
    for k in range(2):
        sigma = float(rng.uniform(0.06, 0.2) * sp)
        h = float(rng.choice([0.002, 0.005, 0.01]) * sp)
        r0 = float(rng.choice([0.0005, 0.02, 0.3]) * sp)
        rm = float(rc * rng.choice([1.0, 0.9, 1.15]))
        kw = dict(sigma=sigma, rstart=r0, h=h)
        if case["local"]:
            kw["local"] = True
        mode = case["mode"]
        M, N = 12, 6
        ra = None
        if mode != "none":
            kw["averaged"] = True
        if mode.startswith("switch"):
            ra = float(rc * rng.uniform(0.5, 1.1))
            kw.update(switching_function=True, ra=ra)
            if mode == "switch2":
                M, N = int(rng.choice([8, 10, 14])), int(rng.choice([3, 4, 7]))
                kw.update(M=M, N=N)
        s.calculate_entropy(rm, **kw)
        atoms = s.atoms
        alle = [a.entropy for a in s.get_all_atoms()]
        got = np.array([a.entropy for a in atoms])
        for i, a in enumerate(atoms):
            idx, v, d = env(a)
            if case["local"]:
                m.count("local")
                if len(d) == 0:
                    continue
            m.count("own_cutoff", own and case["local"])
            rho = len(d) / (4 / 3. * np.pi * (a.cutoff if own else rc) ** 3) if case["local"] else n / vol
            refs = reference(d, rho, sigma, r0, rm, h)
            tol = 1e-8 * max(1.0, abs(refs[0][0]))
            m.count("atoms")
            if not any(abs(got[i] - w) <= tol for w, _ in refs):
                # known: the sum leaves out the last but one point of the grid
                key = "entropy-last-point" if any(abs(got[i] - w - p) <= tol for w, p in refs) else "entropy" + ("-local" if case["local"] else "")
                m.fail(key, "entropy of atom %d is not the trapezoidal rule for its neighbors" % i, got=got[i], want=refs, tol=tol, n=n, h=h, sigma=sigma, rm=rm, r0=r0, nn=len(d))
                if key != "entropy-last-point":
                    return
            e = np.array([alle[j] for j in idx])
            if mode == "averaged":
                m.count("averaged")
                if not m.close(a.avg_entropy, (got[i] + e.sum()) / (len(e) + 1), "avg", "averaged entropy of atom %d" % i, rtol=1e-9, atol=1e-9):
                    return
            elif mode != "none":
                f = switching(d, ra, M, N)
                m.count("switched")
                if not m.close(a.avg_entropy, (got[i] + (e * f).sum()) / (1 + f.sum()), "switch", "switched average entropy of atom %d" % i, rtol=1e-7, atol=1e-9, M=M, N=N):
                    return
        # images carry the entropy of their atoms
        heads = [i if i < n else a.head for i, a in enumerate(s.get_all_atoms())]
        m.close(np.array(alle), got[heads], "ghosts", "image and atom have different entropy", rtol=1e-6, atol=1e-7)
        m.nontrivial(case["struct"], case["cell"], n < 200, case["local"], mode, h / sp, r0 / sp)


def run_ideal(case, m):
    """A crystal has much lower entropy than a random configuration of the same density; the value does not depend on the grid."""
    rng = m.rng
    res = {}
    for st, noise in (("fcc", 0.02), ("fcc", 0.15), (None, 0)):
        box, pos, typ = gen.config(case["seed"], 500, "cubic", "inside", spacing=1.0, struct=st, noise=noise, dmin=0.2)
        s = gen.make_system(box, pos)
        s.find_neighbors(method="cutoff", cutoff=2.2)
        out = []
        for h in (0.001, 0.002):
            s.calculate_entropy(2.2, sigma=0.1, rstart=0.001, h=h)
            out.append(np.mean([a.entropy for a in s.atoms]))
        m.check(abs(out[0] - out[1]) < 0.05 * abs(out[0]) + 0.02, "grid", "entropy depends on the grid", got=out)
        res[(st, noise)] = out[0]
        m.nontrivial("ideal", st, noise)
    m.check(res[("fcc", 0.02)] < res[("fcc", 0.15)] < res[(None, 0)], "order", "entropy does not increase with disorder", got=[float(x) for x in res.values()])
