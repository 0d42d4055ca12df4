"""Correction lookup."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from astropy.table import Table

from mc import core, petro
from petrofit import Petrosian, PetrosianCorrection
from scipy.special import gammainc, gammaincinv

ID = "C14"
ETAS = [0.2, 0.3, 0.4, 0.5]
FRACS = {0.5: "c_r_50", 0.8: "c_r_80", 0.99: "c_r_99"}
START = {0.5: 0.35, 0.8: 0.7}  # epsilons with which the lookup quantities can be measured
NAMES = ["n", "r_eff", "sersic_r_99", "p02", "p03", "p04", "p05", "u_r_50", "u_r_99", "u_c2080", "c_epsilon", "c_r_50", "c_r_80", "c_r_99", "c_c2080"]
OBJ = [(4.0, 1.0), (7.0, 1.0), (4.0, 2.5), (6.0, 0.6), (9.0, 3.5), (12.0, 1.4)]


def bounds(tier):
    return "all row orders of a 4-row grid; {} grids around every object x 6 objects x 4 etas x 3 fractions x range enforcement; grids of up to 1500 rows; objects almost half way between two rows along each pair of columns; out-of-range objects on each side of each column; file formats; histories".format(
        27 if tier == "quick" else 125)


def cases(tier):
    out = []
    for o in range(len(OBJ)):
        for d in itertools.product([0, 1, 2] if tier == "quick" else [0, 1, 2, 3, 4], repeat=3):
            out.append(("near", o, list(d)))
    out += [("perm", list(p)) for p in itertools.permutations(range(4))]
    out += [("set", c) for c in core.product(o=[0, 2, 5], eta=ETAS, frac=list(FRACS), enforce=[True, False])]
    out += [("set", dict(c, eta=0.2, enforce=True)) for c in core.product(o=[0, 2, 5], frac=list(FRACS), interp=[("cubic", 700), ("linear", 5000), ("quadratic", 900), (None, 100)], errs=[0, 1, 2], ttf=[0.99, 0.9])]
    out += [("bad", c) for c in core.product(o=[0, 4], eta=[0.2, 0.1, 0.25, 0.6], frac=[0.99, 0.9, 0.95, 0.2], enforce=[True, False]) if c["eta"] != 0.2 or c["frac"] != 0.99]
    out += [("range", c) for c in core.product(o=[0, 1, 3], col=[0, 1, 2], side=[-1, 1], enforce=[True, False])]
    out += [("file", c) for c in core.product(fmt=["ascii.ecsv", "fits", "csv", "votable", None], o=[0, 1])]
    out += [("hist", h) for h in core.histories(["eps", "n", "correct", "range", "other", "reads"], 2 if tier == "quick" else 3)]
    out += [("api", 0)]
    out += [("large", c) for c in core.product(o=[0, 1, 2, 4], n=[40, 300, 1500], k=[0, 1, 2], enforce=[True, False])]
    out += [("edge", c) for c in core.product(o=range(len(OBJ)), cols=[(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)], margin=[0.985, 1.015], rows=[0, 1, 2])]
    return out


def obj(o, errs=0, **kw):
    re, n = OBJ[o]
    b = gammaincinv(2 * n, 0.5)
    r = np.concatenate([np.arange(1, 40, 1.5), np.arange(40, 400, 12.0)])
    f = 1000 * gammainc(2 * n, b * (r / re) ** (1 / n))
    fe, ae = (None, None) if not errs else (0.02 + 0.001 * f, None if errs == 1 else 0.01 * r)
    return Petrosian(r, np.pi * r**2, f, flux_err=fe, area_err=ae, **kw)


_pos = {}


def position(o, t=None, **kw):
    """Measured (r_petrosian at 0.2, half-light radius, concentration)."""
    key = (o, tuple(sorted(kw.items())))
    if key not in _pos:
        p = obj(o, **kw)
        q = obj(o, eta=0.2)
        _pos[key] = (float(q.r_petrosian), float(p.r_50), float(p.c2080))
    return _pos[key]


def table(points, k=0):
    """A grid whose rows sit at the given points; every other value identifies its row."""
    rows = []
    for i, (x, y, z) in enumerate(points):
        u = 1.0 + 0.37 * (i + k)
        rows.append([0.5 + 0.25 * i, 5 + i, 30 + i, x, x * (0.8 - 0.01 * i), x * (0.7 - 0.02 * i), x * (0.6 - 0.013 * i), y, 3 * y, z, 7 + i, y * u, y * u * 1.9, y * u * 3.1, z + 0.4])
    return Table(rows=rows, names=NAMES)


def nearest(grid, pos):
    d = np.zeros(len(grid))
    for v, c in zip(pos, ("p02", "u_r_50", "u_c2080")):
        col = np.array(grid[c], float)
        d += ((col - v) / np.std(col)) ** 2
    d = np.sqrt(d)
    return [i for i in range(len(grid)) if d[i] <= d.min() * (1 + 1e-9) + 1e-12]


def inside(grid, pos):
    return all(np.min(grid[c]) <= v <= np.max(grid[c]) for v, c in zip(pos, ("p02", "u_r_50", "u_c2080")))


def judge(t, grid, corr, p, pos, what, eta=0.2, frac=0.99):
    best = nearest(grid, pos)
    eps = float(t.call(corr.estimate_epsilon, p))
    want = [float(grid[FRACS[frac]][i] / grid["p0%d" % round(eta * 10)][i]) for i in best]
    t.check(any(np.isclose(eps, w, rtol=1e-9) for w in want), "{}: epsilon {} instead of {} (rows {})", what, eps, want, best)
    n = float(t.call(corr.estimate_n, p))
    t.check(any(np.isclose(n, float(grid["n"][i])) for i in best), "{}: index {} instead of that of rows {}", what, n, best)
    return eps


def corrected(t, corr, p, eps, what, full=True):
    before = petro.observe(p, light=True) if full else None
    eps0 = p.epsilon
    q = t.call(corr.correct, p)
    t.check(q is not p and isinstance(q, Petrosian), "{}: correct returned {!r}", what, type(q))
    t.same(q.epsilon, eps, what + ": corrected epsilon")
    t.same(p.epsilon, eps0, what + ": epsilon of the input")
    if full:
        petro.compare(t, petro.observe(p, light=True), before, what + ": input after correct")
        fresh = Petrosian(p.r_list, p.area_list, p.flux_list, eta=p.eta, epsilon=float(q.epsilon), epsilon_fraction=p.epsilon_fraction, total_flux_fraction=p.total_flux_fraction,
                          flux_err=p.flux_err, area_err=p.area_err, interp_kind=p.interp_kind, interp_num=p.interp_num)
        petro.compare(t, petro.observe(q, light=True), petro.observe(fresh, light=True), what + ": corrected object")
        q.epsilon = 1.7
        t.same(p.epsilon, eps0, what + ": epsilon of the input after changing the corrected object")
    return q


def snapshot(grid):
    return {c: np.array(grid[c]) for c in grid.colnames}


def unchanged(t, grid, snap, what):
    t.equal(list(grid.colnames), list(snap), what + ": columns")
    for c in snap:
        t.same(np.array(grid[c]), snap[c], what + ": column " + c)


def run_edge(c, t):
    """Two rows almost equally far from the object, along different columns: the units decide."""
    pos = np.array(position(c["o"]))
    others = [
        [(0.5, 0.6, 0.7), (1.7, 1.5, 1.4)],
        [(0.5, 0.6, 0.7), (0.5, 0.6, 1.4), (1.8, 0.6, 0.7), (1.8, 1.6, 1.4)],
        [(0.4, 0.5, 0.6), (0.4, 1.9, 0.6), (2.5, 1.9, 1.5), (2.5, 0.5, 1.5), (2.5, 1.9, 0.6), (0.4, 0.5, 1.5), (1.5, 1.4, 1.5)],
    ][c["rows"]]
    one, two = np.ones(3), np.ones(3)
    one[c["cols"][0]] = 1.1

    def grid(b):
        two[c["cols"][1]] = 1 + b
        return table([tuple(pos * v) for v in [one, two] + [np.array(o) for o in others]])

    def ratio(g):
        d = sum(((np.array(g[n], float) - v) / np.std(g[n])) ** 2 for v, n in zip(pos, ("p02", "u_r_50", "u_c2080")))
        return np.sqrt(d[0] / d[1])

    lo, hi = 1e-3, 0.45
    for _ in range(60):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if ratio(grid(mid)) > c["margin"] else (lo, mid)
    g = grid(lo)
    if abs(ratio(g) - c["margin"]) > 1e-3:
        t.outcome("unbalanced")
        return
    corr = t.call(PetrosianCorrection, g)
    t.check(nearest(g, tuple(pos)) == [0 if c["margin"] < 1 else 1], "harness: {}", nearest(g, tuple(pos)))
    eps = judge(t, g, corr, obj(c["o"]), tuple(pos), "two rows almost equally near, {}".format(c))
    t.state(c)
    t.outcome(eps)


def run(case, t):
    kind = case[0]
    if kind == "near":
        o, d = case[1], case[2]
        x, y, z = position(o)
        # rows around the object: which one is nearest depends on the spread of the columns
        ax = [[0.9, 0.999, 1.3, 1.02, 0.5][d[0]], [0.97, 1.4, 0.8, 1.01, 2.0][d[1]], [0.99, 0.9, 1.2, 1.001, 0.7][d[2]]]
        pts = [(x * a, y * b, z * c) for a in (ax[0], 1.11) for b in (ax[1], 1.06) for c in (ax[2], 1.08)] + [(x * 0.4, y * 3, z * 0.5), (x * 9, y * 0.3, z * 1.6)]
        g = table(pts)
        snap = snapshot(g)
        corr = t.call(PetrosianCorrection, g, enforce_range=bool(d[0] != 1))
        p = obj(o)
        eps = judge(t, g, corr, p, (x, y, z), "object {} grid {}".format(OBJ[o], d))
        corrected(t, corr, p, eps, "object {}".format(OBJ[o]), full=d[0] == d[1] == 0)
        unchanged(t, g, snap, "grid after correct")
        t.state(nearest(g, (x, y, z)), o)
        t.outcome(eps)
    elif kind == "edge":
        run_edge(case[1], t)
    elif kind == "perm":
        x, y, z = position(1)
        pts = [(x * 0.8, y * 0.9, z * 0.9), (x * 1.1, y * 1.05, z * 1.02), (x * 1.5, y * 1.4, z * 0.95), (x * 0.99, y * 1.2, z * 1.3)]
        full = table(pts)
        g = full[case[1]]
        corr = t.call(PetrosianCorrection, g)
        eps = judge(t, g, corr, obj(1), (x, y, z), "row order {}".format(case[1]))
        t.same(eps, PetrosianCorrection(full).estimate_epsilon(obj(1)), "epsilon for another row order")
        t.outcome(case[1], eps)
    elif kind == "set":
        c = case[1]
        kw = dict(eta=c["eta"], epsilon_fraction=c["frac"], epsilon=START.get(c["frac"], 2.0))
        if "interp" in c:
            kw.update(interp_kind=c["interp"][0], interp_num=c["interp"][1], errs=c["errs"], total_flux_fraction=c["ttf"])
        pos = position(c["o"], **kw)
        t.check(not np.isnan(pos).any(), "harness: {} cannot be measured", c)
        x, y, z = pos
        g = table([(x * 0.7, y * 0.7, z * 0.8), (x * 1.02, y * 1.03, z * 0.99), (x * 1.6, y * 1.7, z * 1.2), (x * 1.2, y * 0.8, z * 1.1)])
        corr = t.call(PetrosianCorrection, g, c["enforce"])
        p = obj(c["o"], **kw)
        eps = judge(t, g, corr, p, pos, str(c), c["eta"], c["frac"])
        corrected(t, corr, p, eps, str(c))
        t.outcome(eps)
    elif kind == "bad":
        c = case[1]
        kw = dict(eta=c["eta"], epsilon_fraction=c["frac"], epsilon=START.get(c["frac"], 2.0))
        x, y, z = position(c["o"], **kw)
        g = table([(x * 0.5, y * 0.5, z * 0.5), (x * 2, y * 2, z * 2), (x, y, z)])
        corr = t.call(PetrosianCorrection, g, c["enforce"])
        p = obj(c["o"], **kw)
        t.rejects(corr.estimate_epsilon, "eta {} with fraction {}".format(c["eta"], c["frac"]), p)
        t.rejects(corr.correct, "eta {} with fraction {}".format(c["eta"], c["frac"]), p)
        t.same(p.epsilon, kw["epsilon"], "epsilon after a refused correction")
        t.state(c)
    elif kind == "range":
        c = case[1]
        pos = position(c["o"])
        lo, hi = [v * 0.8 for v in pos], [v * 1.3 for v in pos]
        if c["side"] < 0:
            lo[c["col"]] = pos[c["col"]] * 1.05
        else:
            hi[c["col"]] = pos[c["col"]] * 0.97
        g = table([(x, y, z) for x in (lo[0], hi[0]) for y in (lo[1], hi[1]) for z in (lo[2], hi[2])])
        corr = t.call(PetrosianCorrection, g, enforce_range=c["enforce"])
        p = obj(c["o"])
        if c["enforce"]:
            t.check(not inside(g, pos), "harness: object is inside the grid")
            for fn in (corr.estimate_epsilon, corr.estimate_n, corr.correct):
                t.rejects(fn, "{} of an object outside the range ({})".format(fn.__name__, c), p)
            corr.enforce_range = False
        judge(t, g, corr, p, pos, str(c))
        t.state(c)
    elif kind == "large":
        c = case[1]
        x, y, z = position(c["o"])
        i = np.arange(c["n"])
        a, b, d = 0.5 + (i * 37) % c["n"] / c["n"], 0.4 + 1.2 * ((i * 101 + 7) % c["n"]) / c["n"], 0.8 + 0.5 * ((i * 61 + 3) % c["n"]) / c["n"]
        if c["k"] == 1:  # the nearest row is the last one
            a[-1] = b[-1] = d[-1] = 1.0001
        elif c["k"] == 2:  # and the first one
            a[0] = b[0] = d[0] = 0.9999
        g = table(list(zip(a * x, b * y, d * z)))
        p = obj(c["o"])
        corr = t.call(PetrosianCorrection, g, enforce_range=c["enforce"])
        eps = judge(t, g, corr, p, (x, y, z), str(c))
        corrected(t, corr, p, eps, str(c), full=c["n"] == 40)
        t.state(c)
        t.outcome(eps)
    elif kind == "file":
        run_file(case[1], t)
    elif kind == "hist":
        run_hist(case[1], t)
    elif kind == "api":
        g = table([(8.0, 4.0, 2.5), (9.0, 4.0, 2.5), (9.0, 5.0, 3.0)])
        corr = t.call(PetrosianCorrection, g)
        t.check(bool(corr.enforce_range), "range is not enforced by default")
        t.equal(list(t.call(lambda: corr.grid_keys)), NAMES, "grid keys")
        t.same(t.call(corr.unique_grid_values, "u_r_50"), [4.0, 5.0], "unique values")
        f = t.call(corr.filter_grid, "p02", 9.0)
        t.same(np.array(f["n"]), [0.75, 1.0], "filtered grid")
        n = 30
        rows = [(5 + k % 7, 3 + (k * 7) % 5, 2 + (k * 11) % 4) for k in range(n)]
        g = table(rows)
        corr = t.call(PetrosianCorrection, g)
        for key in g.colnames:
            col = np.array(g[key], float)
            t.same(t.call(corr.unique_grid_values, key), sorted(set(col.tolist())), "unique values of " + key)
            for v in sorted(set(col.tolist())) + [-1.0]:
                f = t.call(corr.filter_grid, key, v)
                for other in g.colnames:
                    t.same(np.array(f[other], float), np.array(g[other], float)[col == v], "{} of the rows with {} = {}".format(other, key, v))
        for bad in ("grid.yaml", None, [1, 2], np.zeros((2, 2))):
            t.rejects(PetrosianCorrection, "grid {!r}".format(bad), bad)
        t.state("api")


def run_file(c, t):
    d = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        pos = position(c["o"])
        x, y, z = pos
        g = table([(x * 0.7, y * 0.7, z * 0.8), (x * 1.02, y * 1.03, z * 0.99), (x * 1.6, y * 1.7, z * 1.2), (x / 3, y * 0.8, z * 1.1)])
        ext = {"ascii.ecsv": "yaml", "fits": "fits", "csv": "csv", "votable": "xml", None: "ecsv"}[c["fmt"]]
        path = os.path.join(d, "grid." + ext)
        corr = t.call(PetrosianCorrection, g)
        t.call(corr.write, path, file_format=c["fmt"])
        back = t.call(PetrosianCorrection.read, path, file_format=c["fmt"])
        t.equal(list(back.grid.colnames), NAMES, "columns read back")
        for n in NAMES:
            t.same(np.array(back.grid[n], float), np.array(g[n], float), "column read back: " + n)
        t.check(bool(back.enforce_range), "range is not enforced after reading")
        p = obj(c["o"])
        e = judge(t, g, back, p, pos, "grid from file")
        t.same(e, corr.estimate_epsilon(p), "epsilon of the grid from a file")
        # another grid in the same file
        g2 = table([(x * 0.6, y * 0.7, z * 0.8), (x * 1.02, y * 1.03, z * 0.99), (x * 1.7, y * 1.7, z * 1.2), (x / 3, y * 0.8, z * 1.1), (x, y, z * 1.5)], k=3)
        os.remove(path)
        t.call(t.call(PetrosianCorrection, g2).write, path, file_format=c["fmt"])
        again = t.call(PetrosianCorrection.read, path, file_format=c["fmt"])
        for n in NAMES:
            t.same(np.array(again.grid[n], float), np.array(g2[n], float), "column of another grid in the same file: " + n)
            t.same(np.array(back.grid[n], float), np.array(g[n], float), "column of the first grid afterwards: " + n)
        t.outcome(c, e)
    finally:
        shutil.rmtree(d)


def run_hist(hist, t):
    posn = {o: position(o) for o in (0, 1)}
    x, y, z = posn[0]
    g = table([(x * 0.7, y * 0.7, z * 0.8), (x * 1.02, y * 1.03, z * 0.99), (x * 2.6, y * 2.7, z * 1.2), (x * 1.9, y * 1.8, z * 1.1)])
    snap = snapshot(g)
    corr = t.call(PetrosianCorrection, g)
    p, q = obj(0), obj(1)
    for op in hist + ["eps", "other"]:
        if op == "eps":
            judge(t, g, corr, p, posn[0], "after {}".format(hist))
        elif op == "n":
            t.call(corr.estimate_n, p)
        elif op == "correct":
            c = t.call(corr.correct, p)
            t.call(lambda: (c.r_total_flux, c.c2080))
        elif op == "range":
            corr.enforce_range = not corr.enforce_range
        elif op == "other":
            judge(t, g, corr, q, posn[1], "other object after {}".format(hist))
        elif op == "reads":
            t.call(lambda: (corr.grid_keys, corr.unique_grid_values("n"), corr.filter_grid("n", 1.0), p.r_petrosian))
    unchanged(t, g, snap, "grid after {}".format(hist))
    t.same([p.epsilon, q.epsilon], [2.0, 2.0], "epsilon after {}".format(hist))
    t.state(hist)
