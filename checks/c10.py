"""Fraction radii and concentrations."""
import itertools

import numpy as np

from mc import core, petro
from mc.oracles import Crossing, curve, sample_curve
from petrofit import Petrosian, calculate_concentration_index, fraction_to_r

ID = "C10"
INC = [4, 1, 9, 0, -2]
RL = np.array([1.0, 2.0, 3.5, 6.0, 8.0, 12.0])


def bounds(tier):
    return "all curves of 5 (thorough: 6) points with increments {} x Petrosian radii, epsilons, fractions, interpolation; error arrays; curves of up to 400 points".format(INC)


def cases(tier):
    out = []
    for a in itertools.product(INC, repeat=2):
        out.append(("cog", list(a), 2 if tier == "quick" else 3))
    for inc in itertools.product([5, 1], [9, 3], [4, 0], [2, 0.5]):
        for fe in range(5):
            out.append(("err", list(inc), fe))
    out += [("conc", list(i)) for i in itertools.product([5, 1], [9, 3, -1], [4, 0], [2, 0.5])]
    out += [("input", k) for k in range(8)]
    out += [("long", c) for c in core.product(n=[12, 60, 400], shape=["plain", "bump", "wave", "noisy"], spacing=["even", "log", "fine", "huge"])]
    return out


PAR = [
    # r_p, epsilon, epsilon_fraction, fraction
    (3.0, 2.0, 0.99, 0.5), (3.0, 2.0, 0.99, 0.2), (4.0, 2.0, 0.99, 0.99), (2.5, 1.5, 0.5, 0.5), (2.2, 3.0, 0.8, 0.9),
    (0.4, 2.0, 0.99, 0.5), (4.1, 2.0, 0.99, 0.5), (7.9, 2.0, 0.99, 0.2), (4.0, 2.0, 0.99, 0.8), (0.5, 2.0, 0.99, 0.5), (np.nan, 2.0, 0.99, 0.5),
    (2.0, 4.0, 0.99, 0.8), (3.0, 0.5, 0.8, 0.3), (3.0, 2.0, 1.0, 0.5), (2.5, 2.0, 1.25, 0.5), (2.0, 2.0, 1.1, 1.3), (3.0, 1.0, 0.5, 1.2),
]
KINDS = [("cubic", 5000), ("linear", 400), (None, 10), ("cubic", 31), ("quadratic", 100)]


def target(x, y, rp, eps, ef, frac, kind):
    if not (x.min() <= rp * eps <= x.max()):
        return None
    return float(curve(x, y, kind)(rp * eps)) * frac / ef


def near_edge(x, r):
    return any(abs(r - e) <= 1e-9 * max(1, abs(e)) for e in (x.min(), x.max()))


def judge(t, x, y, par, kind, num, got, what):
    rp, eps, ef, frac = par
    tg = target(x, y, rp, eps, ef, frac, kind)
    if tg is None:
        if not near_edge(x, rp * eps):
            t.check(np.isnan(got), "{}: {} although the outer radius {} is not measured", what, got, rp * eps)
        return None
    xs, ys = sample_curve(x, y, kind, num)
    cr = Crossing(xs, ys, tg, growing=True, slack=0 if kind is None else 1, tol=1e-9 * max(abs(y).max(), abs(tg)))
    t.check(cr.accepts(got), "{}: radii {} fluxes {} (r_p, epsilon, recovered, fraction)={} kind {} num {}: got {}, expected {}",
            what, x.tolist(), y.tolist(), par, kind, num, got, cr)
    return cr


def run(case, t):
    kind = case[0]
    if kind == "cog":
        for tl in itertools.product(INC, repeat=case[2]):
            inc = [3] + case[1] + list(tl)
            y = np.cumsum(np.array(inc, float))
            x = RL[: len(y)]
            for kd, num in KINDS:
                for par in PAR if num in (5000, 400, 10) else PAR[:3]:
                    rp, eps, ef, frac = par
                    r, e = t.call(fraction_to_r, frac, x, y, rp, epsilon=eps, epsilon_fraction=ef, interp_kind=kd, interp_num=num)
                    judge(t, x, y, par, kd, num, r, "fraction radius")
                    t.check(np.isnan(e), "uncertainty {} without errors", e)
            r, e = t.call(fraction_to_r, 0.5, x, y, 3.0)
            judge(t, x, y, (3.0, 2.0, 0.99, 0.5), "cubic", 5000, r, "defaults")
            t.state(inc)
            t.outcome(r)
    elif kind == "err":
        run_err(case[1], case[2], t)
    elif kind == "long":
        c = case[1]
        x, _, y = petro.long_curve(c["n"], c["shape"], c["spacing"])
        for kd, num in (("cubic", 5000), ("linear", 5000), (None, 5000), ("cubic", 100), ("linear", 1000)):
            for rp, eps, ef in ((x[-1] * 0.3, 2.0, 0.99), (x[-1] * 0.21, 1.5, 0.5), (x[-1] * 0.2, 4.2, 0.8), (x[-1] * 0.6, 2.0, 0.99)):
                for frac in (0.01, 0.2, 0.5, 0.8, 0.99, 1.0):
                    r, e = t.call(fraction_to_r, frac, x, y, rp, epsilon=eps, epsilon_fraction=ef, interp_kind=kd, interp_num=num)
                    judge(t, x, y, (rp, eps, ef, frac), kd, num, r, "{}: fraction radius".format(c))
        t.outcome(r)
    elif kind == "conc":
        run_conc(case[1], t)
    else:
        run_input(case[1], t)


def run_err(inc, fe, t):
    y = np.cumsum(np.array([3.0] + inc))
    x = RL[: len(y)]
    err = [np.zeros(5), np.full(5, 0.1), np.array([0.1, 0.2, 0.3, 0.4, 0.5]), np.array([1.0, 0.5, 0.1, 0.5, 2.0]), np.full(5, 30.0)][fe]
    for kd, num in (("cubic", 5000), ("linear", 300), (None, 10), ("cubic", 50)):
        for par in PAR[:5]:
            rp, eps, ef, frac = par
            for rpe in (None, 0.0, 0.05, np.nan, 0.4, -0.3, -1.1, 50.0, -50.0):
                r, e = t.call(fraction_to_r, frac, x, y, rp, flux_err=err, r_petrosian_err=rpe, epsilon=eps, epsilon_fraction=ef, interp_kind=kd, interp_num=num)
                cr = judge(t, x, y, par, kd, num, r, "fraction radius with errors")
                if np.isnan(r):
                    t.check(np.isnan(e), "uncertainty of a missing radius")
                    continue
                re = rp * eps
                d = 0.0 if rpe is None or np.isnan(rpe) else rpe
                if near_edge(x, re - d) or near_edge(x, re + d):
                    continue
                if min(re - d, re + d) < x.min() or max(re - d, re + d) > x.max():
                    t.check(np.isnan(e), "uncertainty although the outer radius +- error is not measured")
                    continue
                tg = target(x, y, rp, eps, ef, frac, kd)
                lo = float(curve(x, y - err, kd)(re - d))
                hi = float(curve(x, y + err, kd)(re + d))
                dt = (hi - lo) / 2
                sides = []
                for s in (-1, 1):  # lowered curve & raised target: upper radius
                    xs, ys = sample_curve(x, y + s * err, kd, num)
                    sides.append(Crossing(xs, ys, tg - s * dt, growing=True, slack=0 if kd is None else 1,
                                          tol=1e-9 * max(abs(y).max() + abs(err).max(), 1)))
                step = 0 if kd is None else xs[1] - xs[0]
                cand = [(a - b) / 2 for a in sides[0].values() for b in sides[1].values()]
                ok = any((np.isnan(e) and np.isnan(c)) or abs(e - c) <= step * 1.01 + 1e-9 for c in cand)
                t.check(ok, "uncertainty {} of the fraction radius, expected one of {} (increments {} errors {} r_p {} +- {} kind {})",
                        e, cand[:4], inc, err.tolist(), par, rpe, kd)
                t.outcome(r, e)


def run_conc(inc, t):
    y = np.cumsum(np.array([3.0] + inc))
    x = RL[: len(y)]
    for kd, num in KINDS[:3]:
        for f1, f2 in ((0.2, 0.8), (0.5, 0.9), (0.8, 0.2), (0.3, 0.3), (0.5, 5.0)):
            for rp, eps, ef in ((3.0, 2.0, 0.99), (2.5, 1.5, 0.5), (9.0, 2.0, 0.99), (2.2, 3.0, 0.8)):
                for fe in (None, np.full(len(y), 0.1)):
                    kw = dict(epsilon=eps, epsilon_fraction=ef, interp_kind=kd, interp_num=num, flux_err=fe, r_petrosian_err=0.01 if fe is not None else None)
                    r1, r2, c = t.call(calculate_concentration_index, f1, f2, x, y, rp, **kw)
                    w1 = fraction_to_r(f1, x, y, rp, **kw)[0]
                    w2 = fraction_to_r(f2, x, y, rp, **kw)[0]
                    if np.isnan(w1) or np.isnan(w2):
                        t.check(np.isnan(c) and np.isnan(r1) and np.isnan(r2), "concentration {} of missing radii {} {}", (r1, r2, c), w1, w2)
                    else:
                        t.same([r1, r2, c], [w1, w2, 5 * np.log10(w2 / w1)], "concentration")
                        judge(t, x, y, (rp, eps, ef, f1), kd, num, r1, "first radius")
                        judge(t, x, y, (rp, eps, ef, f2), kd, num, r2, "second radius")
                    t.outcome(c)
    # the object
    area = np.pi * x**2
    for fe in (None, np.full(len(y), 0.1)):
        for eps, ef, kd, num in ((2.0, 0.99, "cubic", 17), (1.2, 0.8, "linear", 5000), (1.2, 0.8, "linear", 23), (1.5, 0.99, None, 10)):
            o = Petrosian(x, area, y, flux_err=fe, epsilon=eps, epsilon_fraction=ef, total_flux_fraction=0.99 if num != 5000 else 0.45, interp_kind=kd, interp_num=num)
            kw = dict(flux_err=fe, r_petrosian_err=o.r_petrosian_err, epsilon=eps, epsilon_fraction=ef, interp_kind=kd, interp_num=num)
            rp = o.r_petrosian
            for f1, f2 in ((0.2, 0.8), (0.5, 0.9), (0.3, 0.7)):
                t.same(t.call(o.concentration_index, f1, f2), calculate_concentration_index(f1, f2, x, y, rp, **kw), "object concentration, kind {} num {}".format(kd, num))
            for f in (0.2, 0.5, 0.8):
                judge(t, x, y, (rp, eps, ef, f), kd, num, t.call(o.fraction_flux_to_r, f), "object fraction radius")
                t.same(t.call(o.fraction_flux_to_r_err, f), fraction_to_r(f, x, y, rp, **kw)[1], "object fraction error")
    for eps, ef in ((2.0, 0.99), (1.2, 0.8)):
        o = Petrosian(x, area, y, epsilon=eps, epsilon_fraction=ef)
        rp = o.r_petrosian
        for f1, f2 in ((0.2, 0.8), (0.5, 0.9), (0.3, 0.7)):
            got = t.call(o.concentration_index, f1, f2)
            want = calculate_concentration_index(f1, f2, x, y, rp, epsilon=eps, epsilon_fraction=ef)
            t.same(got, want, "object concentration")
        t.same(t.call(lambda: o.c2080), calculate_concentration_index(0.2, 0.8, x, y, rp, epsilon=eps, epsilon_fraction=ef)[2], "c2080")
        t.same(t.call(lambda: o.c5090), calculate_concentration_index(0.5, 0.9, x, y, rp, epsilon=eps, epsilon_fraction=ef)[2], "c5090")
        t.same(t.call(o.concentration_index), calculate_concentration_index(0.2, 0.8, x, y, rp, epsilon=eps, epsilon_fraction=ef), "default concentration")
        for f in (0.2, 0.5, 0.8, 0.99):
            judge(t, x, y, (rp, eps, ef, f), "cubic", 5000, t.call(o.fraction_flux_to_r, f), "object fraction radius")
        judge(t, x, y, (rp, eps, ef, 0.5), "cubic", 5000, t.call(o.fraction_flux_to_r), "object default fraction")
        judge(t, x, y, (rp, eps, ef, 0.5), "cubic", 5000, t.call(lambda: o.r_half_light), "half-light radius")
        judge(t, x, y, (rp, eps, ef, 0.5), "cubic", 5000, t.call(lambda: o.r_50), "r_50")
        judge(t, x, y, (rp, eps, ef, 0.99), "cubic", 5000, t.call(lambda: o.r_total_flux), "total flux radius")


def run_input(k, t):
    f = [list, np.array, tuple, lambda v: np.array(v, ">f8"), lambda v: np.array(v, dtype=float), lambda v: np.array(v, "u1"), lambda v: np.array(v, "u2"), lambda v: np.array(v, "i2")][k]
    rl, fl, fe = [1, 3, 5, 8, 12, 20], [10, 60, 110, 150, 170, 176], [1, 1, 2, 2, 3, 3]
    if k > 4:  # errors above the flux, sums above the range of the type
        fe = [20, 1, 2, 90, 3, 100]
    a, b, c = f(rl), f(fl), f(fe)
    if k == 4:
        for v in (a, b, c):
            v.setflags(write=False)
    keep = [np.array(v) for v in (a, b, c)]
    want = fraction_to_r(0.5, np.array(rl, float), np.array(fl, float), 7.0, flux_err=np.array(fe, float), r_petrosian_err=0.3)
    got = t.call(fraction_to_r, 0.5, a, b, 7.0, flux_err=c, r_petrosian_err=0.3)
    t.same(got, want, "containers", rtol=1e-6)
    judge(t, np.array(rl, float), np.array(fl, float), (7.0, 2.0, 0.99, 0.5), "cubic", 5000, got[0], "containers")
    t.call(calculate_concentration_index, 0.2, 0.8, a, b, 7.0, flux_err=c, r_petrosian_err=0.3)
    for u, v in zip(keep, (a, b, c)):
        t.check(np.array_equal(u, np.array(v)), "an input was modified")
    t.outcome(got)
