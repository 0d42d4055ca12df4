"""The Petrosian radius."""
import itertools

import numpy as np

from mc import core, petro
from mc.oracles import Crossing, sample_curve
from petrofit import Petrosian, calculate_petrosian, calculate_petrosian_r

ID = "C09"
V = [0.9, 0.5, 0.3, 0.21, 0.2, 0.1, -0.2]


def bounds(tier):
    return "all profiles over {} of 4 to {} points x eta x interpolation kind and resolution; error arrays over a lattice; profiles of up to 400 points in five shapes and four spacings".format(V, 5 if tier == "quick" else 6)


KINDS = [("cubic", 5000), ("cubic", 40), ("linear", 5000), ("linear", 23), (None, 5000), ("quadratic", 300), ("slinear", 300), ("nearest", 300), ("previous", 300), ("cubic", 3)]


def cases(tier):
    out = []
    for a in itertools.product(V, repeat=2):
        out.append(("prof", list(a), 2))
        out.append(("prof", list(a), 3 if tier != "quick" else 2.5))
        out.append(("short", list(a)))
    for p in itertools.product([0.9, 0.6, 0.3], [0.5, 0.22], [0.3, 0.15, 0.2], [0.18, 0.05, 0.3]):
        out.append(("err", list(p)))
    out += [("input", k) for k in range(6)]
    out += [("long", c) for c in core.product(n=[12, 60, 400], shape=["plain", "bump", "wave", "flat", "noisy"], spacing=["even", "log", "fine", "huge"], err=[False, True])]
    return out


def judge(t, r_list, prof, eta, kind, num, got, what):
    x = np.array(r_list, float)
    y = np.array(prof, float)
    x[0], y[0] = 0, 1
    xs, ys = sample_curve(x, y, kind, num)
    cr = Crossing(xs, ys, eta, slack=0 if kind is None else 1)
    t.check(cr.accepts(got), "{}: radii {} profile {} eta {} kind {} num {}: got {}, expected {}", what, list(r_list), list(prof), eta, kind, num, got, cr)
    return cr


def run(case, t):
    kind = case[0]
    if kind == "prof":
        tail = itertools.product(V, repeat=int(case[2])) if case[2] != 2.5 else itertools.product(V[::2], repeat=3)
        for tl in tail:
            prof = [np.nan] + case[1] + list(tl)
            r_list = np.array([1.0, 2.0, 3.5, 5.0, 8.0, 9.0, 12.0][: len(prof)])
            for kd, num in KINDS if len(prof) == 5 else KINDS[:5]:
                for eta in (0.2, 0.5, 0.35, 1.0) if num != 5000 or kd is None else (0.2,):
                    r, e = t.call(calculate_petrosian_r, r_list, np.array(prof), eta=eta, interp_kind=kd, interp_num=num)
                    judge(t, r_list, prof, eta, kd, num, r, "Petrosian radius")
                    t.check(np.isnan(e), "error {} without profile errors", e)
            t.outcome(r)
            t.state(prof)
    elif kind == "short":
        prof = [np.nan] + case[1]
        for kd, num in (("linear", 100), (None, 100), ("quadratic", 200)):
            for eta in (0.2, 0.5):
                r, e = t.call(calculate_petrosian_r, np.array([2, 4, 7]), np.array(prof), eta=eta, interp_kind=kd, interp_num=num)
                judge(t, [2, 4, 7], prof, eta, kd, num, r, "three points")
        t.outcome(r)
    elif kind == "long":
        run_long(case[1], t)
    elif kind == "err":
        run_err(case[1], t)
    else:
        run_input(case[1], t)


def run_long(c, t):
    """Profiles with many points (also more than the samples that are asked for)."""
    r_list, area, flux = petro.long_curve(c["n"], c["shape"], c["spacing"])
    prof, perr = calculate_petrosian(area, flux, flux_err=0.5 + 0.004 * abs(flux) if c["err"] else None)
    y = prof.copy()
    y[0] = 1
    x = r_list.copy()
    x[0] = 0
    for kd, num in (("cubic", 5000), ("linear", 5000), (None, 5000), ("cubic", 100), ("linear", 1000)):
        for eta in (0.2, 0.1, 0.5, 0.7, 0.01):
            r, e = t.call(calculate_petrosian_r, r_list, prof, petrosian_err=perr, eta=eta, interp_kind=kd, interp_num=num)
            judge(t, r_list, prof, eta, kd, num, r, "{}: Petrosian radius".format(c))
            if not c["err"] or np.isnan(r):
                t.check(np.isnan(e), "uncertainty {} that does not exist", e)
                continue
            d = perr.copy()
            d[0] = 0
            if not np.isfinite(d).all():
                continue
            sides = []
            for s in (1, -1):
                xs, ys = sample_curve(x, y + s * d, kd, num)
                sides.append(Crossing(xs, ys, eta, slack=0 if kd is None else 1))
            step = 0 if kd is None else abs(xs[1] - xs[0])
            cand = [(a - b) / 2 for a in sides[0].values() for b in sides[1].values()]
            t.check(any((np.isnan(e) and np.isnan(q)) or abs(e - q) <= step * 1.01 + 1e-9 for q in cand), "{}: uncertainty {} of the Petrosian radius, expected one of {}", c, e, cand[:4])
    t.outcome(r, e)


def run_err(p, t):
    prof = np.array([np.nan] + p)
    r_list = np.array([2.0, 4.0, 6.0, 9.0, 13.0])
    x = r_list.copy()
    x[0] = 0
    y = prof.copy()
    y[0] = 1
    for err in ([np.nan, 0.01, 0.02, 0.02, 0.03], [np.nan, 0, 0, 0, 0], [0.5, 0.1, 0.1, 0.1, 0.1], [9, 0.05, 0.3, 0.0, 0.2], [np.nan, 0.2, 0.05, 0.4, 0.4]):
        err = np.array(err, float)
        e0 = err.copy()
        e0[0] = 0
        for kd, num in (("cubic", 5000), ("linear", 500), (None, 10), ("cubic", 60)):
            for eta in (0.2, 0.4):
                r, e = t.call(calculate_petrosian_r, r_list, prof, petrosian_err=err, eta=eta, interp_kind=kd, interp_num=num)
                judge(t, r_list, prof, eta, kd, num, r, "Petrosian radius")
                sides = []
                for s in (1, -1):
                    xs, ys = sample_curve(x, y + s * e0, kd, num)
                    sides.append(Crossing(xs, ys, eta, slack=0 if kd is None else 1))
                step = 0 if kd is None else abs(xs[1] - xs[0])
                cand = [(a - b) / 2 for a in sides[0].values() for b in sides[1].values()]
                if np.isnan(r):
                    cand = [np.nan]
                ok = any((np.isnan(e) and np.isnan(c)) or abs(e - c) <= step * 1.01 + 1e-9 for c in cand)
                t.check(ok, "uncertainty {} of the Petrosian radius, expected one of {} (profile {} errors {} eta {} kind {})", e, cand[:4], p, err.tolist(), eta, kd)
                t.outcome(r, e)


def run_input(k, t):
    """Containers and integer radii; inputs stay as they are; object agrees."""
    prof = [np.nan, 0.8, 0.5, 0.3, 0.15, 0.05]
    err = [np.nan, 0.01, 0.02, 0.02, 0.01, 0.01]
    rl = [1, 3, 5, 8, 12, 20]
    f = [list, np.array, lambda v: np.array(v, "f4"), tuple, lambda v: np.array(v, ">f8"), lambda v: np.array(v, "f8")][k]
    a, b, c = f(rl), f(prof), f(err)
    if k == 5:
        for v in (a, b, c):
            v.setflags(write=False)
    keep = [np.array(v) for v in (a, b, c)]
    r, e = t.call(calculate_petrosian_r, a, b, petrosian_err=c)
    judge(t, rl, prof, 0.2, "cubic", 5000, r, "defaults") if k != 2 else None
    r2, e2 = t.call(calculate_petrosian_r, np.array(rl, float), np.array(prof), petrosian_err=np.array(err), eta=0.2, interp_kind="cubic", interp_num=5000)
    t.same([r, e], [r2, e2], "containers", rtol=1e-3, atol=0.01)
    for u, v in zip(keep, (a, b, c)):
        t.check(np.array_equal(u, np.array(v), equal_nan=True), "an input was modified")
    # object: radius and error come from the profile of the object
    area = np.pi * np.array(rl, float) ** 2
    flux = np.array([10, 60, 110, 150, 170, 176.0])
    for kd, num in (("cubic", 5000), ("linear", 100), (None, 50)):
        for eta in (0.2, 0.3):
            o = Petrosian(a, area, flux, eta=eta, interp_kind=kd, interp_num=num, flux_err=flux * 0 + 0.5)
            rr = t.call(lambda: o.r_petrosian)
            judge(t, rl, o.petrosian_list, eta, kd, num, rr, "radius of the object")
            want = calculate_petrosian_r(np.array(rl, float), o.petrosian_list, petrosian_err=o.petrosian_err, eta=eta, interp_kind=kd, interp_num=num)
            t.same([rr, o.r_petrosian_err], want, "object and function", rtol=1e-4)
    t.outcome(r, e)
