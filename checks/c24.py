"""Radius lists, interpolation and the first-crossing search."""
import itertools

import numpy as np

from mc import core
from petrofit import closest_value_index, get_interpolated_values, make_radius_list

ID = "C24"
ASSUMPTIONS = ["interpolated curves have at least as many points as the interpolation order needs", "logarithmic lists have at least 2 radii and a maximum above 1"]
NAN = float("nan")
ALPHA = [0.0, 1.0, 2.0, 3.5, NAN]
TARGETS = [-1.0, 0.0, 0.4, 0.5, 1.0, 1.5, 2.0, 2.7, 3.5, 9.0]


def bounds(tier):
    return "all curves up to length {} over {{0, 1, 2, 3.5, NaN}} x 10 targets x 2 directions; curves of up to 1000 samples; radius lists up to 4097 radii x 11 maxima; interpolation lattice up to 400 points".format(length(tier))


def length(tier):
    return 5 if tier == "quick" else 7


def cases(tier):
    out = [("search", [], 1)]
    for n in range(1, length(tier) + 1):
        pre = min(n, 2)
        out += [("search", list(p), n) for p in itertools.product(range(5), repeat=pre)]
    out += [("radii", m) for m in (0.01, 0.5, 1, 1.0, 2, 3.7, 10, 50, 99.9, 250, 1e5)]
    out += [("long", n, k) for n in (30, 100, 257, 1000) for k in range(6)]
    out += [("interp", dict(kind=k, n=n, num=m)) for k in ("cubic", "linear", "quadratic", None) for n in (60, 150, 400) for m in (50, 1000, "fine", "default")]
    out += [("interp", c) for c in core.product(kind=["cubic", "linear", "quadratic", "slinear", "nearest", "zero", None], n=list(range(4, 13)) if tier == "quick" else list(range(4, 41)), num=[1, 4, 7, 50, 1000, "fine", "default"])]
    return out


def reference(value, a, growing):
    for k, v in enumerate(a):
        if (v >= value) if growing else (v <= value):
            d = [abs(w - value) if w == w else np.inf for w in a[: k + 1]]
            return d.index(min(d))
    return None


def run(case, t):
    kind = case[0]
    if kind == "search":
        search(case[1], case[2], t)
    elif kind == "radii":
        radii(case[1], t)
    elif kind == "long":
        long_search(case[1], case[2], t)
    else:
        interp(case[1], t)
    t.state(case)


def search(pre, n, t):
    if not pre:
        for v in TARGETS:
            for g in (False, True):
                t.check(t.call(closest_value_index, v, np.array([]), g) is None, "empty curve")
        return
    for rest in itertools.product(range(5), repeat=n - len(pre)):
        vals = [ALPHA[i] for i in list(pre) + list(rest)]
        a = np.array(vals)
        keep = a.copy()
        for v in TARGETS:
            for g in (False, True):
                got = t.call(closest_value_index, v, a, growing=g)
                want = reference(v, vals, g)
                t.check((got is None) == (want is None) and (got is None or int(got) == want), "closest to {} in {} (growing={}): {} instead of {}", v, vals, g, got, want)
                if g is False and want is not None:
                    t.check(int(t.call(closest_value_index, v, a)) == want, "closest to {} in {} by default", v, vals)
        t.check(np.array_equal(a, keep, equal_nan=True), "the curve {} changed to {}", keep, a)
        t.outcome(got)
    if n <= 3 and 4 not in pre:
        for rest in itertools.product(range(4), repeat=n - len(pre)):
            vals = [int(2 * ALPHA[i]) for i in list(pre) + list(rest)]
            for v in (1, 3.0, np.float64(4)):
                for dt in ("u1", "i2", "u8"):
                    for g in (False, True):
                        k, w = t.call(closest_value_index, v, np.array(vals, dt), growing=g), reference(v, vals, g)
                        t.check((k is None) == (w is None) and (k is None or int(k) == w), "closest to {} in integers {} of type {} (growing={}): {} instead of {}", v, vals, dt, g, k, w)
                got, want = t.call(closest_value_index, v, np.array(vals)), reference(v, vals, False)
                t.check((got is None) == (want is None) and (got is None or int(got) == want), "closest to {} in integers {}: {} instead of {}", v, vals, got, want)


def long_search(n, k, t):
    """Curves of many samples, crossed early, late, more than once and never."""
    i = np.arange(n)
    a = [1.0 / (1 + i), np.exp(-i / (n / 5.0)) + 0.1 * np.sin(i), np.where(i < n - 2, 1.0, 0.1), i / 4.0, np.cos(i * 6.0 / n) * 3, np.where(i % 9 == 4, NAN, 2 - 2.0 * i / n)][k]
    keep = a.copy()
    vals = a.tolist()
    fin = a[np.isfinite(a)]
    targets = sorted({0.2, 0.5, -5.0, 50.0} | {float(fin[j]) for j in range(0, len(fin), max(1, n // 25))} | {float(fin[j] + fin[j + 1]) / 2.125 for j in range(0, len(fin) - 1, max(1, n // 25))})
    for v in targets:
        for g in (False, True):
            got, want = t.call(closest_value_index, v, a, growing=g), reference(v, vals, g)
            t.check((got is None) == (want is None) and (got is None or int(got) == want), "closest to {} in {} values (shape {}, growing={}): {} instead of {}", v, n, k, g, got, want)
            t.outcome(got)
    t.check(np.array_equal(a, keep, equal_nan=True), "the curve changed")


def radii(m, t):
    for n in [*range(1, 41), 63, 64, 65, 100, 256, 1000, 4097]:
        for m_ in (m, np.float64(m)) if n % 7 else (m,):
            r = t.call(make_radius_list, m_, n)
            t.check(isinstance(r, np.ndarray) and r.dtype.kind == "f", "radius list ({}, {}) is {!r}", m, n, type(r))
            t.same(r, np.arange(1, n + 1) * (m / n), "radius list of {} up to {}".format(n, m), rtol=1e-12)
            t.check((np.diff(r) > 0).all() and r[0] > 0, "radius list ({}, {}) does not grow: {}", m, n, r)
            t.same(r[-1], m, "last radius", rtol=1e-13)
            if n >= 2 and m > 1:
                q = t.call(make_radius_list, m_, n, log=True)
                t.same(q, np.exp(np.linspace(0, np.log(m), n)), "logarithmic radius list of {} up to {}".format(n, m), rtol=1e-11)
                t.check((np.diff(q) > 0).all(), "logarithmic radius list ({}, {}) does not grow: {}", m, n, q)
                t.same(t.call(make_radius_list, m_, n, True), q, "logarithmic radius list by position", rtol=1e-13)
            t.same(t.call(make_radius_list, m_, n, log=False), r, "radius list that is not logarithmic", rtol=1e-13)
        t.same(t.call(make_radius_list, m, np.int64(n)), r, "numpy number of radii", rtol=1e-13)
        if m in (1, 2, 10, 50):
            for dt in (np.uint8, np.int16, np.int64, np.float32):
                t.same(t.call(make_radius_list, dt(m), n), r, "maximum of type {}".format(dt.__name__), rtol=1e-6)
        t.outcome(n, r[0])


def interp(c, t):
    kind, n = c["kind"], c["n"]
    poly = {"cubic": [0.3, -2, 1, 5], "quadratic": [0.7, -3, 2], "linear": [1.5, -2], "slinear": [1.5, -2]}.get(kind, [1.5, 3])
    even = np.arange(n) * 0.5 + 1
    uneven = np.cumsum(1 + 0.3 * np.sin(np.arange(n) * 2.0))
    for name, x in (("even", even), ("uneven", uneven), ("list", list(uneven)), ("readonly", uneven)):
        if name == "readonly":
            x = x.copy()
            x.flags.writeable = False
        xa = np.array(x, float)
        num = c["num"] if c["num"] != "fine" else 3 * (n - 1) + 1
        kw = {} if num == "default" else {"num": num}
        size = max(5000 if num == "default" else num, n)
        for label, y in (("smooth", np.polyval(poly, xa)), ("wild", np.sin(5 * xa) + xa), ("nan", np.where(np.arange(n) == n - 1, NAN, xa))):
            if label == "nan" and kind not in (None, "linear"):
                continue
            ya = y.copy()
            if name == "list":
                y = list(y)
            if kind == "cubic" and n % 2:
                gx, gy = t.call(get_interpolated_values, x, y, **kw)  # cubic is the default
            else:
                gx, gy = t.call(get_interpolated_values, x, y, kind=kind, **kw)
            what = "{} interpolation of {} {} points ({}) to {}".format(kind, n, name, label, num)
            if kind is None:
                t.same(gx, xa, what, rtol=0, atol=0)
                t.same(gy, ya, what, rtol=0, atol=0)
            else:
                t.same(gx, np.linspace(xa[0], xa[-1], size), what + ": abscissae", rtol=1e-10)
                t.check(len(gy) == size, "{}: {} values", what, len(gy))
                if label == "smooth" and kind not in ("nearest", "zero"):
                    t.same(gy, np.polyval(poly, gx), what + ": a polynomial", rtol=1e-6, atol=1e-6)
                if kind in ("linear", "slinear"):
                    t.same(gy, np.interp(gx, xa, ya), what + ": lines between the points", rtol=1e-7, atol=1e-7)
                if kind == "nearest":
                    d = abs(gx[:, None] - xa[None, :])
                    lo = np.sort(d, axis=1)
                    clear = lo[:, 1] - lo[:, 0] > 1e-6
                    t.same(gy[clear], ya[d.argmin(axis=1)][clear], what + ": nearest point")
                t.same([gy[0]], [ya[0]], what + ": first point", rtol=1e-9, atol=1e-9)
                if kind != "zero":
                    t.same([gy[-1]], [ya[-1]], what + ": last point", rtol=1e-9, atol=1e-9)
                if name == "even" and c["num"] == "fine" and kind != "zero":
                    t.same(gy[::3], ya, what + ": through the data", rtol=1e-8, atol=1e-8)
                t.outcome(np.round(np.nansum(gy), 3))
            t.same(np.array(x, float), xa, what + ": input abscissae", rtol=0, atol=0)
            t.same(np.array(y, float), ya, what + ": input values", rtol=0, atol=0)
    if kind == "cubic":
        # order of the points does not matter
        a = t.call(get_interpolated_values, uneven, np.polyval(poly, uneven), num=20)
        b = t.call(get_interpolated_values, uneven[::-1], np.polyval(poly, uneven)[::-1], num=20)
        t.same(a[0], b[0], "abscissae of reversed points", rtol=1e-10)
        t.same(a[1], b[1], "values of reversed points", rtol=1e-7, atol=1e-7)
