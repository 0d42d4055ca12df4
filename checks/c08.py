"""The Petrosian profile formula."""
import itertools
from fractions import Fraction

import numpy as np

from mc import core, petro
from petrofit import Petrosian, calculate_petrosian

ID = "C08"
FL = [-1, 1, 2, 5, 9]


def bounds(tier):
    return "all flux sequences over {} of length 3-{} x all area steps over {{0,1,2,5}} x dtypes x error forms; curves of up to 400 points in five shapes, also with repeated apertures".format(FL, 4 if tier == "quick" else 5)


AREAS3 = [list(a) for a in itertools.product([1, 3], [1, 2, 5], [0, 1, 2, 5])]


def cases(tier):
    out = []
    # length 3 exhaustive
    for a in AREAS3:
        out.append(("len", 3, a))
    for a in itertools.product([2], [1, 3], [0, 1, 4], [0, 2]):
        out.append(("len", 4, list(a)))
    if tier != "quick":
        for a in itertools.product([2], [1, 3], [0, 1, 4], [0, 2], [0, 3]):
            out.append(("len", 5, list(a)))
    out += [("form", c) for c in core.product(
        adt=["i8", "f8", "f4", "i4", "u2", "u1", "list", "ilist", "tuple"], fdt=["i8", "f8", "f4", "list", "ilist", ">f8", "u2", "i2"],
        err=["none", "flux", "area", "both", "zero", "lists", "u1", "i2", "f4"], seq=[0, 1, 2, 3])]
    out += [("bad", k) for k in range(8)]
    # steps in area of very different size, areas of any size
    small = [1e-7, 1e-3, 0.2, 7.0]
    for a in itertools.product(small, repeat=2):
        for a0 in (0.5, 300.0):
            for s in (1.0, 1e-4, 1e6):
                out.append(("thin", [a0 * s, a[0] * s, a[1] * s, 11.0 * s]))
    out += [("long", c) for c in core.product(n=[12, 60, 400], shape=["plain", "bump", "wave", "flat", "noisy"], spacing=["even", "log", "fine", "huge"], repeat=[False, True], err=[False, True])]
    out += [("scale", e) for e in (-300, -30, -8, 8, 30, 200)]
    return out


def oracle(area, flux, ferr=None, aerr=None):
    n = len(area)
    A = [Fraction(x) for x in area]
    F = [Fraction(x) for x in flux]
    eta, err = [None], [None]
    for k in range(1, n):
        dA, dF = A[k] - A[k - 1], F[k] - F[k - 1]
        if dA == 0:
            # the same aperture: the value of its first radius
            eta.append(eta[-1])
            err.append(err[-1])
            continue
        if F[k] == 0:
            eta.append("undef")
            err.append("undef")
            continue
        v = (dF / dA) / (F[k] / A[k])
        eta.append(v)
        if ferr is None and aerr is None:
            err.append(None)
            continue
        fe = [0.0] * n if ferr is None else ferr
        ae = [0.0] * n if aerr is None else aerr
        if dF == 0:
            err.append("undef")
            continue
        rel2 = ((fe[k] ** 2 + fe[k - 1] ** 2) / float(dF) ** 2 + (ae[k] ** 2 + ae[k - 1] ** 2) / float(dA) ** 2
                + (fe[k] / float(F[k])) ** 2 + (ae[k] / float(A[k])) ** 2)
        err.append(abs(float(v)) * rel2**0.5)
    return eta, err


def compare(t, got, want, what, rtol=1e-9):
    t.check(len(got) == len(want), "{}: length", what)
    for k, w in enumerate(want):
        if isinstance(w, str):
            continue
        g = float(got[k])
        if w is None:
            t.check(np.isnan(g), "{}[{}] is {} instead of NaN", what, k, g)
        else:
            w = float(w)
            t.check(abs(g - w) <= rtol * max(abs(w), 1e-30) + 1e-300, "{}[{}] is {} instead of {}", what, k, g, w)


def first_repeat(area):
    return area[1] == area[0]


def run(case, t):
    kind = case[0]
    if kind == "len":
        _, n, steps = case
        area = np.cumsum(steps)
        if first_repeat(area):
            return
        for fl in itertools.product(FL, repeat=n):
            if n == 5 and fl[0] != 1:
                continue
            p, e = t.call(calculate_petrosian, area, np.array(fl, float))
            eta, _ = oracle(area.tolist(), list(fl))
            t.check(e is None, "errors without input errors")
            compare(t, p, eta, "areas {} fluxes {}: petrosian".format(area.tolist(), fl))
            fe = [0.1 * (k + 1) for k in range(n)]
            ae = [0.05 * (n - k) for k in range(n)]
            for a_e, f_e in ((None, fe), (ae, None), (ae, fe)):
                p2, e2 = t.call(calculate_petrosian, area, np.array(fl, float), area_err=None if a_e is None else np.array(a_e),
                                flux_err=None if f_e is None else np.array(f_e))
                eta, err = oracle(area.tolist(), list(fl), f_e, a_e)
                compare(t, p2, eta, "petrosian with errors")
                compare(t, e2, err, "areas {} fluxes {} area errors {} flux errors {}: petrosian error".format(area.tolist(), fl, a_e, f_e))
            t.state(area.tolist(), fl)
        t.outcome(steps)
    elif kind == "form":
        run_form(case[1], t)
    elif kind == "thin":
        area = np.cumsum(np.array(case[1]))
        for dens in itertools.product([3.0, 0.5, -1.0], repeat=3):
            flux = np.cumsum(np.r_[5.0 * area[0], np.array(dens) * np.diff(area)])
            if len(np.unique(flux)) < 4:
                continue
            for fe, ae in ((None, None), (0.01 * abs(flux), 0.003 * area)):
                p, e = t.call(calculate_petrosian, area, flux, flux_err=fe, area_err=ae)
                eta, err = oracle(area.tolist(), flux.tolist(), None if fe is None else fe.tolist(), None if ae is None else ae.tolist())
                # the differences are computed in floating point: exact up to the rounding of fluxes
                compare(t, p, eta, "areas {} fluxes {}: petrosian".format(area.tolist(), flux.tolist()), rtol=1e-9)
                if fe is not None:
                    compare(t, e, err, "petrosian error", rtol=1e-9)
        t.outcome(case)
    elif kind == "long":
        c = case[1]
        r, area, flux = petro.long_curve(c["n"], c["shape"], c["spacing"])
        if c["repeat"]:  # apertures that were measured twice or three times
            k = np.sort(np.r_[np.arange(c["n"]), np.arange(3, c["n"], 4), np.arange(3, c["n"], 8)])
            area, flux = area[k], flux[k]
        fe, ae = (0.3 + 0.01 * abs(flux), 0.001 * area) if c["err"] else (None, None)
        p, e = t.call(calculate_petrosian, area, flux, flux_err=fe, area_err=ae)
        eta, err = oracle(area.tolist(), flux.tolist(), None if fe is None else fe.tolist(), None if ae is None else ae.tolist())
        compare(t, p, eta, "{}: petrosian".format(c), rtol=1e-8)
        if c["err"]:
            compare(t, e, err, "{}: petrosian error".format(c), rtol=1e-8)
        t.outcome(p)
    elif kind == "scale":
        s = 10.0 ** case[1]
        area, flux = [3.0, 12.0, 28.0, 50.0], [10.0, 25.0, 31.0, 33.0]
        p, _ = t.call(calculate_petrosian, np.array(area), np.array(flux) * s)
        eta, _ = oracle(area, flux)
        compare(t, p, eta, "faint or bright fluxes", rtol=1e-8)
        t.outcome(case)
    else:
        k = case[1]
        good = ([1, 4, 9], [1.0, 2.0, 3.0])
        bad = [
            (([1, 4], [1.0, 2.0]), {}), (([1], [1.0]), {}), (([1, 4, 9], [1.0, 2.0]), {}), (([1, 4], [1.0, 2.0, 3.0]), {}),
            (([1, 9, 4], [1.0, 2.0, 3.0]), {}), (([9, 4, 1], [1.0, 2.0, 3.0]), {}),
            (good, dict(flux_err=np.array([0.1, 0.1]))), (good, dict(area_err=np.array([0.1, 0.1, 0.1, 0.1]))),
        ][k]
        t.rejects(calculate_petrosian, "invalid curve {}".format(bad), *bad[0], **bad[1])


def run_form(c, t):
    area = [[3, 12, 28, 50], [3, 12, 12, 28, 50], [1, 2, 3, 4], [7, 20, 41, 41, 41]][c["seq"]]
    flux = [[10, 25, 31, 33], [10, 25, 25, 31, 30], [4, 2, 1, 8], [100, 220, 300, 300, 300]][c["seq"]]

    def form(v, d):
        if d == "list":
            return [float(x) for x in v]
        if d == "ilist":
            return list(v)
        if d == "tuple":
            return tuple(v)
        return np.array(v, dtype=d)

    a, f = form(area, c["adt"]), form(flux, c["fdt"])
    n = len(area)
    if c["err"] in ("u1", "i2", "f4"):
        fe, ae = [21 + 40 * k for k in range(n)], [17 + 10 * k for k in range(n)]
        if c["err"] == "i2":
            fe = [300 * v for v in fe[:1]] + fe[1:]
        return finish(c, area, flux, a, f, fe, ae, np.array(fe, c["err"]), np.array(ae, c["err"]), t)
    fe = [0.5 + 0.1 * k for k in range(n)] if c["err"] in ("flux", "both", "lists") else ([0.0] * n if c["err"] == "zero" else None)
    ae = [0.2 + 0.3 * k for k in range(n)] if c["err"] in ("area", "both", "lists") else ([0.0] * n if c["err"] == "zero" else None)
    wrap = (lambda v: v) if c["err"] == "lists" else (lambda v: None if v is None else np.array(v))
    finish(c, area, flux, a, f, fe, ae, wrap(fe), wrap(ae), t)


def finish(c, area, flux, a, f, fe, ae, fea, aea, t):
    n = len(area)
    keep = [np.array(x) if x is not None else None for x in (a, f, fea, aea)]
    p, e = t.call(calculate_petrosian, a, f, area_err=aea, flux_err=fea)
    eta, err = oracle(area, flux, fe, ae)
    compare(t, p, eta, "petrosian {}".format(c))
    if c["err"] == "none":
        t.check(e is None, "no errors")
    else:
        compare(t, e, err, "petrosian error {}".format(c))
    for k, x in zip(keep, (a, f, fea, aea)):
        if k is not None:
            t.check(np.array_equal(k, np.array(x)), "an input was modified")
    # the object shows the same profile
    o = t.call(Petrosian, np.arange(1, n + 1), a, f, area_err=aea, flux_err=fea)
    compare(t, o.petrosian_list, eta, "profile of the object")
    if c["err"] != "none":
        compare(t, o.petrosian_err, err, "profile errors of the object")
    t.outcome(p)
