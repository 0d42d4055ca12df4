"""Unit conversions."""
import numpy as np

from astropy import units as u
from astropy.wcs import WCS

from mc import core
from petrofit import (angular_to_pixel, circle_area_to_r, ellip_to_elong, elliptical_area_to_r, elong_to_ellip, hst_flux_to_abmag, pixel_to_angular)

ID = "C23"
ASSUMPTIONS = ["sky images with square pixels (others are refused), tangent projection"]
TYPES = ["float", "int", "f8", "f4", "i8", "array", "intarray", "matrix", "empty", "readonly", "u1", "i2", "u2s"]


def bounds(tier):
    return "{} axis ratios x 61 sizes x 13 types of numbers; 160 world coordinate systems x sizes x 4 units; {} headers x fluxes x types".format(len(ratios(tier)), 48)


def ratios(tier):
    k = 101 if tier == "quick" else 1001
    return [i / (k - 1) * 0.99 for i in range(k)] + [0.999, 0.9999]


def cases(tier):
    out = [("axis", r) for r in ratios(tier)]
    out += [("area", a, e) for a in [1e-6, 0.3, 1.0, np.pi, 7.5, 100.0, 12345.6, 3e8] for e in [1.0, 1.01, 1.5, 2.0, 3.7, 10.0, 250.0]]
    out += [("wcs", c) for c in core.product(scale=[0.05 / 3600, 0.2 / 3600, 1 / 3600, 1 / 60.0, 0.5], rot=[0.0, 30.0, 90.0, 200.0], flip=[-1, 1], form=["cd", "pc", "cdelt", "arcsec"])]
    out += [("mag", c) for c in core.product(flam=[1e-19, 1.5e-19, 3e-17, 1.0], zpt=[-21.1, 0.0, 25.0], plam=[1.0, 4318.0, 8057.3, 15369.0])]
    return out


def as_type(vals, kind):
    if kind == "float":
        return [float(v) for v in vals]
    if kind == "int":
        return [int(v) for v in vals]
    if kind in ("f8", "f4", "i8"):
        return [np.dtype(kind).type(v) for v in vals]
    if kind == "array":
        return [np.array(vals, float)]
    if kind == "intarray":
        return [np.array(vals).astype(int)]
    if kind == "matrix":
        return [np.array([vals, vals[::-1]], float)]
    if kind in ("u1", "i2", "u2s"):
        top = {"u1": 255, "i2": 32767, "u2s": 65535}[kind]
        v = [int(v) for v in vals if 0 <= v <= top]
        return [np.array(v, kind[:2])] if kind != "u2s" else [np.uint16(x) for x in v]
    if kind == "empty":
        return [np.zeros((0, 3))]
    a = np.array(vals, float)
    a.flags.writeable = False
    return [a]


def each(t, fn, want, vals, what, kinds=TYPES, args=(), skip=lambda k, v: False):
    """fn(v) is want(v) for every type of number, and v stays what it is."""
    for kind in kinds:
        for v in as_type(vals, kind):
            if skip(kind, v):
                continue
            keep = np.array(v, copy=True)
            got = t.call(fn, v, *args)
            w = want(np.asarray(v, dtype=float))
            if not isinstance(got, tuple):
                got, w = (got,), (w,)
            for k, (g, x) in enumerate(zip(got, w)):
                tol = 1e-5 if kind == "f4" else 1e-11
                t.same(getattr(g, "value", g), x, "{} of {!r} ({})".format(what, v, kind), rtol=tol, atol=tol * 1e-3)
            t.check(np.array_equal(np.asarray(v), keep, equal_nan=True) and np.asarray(v).dtype == keep.dtype, "{}: the input changed to {!r}", what, v)


def run(case, t):
    kind = case[0]
    if kind == "axis":
        e = case[1]
        f = [e, e / 2, min(e * 1.01, 0.9999)]
        each(t, ellip_to_elong, lambda v: 1 / (1 - v), f, "elongation", [k for k in TYPES if k not in ("int", "i8", "intarray", "u1", "i2", "u2s")])
        g = [1 / (1 - x) for x in f]
        each(t, elong_to_ellip, lambda v: 1 - 1 / v, g, "ellipticity")
        t.same(t.call(elong_to_ellip, t.call(ellip_to_elong, e)), e, "ellipticity there and back", rtol=1e-10, atol=1e-12)
        t.same(t.call(ellip_to_elong, t.call(elong_to_ellip, g[0])), g[0], "elongation there and back", rtol=1e-10)
        a, b = 3.0, 3.0 * (1 - e)
        t.same(t.call(ellip_to_elong, e), a / b, "elongation is the ratio of the axes", rtol=1e-10)
        if e == 0:
            t.same(t.call(ellip_to_elong, 0), 1.0, "a circle")
            t.same(t.call(ellip_to_elong, np.array([0, 0])), [1.0, 1.0], "circles")
    elif kind == "area":
        area, e = case[1:]
        each(t, circle_area_to_r, lambda v: np.sqrt(v / np.pi), [area, 2 * area, area / 3], "radius of the area")
        each(t, elliptical_area_to_r, lambda v: (np.sqrt(v * e / np.pi), np.sqrt(v / e / np.pi)), [area, 2 * area, area / 3], "axes of the area", args=(e,))
        each(t, lambda v: elliptical_area_to_r(area, v), lambda v: (np.sqrt(area * v / np.pi), np.sqrt(area / v / np.pi)), [e, 2 * e, e + 1], "axes of the elongation")
        if e == int(e):
            each(t, elliptical_area_to_r, lambda v: (np.sqrt(v * e / np.pi), np.sqrt(v / e / np.pi)), [area, 2 * area, area / 3, 200, 30000], "axes of the area for a whole elongation", args=(int(e),))
        a, b = t.call(elliptical_area_to_r, area, e)
        t.same([np.pi * a * b, a / b], [area, e], "area and elongation of the ellipse", rtol=1e-11)
        t.same(np.pi * t.call(circle_area_to_r, area) ** 2, area, "area of the circle", rtol=1e-11)
        t.same(t.call(elliptical_area_to_r, area, 1), [t.call(circle_area_to_r, area)] * 2, "a circle is an ellipse", rtol=1e-11)
        t.same(t.call(circle_area_to_r, 0.0), 0.0, "no area")
    elif kind == "wcs":
        sky(case[1], t)
    else:
        mag(case[1], t)
    t.state(case)


def make_wcs(c):
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crpix = [10, 12]
    w.wcs.crval = [150.1, 2.2]
    s = c["scale"]
    th = np.radians(c["rot"])
    rot = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    if c["form"] == "cd":
        w.wcs.cd = rot @ np.diag([c["flip"] * s, s])
    elif c["form"] == "pc":
        w.wcs.pc = rot
        w.wcs.cdelt = [c["flip"] * s, s]
    elif c["form"] == "cdelt":
        w.wcs.cdelt = [c["flip"] * s, s]
    else:
        w.wcs.cunit = ["arcsec", "arcsec"]
        w.wcs.crval = [150.1 * 3600, 2.2 * 3600]
        w.wcs.cdelt = [c["flip"] * s * 3600, s * 3600]
        w.wcs.pc = rot
    w.wcs.set()
    return w


def sky(c, t):
    w = make_wcs(c)
    s = c["scale"] * 3600  # arcsec
    head = w.to_header_string()
    for n in (1, 0.5, 37.25, 4096, 0, -2.5):
        for v in (n, float(n), np.float64(n), np.array([n, 2.0 * n]), np.array(n), n * u.pix, np.array([n, 3.0]) * u.pix):
            r = t.call(pixel_to_angular, v, w)
            want = np.asarray(getattr(v, "value", v)) * s
            t.check(hasattr(r, "unit") and r.unit.is_equivalent(u.arcsec), "angular size of {!r} is {!r}", v, r)
            t.same(r.to_value(u.arcsec), want, "{}: angular size of {!r} pixels".format(c, v), rtol=1e-9)
            back = t.call(angular_to_pixel, r, w)
            t.same(back, np.asarray(getattr(v, "value", v)), "{}: {!r} pixels there and back".format(c, v), rtol=1e-9)
        for unit in (u.deg, u.arcmin, u.arcsec, u.mas):
            q = (n * u.arcsec).to(unit)
            t.same(t.call(angular_to_pixel, q, w), n / s, "{}: {} in pixels".format(c, q), rtol=1e-9)
            t.same(t.call(angular_to_pixel, np.array([1.0, 2.0]) * q, w), np.array([1.0, 2.0]) * n / s, "{}: {} in pixels".format(c, q), rtol=1e-9)
            t.same(q.to_value(u.arcsec), n, "angular size after the call", rtol=1e-12)
    # the sky size of a pixel, measured on the sky
    a, b = w.pixel_to_world(9.0, 11.0), w.pixel_to_world(9.0, 12.0)
    t.same(t.call(pixel_to_angular, 1, w).to_value(u.arcsec), a.separation(b).arcsec, "{}: sky distance of two pixels".format(c), rtol=1e-4)
    t.check(w.to_header_string() == head, "{}: the world coordinate system changed", c)
    q = WCS(naxis=2)
    q.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    q.wcs.cdelt = [-c["scale"], c["scale"] * 1.5]
    t.rejects(pixel_to_angular, "pixels that are not square", 3, q)
    t.rejects(angular_to_pixel, "pixels that are not square", 3 * u.arcsec, q)
    t.outcome(s)


def mag(c, t):
    h = {"PHOTFLAM": c["flam"], "PHOTZPT": c["zpt"], "PHOTPLAM": c["plam"]}
    keep = dict(h)
    zero = -2.5 * np.log10(c["flam"]) + c["zpt"] - 5 * np.log10(c["plam"]) + 18.692
    want = lambda v: np.where(v > 0, -2.5 * np.log10(np.where(v > 0, v, 1)), np.nan) + zero
    with np.errstate(all="ignore"):
        for vals in ([1.0, 25.0, 1e4], [3.0, 0.0, -2.0], [-1.0, 0.0, 7.0], [0.0, 0.0, 0.0], [2, 1e12, 1]):
            each(t, lambda v: hst_flux_to_abmag(v, h), want, vals, "{}: magnitude".format(c), skip=lambda k, v: False)
        for vals in ([0.25, 1e-7, np.nan], [-np.inf, 0.5, -1e-9], [np.nan, np.nan, np.nan]):
            each(t, lambda v: hst_flux_to_abmag(v, h), want, vals, "{}: magnitude".format(c), ["float", "f8", "array", "matrix", "readonly"])
        for lst in ([1, 2, 3], [0.5, -1.0], (4.0, 0)):
            keep_l = type(lst)(lst)
            t.same(t.call(hst_flux_to_abmag, lst, h), want(np.array(lst, float)), "{}: magnitudes of a {}".format(c, type(lst).__name__), rtol=1e-11)
            t.check(lst == keep_l, "{}: the list of fluxes changed to {}", c, lst)
        m = t.call(hst_flux_to_abmag, np.array([1.0, 100.0]), h)
        t.same(m[0] - m[1], 5.0, "{}: a hundred times the flux is five magnitudes".format(c), rtol=1e-12)
    t.check(h == keep, "{}: the header changed", c)
    t.outcome(zero)
