"""
C31: isophote amplitudes and Gaussian widths of analytic sources.

amplitude: lattice of elliptical sources (profile x centre x ellipticity x
angle x radius x image shape x container); oracle: the profile at the radius.
unmeasurable: every way of asking for an isophote that does not exist returns
NaN with a warning.
gaussian: lattice of Gaussian sources near the image centre (shape x offset x
widths x angle x amplitude x container x missing pixels); oracle: the source.
fwhm: the x and y width of that fit, in this order, with and without plot and
printout; the plotted lines are at centre -/+ half a width.
"""
import contextlib
import io
import warnings

import numpy as np

from astropy.modeling import models
from astropy.nddata import CCDData, Cutout2D
from matplotlib import pyplot as plt

import petrofit as pf
from mc import core

ID = "C31"
ASSUMPTIONS = [
    "isophotes with a minor axis of at least 3.5 pixels inside the image; tolerance 3%",
    "the Gaussian fit starts from a width of one pixel at the image centre: sources lie within 1 pixel of it and have widths of 1.5 to 5 pixels",
]
FW = 2 * np.sqrt(2 * np.log(2))


def bounds(tier):
    return "{} executions: isophotes, unmeasurable isophotes, Gaussian fits, widths".format(len(cases(tier)))


def cases(tier):
    q = tier == "quick"
    out = []
    kinds = ["array", "ccd", "cutout", "int", "masked"]
    for i, c in enumerate(core.product(
        shape=[(61, 71), (72, 60)] if not q else [(58, 71)],
        x0=[30, 33.3, 27.5] if not q else [30, 33.3],
        y0=[29, 26.6] if not q else [26.6],
        ellip=[0.0, 0.2, 0.5], theta=[0.0, 0.4, np.pi / 2, 2.5, -0.6] if q else [0.0, 0.4, 1.0, np.pi / 2, 2.0, 2.5, 3.0, np.pi, -0.6, -2.0],
        profile=["gauss", "exp"], r=[7.5, 9.0, 15.0] if not q else [8.0, 13.0],
    )):
        out.append(dict(mode="amplitude", kind=kinds[i % 5], **c))
    # radii from the centre to the largest ones
    for i, c in enumerate(core.product(shape=[(58, 71)], x0=[30, 33.3], y0=[26.6], ellip=[0.0, 0.2, 0.5] + [0.7] * (not q), theta=[0.4, 2.5, -0.6], profile=["gauss"], r=[0, 1.5, 2, 3.0, 5, 20])):
        out.append(dict(mode="amplitude", kind=kinds[i % 5], **c))
    # sources on a bright or negative sky
    for i, c in enumerate(core.product(shape=[(58, 71)], x0=[33.3], y0=[26.6], ellip=[0.0, 0.3], theta=[0.4, np.pi / 2, 2.5], profile=["exp", "gauss"], r=[5.0, 8.0, 13.0], sky=[-100.0, -20.0, 1000.0])):
        out.append(dict(mode="amplitude", kind=kinds[i % 5], **c))
    base = dict(shape=(58, 71), x0=30, y0=26.6, ellip=0.2, theta=0.4, profile="exp", r=8.0)
    out += [dict(mode="amplitude", kind=k, **base) for k in kinds]
    out += [dict(mode="unmeasurable", way=w, kind=k) for w in WAYS for k in kinds if not (w == "nan" and k == "int")]
    for i, c in enumerate(core.product(
        shape=[(25, 25), (21, 32), (33, 22), (24, 26)] if not q else [(25, 25), (21, 32), (34, 23)],
        dx=[-1.0, 0.0, 0.7] if not q else [-0.8, 0.6], dy=[-0.8, 0.0, 1.0] if not q else [-0.4, 0.9],
        sx=[1.5, 2.0, 3.0, 5.0] if not q else [1.5, 3.5], sy=[1.5, 2.4, 3.6, 5.0] if not q else [2.2, 4.5],
        theta=[0.0, 0.5, 1.5, 2.5] if not q else [0.0, 0.6], amp=[1.0, 500.0],
    )):
        out.append(dict(mode="gauss", kind=("array", "nan", "masked", "f4", "int", "array")[i % 6], **c))
    for c in core.product(shape=[(25, 25), (21, 32), (34, 23)], sx=[1.8, 3.0], sy=[2.4, 4.0], dx=[0.0, 0.7],
                          kind=["array", "nan"], plot=[False, True, None], printout=[False, True]):
        out.append(dict(mode="fwhm", **c))
    return out


def profile(name):
    if name == "gauss":
        return lambda r: 50 * np.exp(-r * r / 2 / 8.0**2)
    return lambda r: 40 * np.exp(-(r - 8) / 6.0)


def radius(shape, x0, y0, ellip, theta):
    yy, xx = np.mgrid[: shape[0], : shape[1]].astype(float)
    u = (xx - x0) * np.cos(theta) + (yy - y0) * np.sin(theta)
    v = -(xx - x0) * np.sin(theta) + (yy - y0) * np.cos(theta)
    return np.hypot(u, v / (1 - ellip))


def contain(z, kind):
    if kind == "ccd":
        return CCDData(z, unit="adu")
    if kind == "cutout":
        return Cutout2D(z, (z.shape[1] // 2, z.shape[0] // 2), z.shape, mode="partial")
    if kind == "int":
        return np.round(z * 1000).astype(int)
    if kind == "masked":
        m = np.zeros(z.shape, bool)
        m[:3, :4] = True
        return np.ma.masked_array(z, m)
    if kind == "f4":
        return z.astype("f4")
    return z


def amplitude(t, *args):
    """(value, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = t.call(pf.get_amplitude_at_r, *args)
    return a, w


WAYS = ["outside", "far radius", "nan radius", "negative radius", "nan", "infinite radius", "flat"]


def run(case, t):
    getattr(__import__(__name__, fromlist=["x"]), "run_" + case["mode"])(case, t)


def run_amplitude(c, t):
    f = profile(c["profile"])
    z = f(radius(c["shape"], c["x0"], c["y0"], c["ellip"], c["theta"])) + c.get("sky", 0.0)
    z0 = z.copy()
    img = contain(z, c["kind"])
    a, _ = amplitude(t, c["r"], img, c["x0"], c["y0"], c["ellip"], c["theta"])
    scale = 1000 if c["kind"] == "int" else 1
    t.check(np.ndim(a) == 0, "not a single amplitude: {!r}", a)
    sky = c.get("sky", 0.0)
    t.same(float(a) - scale * sky, scale * f(c["r"]), "amplitude at r", rtol=0.03)
    t.same(z, z0, "the image afterwards", rtol=0, atol=0)
    t.outcome(float(a))


def run_unmeasurable(c, t):
    z = profile("exp")(radius((41, 51), 25, 20, 0.3, 0.4))
    r, x, y = 8.0, 25, 20
    w = c["way"]
    if w == "outside":
        x, y = 200, 300
    elif w == "far radius":
        r = 300.0
    elif w == "nan radius":
        r = np.nan
    elif w == "negative radius":
        r = -3.0
    elif w == "infinite radius":
        r = np.inf
    elif w == "nan":
        z = z * np.nan
    elif w == "flat":
        z = z * 0
    a, ws = amplitude(t, r, contain(z, c["kind"]), x, y, 0.3, 0.4)
    t.check(np.ndim(a) == 0 and (np.isnan(a) or (w == "flat" and a == 0)), "amplitude of an isophote that does not exist ({}): {!r}", w, a)
    t.check(len(ws) > 0 or not np.isnan(a), "no warning ({})", w)


def gaussian(c, theta):
    h, w = c["shape"]
    yy, xx = np.mgrid[:h, :w].astype(float)
    x0, y0 = w // 2 + c["dx"], h // 2 + c.get("dy", 0.0)
    r = radius(c["shape"], x0, y0, 0, theta)
    u = (xx - x0) * np.cos(theta) + (yy - y0) * np.sin(theta)
    v = -(xx - x0) * np.sin(theta) + (yy - y0) * np.cos(theta)
    return c.get("amp", 30.0) * np.exp(-((u / c["sx"]) ** 2 + (v / c["sy"]) ** 2) / 2), x0, y0


def run_gauss(c, t):
    z, x0, y0 = gaussian(c, c["theta"])
    scale = 1.0
    if c["kind"] == "nan":
        img = z.copy()
        img[5, 7] = img[c["shape"][0] // 2 + 1, c["shape"][1] // 2] = np.nan
    elif c["kind"] == "masked":
        img = contain(z, "array").copy()
        img[1, 2], img[-2, 3] = 1e4, -1e4
        m = np.zeros(z.shape, bool)
        m[1, 2] = m[-2, 3] = True
        img = np.ma.masked_array(img, m)
    else:
        img = contain(z, c["kind"])
        scale = 1000.0 if c["kind"] == "int" else 1.0
    tol = {"int": 2e-2 if c["amp"] < 2 else 1e-3, "f4": 1e-3}.get(c["kind"], 1e-4)
    before = np.array(np.ma.getdata(img))
    g = t.call(pf.fit_gaussian2d, img)
    t.same(np.ma.getdata(img), before, "the image afterwards", rtol=0, atol=0)
    t.check(isinstance(g, models.Gaussian2D), "not a Gaussian2D: {!r}", g)
    t.same(float(g.x_mean.value), x0, "x_mean", rtol=0, atol=tol)
    t.same(float(g.y_mean.value), y0, "y_mean", rtol=0, atol=tol)
    t.same(float(g.amplitude.value), scale * c["amp"], "amplitude", rtol=tol)
    sx, sy = abs(float(g.x_stddev.value)), abs(float(g.y_stddev.value))
    # the covariance of the fitted source does not depend on which axis comes first
    def cov(a, b, th):
        r = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        return r @ np.diag([a * a, b * b]) @ r.T

    t.same(cov(sx, sy, float(g.theta.value)), cov(c["sx"], c["sy"], c["theta"]), "widths and angle", rtol=0, atol=40 * tol)
    t.outcome(sx, sy)


def run_fwhm(c, t):
    z, x0, y0 = gaussian(c, 0.0)
    if c["kind"] == "nan":
        z[3, 4] = np.nan
    kw = dict(printout=c["printout"])
    if c["plot"] is not None:
        kw["plot"] = c["plot"]
    g = t.call(pf.fit_gaussian2d, z)
    z0 = z.copy()
    plt.close("all")
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        w = t.call(pf.measure_fwhm, z, **kw)
    want = np.array([float(g.x_stddev.value), float(g.y_stddev.value)]) * FW
    t.same(w, want, "FWHM in x and y against the fit", rtol=1e-6)
    if abs(float(g.theta.value)) < 1e-3:
        t.same(w, np.array([c["sx"], c["sy"]]) * FW, "FWHM in x and y against the source", rtol=1e-3)
    t.same(z, z0, "the image afterwards", rtol=0, atol=0)
    t.check(bool(out.getvalue()) == c["printout"], "printed {!r}", out.getvalue()[:50])
    figs = plt.get_fignums()
    if c["plot"] is False:
        t.check(not figs, "plotted although plot is off")
    else:
        t.check(len(figs) == 1, "{} figures", len(figs))
        got = [np.array(li.get_xydata(), float) for li in plt.figure(figs[0]).axes[0].lines]
        ver = sorted(p[0, 0] for p in got if len(p) == 2 and p[0, 0] == p[1, 0])
        hor = sorted(p[0, 1] for p in got if len(p) == 2 and p[0, 1] == p[1, 1])
        t.same(ver, [float(g.x_mean.value) - want[0] / 2, float(g.x_mean.value) + want[0] / 2], "vertical lines", rtol=1e-6)
        t.same(hor, [float(g.y_mean.value) - want[1] / 2, float(g.y_mean.value) + want[1] / 2], "horizontal lines", rtol=1e-6)
    plt.close("all")
    t.outcome(w)
