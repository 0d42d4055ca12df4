"""
C32: what the plots draw.

Lattice of objects (with and without errors, with quantities that do not exist)
x plot options x where it is drawn (current axis, a given axis that is current,
a given axis while another one is current).  The artists of the drawn figures
are compared with values of the object and with geometry computed here; axes
that were not given have to stay untouched, and so has the object.
"""
import contextlib
import io
import warnings

import numpy as np

from astropy.modeling import models
from astropy.nddata import CCDData, Cutout2D
from astropy.table import Table
from matplotlib import pyplot as plt
from matplotlib.path import Path
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.ticker import NullLocator

import petrofit as pf
from mc import core, menu, petro
from mc.oracles import pattern

ID = "C32"
ASSUMPTIONS = ["colours, fonts, line styles, tick marks (other than on which axis they are set) and texts other than labels that name a value are not part of the property"]
PROFILES = ["ok", "err", "err2", "area", "short", "noeta", "int", "flat", "negative", "falling"]
WHERE = ["current", "given", "other"]


def bounds(tier):
    return "{} executions: profiles x settings x options x axes for the three profile plots, correction grids, fits, images, photometry".format(len(cases(tier)))


def cases(tier):
    q = tier == "quick"
    out = []
    kinds = ["cubic"] if q else ["cubic", "linear", None]
    for c in core.product(plot=["plot", "plot_cog"], name=PROFILES, kind=kinds, eta=[0.2, 0.03] if q else [0.2, 0.5, 0.03], fraction=[0.99, 0.29] if q else [0.99, 0.29, 0.5],
                          plot_r=[True, False], where=WHERE, options=[0, 1] if q else [0, 1, 2]):
        out.append(c)
    for c in core.product(plot=["imshow"], name=PROFILES, kind=kinds, eta=[0.2, 0.03], geometry=range(6), options=[0, 1]):
        out.append(c)
    for c in core.product(plot=["correction"], v=[0, 1, 2], key=["n", "r_eff", "p03"], where=["current", "given"], missing=[None, "radius", "half"], enforce=[True, False]):
        out.append(c)
    for c in core.product(plot=["fit"], shape=[(9, 12), (12, 9), (10, 10)], center=[None, (6, 4)], mode=["center", "oversample"], limits=[(None, None), (-1.0, 4.0), (None, 2.0), (0.5, None)], cbar=[True, False],
                          kind=["array", "ccd", "cutout", "int"]):
        out.append(c)
    for c in core.product(plot=["target"], shape=[(9, 12), (12, 9)], position=[(3, 4), (8.5, 2.5), (-1, 20)], size=[None, 6, 5], limits=[(None, None), (1.0, 4.0)], kind=["array", "ccd", "cutout", "int"], where=["current"]):
        out.append(c)
    for c in core.product(plot=["segments"], v=[0, 1], image=[True, False], limits=[(None, None), (1.0, 30.0)], title=[None, "abc"], alpha=[None, 0.3]):
        out.append(c)
    for c in core.product(plot=["residual"], v=[0, 1], kind=["array", "int"], limits=[(None, None), (1.0, 30.0)]):
        out.append(c)
    for c in core.product(plot=["photometry"], centre=[(7, 8), (12.5, 9.25)], radii=[[2.0], [1.0, 2.5, 4.0], [4.0, 2.0]], elong=[1.0, 1.5], theta=[0.0, 0.6], limits=[(None, None), (0.0, 50.0)]):
        out.append(c)
    for c in core.product(plot=["source"], k=[0, 1, 2], radii=[[1.0, 2.0, 4.0], [3.0, 6.0]], size=[None, 9, 16], bg=[False, True], kind=["array", "ccd"]):
        out.append(c)
    for c in core.product(plot=["ticks"], where=WHERE, minor=[True, False]):
        out.append(c)
    return out


# -- reading figures
def lines(ax):
    return [np.array(li.get_xydata(), float) for li in ax.lines]


def points(ax):
    """All drawn points: ends of lines and scattered markers."""
    out = [p for p in lines(ax) if len(p)]
    out += [np.asarray(np.ma.filled(co.get_offsets().astype(float), np.nan)) for co in ax.collections if isinstance(co, PathCollection)]
    return np.concatenate(out) if out else np.zeros((0, 2))


def segments(ax):
    out = [np.array(s, float) for co in ax.collections if isinstance(co, LineCollection) for s in co.get_segments()]
    out = [s for s in out if s.ndim == 2 and len(s) >= 2]
    return out + [p for p in lines(ax) if len(p) == 2]


def straight(ax, k):
    """Positions of lines across the axis: k=0 vertical, k=1 horizontal."""
    out = []
    for li in ax.lines:
        p = np.array(li.get_xydata(), float)
        if len(p) == 2 and p[0, k] == p[1, k] and p[0, 1 - k] != p[1, 1 - k]:
            tr = ax.get_xaxis_transform() if k == 0 else ax.get_yaxis_transform()
            if li.get_transform() == tr or np.array_equal(p[:, 1 - k], [0, 1]):
                out.append(float(p[0, k]))
    return out


def has(values, x, scale):
    return any(abs(v - x) <= 1e-6 * scale for v in values)


def vertices(ax):
    """Vertices of filled regions."""
    out = [np.array(p.vertices, float) for co in ax.collections if not isinstance(co, (LineCollection, PathCollection)) for p in co.get_paths()]
    return np.concatenate(out) if out else np.zeros((0, 2))


def near(pts, p, scale):
    if len(pts) == 0:
        return False
    return bool((np.abs(pts - np.array(p)) <= 1e-6 * np.array(scale)).all(axis=1).any())


def empty(ax):
    return not (ax.lines or ax.collections or ax.patches or ax.images or ax.get_title() or ax.get_xlabel() or ax.get_ylabel() or ax.get_legend()) and isinstance(ax.xaxis.get_minor_locator(), NullLocator)


def shows(t, img, want, what, limits=(None, None)):
    got = img.get_array()
    got = np.asarray(np.ma.filled(np.ma.asarray(got, float), np.nan))
    want = np.asarray(want, float)
    t.same(got, want, what, rtol=1e-6)
    for g, w in zip(img.get_clim(), limits):
        if w is not None:
            t.same(float(g), w, what + ": limits")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def stage(where):
    """(axis argument, axis to be drawn on, axes that have to stay empty)"""
    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    fig2, ax3 = plt.subplots()
    plt.figure(fig.number)
    if where == "current":
        plt.sca(axs[1])
        return None, axs[1], [axs[0], ax3]
    if where == "given":
        plt.sca(axs[0])
        return axs[0], axs[0], [axs[1], ax3]
    plt.figure(fig2.number)
    return axs[0], axs[0], [axs[1], ax3]


def untouched(t, rest, figures, axes):
    for ax in rest:
        t.check(empty(ax), "an axis that was not given was drawn on")
    t.equal(plt.get_fignums(), figures, "figures")
    t.equal([len(plt.figure(n).axes) for n in figures], axes, "number of axes of the figures")


def run(case, t):
    with quiet():
        try:
            globals()["run_" + case["plot"]](case, t)
            for n in plt.get_fignums():
                plt.figure(n).canvas.draw_idle()
        finally:
            plt.close("all")


def profile(c):
    kw = dict(interp_kind=c["kind"], eta=c["eta"])
    if "fraction" in c:
        kw["total_flux_fraction"] = c["fraction"]
    if c["name"] in ("flat", "negative"):
        r = np.arange(1.0, 13)
        f = {"flat": np.full(12, 5.0), "negative": -np.pi * r**2}[c["name"]]
        return pf.Petrosian(r, np.pi * r**2, f, flux_err=np.full(12, 0.5), **kw)
    r, a, f, fe, ae = petro.profile("err" if c["name"] == "falling" else c["name"])
    if c["name"] == "falling":
        f = -f  # the profile of a source that is darker than the sky
    if c["name"] == "err" and c["eta"] == 0.2 and "fraction" in c and c["fraction"] == 0.29:
        fe = fe.copy()
        fe[3] = np.nan  # an error that is not known
    return pf.Petrosian(r, a, f, flux_err=fe, area_err=ae, **kw)


OPTIONS = [
    {},
    dict(title="my title", radius_unit=None, color="red", err_alpha=None, show_legend=False),
    dict(title="other", radius_unit="kpc", err_alpha=0, err_capsize=5, legend_fontsize=7, ax_fontsize=8, tick_fontsize=6),
]


def draw_profile(c, t, method):
    p = profile(c)
    before = petro.observe(p)
    arg, ax, rest = stage(c["where"])
    figs = plt.get_fignums()
    n = [len(plt.figure(k).axes) for k in figs]
    if arg is not None and c["where"] == "given":
        plt.sca(arg)
    elif c["where"] == "other":
        plt.figure(figs[-1])
    else:
        plt.sca(ax)
    kw = dict(OPTIONS[c["options"]])
    if arg is not None:
        kw["ax"] = arg
    got = t.call(getattr(p, method), plot_r=c["plot_r"], **kw)
    t.check(got is ax, "drew on {} instead of {}", got, ax)
    untouched(t, rest, figs, n)
    petro.compare(t, petro.observe(p), before, "after plotting", rtol=0)
    t.check(not isinstance(ax.xaxis.get_minor_locator(), NullLocator), "no minor ticks on the axis that was drawn on")
    t.equal(ax.get_title(), kw.get("title", {"plot": "Petrosian Profile", "plot_cog": "Curve of Growth"}[method]), "title")
    unit = kw.get("radius_unit", "pix")
    t.check("adius" in ax.get_xlabel() and (not unit or unit in ax.get_xlabel()), "label of the radius axis: {!r}", ax.get_xlabel())
    t.check(bool(ax.get_ylabel()), "no label of the value axis")
    t.check((ax.get_legend() is not None) == kw.get("show_legend", True), "legend")
    t.outcome(c["name"], c["eta"], len(ax.lines), len(ax.collections))
    return p, ax, kw


def data_with_errors(t, ax, r, y, err, kw, what):
    r, y = np.asarray(r, float), np.asarray(y, float)
    ok = any(len(q) == len(r) and np.allclose(q, np.column_stack([r, y]), equal_nan=True) for q in lines(ax))
    t.check(ok, "{} is not drawn", what)
    bars = segments(ax)
    verts = vertices(ax)
    scale = (np.ptp(r), max(np.nanmax(np.abs(y)), 1e-9))
    if err is None:
        t.check(len(verts) == 0 and not any(np.ptp(s[:, 0]) < 1e-9 and s[0, 0] in r and s[0, 1] not in (0, 1) for s in bars), "errors are drawn although there are none")
        return
    err = np.asarray(err, float)
    fill = kw.get("err_alpha", 0.2)
    some = np.isfinite(r) & np.isfinite(y) & np.isfinite(err)
    if some.any():
        t.check((len(verts) > 0) == bool(fill and fill > 0), "error region")
    for a, b, e in zip(r, y, err):
        if np.isfinite([a, b, e]).all():
            lo, hi = (a, b - e), (a, b + e)
            t.check(any(near(s, lo, scale) and near(s, hi, scale) for s in bars), "no error bar at {}", a)
            if fill:
                t.check(near(verts, lo, scale) and near(verts, hi, scale), "the error region misses {} at radius {}", e, a)


def texts(ax):
    leg = ax.get_legend()
    return [x.get_text() for x in leg.get_texts()] if leg else []


def run_plot(c, t):
    p, ax, kw = draw_profile(c, t, "plot")
    data_with_errors(t, ax, p.r_list, p.petrosian_list, p.petrosian_err, kw, "the Petrosian profile")
    ver, hor = straight(ax, 0), straight(ax, 1)
    rp, e = float(p.r_petrosian), float(p.r_petrosian_err)
    span = float(np.ptp(p.r_list))
    if not c["plot_r"]:
        t.check(not ver, "vertical lines although plot_r is off: {}", ver)
        return
    t.check(has(hor, c["eta"], 1.0), "no line at eta")
    if np.isnan(rp):
        t.check(not ver, "vertical lines {} although there is no Petrosian radius", ver)
        return
    t.check(len(ver) == 1 and has(ver, rp, span), "vertical lines {} instead of the Petrosian radius {}", ver, rp)
    t.check(near(points(ax), (rp, c["eta"]), (span, 1.0)), "no marker at the Petrosian radius")
    bars = [s for s in segments(ax) if np.isfinite(s).all() and np.ptp(s[:, 1]) == 0 and abs(s[0, 1] - c["eta"]) < 1e-9 and tuple(s[:, 0]) != (0.0, 1.0)]
    if np.isfinite(e):
        t.check(any(near(s, (rp - e, c["eta"]), (span, 1.0)) and near(s, (rp + e, c["eta"]), (span, 1.0)) for s in bars), "no error bar of the Petrosian radius")
    else:
        t.check(not bars, "an error bar of the Petrosian radius is drawn although it has no error")
    for s in texts(ax):
        if "R_" in s:
            t.check("{:0.4f}".format(rp) in s and repr(c["eta"]) in s, "label {!r} of the Petrosian radius {} at {}", s, rp, c["eta"])


def run_plot_cog(c, t):
    p, ax, kw = draw_profile(c, t, "plot_cog")
    data_with_errors(t, ax, p.r_list, p.flux_list, p.flux_err, kw, "the curve of growth")
    ver, hor = straight(ax, 0), straight(ax, 1)
    span, tall = float(np.ptp(p.r_list)), float(np.abs(p.flux_list).max())
    if not c["plot_r"]:
        t.check(not ver and not hor, "lines although plot_r is off: {} {}", ver, hor)
        return
    want = [(float(x), float(y)) for x, y in ((p.r_half_light, p.half_flux), (p.r_total_flux, p.total_flux))]
    want = [w for w in want if np.isfinite(w).all()]
    t.check(len(ver) == len(want) and len(hor) == len(want), "{} vertical and {} horizontal lines for {} measured radii", len(ver), len(hor), len(want))
    for x, y in want:
        t.check(has(ver, x, span), "no line at the radius {} in {}", x, ver)
        t.check(has(hor, y, tall), "no line at the flux {} in {}", y, hor)
        t.check(near(points(ax), (x, y), (span, tall)), "no marker at {}, {}", x, y)
    if ax.get_legend() is not None:
        names = texts(ax)
        for x, f in ((float(p.r_half_light), "50"), (float(p.r_total_flux), "{:g}".format(100 * c["fraction"]))):
            if np.isfinite(x):
                t.check(any("{:0.4f}".format(x) in s and "L_{" + f + "}" in s for s in names), "no label for the radius {} of {}% in {}", x, f, names)


GEO = [((0, 0), 1.0, 0.0), ((12.5, 7.0), 1.6, 0.0), ((5, 9), 2.0, 0.8), ((-3, 4), 1.2, 2.9), ((4, 6.5), 1.8, 4.1), ((2, 3), 1.4, -7.0)]


def outline(patch):
    """Points on the outline of a patch in data coordinates."""
    path = patch.get_patch_transform().transform_path(patch.get_path())
    # curves are flattened to straight pieces of about one unit: enlarge first
    path = Path(path.vertices * 1e4, path.codes)
    polys = path.to_polygons(closed_only=False)
    return np.concatenate(polys) / 1e4


def check_ellipses(t, patches, want):
    """want: list of (position, r, elong, theta)"""
    t.equal(len(patches), len(want), "number of ellipses")
    left = [outline(q) for q in patches]
    for pos, r, el, th in want:
        best, k = None, None
        for i, q in enumerate(left):
            d = q - np.array(pos)
            u = d[:, 0] * np.cos(th) + d[:, 1] * np.sin(th)
            v = -d[:, 0] * np.sin(th) + d[:, 1] * np.cos(th)
            m = np.hypot(u / r, v / (r / el))
            # every point is on the ellipse, and its four ends are reached
            off = max(np.abs(m - 1).max(), 1 - u.max() / r, 1 + u.min() / r, 1 - v.max() / (r / el), 1 + v.min() / (r / el))
            if best is None or off < best:
                best, k = off, i
        t.check(best is not None and best < 0.02, "no ellipse of radius {} at {} with elongation {} and angle {} ({})", r, pos, el, th, best)
        left.pop(k)


def run_imshow(c, t):
    p = profile(c)
    before = petro.observe(p)
    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    plt.sca(axs[0])
    pos, el, th = GEO[c["geometry"]]
    kw = {} if c["geometry"] == 0 else dict(position=pos, elong=el, theta=th)
    if c["options"]:
        kw.update(color="white", lw=3)
    t.call(p.imshow, **kw)
    t.check(empty(axs[1]), "drew on another axis")
    t.equal(len(plt.get_fignums()), 1, "figures")
    radii = [p.r_half_light, p.r_total_flux, p.fraction_flux_to_r(0.2), p.fraction_flux_to_r(0.8)]
    want = [(pos, float(r), el, th) for r in radii if np.isfinite(r) and r > 0]
    check_ellipses(t, axs[0].patches, want)
    # every ellipse has its own label
    for name, r in zip(("r_half_light", "r_total_flux", "r_20", "r_80"), radii):
        named = [q for q in axs[0].patches if q.get_label() == name]
        t.equal(len(named), int(np.isfinite(r) and r > 0), "ellipses named " + name)
        check_ellipses(t, named, [(pos, float(r), el, th)] * len(named))
    petro.compare(t, petro.observe(p), before, "after plotting", rtol=0)
    t.outcome([w[1] for w in want])


def run_correction(c, t):
    g = menu.grid(c["v"])
    pc = pf.PetrosianCorrection(g, enforce_range=c["enforce"])
    r, a, f = menu.curve(c["v"])
    if c["missing"] == "radius":
        p = pf.Petrosian(r, a, f, eta=0.2)
        p = pf.Petrosian(r[:4], a[:4], f[:4])
    elif c["missing"] == "half":
        p = pf.Petrosian(r[:-3], a[:-3], f[:-3])
    else:
        p = menu.petrosian(c["v"])
    before = petro.observe(p)
    plt.close("all")
    given = None
    if c["where"] == "given":
        fig0, given = plt.subplots(1, 3)
        plt.figure()
        other = plt.gca()
    kw = dict(cmap_key=c["key"])
    if given is not None:
        kw["axs"] = given
    fig, axs = t.call(pc.plot_correction, p, **kw)
    if given is not None:
        t.check(all(x is y for x, y in zip(axs, given)) and fig is fig0, "drew on other axes than the given ones")
        t.check(empty(other), "drew on an axis that was not given")
    cols = [np.asarray(g[k], float) for k in ("p02", "u_r_50", "u_c2080")]
    x = [float(pf.Petrosian(p.r_list, p.area_list, p.flux_list, eta=0.2).r_petrosian), float(p.r_half_light), float(p.c2080)]
    d = sum(((q - v) / np.std(q)) ** 2 for q, v in zip(cols, x))
    k = int(np.argmin(d)) if np.isfinite(x).all() else None
    for ax, (i, j) in zip(axs, ((0, 1), (0, 2), (1, 2))):
        grid = [co for co in ax.collections if isinstance(co, PathCollection) and len(co.get_offsets()) == len(g)]
        t.equal(len(grid), 1, "grid points")
        t.same(np.asarray(grid[0].get_offsets()), np.column_stack([cols[i], cols[j]]), "grid points", rtol=1e-9)
        t.same(np.asarray(grid[0].get_array()), np.asarray(g[c["key"]], float), "colours of the grid points", rtol=1e-9)
        rest = [np.asarray(co.get_offsets(), float) for co in ax.collections if co is not grid[0]] + lines(ax)
        rest = np.concatenate([q for q in rest if len(q)]) if any(len(q) for q in rest) else np.zeros((0, 2))
        rest = rest[np.isfinite(rest).all(axis=1)]
        if k is None:
            t.check(len(rest) == 0, "a target or row is marked although the profile has no measured radii: {}", rest.tolist())
        else:
            t.check(near(rest, (x[i], x[j]), (abs(x[i]), abs(x[j]))), "the target is not marked")
            t.check(near(rest, (cols[i][k], cols[j][k]), (cols[i][k], cols[j][k])), "the nearest row is not marked")
            t.check(any(len(q) == 2 and near(q, (x[i], x[j]), (x[i], x[j])) and near(q, (cols[i][k], cols[j][k]), (cols[i][k], cols[j][k])) for q in lines(ax)), "the target is not connected to its row")
    petro.compare(t, petro.observe(p), before, "after plotting", rtol=0)
    t.outcome(k)


def contain(z, kind):
    if kind == "ccd":
        return CCDData(z, unit="adu")
    if kind == "cutout":
        return Cutout2D(z, ((z.shape[1] - 1) / 2, (z.shape[0] - 1) / 2), z.shape)
    if kind == "int":
        return np.round(z).astype(int)
    return z


def run_fit(c, t):
    z = pattern(c["shape"], 3, 0, 9)
    img = contain(z, c["kind"])
    z = np.asarray(getattr(img, "data", img)) if c["kind"] in ("ccd", "cutout") else np.asarray(img)
    h, w = c["shape"]
    m = models.Sersic2D(4.0, 3.0, 1.0, 5.5, 4.0, 0.2, 0.3)
    plt.close("all")
    vmin, vmax = c["limits"]
    axs, cb, model, res = t.call(pf.plot_fit, m, img, mode=c["mode"], center=c["center"], vmin=vmin, vmax=vmax, cbar=c["cbar"], flux_label="F")
    want = np.asarray(t.call(pf.model_to_image, m, (w, h), mode=c["mode"], center=c["center"]))
    t.same(model, want, "model image")
    t.same(res, z - want, "residual image")
    t.equal(len(axs), 3, "axes")
    shown = [ax.images for ax in axs]
    t.equal([len(s) for s in shown], [1, 1, 1], "images")
    clim = shown[0][0].get_clim()
    for s, q, n in zip(shown, (z, want, z - want), ("data", "model", "residual")):
        shows(t, s[0], q, "shown " + n, (vmin, vmax))
        t.same(s[0].get_clim(), clim, "limits of the shown " + n)
    if vmin is None and vmax is not None:
        t.same(clim, (-vmax, vmax), "limits")
    t.check((cb is not None) == c["cbar"], "colour bar {!r}", cb)
    if cb is not None:
        t.equal(cb.ax.get_xlabel() or cb.ax.get_ylabel(), "F", "label of the colour bar")
    t.outcome(clim)


def run_target(c, t):
    z = pattern(c["shape"], 3, 0, 9)
    img = contain(z, c["kind"])
    plt.close("all")
    vmin, vmax = c["limits"]
    t.call(pf.plot_target, img, c["position"], size=c["size"], vmin=vmin, vmax=vmax)
    ax = plt.gca()
    t.equal(len(ax.images), 1, "images")
    shows(t, ax.images[0], np.round(z) if c["kind"] == "int" else z, "image", c["limits"])
    x, y = c["position"]
    t.check(near(points(ax), (x, y), (1, 1)), "no marker at the target")
    s = c["size"] or max(c["shape"])
    t.same(ax.get_xlim(), (x - s / 2, x + s / 2), "x range")
    t.same(ax.get_ylim(), (y - s / 2, y + s / 2), "y range")
    t.outcome(x, y, s)


def run_segments(c, t):
    seg, z = menu.segm(c["v"]), menu.image(c["v"])
    lab, z0 = seg.data.copy(), z.copy()
    plt.close("all")
    vmin, vmax = c["limits"]
    kw = dict(vmin=vmin, vmax=vmax, title=c["title"])
    if c["alpha"] is not None:
        kw["alpha"] = c["alpha"]
    t.call(pf.plot_segments, seg, z if c["image"] else None, **kw)
    ax = plt.gca()
    t.equal(len(ax.images), 2 if c["image"] else 1, "images")
    if c["image"]:
        shows(t, ax.images[0], z, "image", c["limits"])
    shows(t, ax.images[-1], lab, "segments")
    t.equal(float(ax.images[-1].get_alpha()), 0.5 if c["alpha"] is None else c["alpha"], "transparency")
    t.equal(ax.get_title(), c["title"] or "", "title")
    t.same(seg.data, lab, "segmentation afterwards", rtol=0)
    t.same(z, z0, "image afterwards", rtol=0)
    t.outcome(lab.sum())


def run_residual(c, t):
    seg, z = menu.segm(c["v"]), contain(menu.image(c["v"]), c["kind"])
    z0 = z.copy()
    plt.close("all")
    t.call(pf.plot_segment_residual, seg, z, vmin=c["limits"][0], vmax=c["limits"][1])
    ax = plt.gca()
    t.equal(len(ax.images), 1, "images")
    shows(t, ax.images[0], np.where(seg.data == 0, z0, 0), "image without sources", c["limits"])
    t.same(z, z0, "image afterwards", rtol=0)
    t.outcome(float(z0.sum()))


def run_photometry(c, t):
    z = menu.image(0)
    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    plt.sca(axs[0])
    t.call(pf.radial_photometry, z, c["centre"], c["radii"], elong=c["elong"], theta=c["theta"], plot=True, vmin=c["limits"][0], vmax=c["limits"][1])
    t.check(empty(axs[1]), "drew on another axis")
    t.equal(len(axs[0].images), 1, "images")
    shows(t, axs[0].images[0], z, "image", c["limits"])
    check_ellipses(t, axs[0].patches, [(c["centre"], r, c["elong"], c["theta"]) for r in c["radii"]])
    t.outcome(c["radii"], c["centre"])


def run_source(c, t):
    z, seg, src = menu.image(0), menu.segm(0), menu.row(0, c["k"])
    img = contain(z, c["kind"])
    kw = dict(cutout_size=c["size"], mask_background=c["bg"])
    want = t.call(pf.source_photometry, src, img, seg, c["radii"], **kw)
    plt.close("all")
    got = t.call(pf.source_photometry, src, img, seg, c["radii"], plot=True, **kw)
    for a, b in zip(got, want):
        t.same(a, b, "results with a plot", rtol=0)
    axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
    cog = np.column_stack([c["radii"], want[0]])
    hit = [ax for ax in axes if any(q.shape == cog.shape and np.allclose(q, cog, rtol=1e-9) for q in lines(ax))]
    t.check(len(hit) == 1, "the curve of growth is drawn on {} axes", len(hit))
    ver = straight(hit[0], 0)
    for r in c["radii"]:
        t.check(has(ver, r, 1.0), "no line at radius {} in {}", r, ver)
    ims = [ax for ax in axes if ax.images]
    t.equal(len(ims), 1, "images")
    x, y = pf.get_source_position(src)
    x, y = int(x), int(y)
    size = c["size"] or int(np.ceil(3 * max(c["radii"])))
    size += size % 2
    # the cutout: pixels of this source (and the background) around the maximum
    keep = seg.data == src.label
    if not c["bg"]:
        keep = keep | (seg.data == 0)
    big = np.full((z.shape[0] + 2 * size, z.shape[1] + 2 * size), np.nan)
    big[size:-size, size:-size] = np.where(keep, z, np.nan)
    h = size // 2
    cut = big[size + y - h : size + y + h, size + x - h : size + x + h]
    shows(t, ims[0].images[0], cut, "cutout")
    el, th = float(pf.get_source_elong(src)), float(pf.get_source_theta(src))
    check_ellipses(t, ims[0].patches, [((h, h), r, el, th) for r in c["radii"]])
    for name, s in (("x", cut[h, :]), ("y", cut[:, h])):
        q = np.column_stack([np.arange(size), s])
        hit = [ax for ax in axes if ax not in ims and any(p.shape == q.shape and np.allclose(p, q, equal_nan=True) for p in lines(ax)) and (("along " + name) in ax.get_xlabel().lower())]
        t.check(len(hit) == 1, "the slice along {} is drawn on {} axes", name, len(hit))
        ver = straight(hit[0], 0)
        for v in (h, h + max(c["radii"]), h - max(c["radii"])):
            t.check(has(ver, v, 1.0), "the slice along {} has no line at {}: {}", name, v, ver)
    t.outcome(want[0])


def run_ticks(c, t):
    arg, ax, rest = stage(c["where"])
    figs = plt.get_fignums()
    n = [len(plt.figure(k).axes) for k in figs]
    plt.figure(figs[0] if c["where"] != "other" else figs[-1])
    if c["where"] == "current":
        plt.sca(ax)
    t.call(pf.mpl_tick_frame, minorticks=c["minor"], **({} if arg is None else dict(ax=arg)))
    untouched(t, rest, figs, n)
    t.check(isinstance(ax.xaxis.get_minor_locator(), NullLocator) != c["minor"], "minor ticks")
    for a in (ax.xaxis, ax.yaxis):
        t.equal(a.get_tick_params(which="major").get("direction"), "in", "direction of the ticks")
