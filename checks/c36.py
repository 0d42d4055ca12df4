"""Input that cannot be used is refused; input that can is not."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from astropy import units as u
from astropy.modeling import fitting, models
from astropy.table import Table
from astropy.wcs import WCS
from photutils.segmentation import SegmentationImage, SourceCatalog

import petrofit as pf
from mc import menu
from mc.oracles import pattern
from petrofit.petrosian import core as pc

ID = "C36"
ASSUMPTIONS = [
    "a refusal is any exception; which one is not specified",
    "the documented forms of each argument, listed in this check; forms of which the documentation says nothing are not in the space",
]
KINDS = {}


def kind(fn):
    KINDS[fn.__name__[4:]] = fn
    return fn


def judge(t, ok, fn, args, what, kwargs={}):
    """fn accepts its arguments exactly when ok, and a refusal leaves them as they are."""
    before = [menu.flatten(a) for a in args if not callable(a)]
    r, err = t.attempt(fn, *args, **kwargs)
    if ok:
        t.check(err is None, "{}: refused: {}", what, repr(err).replace("{", "(").replace("}", ")"))
    else:
        t.check(err is not None, "{}: accepted, returned {}", what, repr(r)[:200].replace("{", "(").replace("}", ")"))
    for a, b in zip([a for a in args if not callable(a)], before):
        t.check(not menu.differ(menu.flatten(a), b), "{}: an argument was modified", what)
    return r


def lengths(n):
    return [n - 1, n, n + 1]


def shape_cases(tier):
    n = (3, 4) if tier == "quick" else (3, 4, 7)
    return [("shapes", k, m, e) for k in n for m in lengths(k) for e in itertools.product((None,) + tuple(lengths(k)), repeat=2)]


@kind
def run_shapes(t, n, m, errs):
    """Lists of n radii, m areas or fluxes, and errors of other lengths."""
    def arr(k, a, b):
        return None if k is None else np.linspace(a, b, k)

    for ka, kf in itertools.product({n, m}, repeat=2):
        ea, ef = errs
        ok = ka == kf and n == ka and all(e in (None, n) for e in errs) and n > 2
        area, flux = arr(ka, 3.0, 300.0), arr(kf, 10.0, 40.0) ** 0.5
        for form in (lambda v: v, lambda v: None if v is None else list(v)):
            judge(t, ok, pf.Petrosian, [form(v) for v in (arr(n, 1, 10), area, flux)], "radii {}, areas {}, fluxes {}, errors {}".format(n, ka, kf, errs), dict(area_err=form(arr(ea, 1, 2)), flux_err=form(arr(ef, 1, 2))))
            ok2 = ka == kf and ka > 2 and all(e in (None, ka) for e in errs)
            judge(t, ok2, pc.calculate_petrosian, [form(area), form(flux)], "areas {}, fluxes {}, errors {}".format(ka, kf, errs), dict(area_err=form(arr(ea, 1, 2)), flux_err=form(arr(ef, 1, 2))))


def few_cases(tier):
    return [("few", n, d) for n in (0, 1, 2, 3, 4) for d in (1, 2)]


@kind
def run_few(t, n, dims):
    """At least three points, in one dimension."""
    r, a, f = np.arange(1.0, n + 1), np.pi * np.arange(1.0, n + 1) ** 2, np.sqrt(np.arange(1.0, n + 1))
    if dims == 2:
        r, a, f = [np.array([v, v, v, v]) for v in (r, a, f)]
    judge(t, n > 2 and dims == 1, pf.Petrosian, [r, a, f], "{} points in {} dimensions".format(n, dims))


def order_cases(tier):
    n = 5 if tier == "quick" else 6
    vals = [2.0, 5.0, 5.0, 11.0, 20.0, 21.0][:n]
    return [("order", list(p)) for p in sorted(set(itertools.permutations(vals)))]


@kind
def run_order(t, area):
    """Areas never decrease."""
    ok = all(a <= b for a, b in zip(area, area[1:]))
    n = len(area)
    f = np.linspace(3, 9, n)
    for form in (np.array, list):
        judge(t, ok, pf.Petrosian, [form(np.arange(1, n + 1)), form(area), form(f)], "areas {}".format(area))
        judge(t, ok, pc.calculate_petrosian, [form(area), form(f)], "areas {}".format(area))
    p = np.array(area)
    judge(t, ok, pf.Petrosian, [np.arange(1, n + 1), p.astype(int), f], "integer areas {}".format(area))
    judge(t, ok, pf.Petrosian, [np.arange(1, n + 1), p.astype("u1"), f], "small unsigned areas {}".format(area))


def weight_cases(tier):
    shapes = [(5, 5), (5, 6), (6, 5), (30,), (1, 30), (5, 6, 1), (5, 7), (6, 6), (6, 7), (7, 5), (9, 9), (1, 6), (5, 1), (5,), (6,), (1, 5, 6)]
    return [("weight", a, w) for a in [(5, 6), (6, 5), (5, 5)] for w in shapes]


@kind
def run_weight(t, shape, wshape):
    """Weights have the shape of the image."""
    z = 3 + 0.1 * pattern(shape, 3, 0, 1)
    w = np.full(wshape, 0.5)
    ok = tuple(shape) == tuple(wshape)
    for f, m in ((fitting.LinearLSQFitter, models.Planar2D()), (fitting.TRFLSQFitter, models.Planar2D()), (fitting.LevMarLSQFitter, models.Const2D(1.0))):
        for masked in (False, True):
            im = z.copy()
            if masked:
                im[1, 2] = np.nan
            judge(t, ok, pf.fit_model, [im, m], "weights {} for an image {}".format(wshape, shape), dict(weights=w, fitter=f))


def badweight_cases(tier):
    return [("badweight", v, a, n) for v in (np.nan, np.inf, -np.inf) for a in ((2, 3), (0, 0), (1, 2)) for n in (False, True)]


@kind
def run_badweight(t, value, at, masked):
    """Weights of valid pixels are finite; those of others do not matter."""
    z = 3 + 0.1 * pattern((5, 6), 3, 0, 1)
    w = np.full((5, 6), 0.5)
    w[at] = value
    for f, m in ((fitting.LinearLSQFitter, models.Planar2D()), (fitting.TRFLSQFitter, models.Planar2D()), (fitting.LevMarLSQFitter, models.Const2D(1.0))):
        im = z.copy()
        if masked:
            im[1, 2] = np.nan
        judge(t, masked and at == (1, 2), pf.fit_model, [im, m], "weight {} at {}".format(value, at), dict(weights=w, fitter=f))


SIZES = [(9, 1), (np.int64(9), 1), (np.uint8(9), 1), (9.0, 1), (np.float32(9), 1), ((9, 7), 1), ([9, 7], 1), (np.array([9, 7]), 1), (np.array([9.0, 7.0]), 1), ((9.0, 7), 1),
         (9.5, 0), (np.float64(8.25), 0), ((9, 7.5), 0), ((9.5, 7), 0), ([9.25, 7.25], 0), (np.array([9, 7.5]), 0), ((9,), 0), ((9, 7, 5), 0), ([], 0), (np.array([9, 7, 2]), 0), ("9", 0), (None, 0), ({9: 7}, 0), (1e-3, 0)]
CENTERS = [(None, 1), ((4, 3), 1), ([4, 3], 1), (np.array([4, 3]), 1), ((-5, 12), 1), ((4.5, 3), 1), (4, 0), ((4,), 0), ((4, 3, 2), 0), ("43", 0), (np.array([4, 3, 1]), 0), (4.0, 0), ({4: 3, 3: 4}, 0), ([], 0)]


def size_cases(tier):
    return [("size", i, j) for i in range(len(SIZES)) for j in range(len(CENTERS))]


@kind
def run_size(t, i, j):
    """Whole numbers of pixels, one or two of them; centres of two numbers."""
    (size, ok1), (center, ok2) = SIZES[i], CENTERS[j]
    m = models.Gaussian2D(2.0, 4.2, 3.3, 2.0, 1.0, 0.3)
    r = judge(t, ok1 and ok2, pf.model_to_image, [m, size], "size {!r}, center {!r}".format(size, center), dict(center=center))
    if ok1 and ok2:
        nx, ny = (9, 7) if np.ndim(size) else (9, 9)
        t.equal(r.shape, (ny, nx), "shape of the image")


def pair_cases(tier):
    v = [4, 8, 9, 4.0, 7.5, 8.5, 2.25, 2.5, 1.6, 0.5]
    return [("pair", a, b) for a in v for b in v]


@kind
def run_pair(t, a, b):
    """Both sizes are whole numbers."""
    ok = not a % 1 and not b % 1
    m = models.Gaussian2D(2.0, 4.2, 3.3, 2.0, 1.0, 0.3)
    for size in ((a, b), [a, b], np.array([a, b])):
        for center in (None, (3, 2)):
            r = judge(t, ok, pf.model_to_image, [m, size], "size {!r}".format(size), dict(center=center))
            if ok:
                t.equal(r.shape, (int(b), int(a)), "shape of the image")


def lab():
    z = np.zeros((12, 14), int)
    z[1:5, 2:6] = 1
    z[6:11, 3:8] = 2
    z[4:9, 9:13] = 5
    return SegmentationImage(z)


def sources():
    s = lab()
    c = SourceCatalog(pattern((12, 14), 3, 1, 2), s)
    return [(1, 1), (0, 1), (np.int64(5), 1), (np.uint8(2), 1), (np.int16(2), 1), (c[0], 1), ([1, 2], 1), ([c[0], 5], 1), ([np.int32(1), c[2]], 1), ([2], 1),
            ("1", 0), (1.0, 0), (None, 0), ((1, 2), 0), ({1}, 0), ({1: 2}, 0), (np.float64(2), 0), (c[0].to_table()[0], 0), (s, 0), (np.array([1, 2]), 0)]


def source_cases(tier):
    return [("source", i, b) for i in range(20) for b in (False, True)]


@kind
def run_source(t, i, bg):
    """Labels, catalog entries and lists of them."""
    s, ok = sources()[i]
    r = judge(t, ok, pf.segm_mask, [s, lab()], "source {}".format(type(s).__name__), dict(mask_background=bg))
    m = judge(t, ok, pf.masked_segm_image, [s, pattern((12, 14), 3, 1, 2), lab()], "source {}".format(type(s).__name__), dict(mask_background=bg))
    if ok:
        want = set(int(getattr(v, "label", v)) for v in (s if isinstance(s, list) else [s])) | (set() if bg else {0})
        t.check(np.array_equal(np.asarray(r, bool), np.isin(lab().data, list(want))), "mask of {}", want)
        t.check(np.array_equal(np.isnan(m), ~np.isin(lab().data, list(want))), "masked image of {}", want)


def nan_cases(tier):
    n = 8 if tier == "quick" else 11
    return [("nan", n, y, x) for y in range(n) for x in range(n)]


@kind
def run_nan(t, n, y, x):
    """One NaN pixel: refused exactly when an unmasked part of it is inside an aperture."""
    z = pattern((n, n), 3, 1, 2)
    z[y, x] = np.nan
    pos = (n / 2 - 0.7, n / 2 - 0.4)
    for r, (elong, th), method in itertools.product((0.9, 2.3, 3.1), ((1.0, 0.0), (1.6, 0.8)), ("exact", "center", "subpixel")):
        ap = pf.radial_elliptical_aperture(pos, r, elong, th)
        touched = ap.to_mask(method=method).to_image((n, n))
        touched = 0 if touched is None else touched[y, x]
        for masked in (None, False, True):
            good = None if masked is None else np.ones((n, n), bool)
            if masked:
                good[y, x] = False
            judge(t, not touched or bool(masked), pf.radial_photometry, [z, pos, [r]], "a NaN pixel at {} ({}, radius {}, masked: {})".format((x, y), method, r, masked), dict(mask=good, elong=elong, theta=th, method=method))
            # whatever the order of the radii
            judge(t, not touched or bool(masked), pf.radial_photometry, [z, pos, [0.2, r]], "a NaN pixel, second radius", dict(mask=good, elong=elong, theta=th, method=method)) if not (masked is not True and pf.radial_elliptical_aperture(pos, 0.2, elong, th).to_mask(method=method).to_image((n, n))[y, x]) else None


def wrap_cases(tier):
    return [("wrap", i) for i in range(10)]


@kind
def run_wrap(t, i):
    """Two-dimensional models, not wrapped already."""
    base = models.Sersic2D(1, 2, 1, 4.2, 3.3)
    m, ok = [(base, 1), (base + models.Gaussian2D(), 1), (pf.GenSersic2D(), 1), (pf.Nuker2D(), 1), (models.Planar2D(), 1),
             (models.Gaussian1D(), 0), (models.Sersic1D(), 0), (models.Gaussian1D() + models.Const1D(), 0), (pf.PSFConvolvedModel2D(base), 0), (pf.sersic_enclosed_model(), 0)][i]
    judge(t, ok, pf.PSFConvolvedModel2D, [m], "model {}".format(m.name or type(m).__name__))


def grid_cases(tier):
    return [("grid", i) for i in range(8)]


@kind
def run_grid(t, i):
    f, ok = [(1, 1), (2, 1), (5, 1), (2.0, 0), (1.5, 0), ("2", 0), (None, 0), ((2, 2), 0)][i]
    judge(t, ok, pf.make_grid, [4], "factor {!r}".format(f), dict(factor=f))


def window_cases(tier):
    return [("window", a, b, f) for a in ("x_0", "y_0", "x", "x_0_0", "amplitud", 4.0) for b in ("y_0", "Y_0", "psf_pa", 3.0) for f in (1, 2, 3)]


@kind
def run_window(t, a, b, f):
    """Names of window centres are parameters of the wrapped model (needed only where the window is sampled)."""
    m = pf.PSFConvolvedModel2D(models.Sersic2D(1, 2, 1, 4.2, 3.3), oversample=(a, b, 5, f))
    ok = all(not isinstance(v, str) or v in ("x_0", "y_0") for v in (a, b))
    yy, xx = np.mgrid[:8, :8]
    if f > 1:
        judge(t, ok, m, [xx, yy], "window at {!r}, {!r}".format(a, b))


def cache_cases(tier):
    return [("cache", list(h)) for n in (1, 2, 3) for h in itertools.product(range(6), repeat=n)]


@kind
def run_cache(t, hist):
    """Histories of assignments of cache_grid."""
    vals = [True, False, None, "yes", [], "False"]
    m = pf.PSFConvolvedModel2D(models.Sersic2D(1, 2, 1, 4.2, 3.3))
    now = True
    yy, xx = np.mgrid[:6, :6]
    want = m(xx, yy)
    for k in hist:
        judge(t, k < 2, setattr, [m, "cache_grid", vals[k]], "cache_grid = {!r}".format(vals[k]))
        now = vals[k] if k < 2 else now
        t.check(m.cache_grid is now, "cache_grid is {!r} instead of {!r} after {}", m.cache_grid, now, hist)
        t.same(m(xx, yy), want, "image after {}".format(hist), rtol=1e-12)
        t.state(now)


BAD_SETTINGS = [("oversample", v) for v in (3, 5, 0, -2, "2", 2.5, (1, 2, 4), (1, 2, 4, 3), [4.2, 3.1, 5, 3], ("x_0", "y_0", 4.0, 2), (1, 2, 4, 0), None)] + [("psf_oversample", v) for v in (3, 8, 0, -1, 1.5, "2")] + [("cache_grid", v) for v in (None, "no", 3)]


def assign_cases(tier):
    out = [("assign", c, [i]) for c in range(5) for i in range(len(BAD_SETTINGS))]
    return out + [("assign", c, [i, j]) for c in range(5) for i in range(len(BAD_SETTINGS)) for j in range(len(BAD_SETTINGS))] if tier != "quick" else out


@kind
def run_assign(t, config, hist):
    """Refused assignments leave a model as it was."""
    over, fine, psf = [(None, None, None), (2, None, menu.PSF), (4, 2, menu.PSF), (("x_0", "y_0", 5, 4), 2, menu.PSF), ((3.2, 4.1, 4, 6), None, None)][config]
    yy, xx = np.mgrid[:9, :9]

    def make():
        return pf.PSFConvolvedModel2D(models.Sersic2D(1, 2, 1, 4.2, 3.3), psf=psf, oversample=over, psf_oversample=fine)

    def see(m):
        return menu.flatten([repr(m.oversample), repr(m.psf_oversample), repr(m.cache_grid), m.psf, m(xx, yy)])

    m = make()
    for i in hist:
        before = see(m)
        r, err = t.attempt(setattr, m, *BAD_SETTINGS[i])
        if err is None:
            return  # which assignments are refused is the subject of C18
        d = menu.differ(see(m), before, rtol=0, atol=0)
        t.check(not d, "refused {} = {!r}: {}", *BAD_SETTINGS[i], d)
        t.state(config, hist)


def wcs_cases(tier):
    return [("wcs", s, q, r) for s in (0.05, 1.0, 30.0) for q in (1.0, 1.001, 1.1, 0.8, 2.0, 30.0) for r in (0, 40)]


@kind
def run_wcs(t, scale, ratio, rot):
    """Square pixels."""
    w = WCS(naxis=2)
    w.wcs.ctype = "RA---TAN", "DEC--TAN"
    c, s = np.cos(np.deg2rad(rot)), np.sin(np.deg2rad(rot))
    w.wcs.cd = np.array([[c, -s], [s, c]]) @ np.diag([-scale / 3600, scale * ratio / 3600])
    if ratio == 1.001:
        if scale == 0.05:  # documented nowhere how square is square
            return
    ok = ratio == 1.0
    judge(t, ok, pf.angular_to_pixel, [3 * u.arcsec, w], "pixels of ratio {}".format(ratio))
    judge(t, ok, pf.pixel_to_angular, [3.0, w], "pixels of ratio {}".format(ratio))


def sigma_cases(tier):
    return [("sigma", s, v) for s in ("clip", "bound", "CLIP", "Bound", "clipped", "", "sigma", "none") for v in (2.0, 5.0)]


@kind
def run_sigma(t, name, v):
    """Ways of rejecting outliers below a background."""
    z = menu.image(0)
    s = menu.segm(0)
    c = SourceCatalog(z, s)
    ok = name.lower() in ("clip", "bound")
    for k in range(len(c)):
        judge(t, ok, lambda *a: pf.source_photometry(c[k], *a, bg_sub=True, sigma_type=name, sigma=v), [z, s, [2.0, 4.0]], "sigma_type {!r}".format(name))
        judge(t, True, lambda *a: pf.source_photometry(c[k], *a, bg_sub=False, sigma_type=name, sigma=v), [z, s, [2.0, 4.0]], "sigma_type {!r} without background".format(name))


def method_cases(tier):
    return [("method", m) for m in ("exact", "center", "subpixel", "Exact", "centre", "", None)]


@kind
def run_method(t, m):
    z = menu.image(0)
    c = SourceCatalog(z, menu.segm(0))
    ok = m in ("exact", "center", "subpixel")
    judge(t, ok, pf.radial_photometry, [z, (8.0, 7.0), [2.0, 3.0]], "method {!r}".format(m), dict(method=m))
    judge(t, ok, lambda *a: pf.source_photometry(c[0], *a, method=m), [z, menu.segm(0), [2.0, 3.0]], "method {!r}".format(m))


def header_cases(tier):
    keys = ("PHOTFLAM", "PHOTZPT", "PHOTPLAM")
    return [("header", [k for k, b in zip(keys, bits) if b], f) for bits in itertools.product((0, 1), repeat=3) for f in (2.5, [2.5, 3.0], 7)]


@kind
def run_header(t, keys, flux):
    """All three keywords are needed for a magnitude."""
    full = dict(PHOTFLAM=1.5e-19, PHOTZPT=-21.1, PHOTPLAM=8057.3)
    judge(t, len(keys) == 3, pf.hst_flux_to_abmag, [flux, {k: full[k] for k in keys}], "header with {}".format(keys))


def table():
    return Table(dict(n=[1.0, 2.0, 4.0], p02=[10.0, 20.0, 40.0], p03=[9.0, 18.0, 34.0], p04=[8.0, 16.0, 30.0], p05=[7.0, 14.0, 27.0],
                      u_r_50=[5.0, 9.0, 14.0], u_c2080=[2.5, 3.1, 4.0], c_r_50=[5.0, 10.0, 20.0], c_r_80=[10.0, 20.0, 40.0], c_r_99=[20.0, 40.0, 90.0]))


def correction_cases(tier):
    return [("correction", i) for i in range(6)] + [("generate", n, p) for n in (None, 1, 2) for p in (False, True)] + [("axes", n) for n in (None, 1, 2, 3, 4)]


@kind
def run_correction(t, i):
    """Correction grids are tables."""
    g, ok = [(table(), 1), ("grid.csv", 0), (None, 0), (dict(n=[1]), 0), (np.zeros(3), 0), ([[1, 2]], 0)][i]
    judge(t, ok, pf.PetrosianCorrection, [g], "grid {}".format(type(g).__name__))


@kind
def run_generate(t, n_cpu, plot):
    """No drawing from several processes."""
    from matplotlib import pyplot as plt
    if n_cpu == 2 and not plot:  # C15
        return
    r, err = t.attempt(pf.generate_petrosian_sersic_correction, None, r_eff_list=[3], n_list=[1.0], oversample=None, n_cpu=n_cpu, plot=plot)
    plt.close("all")
    t.check((err is None) == (n_cpu != 2 or not plot), "{} processes, plot: {}: {!r}", n_cpu, plot, err)


@kind
def run_axes(t, n):
    """Three axes for three drawings."""
    from matplotlib import pyplot as plt
    r = np.arange(1, 40.0)
    p = pf.Petrosian(r, np.pi * r**2, pf.sersic_enclosed(r, 3.0, 6.0, 1.5))
    c = pf.PetrosianCorrection(table(), enforce_range=False)
    axs = None
    if n is not None:
        _, axs = plt.subplots(1, n, squeeze=False)
        axs = list(axs[0])
    r, err = t.attempt(c.plot_correction, p, axs=axs)
    plt.close("all")
    t.check((err is None) == (n in (None, 3)), "{} axes: {!r}", n, err)


def inside_cases(tier):
    return [("inside", list(p), e) for p in itertools.product(range(5), repeat=3) for e in (True, False)]


@kind
def run_inside(t, where, enforce):
    """Measured values against the range of the grid in each of its three columns."""
    r = np.arange(0.5, 60, 0.5)
    p = pf.Petrosian(r, np.pi * r**2, pf.sersic_enclosed(r, 3.0, 6.0, 1.5))
    g = table()
    for k, key, at in zip(where, ("p02", "u_r_50", "u_c2080"), (p.r_petrosian, p.r_half_light, p.c2080)):
        t.check(np.isfinite(at), "harness: no {}", key)
        lo, hi = [(1 + 1e-7, 1.3), (1 - 1e-7, 1.2), (0.7, 1.4), (0.6, 1 + 1e-7), (0.8, 1 - 1e-7)][k]
        g[key] = np.array([at * lo, at * (lo + hi) / 2, at * hi])
    c = pf.PetrosianCorrection(g, enforce_range=enforce)
    ok = not enforce or all(k in (1, 2, 3) for k in where)
    for fn in (c.estimate_n, c.estimate_epsilon, c.correct):
        r, err = t.attempt(fn, p)
        t.check((err is None) == ok, "measurement at {} of the grid (enforced: {}): {!r}", where, enforce, err)
    t.same(p.epsilon, 2.0, "epsilon after the attempt")


def setting_cases(tier):
    return [("setting", e, f) for e in (0.2, 0.3, 0.4, 0.5, 0.25, 0.6, 0.1) for f in (0.5, 0.8, 0.99, 0.6, 1.0, 0.9)]


@kind
def run_setting(t, eta, fraction):
    """Settings that a grid has columns for."""
    r = np.arange(0.5, 60, 0.5)
    p = pf.Petrosian(r, np.pi * r**2, pf.sersic_enclosed(r, 3.0, 6.0, 1.5), eta=eta, epsilon_fraction=fraction)
    c = pf.PetrosianCorrection(table(), enforce_range=False)
    ok = eta in (0.2, 0.3, 0.4, 0.5) and fraction in (0.5, 0.8, 0.99)
    for fn in (c.estimate_epsilon, c.correct):
        r_, err = t.attempt(fn, p)
        t.check((err is None) == ok, "eta {}, fraction {}: {!r}", eta, fraction, err)
    t.same((p.eta, p.epsilon_fraction, p.epsilon), (eta, fraction, 2.0), "settings after the attempt")


GENERATORS = [shape_cases, few_cases, order_cases, weight_cases, badweight_cases, size_cases, pair_cases, source_cases, nan_cases, wrap_cases, grid_cases, window_cases, cache_cases, assign_cases, wcs_cases, sigma_cases, method_cases, header_cases, correction_cases, inside_cases, setting_cases]


def bounds(tier):
    return "{} groups of arguments: every combination of list lengths up to {}, all orders of {} areas, one NaN pixel at each place of a {} image, all listed forms of sizes, centres, sources, factors, names, methods and headers, 5x5x5 places around the range of a grid, all histories of up to 3 assignments of a flag".format(
        len(KINDS), *((5, 5, "8x8") if tier == "quick" else (8, 6, "11x11")))


def cases(tier):
    return [list(c) for g in GENERATORS for c in g(tier)]


def run(case, t):
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        KINDS[case[0]](t, *case[1:])
    t.state(case)
    t.outcome(case[0])
