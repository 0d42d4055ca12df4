"""
A menu of operations of the library, used to explore histories (C27) and to
watch arguments (C28).  Every entry builds fresh arguments for a variant; the
variants of an entry have the same shapes, labels and keys, but other values.
"""
import contextlib
import io
import os
import warnings

import numpy as np

from astropy import units as u
from astropy.modeling import Model, fitting, models
from astropy.nddata import CCDData, Cutout2D
from astropy.table import Table
from astropy.wcs import WCS
from matplotlib import pyplot as plt
from matplotlib.axes import Axes
from matplotlib.figure import Figure
from photutils.aperture import Aperture
from photutils.segmentation import SegmentationImage, SourceCatalog

import petrofit as pf
from mc import petro
from mc.oracles import pattern

PSF = np.array([[0, 1, 0], [2, 8, 1], [0, 1, 0]]) / 13.0
SHAPE = (24, 27)


def image(v):
    yy, xx = np.mgrid[: SHAPE[0], : SHAPE[1]]
    z = pattern(SHAPE, 3 + v, 0, 1)
    for a, x, y, s, t in ((80, 7, 8, 1.6, 2.3), (60, 19, 14, 2.1, 1.5), (50, 22.5, 12, 1.3, 1.3)):
        z = z + (a + 7 * v) * np.exp(-(((xx - x - 0.1 * v) / s) ** 2 + ((yy - y) / t) ** 2) / 2)
    return z


def segm(v):
    return SegmentationImage(np.where(image(v) > 15, 0, 0) + labels(v))


def labels(v):
    lab = np.zeros(SHAPE, int)
    lab[5 : 12 - v % 2, 5:10] = 1
    lab[11 : 17 + v % 2, 16:21] = 2
    lab[10 + v % 2 : 15, 21:25] = 3
    return lab


def catalog(v):
    return SourceCatalog(image(v), segm(v))


def row(v, k=0):
    return catalog(v)[k]


def curve(v):
    r = np.array([1, 2, 3, 5, 7, 9, 12, 15, 20, 26, 34, 45, 62], float)
    s = 4.0 + v
    return r, np.pi * r**2, (100 + 20 * v) * (1 - np.exp(-r / s) * (1 + r / s))


def petrosian(v, **kw):
    r, a, f = curve(v)
    return pf.Petrosian(r, a, f, flux_err=0.01 * f + 0.1, **kw)


def grid(v):
    t = Table()
    n, r = np.meshgrid([0.2, 1.0, 2.0, 6.0], [3.0, 6.0, 10.0, 30.0])
    n, r = n.ravel(), r.ravel() + v
    t["n"], t["r_eff"] = n, r
    for i, k in enumerate(("p02", "p03", "p04", "p05")):
        t[k] = r * (2.2 - 0.3 * i + 0.1 * n)
    t["u_r_50"] = r * (1 - 0.02 * n)
    t["u_c2080"] = 2.0 + 0.5 * n
    for i, k in enumerate(("u_epsilon", "u_epsilon_50", "u_epsilon_80", "u_r_99", "u_r_20", "u_r_80", "u_c5090", "c_epsilon", "c_epsilon_50", "c_epsilon_80", "c_r_50", "c_r_99", "c_r_20", "c_r_80", "c_c2080", "c_c5090", "sersic_r_20", "sersic_r_80", "sersic_r_99", "sersic_L_inf", "p0502", "p0302")):
        if k not in t.colnames:
            t[k] = 1.0 + 0.1 * i + 0.05 * n
    return t


def sersic(v, **kw):
    return models.Sersic2D(3.0 + v, 2.4 + 0.3 * v, 1.2, 7.2, 6.6, 0.2, 0.4, **kw)


def wrapped(v, **kw):
    return pf.PSFConvolvedModel2D(sersic(v), psf=PSF, **kw)


def wcs(v):
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.cdelt = [-(0.1 + 0.05 * v) / 3600, (0.1 + 0.05 * v) / 3600]
    return w


def read_only(x):
    """The same argument, but not writable."""
    if isinstance(x, np.ma.MaskedArray):
        y = x.copy()
        y.data.flags.writeable = False
        return y
    if isinstance(x, u.Quantity):
        return x
    if isinstance(x, np.ndarray):
        y = x.copy()
        y.flags.writeable = False
        return y
    return x


def fortran(x):
    """The same values in column order."""
    return np.asfortranarray(x) if type(x) is np.ndarray else x


def strided(x):
    """The same values, in every other place of a larger array, backwards."""
    if type(x) is not np.ndarray or x.ndim == 0:
        return x
    big = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
    view = big[tuple(slice(None, None, -2) for _ in x.shape)]
    view[...] = x
    return view


def swapped(x):
    """The same values in the other byte order, as FITS files hold them."""
    return x.astype(x.dtype.newbyteorder(">")) if type(x) is np.ndarray and x.dtype.kind in "fiu" else x


# -- observing
def flatten(o, out=None, depth=0):
    """Every value in an object as a list of arrays and texts."""
    out = [] if out is None else out
    if depth > 6:
        out.append(type(o).__name__)
    elif o is None or isinstance(o, (str, bool, bytes)):
        out.append(repr(o))
    elif isinstance(o, (int, float, np.number, np.bool_)):
        out.append(np.array(float(o)))
    elif isinstance(o, pf.Petrosian):
        for k, v in petro.observe(o).items():
            flatten(v, out, depth + 1)
    elif isinstance(o, pf.PetrosianCorrection):
        flatten(o.grid, out, depth + 1)
    elif isinstance(o, (SegmentationImage, CCDData, Cutout2D)):
        flatten(o.data, out, depth + 1)
        flatten(getattr(o, "mask", None), out, depth + 1)
        flatten(dict(getattr(o, "meta", None) or {}), out, depth + 1)
    elif isinstance(o, SourceCatalog):
        flatten(o.to_table(), out, depth + 1)
    elif isinstance(o, Table):
        out.append(repr(o.colnames))
        flatten({k: x for k, x in o.meta.items() if k != "date"}, out, depth + 1)
        for c in o.colnames:
            flatten(np.asarray(o[c]), out, depth + 1)
    elif hasattr(o, "colnames"):  # row of a table
        for c in o.colnames:
            flatten(o[c], out, depth + 1)
    elif isinstance(o, u.Quantity):
        out.append(str(o.unit))
        out.append(np.array(o.value, float))
    elif isinstance(o, Model):
        out.append(type(o).__name__ + repr(tuple(o.param_names)))
        out.append(np.array(o.parameters, float))
        out.append(repr([(bool(o.fixed[p]), tuple(o.bounds[p]), bool(o.tied[p])) for p in o.param_names]))
        out.append(str(o.name))
        for k in ("psf", "oversample", "psf_oversample"):
            if hasattr(o, k):
                flatten(getattr(o, k), out, depth + 1)
    elif isinstance(o, np.ma.MaskedArray):
        out.append(np.array(o.filled(0), float))
        out.append(np.array(np.ma.getmaskarray(o), float))
    elif isinstance(o, np.ndarray):
        if o.dtype.kind in "biuf":
            out.append(np.array(o, float))
        elif o.dtype.names:
            for k in o.dtype.names:
                flatten(o[k], out, depth + 1)
        else:
            out.append(repr(o.tolist()))
    elif isinstance(o, Aperture):
        out.append(type(o).__name__)
        for k in o._params:
            flatten(getattr(o, k), out, depth + 1)
        flatten(o.positions, out, depth + 1)
    elif isinstance(o, Figure):
        for ax in o.axes:
            flatten(ax, out, depth + 1)
    elif isinstance(o, Axes):
        for im in o.images:
            flatten(im.get_array(), out, depth + 1)
            flatten(im.get_clim(), out, depth + 1)
        for li in o.lines:
            flatten(np.array(li.get_xydata(), float), out, depth + 1)
            out.append(str(li.get_linestyle()))
        for pa in o.patches:
            flatten(np.array(pa.get_transform().transform_path(pa.get_path()).vertices - o.transData.transform((0, 0)), float) * 0 + 1, out, depth + 1)
        for co in o.collections:
            flatten(np.array(co.get_offsets(), float), out, depth + 1)
        out.append(o.get_title() + "|" + o.get_xlabel() + "|" + o.get_ylabel())
    elif isinstance(o, dict):
        for k in sorted(o, key=repr):
            out.append(repr(k))
            flatten(o[k], out, depth + 1)
    elif isinstance(o, (list, tuple)):
        out.append(type(o).__name__ + str(len(o)))
        for x in o:
            flatten(x, out, depth + 1)
    elif isinstance(o, WCS):
        out.append(o.to_header_string())
    elif isinstance(o, (fitting.Fitter, type)) or hasattr(o, "fit_info"):
        out.append(getattr(o, "__name__", type(o).__name__))
        info = getattr(o, "fit_info", None)
        if isinstance(info, dict):
            flatten({k: info[k] for k in ("nfev", "ierr", "message", "params", "rank", "param_cov", "x", "singular_values") if k in info}, out, depth + 1)
    elif type(o).__name__ in ("Angle", "SkyCoord", "Latitude", "Longitude"):
        out.append(np.array(o.value, float) if hasattr(o, "value") else repr(o))
    else:
        out.append(type(o).__name__)
    return out


def differ(a, b, rtol=1e-9, atol=1e-12):
    """None, or how two flattened observations differ."""
    if len(a) != len(b):
        return "{} values instead of {}".format(len(a), len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return "item {}: {!r} instead of {!r}".format(k, x, y)
        elif x.shape != y.shape:
            return "item {}: shape {} instead of {}".format(k, x.shape, y.shape)
        elif not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            i = tuple(int(q) for q in np.argwhere(~np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True))[0])
            return "item {} at {}: {!r} instead of {!r}".format(k, i, float(x[i]), float(y[i]))
    return None


# -- operations: name -> build(v) -> (function, list of arguments, dict of keyword arguments)
OPS = {}


def op(fn):
    OPS[fn.__name__.rstrip("_")] = fn
    return fn


def figure_of(fn):
    """Draw on a new figure and return it with the result."""

    def draw(*a, **k):
        plt.figure()
        r = fn(*a, **k)
        fig = plt.gcf()
        flat = flatten([r, fig])
        plt.close("all")
        return flat

    draw.__name__ = getattr(fn, "__name__", "draw")
    return draw


def method(name, *names):
    def call(obj, *a, **k):
        return getattr(obj, name)(*a, **k)

    call.__name__ = name
    return call


@op
def radial_photometry(v):
    err = pattern(SHAPE, 5 + v, 0.1, 0.5)
    return pf.radial_photometry, [image(v), (7, 8), [1.0, 2.5, 4]], dict(error=err, mask=labels(v) != 2, elong=1.4, theta=0.3)


@op
def radial_photometry_plain(v):
    return pf.radial_photometry, [image(v), (19, 13), np.array([4.0, 1.0, 2.5])], {}


@op
def radial_photometry_plot(v):
    return figure_of(pf.radial_photometry), [image(v), np.array([7, 8]), [2.0, 4.0]], dict(plot=True, method="center")


@op
def aperture(v):
    return pf.radial_elliptical_aperture, [(3 + v, 4.5), 3.0], dict(elong=1.5, theta=0.2)


@op
def aperture_plain(v):
    return pf.radial_elliptical_aperture, [[3 + v, 4.5], 3.0], {}


@op
def annulus(v):
    return pf.radial_elliptical_annulus, [np.array([3 + v, 4.5]), 3.0, 1.0], {}


@op
def plot_apertures(v):
    return figure_of(pf.plot_apertures), [image(v), [pf.radial_elliptical_aperture((5, 5 + v), 3)]], {}


@op
def plot_apertures_default(v):
    return figure_of(pf.plot_apertures), [image(v)], {}


@op
def segments(v):
    return pf.make_segments, [image(v)], dict(npixels=4, threshold=15.0)


@op
def segments_map(v):
    return pf.make_segments, [image(v), 4], dict(threshold=pattern(SHAPE, 2, 12, 16))


@op
def deblend(v):
    return pf.deblend_segments, [image(v), pf.make_segments(image(v), 4, 10.0)], dict(npixels=4)


@op
def make_catalog(v):
    return pf.make_catalog, [image(v), 12.0], dict(npixels=4, plot=False)


@op
def make_catalog_plot(v):
    def run(*a, **k):
        r = pf.make_catalog(*a, **k)
        n = len(plt.gcf().axes)
        plt.close("all")
        return r, n

    return run, [CCDData(image(v), unit="adu"), 12.0], dict(npixels=4, deblend=False, wcs=wcs(v))


@op
def position(v):
    return pf.get_source_position, [row(v, 1)], {}


@op
def geometry(v):
    return (lambda s: [pf.get_source_elong(s), pf.get_source_ellip(s), pf.get_source_theta(s), pf.get_source_position(s)]), [row(v)], {}


@op
def geometry_table(v):
    cat = catalog(v)
    t = cat.to_table(columns=["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"])
    return (lambda s: [pf.get_source_elong(s), pf.get_source_ellip(s), pf.get_source_theta(s), pf.get_source_position(s)]), [t[0]], {}


@op
def order_cat(v):
    return pf.order_cat, [catalog(v)], {}


@op
def order_cat_key(v):
    return pf.order_cat, [catalog(v)], dict(key="max_value", reverse=False)


@op
def segm_mask(v):
    return pf.segm_mask, [[1, 3], segm(v)], {}


@op
def segm_mask_bg(v):
    return pf.segm_mask, [[2], segm(v)], dict(mask_background=True)


@op
def segm_mask_row(v):
    return pf.segm_mask, [row(v), segm(v)], {}


@op
def masked_image(v):
    return pf.masked_segm_image, [1, image(v), segm(v)], {}


@op
def masked_image_fill(v):
    return pf.masked_segm_image, [[row(v), 2], CCDData(image(v), unit="adu"), segm(v)], dict(fill=-5.0, mask_background=True)


@op
def source_photometry(v):
    return pf.source_photometry, [row(v), image(v), segm(v), [2.0, 1.0, 5.0, 4.0]], {}


@op
def source_photometry_bg(v):
    return pf.source_photometry, [row(v, 1), image(v), segm(v), [1.0, 2.0, 4.0]], dict(error=pattern(SHAPE, 5, 0.1, 0.5), bg_sub=True, cutout_size=15)


@op
def source_photometry_bound(v):
    return pf.source_photometry, [row(v, 1), CCDData(image(v), unit="adu"), segm(v), np.array([1.0, 2.0, 4.0])], dict(bg_sub=True, sigma=0.4, sigma_type="bound", mask_background=True)


@op
def source_photometry_plot(v):
    return figure_of(pf.source_photometry), [row(v), image(v), segm(v), [1.0, 2.0, 4.0]], dict(plot=True, bg_sub=True)


@op
def amplitude_at_r(v):
    return pf.get_amplitude_at_r, [3.0, image(v), 7, 8, 0.2, 1.2], {}


@op
def plot_segment_residual(v):
    return figure_of(pf.plot_segment_residual), [segm(v), image(v)], {}


@op
def plot_segments(v):
    def run(*a, **k):
        plt.figure()
        pf.plot_segments(*a, **k)
        r = [np.array(im.get_array(), float) for im in plt.gca().images]
        plt.close("all")
        return r

    return run, [segm(v), image(v)], dict(title="t")


@op
def petrosian_profile_of(v):
    r, a, f = curve(v)
    return pf.calculate_petrosian, [a, f], dict(flux_err=0.01 * f, area_err=0.001 * a)


@op
def petrosian_profile_plain(v):
    r, a, f = curve(v)
    return pf.calculate_petrosian, [a, f], {}


@op
def petrosian_radius(v):
    r, a, f = curve(v)
    p, e = pf.calculate_petrosian(a, f, flux_err=0.01 * f)
    return pf.calculate_petrosian_r, [r, p], dict(petrosian_err=e)


@op
def petrosian_radius_eta(v):
    r, a, f = curve(v)
    p, e = pf.calculate_petrosian(a, f)
    return pf.calculate_petrosian_r, [r, p], dict(eta=0.35, interp_kind="linear", interp_num=800)


@op
def fraction(v):
    r, a, f = curve(v)
    return pf.fraction_to_r, [0.4, r, f, 9.0 + v], dict(flux_err=0.01 * f, r_petrosian_err=0.3, epsilon=2.0)


@op
def fraction_plain(v):
    r, a, f = curve(v)
    return pf.fraction_to_r, [0.5, r, f, 9.0 + v], {}


@op
def concentration(v):
    r, a, f = curve(v)
    return pf.calculate_concentration_index, [0.2, 0.8, r, f, 9.0 + v], {}


@op
def petrosian_default(v):
    r, a, f = curve(v)
    return pf.Petrosian, [r, a, f], {}


@op
def petrosian_errors(v):
    r, a, f = curve(v)
    return pf.Petrosian, [r, a, f], dict(flux_err=0.01 * f + 0.1, area_err=0.001 * a, eta=0.3, epsilon=1.5, epsilon_fraction=0.9, total_flux_fraction=0.9, interp_num=700)


@op
def petrosian_change(v):
    def run(p):
        p.eta, p.epsilon, p.epsilon_fraction, p.total_flux_fraction = 0.25, 2.5, 0.8, 0.97
        a = flatten(p)
        p.eta, p.epsilon, p.epsilon_fraction, p.total_flux_fraction = 0.2, 2, 0.99, 0.99
        return [a, flatten(p)]

    return run, [petrosian(v)], {}


@op
def petrosian_measure(v):
    return (lambda p, w: [flatten(p), p.r_half_light_arcsec(w), p.r_total_flux_arcsec(w), p.concentration_index(0.1, 0.6)]), [petrosian(v), wcs(v)], {}


@op
def petrosian_plot(v):
    return figure_of(method("plot")), [petrosian(v)], {}


@op
def petrosian_plot_cog(v):
    return figure_of(method("plot_cog")), [petrosian(v)], {}


@op
def petrosian_imshow(v):
    return figure_of(method("imshow")), [petrosian(v)], dict(position=(4, 5), elong=1.2, theta=0.3)


@op
def petrosian_imshow_default(v):
    return figure_of(method("imshow")), [petrosian(v)], {}


@op
def correction_grid(v):
    return pf.PetrosianCorrection, [grid(v)], {}


@op
def correction_apply(v):
    return (lambda g, p: (lambda c: [c.correct(p), c.estimate_n(p), c.estimate_epsilon(p)])(pf.PetrosianCorrection(g))), [grid(v), petrosian(v)], {}


@op
def correction_free(v):
    return (lambda g, p: (lambda c: [c.correct(p), c.estimate_n(p), c.unique_grid_values("n"), c.filter_grid("n", 1.0), c.grid_keys])(pf.PetrosianCorrection(g, enforce_range=False))), [grid(v), petrosian(v)], {}


@op
def correction_plot(v):
    return figure_of(lambda g, p: pf.PetrosianCorrection(g).plot_correction(p)[1]), [grid(v), petrosian(v)], {}


@op
def generate_grid(v):
    return pf.generate_petrosian_sersic_correction, ["x.ecsv", None, np.array([3.0, 4.0 + 0.2 * v]), [1.0]], dict(out_format="ascii.ecsv", overwrite=True, oversample=("x_0", "y_0", 6, 4), plot=False)


def _generate(*a, **k):
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="menu")
    try:
        k.pop("plot", None)
        return pf.generate_petrosian_sersic_correction(os.path.join(d, a[0]), *a[1:], **k)
    finally:
        shutil.rmtree(d)


def _wrap_generate(build):
    def b(v):
        _, a, k = build(v)
        return _generate, a, k

    return b


OPS["generate_grid"] = _wrap_generate(generate_grid)


@op
def fit_plane(v):
    return pf.fit_model, [image(v)[:6, :6], models.Planar2D()], dict(fitter=fitting.LinearLSQFitter, weights=pattern((6, 6), 2, 0.5, 2))


@op
def fit_masked(v):
    return pf.fit_model, [np.ma.masked_array(image(v)[:9, :9], labels(v)[:9, :9] > 0), models.Planar2D()], {}


@op
def fit_sersic(v):
    z = np.asarray(pf.model_to_image(sersic(v), (14, 13)))
    m = sersic(0, fixed={"x_0": True, "y_0": True, "ellip": True, "theta": True}, bounds=pf.get_default_sersic_bounds())
    m.n, m.r_eff = 1.5, 3.0
    return pf.fit_model, [z, m], dict(maxiter=30)


@op
def fit_wrapped(v):
    z = np.asarray(pf.model_to_image(wrapped(v), (14, 13)))
    m = wrapped(0, oversample=("x_0", "y_0", 4, 3))
    for p in m.fixed:
        m.fixed[p] = p not in ("amplitude", "r_eff")
    return pf.fit_model, [z, m], dict(fitter=fitting.LevMarLSQFitter, maxiter=15)


@op
def background(v):
    return pf.fit_background, [image(v)], {}


@op
def background_model(v):
    return pf.fit_background, [image(v)], dict(model=models.Polynomial2D(1, c0_0=v), sigma=None)


class FirstGuess:
    """A fitter that keeps the model it was given: shows where a fit starts."""

    def __init__(self, calc_uncertainties=False):
        self.fit_info = {}

    def __call__(self, model, x, y, z=None, weights=None, **kw):
        return model.copy()


@op
def background_start(v):
    return (lambda im: pf.fit_background(im, fitter=FirstGuess)[0]), [image(v)], {}


@op
def fit_start(v):
    return (lambda im, m: pf.fit_model(im, m, fitter=FirstGuess)[0]), [image(v), sersic(v)], {}


@op
def gaussian(v):
    return pf.fit_gaussian2d, [image(v)[3:14, 2:13]], {}


@op
def fwhm(v):
    return pf.measure_fwhm, [image(v)[3:14, 2:13]], dict(plot=False)


@op
def fwhm_plot(v):
    return figure_of(pf.measure_fwhm), [image(v)[3:14, 2:13]], dict(printout=False)


@op
def plot_fit(v):
    return figure_of(lambda m, z, **k: [pf.plot_fit(m, z, **k)[2:], plt.gcf()]), [sersic(v), image(v)[:14, :13]], {}


@op
def print_params(v):
    def run(m):
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            pf.print_model_params(m)
        return f.getvalue()

    return run, [sersic(v)], {}


@op
def to_image(v):
    return pf.model_to_image, [sersic(v), (9, 8)], {}


@op
def to_image_center(v):
    return pf.model_to_image, [sersic(v), [9, 8]], dict(center=np.array([6, 5]), mode="oversample", factor=3)


@op
def wrap_image(v):
    return pf.model_to_image, [wrapped(v), (9, 8)], {}


@op
def wrap_over(v):
    return (lambda m, x, y: m(x, y)), [wrapped(v, oversample=4, psf_oversample=2)] + list(np.meshgrid(np.arange(9.0), np.arange(8.0))), {}


@op
def wrap_window(v):
    return (lambda m, x, y: m(x, y)), [wrapped(v, oversample=("x_0", "y_0", 4, 4))] + list(np.meshgrid(np.arange(9.0), np.arange(8.0))), {}


@op
def wrap_build(v):
    return (lambda m, p: pf.PSFConvolvedModel2D(m, psf=p, oversample=3)), [sersic(v, fixed={"n": True}, bounds={"n": (0.5, 4 + v)}), PSF.copy()], {}


@op
def wrap_unnormalised(v):
    return (lambda m, p, x, y: [w := pf.PSFConvolvedModel2D(m, psf=p), w(x, y)]), [sersic(v), PSF * (0.7 + v)] + list(np.meshgrid(np.arange(7.0), np.arange(8.0))), {}


@op
def wrap_compound(v):
    return (lambda m, p: flatten((lambda w: [w, w.model, w(*np.meshgrid(np.arange(5.0), np.arange(5.0)))])(pf.PSFConvolvedModel2D(m, psf=p)))), [sersic(v) + models.Const2D(v), PSF.copy()], {}


@op
def grid_points(v):
    return pf.make_grid, [3], dict(origin=(v, 2), factor=2)


@op
def grid_default(v):
    return pf.make_grid, [3 + v], {}


@op
def sersic_bounds(v):
    return pf.get_default_sersic_bounds, [], {}


@op
def sersic_bounds_override(v):
    return pf.get_default_sersic_bounds, [{"n": (0.2 + v, 5), "x_0": (1, 2), "c_0": (0, 1), "psf_pa": (0, 3)}], {}


@op
def gen_bounds(v):
    return pf.get_default_gen_sersic_bounds, [], {}


@op
def gen_bounds_override(v):
    return pf.get_default_gen_sersic_bounds, [], dict(override={"c_0": (-1 - v, 1)})


@op
def bounds_used(v):
    def run(v):
        b = pf.get_default_sersic_bounds()
        b["n"] = (1 + v, 2)
        b["x_0"] = (0, 1)
        del b["theta"]
        c = pf.get_default_gen_sersic_bounds()
        c["c_0"] = (5, 6)
        return b, c

    return run, [v], {}


@op
def gen_sersic(v):
    return (lambda x, y, **k: pf.GenSersic2D(**k)(x, y)), list(np.meshgrid(np.arange(5.0), np.arange(4.0))), dict(amplitude=2 + v, r_eff=2.0, n=1.0, x_0=2.0, y_0=1.0, ellip=0.2, theta=0.3, c_0=0.5)


@op
def gen_sersic_default(v):
    return (lambda x, y: pf.GenSersic2D()(x, y)), list(np.meshgrid(np.arange(5.0) + v, np.arange(4.0))), {}


@op
def nuker(v):
    return (lambda x, y: pf.Nuker2D(amplitude=2 + v)(x, y)), list(np.meshgrid(np.arange(5.0), np.arange(4.0))), {}


@op
def enclosed(v):
    return pf.sersic_enclosed, [np.arange(1.0, 6), 3.0 + v, 4.0, 2.0], {}


@op
def enclosed_inv(v):
    return pf.sersic_enclosed_inv, [np.arange(1.0, 6), 3.0 + v, 4.0, 2.0], dict(ellip=0.1)


@op
def enclosed_models(v):
    return (lambda r: [pf.sersic_enclosed_model()(r), pf.petrosian_model(r_eff=3.0 + v)(r), pf.petrosian_profile(r, 2.0, 1.0)]), [np.arange(1.0, 6)], {}


@op
def intensities(v):
    return (lambda i, n: [pf.Ie_to_I0(i, n), pf.I0_to_Ie(i, n)]), [np.array([1.0, 2.0 + v]), np.array([1.0, 4.0])], {}


@op
def approx(v):
    A = pf.PetroApprox
    return (lambda x: [A.u2080_to_c2080(x), A.c2080_to_n(x), A.n_to_epsilon(x), A.p0502_to_epsilon(x)]), [np.array([1.5, 2.5 + 0.2 * v])], {}


@op
def conversions(v):
    return (lambda e, q, a: [pf.ellip_to_elong(e), pf.elong_to_ellip(q), pf.elliptical_area_to_r(a, q), pf.circle_area_to_r(a)]), [np.array([0.1, 0.2 + 0.1 * v]), np.array([1.5, 2 + v]), np.array([3.0, 7 + v])], {}


@op
def sky(v):
    return (lambda p, a, w: [pf.pixel_to_angular(p, w), pf.angular_to_pixel(a, w)]), [np.array([1.0, 5.0]), np.array([1.0, 2.0]) * u.arcsec, wcs(v)], {}


@op
def sky_units(v):
    return (lambda p, a, w: [pf.pixel_to_angular(p, w), pf.angular_to_pixel(a, w)]), [np.array([1.0, 5.0 + v]) * u.pix, np.array([1.0, 2.0]) / 60 * u.arcmin, wcs(v)], {}


@op
def magnitude(v):
    return pf.hst_flux_to_abmag, [np.array([3.0, -1.0, 0.0, 5.0 + v]), {"PHOTFLAM": 1e-19, "PHOTZPT": -21.1, "PHOTPLAM": 5000.0 + v}], {}


@op
def magnitude_list(v):
    return pf.hst_flux_to_abmag, [[3.0, -1.0, 5 + v], {"PHOTFLAM": 1e-19, "PHOTZPT": -21.1, "PHOTPLAM": 5000.0 + v}], {}


@op
def radii(v):
    return (lambda m, n: [pf.make_radius_list(m, n), pf.make_radius_list(m, n, log=True)]), [20 + v, 6], {}


@op
def interpolation(v):
    r, a, f = curve(v)
    return pf.get_interpolated_values, [r, f], dict(num=60)


@op
def interpolation_default(v):
    r, a, f = curve(v)
    return pf.get_interpolated_values, [list(r), list(f)], {}


@op
def interpolation_none(v):
    r, a, f = curve(v)
    return pf.get_interpolated_values, [r, f], dict(kind=None)


@op
def crossing(v):
    return (lambda t, a: [pf.closest_value_index(t, a), pf.closest_value_index(t, a, growing=True)]), [0.4, np.array([1.0, 0.7, 0.3 - 0.1 * v, 0.5])], {}


@op
def sort(v):
    return pf.natural_sort, [["f10", "F2", "f1", "g{}".format(v)]], {}


@op
def matching(v):
    return (lambda *a: pf.match_catalogs(*a)[:2]), [np.array([1.0, 2.0]), np.array([1.0, 3.0 + v]), np.array([2.1, 1.2]), np.array([3.0, 1.0])], {}


@op
def subtract(v):
    return pf.cutout_subtract, [image(v), image(v + 1)[4:9, 6:10], 8, 6], {}


@op
def plot_target(v):
    return figure_of(pf.plot_target), [image(v), (5, 6)], {}


@op
def tick_frame(v):
    return figure_of(pf.mpl_tick_frame), [], {}


def run_op(name, v, change=None):
    """Run one operation on fresh arguments; returns the flattened result."""
    fn, args, kw = OPS[name](v)
    if change is not None:
        args, kw = [change(a) for a in args], {k: change(x) for k, x in kw.items()}
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return flatten(fn(*args, **kw))


# -- calls that are refused: they must not leave anything behind either
BAD = {}


def bad(fn):
    BAD["bad_" + fn.__name__] = fn
    return fn


@bad
def photometry_nan(v):
    z = image(v)
    z[8, 7] = np.nan
    return pf.radial_photometry, [z, (7, 8), [1.0, 3.0]], {}


@bad
def petrosian_short(v):
    return pf.Petrosian, [np.array([1.0, 2.0]), np.array([3.0, 12.0]), np.array([1.0, 2.0])], {}


@bad
def profile_decreasing(v):
    return pf.calculate_petrosian, [np.array([3.0, 2.0, 1.0]), np.array([1.0, 2.0, 3.0])], {}


@bad
def clipping(v):
    return pf.source_photometry, [row(v), image(v), segm(v), [1.0, 2.0]], dict(bg_sub=True, sigma_type="none of them")


@bad
def oversample(v):
    return pf.PSFConvolvedModel2D, [sersic(v)], dict(psf=PSF, oversample=3, psf_oversample=2)


@bad
def wrap_wrapped(v):
    return pf.PSFConvolvedModel2D, [wrapped(v)], dict(psf=PSF)


@bad
def assign(v):
    def run(m):
        m(*np.meshgrid(np.arange(6.0), np.arange(5.0)))
        m.oversample = 4
        m.psf_oversample = 3

    return run, [wrapped(v)], {}


@bad
def evaluate(v):
    return (lambda m: m(np.arange(4.0), np.arange(5.0))), [wrapped(v, oversample=2)], {}


@bad
def fit_shape(v):
    return pf.fit_model, [image(v)[:6, :6], models.Planar2D()], dict(weights=np.ones((2, 3)))


@bad
def correct_outside(v):
    r, a, f = curve(v)
    return (lambda g, p: pf.PetrosianCorrection(g).correct(p)), [grid(v), pf.Petrosian(r / 20, a / 400, f)], {}


@bad
def grid_missing(v):
    t = grid(v)
    t.remove_column("u_r_50")
    return (lambda t, p: pf.PetrosianCorrection(t).correct(p)), [t, petrosian(v)], {}


@bad
def mask_label(v):
    return pf.masked_segm_image, ["x", image(v), segm(v)], {}


@bad
def interpolation_kind(v):
    r, a, f = curve(v)
    return (lambda *a, **k: flatten(pf.Petrosian(*a, **k))), [r, a, f], dict(interp_kind="no such kind")


@bad
def read_correction(v):
    return pf.PetrosianCorrection.read, [os.path.join(os.environ.get("VP_SCRATCH", "/nonexistent"), "none.ecsv")], {}


ALL = dict(OPS, **BAD)


# -- neighbours: other arguments that a careless key of a cache could take for the same
def neighbours(x):
    """Values of the same form that differ from x in one respect: list of (name, value)."""
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, (str, bytes)):
        return []
    if isinstance(x, (int, np.integer)):
        return [("plus one", x + 1)]
    if isinstance(x, (float, np.floating)):
        out = [("a thousandth more", x * (1 + 2.0**-10)), ("a millionth more", x * (1 + 2.0**-20)), ("negative", -x)]
        if x != int(x):
            out.append(("another fraction", int(x) + (x - int(x)) / 2))
        else:
            out.append(("a fraction more", x + 0.25))
        return out
    if isinstance(x, u.Quantity):
        return [(k, v * x.unit) for k, v in neighbours(x.value)]
    if isinstance(x, np.ma.MaskedArray):
        return [("mask moved", np.ma.masked_array(x.data.copy(), mask=np.roll(np.ma.getmaskarray(x), 1)))] + [
            (k, np.ma.masked_array(v, mask=np.ma.getmaskarray(x).copy())) for k, v in neighbours(x.data)]
    if isinstance(x, np.ndarray):
        if x.size == 0 or x.dtype.kind not in "biuf":
            return []
        out = [("reversed", x.ravel()[::-1].reshape(x.shape).copy()), ("moved by one", np.roll(x, 1))]
        if x.dtype.kind in "fiu":
            mid = x.copy()
            k = tuple(n // 2 for n in x.shape)
            mid[k] = mid[k] * 2 + 1
            out.append(("one value changed", mid))
            out.append(("inner values doubled", np.where(np.arange(x.size).reshape(x.shape) % (x.size - 1 or 1) == 0, x, 2 * x).astype(x.dtype)))
        if x.dtype.kind == "f":
            out += [("a thousandth more", x * (1 + 2.0**-10)), ("a millionth more", x * (1 + 2.0**-20))]
        return out
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (int, float, np.number)) and not isinstance(v, bool) for v in x):
        return [(k, type(x)(v.tolist())) for k, v in neighbours(np.array(x))]
    if isinstance(x, pf.Petrosian):
        out = []
        for k, f in neighbours(x.flux_list):
            q = pf.Petrosian(x.r_list, x.area_list, f, area_err=x.area_err, flux_err=x.flux_err, eta=x.eta, epsilon=x.epsilon,
                             epsilon_fraction=x.epsilon_fraction, total_flux_fraction=x.total_flux_fraction, interp_kind=x.interp_kind, interp_num=x.interp_num)
            out.append(("fluxes " + k, q))
        return out
    if isinstance(x, Model):
        out = []
        for i, n in enumerate(x.param_names):
            for k, v in neighbours(float(x.parameters[i])):
                if k == "negative":
                    continue
                m = x.copy()
                setattr(m, n, v)
                out.append((n + " " + k, m))
        return out
    if isinstance(x, CCDData):
        return [(k, CCDData(v, unit=x.unit, mask=x.mask, meta=x.meta)) for k, v in neighbours(x.data)]
    if isinstance(x, SegmentationImage):
        z = np.where(x.data > 0, x.data.max() + 1 - x.data, 0)
        return [("labels reversed", SegmentationImage(z)), ("moved by one", SegmentationImage(np.roll(x.data, 1, 0)))]
    if isinstance(x, Table):
        out = []
        for c in x.colnames:
            z = x.copy()
            z[c] = np.roll(np.asarray(z[c]), 1)
            out.append((c + " moved by one", z))
        return out
    if isinstance(x, dict):
        return [("{} {}".format(k, n), dict(x, **{k: v})) for k in x for n, v in neighbours(x[k])]
    return []


def slots(name):
    """The arguments of an operation that have neighbours."""
    _, args, kw = ALL[name](0)
    return [k for k, a in list(enumerate(args)) + list(kw.items()) if neighbours(a)]


def call(fn, args, kw):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return flatten(fn(*args, **kw))
        except Exception as e:
            plt.close("all")
            return flatten("raised " + type(e).__name__)


def unguarded(name, v):
    """Run an operation without settings of our own around it."""
    fn, args, kw = ALL[name](v)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return fn(*args, **kw)
        except Exception:
            plt.close("all")


def run_any(name, v):
    """Run an operation; a refusal is part of the observation."""
    return call(*ALL[name](v))
