"""Optional arguments: documented defaults, by position and by name."""
import contextlib
import io
import itertools
import os
import warnings

import numpy as np

from astropy.modeling import fitting, models
from astropy.table import Table
from matplotlib import pyplot as plt
from matplotlib.text import Text

import petrofit as pf
from mc import menu
from photutils.segmentation import SegmentationImage, SourceCatalog
from mc.oracles import pattern
from petrofit.modeling.fitting import plot_fit

ID = "C33"
ASSUMPTIONS = [
    "the documented defaults and the documented order of the arguments, listed in this check",
    "drawings are compared by what is drawn (lines, images, outlines, texts, sizes and colours), not by pixels",
]
ROWS = {}


def entry(fn):
    ROWS[fn.__name__] = fn
    return fn


def drawn(fn):
    """fn on a new figure: what it returns and everything it drew."""

    def draw(*a, **k):
        plt.close("all")
        plt.figure(figsize=(5, 4))
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text):
                r = fn(*a, **k)
            return [plain(r), [shot(plt.figure(n)) for n in plt.get_fignums()], text.getvalue()]
        finally:
            plt.close("all")

    draw.__name__ = getattr(fn, "__name__", "draw")
    return draw


def plain(r):
    """Returned values without the axes they came with."""
    if isinstance(r, (list, tuple)):
        return [plain(x) for x in r]
    return r if isinstance(r, (int, float, str, np.ndarray)) else type(r).__name__


def shot(fig):
    out = [np.array(fig.get_size_inches(), float), str(getattr(fig, "_suptitle", None) and fig._suptitle.get_text())]
    for ax in fig.axes:
        out.append("axes")
        out.append(np.array(ax.get_xlim() + ax.get_ylim(), float))
        for im in ax.images:
            out += [np.ma.filled(np.ma.asarray(im.get_array(), float), -99.0), np.array([x if x is not None else -99 for x in im.get_clim()], float), str(im.cmap.name), str(im.get_alpha())]
        for li in ax.lines:
            out += [np.array(li.get_xydata(), float), str((li.get_color(), li.get_linestyle(), li.get_marker())), np.array([li.get_linewidth(), li.get_markersize(), li.get_markeredgewidth(), li.get_alpha() or 1], float)]
        for p in ax.patches:
            path = p.get_patch_transform().transform_path(p.get_path())
            out += [np.array(path.vertices, float), np.array(p.get_edgecolor(), float), np.array([p.get_linewidth()], float)]
        for c in ax.collections:
            out += [type(c).__name__, np.array(c.get_offsets(), float), np.array(c.get_facecolor(), float), np.array(c.get_edgecolor(), float)]
            out += [np.array(q.vertices, float) for q in c.get_paths()]
            if c.get_array() is not None:
                out += [np.array(c.get_array(), float), str(c.cmap.name)]
        lg = ax.get_legend()
        for t in ax.findobj(Text) if lg is None else ax.findobj(Text) + lg.findobj(Text):
            if t.get_text():
                out += [t.get_text(), np.array([t.get_fontsize()], float)]
        for axis in (ax.xaxis, ax.yaxis):
            out.append(np.array([k.label1.get_fontsize() for k in axis.get_major_ticks()[:1]], float))
        out.append("legend" if lg is not None else "no legend")
        out.append(str(len(ax.xaxis.get_minor_locator()())))
    return out


def attributes(cls, names, *methods):
    """Build an object and look at it."""

    def make(*a, **k):
        o = cls(*a, **k)
        return [getattr(o, n) for n in names] + [getattr(o, m)() for m in methods]

    make.__name__ = cls.__name__
    return make


def bound(obj, name):
    return getattr(obj, name)


def blended(levels=False):
    """Companions that are found, or not, next to the default number of levels and the default contrast."""
    yy, xx = np.mgrid[:40, :110]
    g = lambda x, y, a, s: a * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / 2 / s**2)
    if levels:
        return g(15, 15, 1000, 3) + g(24, 15, 200, 1.5) + g(15, 5, 3, 1.3) + g(60, 15, 1000, 3) + g(70, 15, 100, 1.5) + g(60, 5, 3, 1.3)
    return g(18, 18, 4000, 4) + g(34, 18, 30, 1.5) + g(70, 18, 4000, 4) + g(87, 18, 20, 1.5)


# every entry: function, required arguments, [(name, documented default, another value)]
@entry
def radial_elliptical_aperture():
    return pf.radial_elliptical_aperture, [(4.0, 5.5), 3.0], [("elong", 1.0, 1.5), ("theta", 0.0, 0.4)]


@entry
def radial_elliptical_annulus():
    return pf.radial_elliptical_annulus, [(4.0, 5.5), 3.0, 1.5], [("elong", 1.0, 1.5), ("theta", 0.0, 0.4)]


@entry
def radial_photometry():
    err = pattern(menu.SHAPE, 5, 0.1, 0.5)
    return drawn(pf.radial_photometry), [menu.image(0), (7, 8), [1.0, 2.5, 4.0]], [
        ("error", None, err), ("mask", None, menu.labels(0) != 1), ("elong", 1.0, 1.4), ("theta", 0.0, 0.3),
        ("plot", False, True), ("vmin", 0, 2.0), ("vmax", None, 50.0), ("method", "exact", "center")]


@entry
def radial_photometry_plotted():
    err = pattern(menu.SHAPE, 5, 0.1, 0.5)
    f = lambda *a, **k: pf.radial_photometry(*a, plot=True, **k)
    return drawn(f), [menu.image(0), (7, 8), [1.0, 2.5, 4.0]], [
        ("error", None, err), ("mask", None, menu.labels(0) != 1), ("elong", 1.0, 1.4), ("theta", 0.0, 0.3),
        (None,), ("vmin", 0, 2.0), ("vmax", None, 50.0), ("method", "exact", "center")]


@entry
def plot_apertures():
    ap = [pf.radial_elliptical_aperture((5, 6), 3, 1.2, 0.3), pf.radial_elliptical_annulus((9, 6), 3, 1)]
    return drawn(pf.plot_apertures), [], [
        ("image", None, menu.image(0)), ("apertures", [], ap), ("vmin", None, 1.0), ("vmax", None, 60.0),
        ("color", "white", "red"), ("lw", 1.5, 3.0)]


@entry
def plot_apertures_on():
    ap = [pf.radial_elliptical_aperture((5, 6), 3, 1.2, 0.3), pf.radial_elliptical_annulus((9, 6), 3, 1)]
    return drawn(pf.plot_apertures), [menu.image(0), ap], [
        ("vmin", None, 1.0), ("vmax", None, 60.0), ("color", "white", "red"), ("lw", 1.5, 3.0)]


@entry
def deblend_segments():
    im = blended()
    # the documented default of npixels (None) is refused by photutils, so it is always given
    return pf.deblend_segments, [im, pf.make_segments(im, 4, 0.2), 4], [("nlevels", 30, 3), ("contrast", 0.001, 0.0012)]


@entry
def deblend_segments_levels():
    im = blended(True)
    return pf.deblend_segments, [im, pf.make_segments(im, 4, 0.5), 4], [("nlevels", 30, 20), ("contrast", 0.001, 0.9)]


@entry
def make_segments():
    im = menu.image(0)
    return lambda *a, **k: pf.make_segments(im, 4, *a, **k), [], [("threshold", 3.0, 20.0)]


@entry
def make_catalog():
    f = lambda *a, **k: drawn(pf.make_catalog)(*a, npixels=4, **k)
    return f, [blended(), 0.2], [
        ("wcs", None, menu.wcs(0)), ("deblend", True, False), (None,), ("nlevels", 30, 20), ("contrast", 0.001, 0.0012),
        ("plot", True, False), ("vmax", None, 40.0), ("vmin", None, 1.0), ("figsize", None, (9.0, 4.0))]


@entry
def make_catalog_values():
    def f(*a, **k):
        cat, segm, deb = pf.make_catalog(*a, plot=False, npixels=4, **k)
        return [segm, deb, len(cat), cat.wcs is None, cat[0].sky_centroid is None]

    return f, [blended(), 0.2], [("wcs", None, menu.wcs(0)), ("deblend", True, False), (None,), ("nlevels", 30, 20), ("contrast", 0.001, 0.0012)]


@entry
def make_catalog_levels():
    def f(*a, **k):
        cat, segm, deb = pf.make_catalog(*a, plot=False, npixels=4, **k)
        return [segm, deb, len(cat)]

    return f, [blended(True), 0.5], [("wcs", None, menu.wcs(0)), ("deblend", True, False), (None,), ("nlevels", 30, 20), ("contrast", 0.001, 0.9)]


@entry
def order_cat():
    lab = np.zeros((9, 12), int)
    z = pattern((9, 12), 3, 0, 1)
    for k, (x, n, v) in enumerate(((0, 3, 9.0), (4, 12, 2.0), (6, 7, 30.0), (10, 1, 5.0))):
        lab[:n, x : x + 2] = k + 1
        z[:n, x : x + 2] += v
    cat = SourceCatalog(z, SegmentationImage(lab))
    f = lambda *a, **k: list(pf.order_cat(cat, *a, **k))
    return f, [], [("key", "area", "max_value"), ("reverse", True, False)]


@entry
def segm_mask():
    return pf.segm_mask, [[1], menu.segm(0)], [("mask_background", False, True)]


@entry
def masked_segm_image():
    return pf.masked_segm_image, [1, menu.image(0), menu.segm(0)], [("fill", None, -5.0), ("mask_background", False, True)]


@entry
def source_photometry():
    err = pattern(menu.SHAPE, 5, 0.1, 0.5)
    return drawn(pf.source_photometry), [menu.row(0, 1), menu.image(0), menu.segm(0), [1.0, 2.0, 4.0]], [
        ("error", None, err), ("cutout_size", None, 8), ("bg_sub", False, True), ("sigma", 3.0, 1.0), ("sigma_type", "clip", "bound"),
        ("method", "exact", "center"), ("mask_background", False, True), ("plot", False, True), ("vmin", 0, 2.0), ("vmax", None, 40.0), ("figsize", [12, 6], [8, 5])]


@entry
def source_photometry_background():
    f = lambda source, image, segm, r, error, cutout_size, *a, **k: pf.source_photometry(source, image, segm, r, error, cutout_size, True, *a, **k)
    err = pattern(menu.SHAPE, 5, 0.1, 0.5)
    return drawn(f), [menu.row(0, 1), menu.image(0), menu.segm(0), [1.0, 2.0, 4.0], err, 16], [
        ("sigma", 3.0, 1.0), ("sigma_type", "clip", "bound"), ("method", "exact", "center"), ("mask_background", False, True),
        ("plot", False, True), ("vmin", 0, 2.0), ("vmax", None, 40.0), ("figsize", [12, 6], [8, 5])]


@entry
def source_photometry_plotted():
    f = lambda *a, **k: pf.source_photometry(*a, plot=True, **k)
    return drawn(f), [menu.row(0, 1), menu.image(0), menu.segm(0), [1.0, 2.0, 4.0]], [
        ("error", None, None), ("cutout_size", None, 8), ("bg_sub", False, True), ("sigma", 3.0, 1.0), ("sigma_type", "clip", "bound"),
        ("method", "exact", "center"), ("mask_background", False, True), (None,), ("vmin", 0, 2.0), ("vmax", None, 40.0), ("figsize", [12, 6], [8, 5])]


@entry
def plot_segments():
    return drawn(pf.plot_segments), [menu.segm(0)], [
        ("image", None, menu.image(0)), ("vmin", None, 1.0), ("vmax", None, 40.0), ("alpha", 0.5, 0.25), ("title", None, "name")]


@entry
def plot_segment_residual():
    return drawn(pf.plot_segment_residual), [menu.segm(0), menu.image(0)], [("vmin", None, 1.0), ("vmax", None, 40.0)]


def corner(**last):
    r, a, f = menu.curve(0)
    return r, a, f, 0.02 * a, 0.01 * f + 0.1


@entry
def Petrosian():
    r, a, f, ae, fe = corner()
    names = ["r_petrosian", "r_petrosian_err", "r_total_flux", "r_total_flux_err", "r_half_light", "r_half_light_err", "total_flux", "total_flux_err", "eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "petrosian_list", "petrosian_err", "verbose", "interp_kind", "interp_num", "area_err", "flux_err"]
    return attributes(pf.Petrosian, names, "concentration_index"), [r, a, f], [
        ("area_err", None, ae), ("flux_err", None, fe), ("eta", 0.2, 0.35), ("epsilon", 2.0, 1.3), ("epsilon_fraction", 0.99, 0.9),
        ("total_flux_fraction", 0.99, 0.95), ("verbose", False, True), ("interp_kind", "cubic", "linear"), ("interp_num", 5000, 300)]


@entry
def Petrosian_concentration():
    return bound(menu.petrosian(0), "concentration_index"), [], [("fraction_1", 0.2, 0.3), ("fraction_2", 0.8, 0.7)]


@entry
def Petrosian_fraction():
    return bound(menu.petrosian(0), "fraction_flux_to_r"), [], [("fraction", 0.5, 0.3)]


@entry
def Petrosian_fraction_err():
    return bound(menu.petrosian(0), "fraction_flux_to_r_err"), [], [("fraction", 0.5, 0.3)]


PLOT = [("color", "tab:blue", "red"), ("err_alpha", 0.2, 0.6), ("err_capsize", 3, 7), ("show_legend", True, False), ("legend_fontsize", None, 7), ("ax_fontsize", None, 9), ("tick_fontsize", None, 6)]


@entry
def Petrosian_plot():
    return drawn(bound(menu.petrosian(0), "plot")), [], [("plot_r", True, False), ("title", "Petrosian Profile", "name"), ("radius_unit", "pix", "arcsec"), (None,)] + PLOT


@entry
def Petrosian_plot_cog():
    return drawn(bound(menu.petrosian(0), "plot_cog")), [], [("plot_r", True, False), ("title", "Curve of Growth", "name"), ("radius_unit", "pix", "arcsec"), ("flux_unit", "", "Jy"), (None,)] + PLOT


@entry
def Petrosian_imshow():
    return drawn(bound(menu.petrosian(0), "imshow")), [], [("position", (0, 0), (4, 5)), ("elong", 1.0, 1.5), ("theta", 0.0, 0.4), ("color", None, "red"), ("lw", None, 3.0)]


@entry
def calculate_petrosian():
    r, a, f, ae, fe = corner()
    return pf.calculate_petrosian, [a, f], [("area_err", None, ae), ("flux_err", None, fe)]


@entry
def calculate_petrosian_r():
    r, a, f, ae, fe = corner()
    p, e = pf.calculate_petrosian(a, f, ae, fe)
    return pf.calculate_petrosian_r, [r, p], [("petrosian_err", None, e), ("eta", 0.2, 0.35), ("interp_kind", "cubic", "linear"), ("interp_num", 5000, 300)]


@entry
def fraction_to_r():
    r, a, f, ae, fe = corner()
    return pf.fraction_to_r, [0.6, r, f, 14.5], [
        ("flux_err", None, fe), ("r_petrosian_err", None, 0.4), ("epsilon", 2.0, 1.3), ("epsilon_fraction", 0.99, 0.9), ("interp_kind", "cubic", "linear"), ("interp_num", 5000, 300)]


@entry
def calculate_concentration_index():
    r, a, f, ae, fe = corner()
    return pf.calculate_concentration_index, [0.2, 0.8, r, f, 14.5], [
        ("flux_err", None, fe), ("r_petrosian_err", None, 0.4), ("epsilon", 2.0, 1.3), ("epsilon_fraction", 0.99, 0.9), ("interp_kind", "cubic", "linear"), ("interp_num", 5000, 300)]


@entry
def PetrosianCorrection():
    r, a, f = menu.curve(0)
    far = pf.Petrosian(r * 100, a * 1e4, f)

    def one(fn, p):
        try:
            return fn(p)
        except AssertionError:
            return "refused"

    def f(*a, **k):
        c = pf.PetrosianCorrection(menu.grid(0), *a, **k)
        return [c.enforce_range] + [one(fn, p) for fn in (c.estimate_n, c.estimate_epsilon) for p in (far, menu.petrosian(0))]

    return f, [], [("enforce_range", True, False)]


@entry
def plot_correction():
    return drawn(bound(pf.PetrosianCorrection(menu.grid(0)), "plot_correction")), [menu.petrosian(0)], [
        ("cmap", "hot", "viridis"), ("target_c", "blue", "green"), ("cmap_key", "n", "u_epsilon"), ("colorbar_label", None, "name"), ("suptitle", None, "top")]


@entry
def fit_model():
    z = menu.sersic(0)(*np.meshgrid(np.arange(15.0), np.arange(14.0))) + pattern((14, 15), 3, -0.05, 0.05)
    w = pattern((14, 15), 4, 0.5, 1.5)

    def f(*a, **k):
        m, fit = pf.fit_model(z, models.Sersic2D(2.5, 2.0, 1.0, 7.0, 6.8, 0.1, 0.3, bounds={"n": (0.2, 8), "r_eff": (0.3, 20), "ellip": (0, 0.9)}), *a, **k)
        return [m, type(fit).__name__, fit.fit_info.get("param_cov"), bool(m.stds), fit.fit_info.get("nfev")]

    return f, [], [
        ("weights", None, w), ("fitter", fitting.TRFLSQFitter, fitting.DogBoxLSQFitter), ("maxiter", 5000, 3), ("calc_uncertainties", False, True),
        ("epsilon", float(np.sqrt(np.finfo(float).eps)), 1e-5), ("acc", 1e-07, 1e-2), ("estimate_jacobian", False, True)]


@entry
def model_to_image():
    return pf.model_to_image, [menu.sersic(0), (9, 7)], [("mode", "center", "linear_interp"), ("factor", 1, 3), ("center", None, (6, 5))]


@entry
def model_to_image_fine():
    return pf.model_to_image, [menu.sersic(0), (9, 7), "oversample"], [("factor", 1, 3), ("center", None, (6, 5))]


@entry
def fit_background():
    z = pattern((9, 8), 3, 0, 1) + 0.3 * np.arange(8)
    z[2, 3] += 9
    z[5, 1] += 3

    def f(*a, **k):
        m, fit = pf.fit_background(z, *a, **k)
        return [m, bool(m.stds), type(fit).__name__]

    return f, [], [
        ("model", models.Planar2D(slope_x=1.0, slope_y=1.0, intercept=0), models.Polynomial2D(2)), ("sigma", 3.0, 1.5), ("fitter", fitting.LinearLSQFitter, fitting.LMLSQFitter), ("calc_uncertainties", False, True)]


@entry
def measure_fwhm():
    yy, xx = np.mgrid[:21, :19]
    z = 5 * np.exp(-((xx - 9) ** 2 / 8 + (yy - 10) ** 2 / 18))
    return drawn(pf.measure_fwhm), [z], [("plot", True, False), ("printout", True, False)]


@entry
def plot_fit_():
    m = menu.sersic(0)
    im = m(*np.meshgrid(np.arange(15.0), np.arange(14.0))) + pattern((14, 15), 3, -0.05, 0.05)

    def f(*a, **k):
        return plot_fit(m, im, *a, **k)[2:]

    return drawn(f), [], [
        ("mode", "center", "linear_interp"), ("center", None, (9, 8)), ("vmin", None, 0.1), ("vmax", None, 3.0), ("cbar", True, False),
        ("fontsize", 18, 11), ("figsize", [18, 6], [12, 4]), ("flux_label", "Pixel Value", "name")]


@entry
def make_grid():
    return pf.make_grid, [4], [("origin", (0, 0), (2, 1)), ("factor", 1, 2)]


@entry
def PSFConvolvedModel2D():
    def f(*a, **k):
        m = pf.PSFConvolvedModel2D(menu.sersic(0), *a, **k)
        return [m.param_names, m.parameters, m.name, m.psf, m.oversample, m.psf_oversample, pf.model_to_image(m, (13, 15))]

    return f, [], [("psf", None, menu.PSF), ("oversample", None, ("x_0", "y_0", 6, 4)), ("psf_oversample", None, 2), ("name", None, "label")]


@entry
def GenSersic2D():
    # the shape may be given first, like the amplitude of other models
    def f(*a, **k):
        m = pf.GenSersic2D(*a, amplitude=3.0, r_eff=4.0, n=1.5, x_0=6.0, y_0=5.0, ellip=0.3, theta=0.4, **k)
        return [m.parameters, pf.model_to_image(m, (12, 11))]

    return f, [], [("c_0", 0, 0.4)]


@entry
def default_bounds():
    f = lambda *a, **k: [sorted((p, str(v)) for p, v in pf.get_default_sersic_bounds(*a, **k).items()), sorted((p, str(v)) for p, v in pf.get_default_gen_sersic_bounds(*a, **k).items())]
    return f, [], [("override", {}, {"n": (1, 2), "x_0": (0, 3)})]


@entry
def sersic_enclosed():
    return pf.sersic_enclosed, [np.array([1.0, 3.0, 9.0]), 2.0, 3.0, 1.7], [("ellip", 0, 0.4)]


@entry
def sersic_enclosed_inv():
    return pf.sersic_enclosed_inv, [np.array([1.0, 3.0, 9.0]), 2.0, 3.0, 1.7], [("ellip", 0, 0.4)]


@entry
def make_radius_list():
    return pf.make_radius_list, [20, 7], [("log", False, True)]


@entry
def closest_value_index():
    return pf.closest_value_index, [3.0, np.array([1.0, 4.0, 3.5, 2.0, 6.0])], [("growing", False, True)]


@entry
def get_interpolated_values():
    x = np.array([1.0, 2.0, 3.5, 5.0, 8.0, 9.0])
    return pf.get_interpolated_values, [x, np.sin(x)], [("num", 5000, 40), ("kind", "cubic", "linear")]


@entry
def match_catalogs():
    ra = np.array([10.0, 20.0, 30.0])
    dec = np.array([1.0, 2.0, -3.0])
    return pf.match_catalogs, [ra, dec, ra[::-1] + 0.1, dec[::-1]], [("unit", "deg", "arcmin")]


@entry
def plot_target():
    return drawn(pf.plot_target), [menu.image(0), (7, 8)], [
        ("size", None, 11), ("c", "r", "b"), ("lw", None, 3.0), ("vmin", None, 1.0), ("vmax", None, 40.0), ("marker_base_size", 2, 5)]


@entry
def mpl_tick_frame():
    def f(*a, **k):
        ax = plt.gca()
        plt.plot([0, 1], [0, 1])
        pf.mpl_tick_frame(*a, **k)
        return [float(ax.xaxis.get_major_ticks()[0].label1.get_fontsize()), len(ax.xaxis.get_minorticklocs()), len(ax.yaxis.get_minorticklocs())]

    return drawn(f), [], [("ax", None, None), ("minorticks", True, False), ("tick_fontsize", None, 5)]


@entry
def correction_grid():
    def f(*a, **k):
        path = os.path.join(os.environ["VP_SCRATCH"], "grid-{}.ecsv".format(os.getpid()))
        try:
            if "out_format" not in k and len(a) < 6:
                k["out_format"] = "ascii.ecsv"
            g = pf.generate_petrosian_sersic_correction(path, *a, **dict(k, n_cpu=1))
            return [Table.read(path, format="ascii.ecsv") if os.path.exists(path) else None, getattr(g, "grid", g)]
        finally:
            if os.path.exists(path):
                os.remove(path)

    return f, [], [
        ("psf", None, menu.PSF), ("r_eff_list", [8.0], [9.0]), ("n_list", [1.0], [1.5]), ("oversample", ("x_0", "y_0", 10, 50), ("x_0", "y_0", 10, 5)), ("psf_oversample", None, 1)]


REQUIRED = {"correction_grid": {"r_eff_list", "n_list"}}  # always given: the default lists are large
SLOW = {"correction_grid", "source_photometry_plotted", "make_catalog", "plot_fit_", "Petrosian_plot", "Petrosian_plot_cog", "plot_correction", "source_photometry", "radial_photometry_plotted", "source_photometry_background", "radial_photometry"}
WIDE = 1  # how many arguments may deviate together from the defaults in quick runs of slow functions


def parts(name):
    fn, req, opts = ROWS[name]()
    return fn, req, opts, [i for i, o in enumerate(opts) if o[0] is not None]


def bounds(tier):
    return "{} functions and methods: every subset of the optional arguments left out ({}), every optional argument alone at another value with every subset size left out, and every number of arguments given by position".format(
        len(ROWS), "slow ones: all subsets of up to 2 and complements in quick runs" if tier == "quick" else "all")


def subsets(ids, name, tier):
    if name in SLOW and tier == "quick" or len(ids) > 9:
        k = 1 if name == "correction_grid" else 2
        pick = [c for n in range(k + 1) for c in itertools.combinations(ids, n)]
        pick += [tuple(i for i in ids if i not in c) for n in range(k) for c in itertools.combinations(ids, n)]
        return sorted(set(pick))
    return [c for n in range(len(ids) + 1) for c in itertools.combinations(ids, n)]


def cases(tier):
    out = []
    for name in sorted(ROWS):
        ids = parts(name)[3]
        ids = [i for i in ids if parts(name)[2][i][0] not in REQUIRED.get(name, ())]
        sets = subsets(ids, name, tier)
        step = 4 if name in SLOW else 16
        if name == "correction_grid":
            step = 1
        for k in range(0, len(sets), step):
            out.append(("omit", name, [list(s) for s in sets[k : k + step]]))
        for i in ids:
            out.append(("one", name, i))
            out.append(("but", name, i))
        for k in range(1, len(parts(name)[2]) + 1):
            out.append(("place", name, k))
    return out


def go(t, fn, req, kw, extra=()):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            r, err = t.attempt(fn, *req, *extra, **kw)
            return menu.flatten(r) if err is None else ["refused: " + type(err).__name__]


def fresh(name):
    """New arguments every time: nothing may be left over from another call."""
    return parts(name)


def run(case, t):
    kind, name, what = case
    must = REQUIRED.get(name, ())
    fn, req, opts, ids = fresh(name)
    if kind == "omit":
        want = go(t, fn, req, {opts[i][0]: opts[i][1] for i in ids})
        t.check(not isinstance(want[0], str) or not want[0].startswith("refused"), "{} with its defaults: {}", name, want[0])
        for left in what:
            fn, req, opts, ids = fresh(name)
            got = go(t, fn, req, {opts[i][0]: opts[i][1] for i in ids if i not in left})
            d = menu.differ(got, want)
            t.check(d is None, "{} without {}: {}", name, [opts[i][0] for i in left], d)
            t.state(name, left)
    elif kind == "one":
        # this argument at another value, all others given or left out
        kw = {opts[i][0]: opts[i][1] for i in ids}
        kw[opts[what][0]] = opts[what][2]
        want = go(t, fn, req, kw)
        fn, req, opts, ids = fresh(name)
        kw = {opts[i][0]: opts[i][1] for i in ids if opts[i][0] in must}
        kw[opts[what][0]] = opts[what][2]
        got = go(t, fn, req, kw)
        d = menu.differ(got, want)
        t.check(d is None, "{} with only {}: {}", name, opts[what][0], d)
        fn, req, opts, ids = fresh(name)
        base = go(t, fn, req, {opts[i][0]: opts[i][1] for i in ids})
        t.outcome(name, opts[what][0], menu.differ(base, want) is None)
        t.state(case)
    elif kind == "but":
        # this argument left out or at its default, all others at other values
        got = []
        for left in (True, False):
            fn, req, opts, ids = fresh(name)
            kw = {opts[i][0]: opts[i][2] for i in ids}
            kw[opts[what][0]] = opts[what][1]
            if left:
                del kw[opts[what][0]]
            got.append(go(t, fn, req, kw))
        d = menu.differ(*got)
        t.check(d is None, "{} without {}, everything else at another value: {}", name, opts[what][0], d)
        t.state(case)
    else:
        # the first arguments by position, with all at other values, or as they are by default
        gaps = [i for i, o in enumerate(opts[:what]) if o[0] is None]
        if gaps:
            what = gaps[0]
        for col in (1, 2):
            fn, req, opts, ids = fresh(name)
            want = go(t, fn, req, {opts[i][0]: opts[i][col] for i in ids})
            fn, req, opts, ids = fresh(name)
            got = go(t, fn, req, {opts[i][0]: opts[i][col] for i in ids if i >= what}, [o[col] for o in opts[:what]])
            d = menu.differ(got, want)
            t.check(d is None, "{} with its first {} optional arguments by position: {}", name, what, d)
        t.state(case)
