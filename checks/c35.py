"""Measurements of shifted, flipped and turned images."""
import itertools
import warnings

import numpy as np

from astropy.modeling import fitting, models
from photutils.segmentation import SegmentationImage, SourceCatalog

import petrofit as pf
from mc.oracles import pattern
from petrofit.modeling.fitting import fit_gaussian2d
from petrofit.modeling.models import CoreSersic2D

ID = "C35"
ASSUMPTIONS = [
    "the eight symmetries of the pixel grid and whole-pixel shifts; other angles would resample the image",
    "backgrounds are exact planes and convolved images are square, so that results may not depend on the (asymmetric) even-sized footprint of a cutout or on the flux just outside the image",
]

# (matrix acting on (x, y)): the symmetries of a square
SYM = [((1, 0), (0, 1)), ((0, -1), (1, 0)), ((-1, 0), (0, -1)), ((0, 1), (-1, 0)),
       ((-1, 0), (0, 1)), ((1, 0), (0, -1)), ((0, 1), (1, 0)), ((0, -1), (-1, 0))]


class Move:
    """A symmetry followed by padding: low is the number of new rows and columns before the image."""

    def __init__(self, sym, low, high, shape):
        self.m = np.array(SYM[sym])
        self.low = np.array(low)
        ny, nx = shape
        ends = np.array([self.m @ p for p in ((0, 0), (nx - 1, ny - 1))])
        self.b = -ends.min(0) + self.low
        size = ends.max(0) - ends.min(0) + 1 + self.low + np.array(high)
        self.shape = (int(size[1]), int(size[0]))
        self.size = (int(size[0]), int(size[1]))

    def image(self, z, fill=0):
        z = np.asarray(z)
        out = np.full(self.shape, fill, dtype=z.dtype)
        ny, nx = z.shape
        yy, xx = np.mgrid[:ny, :nx]
        X = self.m[0, 0] * xx + self.m[0, 1] * yy + self.b[0]
        Y = self.m[1, 0] * xx + self.m[1, 1] * yy + self.b[1]
        out[Y, X] = z
        return out

    def point(self, x, y):
        p = self.m @ np.array([x, y], float) + self.b
        return float(p[0]), float(p[1])

    def pixel(self, x, y):
        p = self.m @ np.array([int(x), int(y)]) + self.b
        return int(p[0]), int(p[1])

    def angle(self, theta):
        v = self.m @ np.array([np.cos(theta), np.sin(theta)])
        return float(np.arctan2(v[1], v[0]))

    @property
    def turns(self):
        return self.m[0, 0] == 0

    @property
    def mirror(self):
        return self.m[0, 0] * self.m[1, 1] - self.m[0, 1] * self.m[1, 0] < 0


def axial(t, got, want, what, tol=1e-7):
    """Angles (rad) of an axis: equal up to half turns."""
    d = (float(got) - float(want)) % np.pi
    t.check(min(d, np.pi - d) < tol, "{}: angle {} instead of {}", what, got, want)


BLOBS = {
    # amplitude, x, y, sx, sy, covariance
    "three": [(80, 9, 10, 3.0, 1.7, 0.35), (60, 24, 18, 1.6, 2.6, -0.2), (40, 29, 18, 1.5, 1.4, 0.1)],
    "one": [(90, 17, 12, 3.3, 1.9, -0.4)],
    "edge": [(70, 2, 13, 2.2, 3.1, 0.3), (65, 31, 21, 2.9, 1.8, 0.25)],
}
SHAPE = (25, 34)


def scene(name):
    yy, xx = np.mgrid[: SHAPE[0], : SHAPE[1]]
    z = pattern(SHAPE, 5, 0, 1)
    for a, x, y, sx, sy, c in BLOBS[name]:
        z = z + a * np.exp(-(((xx - x) / sx) ** 2 + ((yy - y) / sy) ** 2 - 2 * c * (xx - x) * (yy - y) / sx / sy) / 2)
    return z


def labels(name):
    return pf.make_segments(scene(name), npixels=4, threshold=12).data


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


@op
def photometry(t, s, g):
    z = scene(s)
    good = pattern(SHAPE, 7, 0, 1) > 0.05
    err = pattern(SHAPE, 9, 0.1, 1)
    x, y = 16.3, 11.7
    for method, elong, theta in itertools.product(("exact", "center", "subpixel"), (1.0, 1.9), (0.0, 0.6, 1.9)):
        rs = [1.5, 4.2, 9.7, 19.3]
        a = t.call(pf.radial_photometry, z, (x, y), rs, error=err, mask=good, elong=elong, theta=theta, method=method)
        b = t.call(pf.radial_photometry, g.image(z), g.point(x, y), rs, error=g.image(err), mask=g.image(good, False), elong=elong, theta=g.angle(theta), method=method)
        for k, what in enumerate(("flux", "area", "error")):
            t.same(b[k], a[k], "{} ({}, elongation {}, angle {})".format(what, method, elong, theta), rtol=1e-8, atol=3e-6)
    for f, extra in ((pf.radial_elliptical_aperture, ()), (pf.radial_elliptical_annulus, (2.5,))):
        a = t.call(f, (x, y), 4.2, *extra, elong=1.7, theta=0.6).to_mask(method="exact").to_image(SHAPE)
        b = t.call(f, g.point(x, y), 4.2, *extra, elong=1.7, theta=g.angle(0.6)).to_mask(method="exact").to_image(g.shape)
        t.same(b, g.image(a), f.__name__, atol=1e-9)


def same_regions(t, got, want, what):
    """The same partition of the pixels, whatever the numbers of the regions."""
    pairs = set(zip(np.ravel(got).tolist(), np.ravel(want).tolist()))
    t.check(len({a for a, _ in pairs}) == len(pairs) == len({b for _, b in pairs}), "{}: other regions: {}", what, sorted(pairs))
    t.check((0, 0) in pairs, "{}: no background", what)


@op
def segments(t, s, g):
    z = scene(s)
    thr2 = 10 + 5 * pattern(SHAPE, 2, 0, 1)
    for n, thr in ((4, 12.0), (1, 30.0), (9, thr2)):
        a = t.call(pf.make_segments, z, npixels=n, threshold=thr)
        b = t.call(pf.make_segments, g.image(z), npixels=n, threshold=thr if np.isscalar(thr) else g.image(thr, 12.0))
        same_regions(t, b.data, g.image(a.data), "segments")
    a = pf.make_segments(z, npixels=4, threshold=12.0)
    c = t.call(pf.deblend_segments, z, a, npixels=4, nlevels=12, contrast=0.01)
    d = t.call(pf.deblend_segments, g.image(z), SegmentationImage(g.image(a.data)), npixels=4, nlevels=12, contrast=0.01)
    same_regions(t, d.data, g.image(c.data), "deblended segments")


COLS = ["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"]


@op
def catalog(t, s, g):
    z = scene(s)
    for deblend in (True, False):
        a, b = [t.call(pf.make_catalog, im, 12.0, deblend=deblend, npixels=4, plot=False) for im in (z, g.image(z))]
        t.equal(len(b[0]), len(a[0]), "number of sources")
        ra, rb = a[0].to_table(), b[0].to_table()
        oa, ob = [t.call(pf.order_cat, c[0], key="segment_flux") for c in (a, b)]
        for i, j in zip(oa, ob):
            for get in (lambda c, k: c[k], lambda c, k: c.to_table(columns=COLS)[k]):
                sa, sb = get(a[0], int(i)), get(b[0], int(j))
                t.equal(tuple(int(v) for v in pf.get_source_position(sb)), g.pixel(*pf.get_source_position(sa)), "position")
                t.same(np.ravel(pf.get_source_elong(sb)), np.ravel(pf.get_source_elong(sa)), "elongation", rtol=1e-7)
                t.same(np.ravel(pf.get_source_ellip(sb)), np.ravel(pf.get_source_ellip(sa)), "ellipticity", rtol=1e-7, atol=1e-8)
                ta, tb = [float(np.ravel(getattr(v, "value", v))[0]) for v in map(pf.get_source_theta, (sa, sb))]
                axial(t, tb, g.angle(ta), "theta", 1e-6)
            la, lb = int(ra["label"][int(i)]), int(rb["label"][int(j)])
            for bg in (False, True):
                m = [t.call(pf.segm_mask, l, c[2] if deblend else c[1], mask_background=bg) for l, c in ((la, a), (lb, b))]
                t.check(np.array_equal(m[1], g.image(m[0], not bg)), "mask of source {}", la)
                m = [t.call(pf.masked_segm_image, l, im, c[2] if deblend else c[1], fill=-1.0, mask_background=bg) for l, im, c in ((la, z, a), (lb, g.image(z), b))]
                t.same(m[1], g.image(m[0], -1.0 if bg else 0.0), "masked image of source {}".format(la))


@op
def source(t, s, g):
    z = scene(s)
    err = pattern(SHAPE, 9, 0.1, 1)
    a, b = [t.call(pf.make_catalog, im, 12.0, deblend=False, npixels=4, plot=False) for im in (z, g.image(z))]
    oa, ob = [pf.order_cat(c[0], key="segment_flux") for c in (a, b)]
    rs = [1.5, 3.2, 5.7, 8.4]
    # pixels that no catalog has seen are not part of the original image: they are masked by NaN in both
    for i, j in zip(oa, ob):
        for k, (mb, method) in enumerate(itertools.product((False, True), ("exact", "center"))):
            args = dict(method=method, mask_background=mb, cutout_size=(20, 41, 60)[k % 3])
            u_ = t.call(pf.source_photometry, a[0][int(i)], z, a[1], rs, error=err, **args)
            v_ = t.call(pf.source_photometry, b[0][int(j)], g.image(z, np.nan), b[1], rs, error=g.image(err), **args)
            for k, what in enumerate(("flux", "area", "error")):
                t.same(v_[k], u_[k], "{} of a source ({})".format(what, args), rtol=1e-8, atol=3e-6)


@op
def plane(t, s, g):
    """A plane below the sources is subtracted."""
    yy, xx = np.mgrid[: SHAPE[0], : SHAPE[1]]
    below = 3.0 + 0.11 * xx - 0.07 * yy
    lab = labels(s)
    z = np.where(lab > 0, scene(s), 0) + below
    Y, X = np.mgrid[: g.shape[0], : g.shape[1]]
    gx, gy = g.m @ np.array([0.11, -0.07])
    x0, y0 = g.point(0, 0)
    new = 3.0 + gx * (X - x0) + gy * (Y - y0) + g.image(np.where(lab > 0, scene(s), 0))
    t.same(g.image(z, np.nan)[g.image(np.ones(SHAPE, bool), False)], new[g.image(np.ones(SHAPE, bool), False)], "the plane of the oracle")
    f = t.call(pf.fit_background, g.image(np.where(lab > 0, np.nan, below), np.nan))[0]
    t.same([f.slope_x.value, f.slope_y.value, f(*g.point(0, 0))], [gx, gy, 3.0], "plane", rtol=1e-7)
    sa, sb = SegmentationImage(lab), SegmentationImage(g.image(lab))
    ca, cb = SourceCatalog(scene(s), sa), SourceCatalog(g.image(scene(s)), sb)
    rs = [1.5, 3.2, 5.7, 8.4]
    for n in range(len(ca)):
        at = np.argmin([abs(np.subtract(g.pixel(*pf.get_source_position(ca[n])), pf.get_source_position(cb[m]))).sum() for m in range(len(cb))])
        for how in (dict(sigma=3.0), dict(sigma=200.0, sigma_type="bound")):
            p = t.call(pf.source_photometry, ca[n], z, sa, rs, bg_sub=True, cutout_size=24, **how)
            q = t.call(pf.source_photometry, cb[int(at)], g.image(z, np.nan), sb, rs, bg_sub=True, cutout_size=24, **how)
            for k, what in enumerate(("flux", "area")):
                t.same(q[k], p[k], "{} above a plane ({})".format(what, how), rtol=1e-7, atol=3e-5)


@op
def petrosian(t, s, g):
    z = scene(s) + 0.5
    x, y = [(b[1], b[2]) for b in BLOBS[s]][0]
    rs = np.arange(1, 11, 0.75)
    out = []
    for im, pos, th in ((z, (x, y), 0.7), (g.image(z, -1), g.point(x, y), g.angle(0.7))):
        f, a, e = t.call(pf.radial_photometry, im, pos, rs, error=im * 0.01 + 0.1, elong=1.4, theta=th, mask=im > -1)
        p = t.call(pf.Petrosian, rs, a, f, flux_err=e)
        out.append([p.r_petrosian, p.r_petrosian_err, p.r_half_light, p.r_total_flux, p.total_flux, p.c2080, p.concentration_index(0.3, 0.7)[2]])
    t.same(out[1], out[0], "Petrosian quantities", rtol=1e-6, atol=1e-6)


MODELS = {
    "sersic": lambda x, y, th: models.Sersic2D(3.0, 4.1, 1.6, x, y, 0.35, th),
    "gauss": lambda x, y, th: models.Gaussian2D(5.0, x, y, 3.3, 1.9, th),
    "boxy": lambda x, y, th: pf.GenSersic2D(amplitude=3.0, r_eff=4.1, n=1.6, x_0=x, y_0=y, ellip=0.35, theta=th, c_0=0.7),
    "nuker": lambda x, y, th: pf.Nuker2D(3.0, 3.0, x, y, alpha=2.0, betta=3.0, gamma=0.3),
    "core": lambda x, y, th: CoreSersic2D(amplitude=3.0, r_eff=4.1, n=1.4, x_0=x, y_0=y, alpha=2.0, gamma=0.2, r_break=2.2, ellip=0.3, theta=th),
    "moffat": lambda x, y, th: models.Moffat2D(4.0, x, y, 2.0, 2.5),
    "sum": lambda x, y, th: models.Sersic2D(3.0, 4.1, 1.6, x, y, 0.35, th) + models.Gaussian2D(5.0, x, y, 3.3, 1.9, th),
}


@op
def images(t, s, g):
    """Images of turned models."""
    x, y, th = 15.3, 11.2, 0.7
    size = (SHAPE[1], SHAPE[0])
    inner = g.image(np.ones(SHAPE, bool), False)
    for name, make in MODELS.items():
        for mode, factor in (("center", 1), ("oversample", 3), ("linear_interp", 1)):
            a = t.call(pf.model_to_image, make(x, y, th), size, mode=mode, factor=factor)
            b = t.call(pf.model_to_image, make(*g.point(x, y), g.angle(th)), g.size, mode=mode, factor=factor)
            t.same(b[inner], g.image(a)[inner], "image of {} ({})".format(name, mode), rtol=1e-7)
        if not g.low.any():
            # an odd image has a centre pixel
            a = t.call(pf.model_to_image, make(x, y, th), (21, 13), center=(14, 10))
            cx, cy = g.pixel(14, 10)
            b = t.call(pf.model_to_image, make(*g.point(x, y), g.angle(th)), (13, 21) if g.turns else (21, 13), center=(cx, cy))
            h = Move(SYM.index(tuple(map(tuple, g.m.tolist()))), (0, 0), (0, 0), (13, 21))
            t.same(b, h.image(a), "image of {} around a pixel".format(name), rtol=1e-7)


PSF = np.array([[0, 2, 1], [1, 6, 0], [0.5, 3, 1]]) / 14.5


@op
def convolved(t, s, g):
    """Convolved and oversampled images, with the point spread function turned too."""
    side = 27
    sym = SYM.index(tuple(map(tuple, g.m.tolist())))
    h = Move(sym, (0, 0), (0, 0), (side, side))
    turn = Move(sym, (0, 0), (0, 0), PSF.shape)
    x, y, th = 14.3, 12.2, 0.7
    o = g.low.astype(float) * 3
    yy, xx = np.mgrid[:side, :side]
    for name in ("sersic", "boxy", "sum"):
        for over, pover, pa in ((None, None, 0.0), (2, None, 0.0), (4, 2, 0.0), (("at", 9, 4), None, 0.0), (("name", 7, 6), 2, 0.0), (None, None, 25.0)):
            def build(x, y, th, psf, pa):
                ov = over
                base = MODELS[name](x, y, th)
                if isinstance(over, tuple):
                    suffix = "_0" if name == "sum" else ""
                    ov = (x, y) + over[1:] if over[0] == "at" else ("x_0" + suffix, "y_0" + suffix) + over[1:]
                m = pf.PSFConvolvedModel2D(base, psf=psf, oversample=ov, psf_oversample=pover)
                m.psf_pa = pa
                return m
            a = t.call(t.call(build, x, y, th, PSF, pa), xx, yy)
            px, py = h.point(x, y)
            b = t.call(t.call(build, px + o[0], py + o[1], h.angle(th), turn.image(PSF), -pa if g.mirror else pa), xx + o[0], yy + o[1])
            t.same(b, h.image(a), "convolved image of {} ({}, {}, {})".format(name, over, pover, pa), rtol=1e-6, atol=1e-8)


@op
def fits(t, s, g):
    x, y, th = 15.3, 11.2, 0.7
    for name, fitter in (("sersic", fitting.TRFLSQFitter), ("sersic", fitting.LevMarLSQFitter), ("gauss", fitting.LMLSQFitter)):
        z = pf.model_to_image(MODELS[name](x, y, th), (SHAPE[1], SHAPE[0])) + 0.02 * pattern(SHAPE, 3, -1, 1)
        w = pattern(SHAPE, 4, 0.5, 1.5)
        z[4:6, 3:9] = np.nan
        par = []
        for im, ww, (px, py), ang in ((z, w, (x, y), th), (g.image(z, np.nan), g.image(w, 1.0), g.point(x, y), g.angle(th))):
            m = MODELS[name](px + 0.0, py, ang)
            m.amplitude = 2.0
            f = t.call(pf.fit_model, im, m, weights=ww, fitter=fitter, acc=1e-12)[0]
            par.append(dict(zip(f.param_names, f.parameters)))
        a, b = par
        for k in a:
            if k in ("x_0", "x_mean", "y_0", "y_mean"):
                continue
            if k == "theta":
                axial(t, b[k], g.angle(a[k]), "fitted angle of " + name, 2e-4)
            else:
                t.same(b[k], a[k], "fitted {} of {}".format(k, name), rtol=2e-4)
        kx, ky = ("x_0", "y_0") if "x_0" in a else ("x_mean", "y_mean")
        t.same((b[kx], b[ky]), g.point(a[kx], a[ky]), "fitted centre of " + name, atol=1e-3)


@op
def widths(t, s, g):
    """Widths along the axes: a turn swaps them (the target has to be centred)."""
    g = Move(SYM.index(tuple(map(tuple, g.m.tolist()))), *((g.low.max() // 2,) * 2,) * 2, SHAPE)
    yy, xx = np.mgrid[: SHAPE[0], : SHAPE[1]]
    z = 7 * np.exp(-(((xx - 16.2) / 3.4) ** 2 + ((yy - 12.4) / 2.1) ** 2) / 2)
    sx, sy = np.array([3.4, 2.1]) * 2 * np.sqrt(2 * np.log(2))
    got = t.call(pf.measure_fwhm, g.image(z, np.nan), plot=False, printout=False)
    t.same(got, (sy, sx) if g.turns else (sx, sy), "widths", rtol=1e-4)
    f = t.call(fit_gaussian2d, g.image(z, np.nan))
    t.same((f.x_mean.value, f.y_mean.value), g.point(16.2, 12.4), "centre", atol=1e-4)


@op
def amplitude(t, s, g):
    x, y, th = 15.0, 12.0, 0.7
    z = pf.model_to_image(MODELS["sersic"](x, y, th), (SHAPE[1], SHAPE[0]), mode="oversample", factor=5)
    for r in (3.0, 4.1, 6.0):
        a = t.call(pf.get_amplitude_at_r, r, z, x, y, 0.35, th)
        ang = g.angle(th) % np.pi
        b = t.call(pf.get_amplitude_at_r, r, g.image(z), *g.point(x, y), 0.35, ang)
        t.same(b, a, "amplitude at radius {}".format(r), rtol=5e-3)


@op
def cutout(t, s, g):
    z = scene(s)
    for shape, (x, y) in itertools.product(((5, 3), (7, 7), (31, 9)), ((12, 9), (0, 3), (33, 24), (17, 12))):
        k = pattern(shape, 6, 1, 2)
        sym = SYM.index(tuple(map(tuple, g.m.tolist())))
        turn = Move(sym, (0, 0), (0, 0), shape)
        a = t.call(pf.cutout_subtract, z, k, x, y)
        b = t.call(pf.cutout_subtract, g.image(z), turn.image(k), *g.pixel(x, y))
        inner = g.image(np.ones(SHAPE, bool), False)
        t.same(b[inner], g.image(a)[inner], "image without a cutout of {} at {}".format(shape, (x, y)))


PADS = [((0, 0), (0, 0)), ((3, 8), (5, 0)), ((0, 11), (2, 4)), ((1, 1), (0, 0)), ((40, 2), (0, 33)), ((7, 6), (6, 7))]
SCENES = {"photometry": ["three", "edge"], "segments": list(BLOBS), "catalog": list(BLOBS), "source": list(BLOBS), "plane": ["one", "three"], "petrosian": list(BLOBS), "cutout": ["three"]}


def bounds(tier):
    return "{} groups of operations, all 8 symmetries of the pixel grid, {} paddings (whole-pixel shifts), up to 3 images".format(len(OPS), 3 if tier == "quick" else len(PADS))


def cases(tier):
    pads = range(3 if tier == "quick" else len(PADS))
    return [[name, s, k, p] for name in OPS for s in SCENES.get(name, ["one"]) for k in range(len(SYM)) for p in pads if (k, p) != (0, 0)]


def run(case, t):
    warnings.simplefilter("ignore")
    name, s, k, p = case
    g = Move(k, *PADS[p], SHAPE)
    OPS[name](t, s, g)
    t.state(name, s, k, p)
    t.outcome(g.shape, g.point(3, 5))
