"""Background subtraction."""
import numpy as np

from astropy.modeling import fitting, models
from astropy.nddata import CCDData
from astropy.stats import sigma_clip, sigma_clipped_stats
from photutils.segmentation import SegmentationImage, SourceCatalog

from mc import core
from mc.oracles import ellipse_overlap, pattern
from petrofit import fit_background, model_to_image, source_photometry

ID = "C05"
NY, NX = 19, 24
AX = dict(
    pos=[(11, 9), (3, 9), (0, 0), (21, 17), (11, 18)],
    plane=[(0, 0, 5.0), (0.3, -0.2, 5.0), (0, 0, -3), (-0.05, 0.8, 100.0), (0, 0, 0)],
    noise=[0.5, 0.0, 5.0],
    outliers=[0, 3, -3, 40],
    neighbour=[True, False],
    sigma=[3.0, 1.5, 2, 0.7, 5.0, 60.0],
    stype=["clip", "bound", "CLIP", "Bound"],
    cutout=[None, 12, 15, 50],
    bg=[False, True],
    error=[False, True],
    method=["exact", "center"],
    container=["array", "ccd"],
    dtype=["f8", "f4"],
    r=[[2, 4, 5.5], [3], [6, 1]],
    nan=[False, True],
    plot=[False, True],
)
BASE = {k: v[0] for k, v in AX.items()}
ASSUMPTIONS = ["astropy's sigma_clip and sigma_clipped_stats define the clipping"]


def bounds(tier):
    return ("scenes of 19x24 pixels within {} deviations of a base scene over {} axes, plus the full product position x plane x sigma x type; "
            "direct background fits over the same planes; all counts of background pixels around the limit of ten").format(
        2 if tier == "quick" else 3, len(AX))


def cases(tier):
    out = [("s", c) for c in core.deviations(BASE, AX, 2 if tier == "quick" else 3)]
    full = core.product(pos=AX["pos"], plane=AX["plane"][:4], sigma=AX["sigma"], stype=["clip", "bound"],
                        cutout=[None, 12], noise=[0.5, 5.0])
    out += [("s", dict(BASE, **c)) for c in full]
    out += [("s", dict(BASE, **c)) for c in core.product(
        outliers=[3, -3], sigma=[3.0, 4.0, 5.0, 8.0, 30.0, 70.0], stype=["clip", "bound"], noise=[0.5, 5.0], cutout=[12, 50], plane=AX["plane"][:2])]
    out += [("few", n, st) for n in range(6, 16) for st in ("clip", "bound")]
    out += [("badtype", s) for s in ("median", "", "clipp", "none")]
    out += [("fit", c) for c in core.product(
        shape=[(9, 9), (7, 12), (13, 6)], plane=AX["plane"], noise=[0.0, 0.5, 4.0], sigma=[None, 3.0, 1.5, 2],
        nan=[False, True], model=["default", "planar", "quadratic"], fitter=["linear", "lm", "trf"])
        if not (c["fitter"] != "linear" and c["model"] == "quadratic")]
    return out


def lstsq(img, ok, deg=1):
    j, i = np.nonzero(ok)
    terms = lambda i, j: [i, j, np.ones(np.shape(i))] + ([i * i, j * j, i * j] if deg == 2 else [])
    a = np.stack([np.asarray(v, float) for v in terms(i, j)], -1)
    co, *_ = np.linalg.lstsq(a, img[ok].astype(float), rcond=None)
    J, I = np.mgrid[: img.shape[0], : img.shape[1]].astype(float)
    return sum(c * v for c, v in zip(co, terms(I, J)))


def plane_image(shape, plane, noise, k=3):
    j, i = np.mgrid[: shape[0], : shape[1]].astype(float)
    img = plane[0] * i + plane[1] * j + plane[2]
    p = pattern(shape, k, -1.0, 1.0)
    return img + noise * (p - p.mean())


def run(case, t):
    if case[0] == "s":
        return run_scene(case[1], t)
    if case[0] == "fit":
        return run_fit(case[1], t)
    if case[0] == "few":
        return run_few(case[1], case[2], t)
    img = plane_image((15, 15), (0.1, 0, 2), 0.5)
    lab = np.zeros((15, 15), int)
    lab[6:9, 6:9] = 1
    src = SourceCatalog(img, SegmentationImage(lab))[0]
    t.rejects(source_photometry, "unknown clipping type", src, img, SegmentationImage(lab), [2, 3],
              bg_sub=True, sigma_type=case[1])


def expected(img, lab, x0, y0, n, bg, sigma, stype, dt):
    """Subtracted cutout frame: value, validity; in cutout coordinates."""
    pad = n + 2
    big = np.full((img.shape[0] + 2 * pad, img.shape[1] + 2 * pad), np.nan)
    big[pad:-pad, pad:-pad] = img
    blab = np.full(big.shape, -1)
    blab[pad:-pad, pad:-pad] = lab
    sl = np.s_[y0 + pad - n // 2: y0 + pad + n // 2, x0 + pad - n // 2: x0 + pad + n // 2]
    cut, cl = big[sl].astype(dt), blab[sl]
    stats = np.where(cl == 0, cut, np.nan).astype(dt)
    me = np.where(np.isin(cl, [3] if bg else [0, 3]), cut, np.nan).astype(float)
    if np.isfinite(stats).sum() <= 10:
        return me
    if stype.lower() == "clip":
        sc = sigma_clip(stats, sigma)
        ok = ~(np.ma.getmaskarray(sc) | np.isnan(stats))
    else:
        mean, _, _ = sigma_clipped_stats(stats, sigma=3, mask=np.isnan(stats))
        with np.errstate(invalid="ignore"):
            ok = np.isfinite(stats) & ~(stats > mean + sigma) & ~(stats < mean - sigma)
    if ok.sum() < 8:
        return None  # the clipping leaves no background to fit
    me = me - lstsq(stats, ok)
    if stype.lower() == "bound":
        me = np.clip(me, -sigma, np.inf)
    return me


def run_scene(c, t):
    x, y = c["pos"]
    lab = np.zeros((NY, NX), int)
    lab[max(y - 1, 0): y + 2, max(x - 1, 0): x + 3] = 3
    if c["neighbour"]:
        lab[(y + 6) % NY, (x + 5) % NX] = 1
        q = lab[(y + 4) % NY: (y + 4) % NY + 2, (x + 6) % NX: (x + 6) % NX + 2]
        q[q == 0] = 7
    img = plane_image((NY, NX), c["plane"], c["noise"])
    img[lab > 0] += 300.0
    img[lab == 3] += pattern((NY, NX), 9, 0, 40)[lab == 3]
    if c["outliers"]:
        j, i = np.mgrid[:NY, :NX]
        o = ((i * 3 + j * 5) % 17 == 4) & (lab == 0)
        # (40: outliers of several sizes, which only repeated clipping removes)
        img[o] += c["outliers"] * 20 if c["outliers"] != 40 else (np.array([8.0, 40.0, 200.0])[(i + j) % 3] * 4)[o]
    img = img.astype(c["dtype"])
    seg = SegmentationImage(lab.copy())
    cat = SourceCatalog(img.astype(float), seg)
    src = cat.get_label(3)
    if c["nan"]:
        j, i = np.mgrid[:NY, :NX]
        img[((i + 2 * j) % 6 == 0) & (lab == 0)] = np.nan
    x0, y0 = int(np.ravel(src.maxval_xindex)[0]), int(np.ravel(src.maxval_yindex)[0])
    elong = float(np.ravel(src.elongation.value)[0])
    theta = float(np.ravel(src.orientation.to("rad").value)[0])
    err = pattern((NY, NX), 5, 0.1, 1) if c["error"] else None
    image = CCDData(img.copy(), unit="adu") if c["container"] == "ccd" else img
    keep = img.copy()
    n = int(np.ceil(max(c["r"]) * 3)) if c["cutout"] is None else c["cutout"]
    n += n % 2
    if c["plot"]:
        from matplotlib import pyplot as plt

        plt.close("all")
    flux, area, error = t.call(
        source_photometry, src, image, seg, c["r"], error=err, cutout_size=c["cutout"], bg_sub=True, sigma=c["sigma"],
        sigma_type=c["stype"], method=c["method"], mask_background=c["bg"], plot=c["plot"])
    if c["plot"]:
        plt.close("all")
    me = expected(img, lab, x0, y0, n, c["bg"], c["sigma"], c["stype"], c["dtype"])
    if me is None:
        t.outcome("degenerate")
        return
    good = np.isfinite(me)
    wf, wa, ok = [], [], []
    for r in c["r"]:
        w, tie = ellipse_overlap(me.shape, n / 2, n / 2, r, r / elong, theta, c["method"])
        ok.append(not tie.any())
        wf.append((w * np.where(good, me, 0)).sum())
        wa.append((w * good).sum())
    ok = np.array(ok)
    f4 = c["dtype"] == "f4"
    t.same(np.asarray(area)[ok], np.array(wa)[ok], "area", rtol=1e-7, atol=1e-4 if f4 else 2e-6)
    t.same(np.asarray(flux)[ok], np.array(wf)[ok], "background subtracted flux", rtol=1e-4 if f4 else 1e-7, atol=0.2 if f4 else 1e-5)
    cur = image if isinstance(image, np.ndarray) else image.data
    t.check(np.array_equal(cur, keep, equal_nan=True), "the image was modified")
    t.check(np.array_equal(seg.data, lab), "the segmentation was modified")
    t.outcome(flux)


def run_few(nbg, stype, t):
    """Scene with exactly nbg background pixels in the cutout."""
    lab = np.full((9, 9), 1)
    lab[3:6, 3:6] = 3
    flat = [(0, i) for i in range(8)] + [(8, i) for i in range(8)]
    for j, i in flat[:nbg]:
        lab[j, i] = 0
    img = plane_image((9, 9), (0.5, 0.2, 10), 0.3)
    img[lab > 0] += 100
    img[4, 4] += 50
    seg = SegmentationImage(lab)
    src = SourceCatalog(img, seg).get_label(3)
    flux, area, _ = t.call(source_photometry, src, img, seg, [1.2], cutout_size=20, bg_sub=True, sigma=5.0, sigma_type=stype)
    me = expected(img, lab, 4, 4, 20, False, 5.0, stype, "f8")
    w, tie = ellipse_overlap(me.shape, 10, 10, 1.2, 1.2 / float(src.elongation.value), float(src.orientation.to("rad").value))
    t.same(flux, [(w * np.where(np.isfinite(me), me, 0)).sum()], "flux with {} background pixels".format(nbg), rtol=1e-7)
    plain, _, _ = t.call(source_photometry, src, img, seg, [1.2], cutout_size=20)
    t.check(np.isclose(flux[0], plain[0], rtol=1e-12) == (nbg <= 10), "subtraction with {} background pixels", nbg)
    t.outcome(nbg, stype, flux)


def run_fit(c, t):
    img = plane_image(c["shape"], c["plane"], c["noise"])
    j, i = np.mgrid[: img.shape[0], : img.shape[1]]
    if c["sigma"] is not None:
        img[(i * 3 + j * 5) % 13 == 2] += 500
    if c["nan"]:
        img[(i + j) % 5 == 1] = np.nan
    keep = img.copy()
    ok = np.isfinite(img)
    if c["sigma"] is not None:
        ok &= ~np.ma.getmaskarray(sigma_clip(img, c["sigma"]))
    kw = dict(sigma=c["sigma"])
    if c["model"] == "planar":
        kw["model"] = models.Planar2D(1, 1, 1)
    elif c["model"] == "quadratic":
        kw["model"] = models.Polynomial2D(2)
    if c["fitter"] != "linear":
        kw["fitter"] = {"lm": fitting.LevMarLSQFitter, "trf": fitting.TRFLSQFitter}[c["fitter"]]
    m, f = t.call(fit_background, img, **kw)
    want = lstsq(img, ok, 2 if c["model"] == "quadratic" else 1)
    got = m(i.astype(float), j.astype(float))
    t.same(got, want, "fitted background", rtol=1e-5, atol=1e-4)
    t.same(model_to_image(m, (c["shape"][1], c["shape"][0])), want, "background image", rtol=1e-5, atol=1e-4)
    t.check(np.array_equal(img, keep, equal_nan=True), "the image was modified")
    if "model" in kw:
        t.same(kw["model"].parameters, models.Planar2D(1, 1, 1).parameters if c["model"] == "planar" else models.Polynomial2D(2).parameters, "input model")
    t.outcome(got)
