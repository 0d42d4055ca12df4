"""Segmentation, deblending and catalogs."""
import itertools

import numpy as np

from astropy.nddata import CCDData, Cutout2D
from astropy.wcs import WCS

from mc import core
from mc.oracles import pattern
from petrofit import deblend_segments, make_catalog, make_segments

ID = "C06"


def bounds(tier):
    return ("all binary images of {} pixels x minimum sizes 1-4 x thresholds (number, map); deblending and catalog options over a "
            "lattice of two- and three-peak scenes; images of 7x9 and 90x120 pixels in six types of numbers, with negative, tiny and NaN pixels".format("3x4" if tier == "quick" else "3x4 and 4x4"))


def cases(tier):
    out = []
    for v in range(0, 4096, 16):
        out.append(("bin", 3, 4, v, 16))
    if tier != "quick":
        for v in range(0, 65536, 64):
            out.append(("bin", 4, 4, v, 64))
    for v in range(0, 729, 9):
        out.append(("tern", v, 9))
    out += [("deb", c) for c in core.product(
        sep=[2, 3, 5, 8], ratio=[1.0, 0.5, 0.05], npix=[1, 4, 12], nlevels=[2, 8, 30], contrast=[0, 1e-3, 0.1, 0.4, 1], extra=[False, True])]
    base = dict(sep=5, ratio=0.5, npix=4, nlevels=30, contrast=1e-3, thr="num", deblend=True, container="array", plot=False, wcs=False, vm=False)
    ax = dict(sep=[5, 3, 8], ratio=[0.5, 1.0, 0.05], npix=[4, 1, 12, 40], nlevels=[30, 2, 8], contrast=[1e-3, 0, 0.1, 0.4, 1],
              thr=["num", "map", "high"], deblend=[True, False], container=["array", "ccd", "cutout", "f4"], plot=[False, True], wcs=[False, True],
              vm=[False, True])
    out += [("cat", c) for c in core.deviations(base, ax, 2 if tier == "quick" else 3)]
    out += [("form", c) for c in core.product(dtype=["f8", "f4", "i4", "u2", ">f8", ">i2"], scale=[1.0, 30.0, 1e-20], shift=[0.0, -40.0], thr=["num", "int", "map"], npix=[1, 2, 5], nan=[False, True, "inf"], size=["small", "big"])
            if not (c["dtype"] not in ("f8", "f4", ">f8") and (c["scale"] < 1 or c["nan"])) and not (c["dtype"] == "u2" and c["shift"] < 0) and not (c["thr"] == "int" and c["scale"] < 1) and not (c["scale"] < 1 and c["dtype"] == "f4")]
    out += [("default", k) for k in range(4)]
    return out


def components(mask):
    """8-connected components as a set of frozensets."""
    todo = set(map(tuple, np.argwhere(mask).tolist()))
    out = []
    while todo:
        stack = [todo.pop()]
        comp = set(stack)
        while stack:
            j, i = stack.pop()
            for dj in (-1, 0, 1):
                for di in (-1, 0, 1):
                    q = (j + dj, i + di)
                    if q in todo:
                        todo.remove(q)
                        comp.add(q)
                        stack.append(q)
        out.append(frozenset(comp))
    return out


def parts(seg):
    d = np.asarray(seg.data)
    return {int(l): frozenset(map(tuple, np.argwhere(d == l).tolist())) for l in np.unique(d) if l != 0}


def check_seg(t, seg, mask, npix, what):
    want = {c for c in components(mask) if len(c) >= npix}
    if not want:
        t.check(seg is None, "{}: reported segments where there is none", what)
        return
    t.check(seg is not None, "{}: no segmentation", what)
    got = parts(seg)
    t.check(set(got.values()) == want and len(got) == len(want), "{}: segments {} instead of {}", what,
            sorted(map(sorted, got.values())), sorted(map(sorted, want)))
    t.check(seg.data.shape == mask.shape, "{}: shape", what)


def scene(c, shape=(18, 26)):
    j, i = np.mgrid[: shape[0], : shape[1]].astype(float)
    g = lambda x, y, a, s: a * np.exp(-((i - x) ** 2 + (j - y) ** 2) / (2 * s * s))
    img = g(8, 9, 100, 1.6) + g(8 + c["sep"], 9, 100 * c["ratio"], 1.6)
    if c.get("extra", True):
        img += g(22, 3, 60, 1.0)
    return img + pattern(shape, 1, 0, 0.3)


def run(case, t):
    kind = case[0]
    if kind == "bin":
        _, ny, nx, v0, n = case
        for v in range(v0, v0 + n):
            mask = np.array([(v >> k) & 1 for k in range(ny * nx)], bool).reshape(ny, nx)
            img = np.where(mask, 2.0, 1.0)
            for npix in (1, 2, 3, 4):
                seg = t.call(make_segments, img, npixels=npix, threshold=1.5)
                check_seg(t, seg, mask, npix, "threshold 1.5, npixels {}".format(npix))
            # strictly above: equal pixels are background
            seg = t.call(make_segments, img, npixels=2, threshold=2.0)
            t.check(seg is None, "pixels equal to the threshold were detected")
            seg = t.call(make_segments, img, npixels=2, threshold=1.0)
            check_seg(t, seg, mask, 2, "pixels equal to the threshold")
            t.state(ny, nx, v)
        t.outcome(case)
    elif kind == "tern":
        _, v0, n = case
        for v in range(v0, v0 + n):
            a = np.array([v // 3**k % 3 for k in range(6)], float).reshape(2, 3)
            for thr in (0.5, 1.5, 1, 0):
                check_seg(t, t.call(make_segments, a, npixels=1, threshold=thr), a > thr, 1, "ternary")
            tm = np.array([[0.5, 1.5, 1.0], [0.0, 1.5, 0.5]])
            check_seg(t, t.call(make_segments, a, npixels=2, threshold=tm), a > tm, 2, "threshold map")
            t.state("t", v)
        t.outcome(case)
    elif kind == "form":
        c = case[1]
        shape = (7, 9) if c["size"] == "small" else (90, 120)
        img = (np.round(pattern(shape, 3, 0, 10)) + (c["shift"] if c["scale"] == 1 else c["shift"] / 5)) * c["scale"]
        img = img.astype(c["dtype"])
        if c["nan"]:
            img[::3, ::4] = np.nan
            if c["nan"] == "inf":
                img[::6, ::4] = np.inf
                img[1::3, 2::4] = -np.inf
        level = float(np.nanpercentile(img.astype(float), 60, method="lower"))
        thr = {"num": level, "int": int(level), "map": np.where(np.mgrid[: shape[0], : shape[1]][1] > 4, level, level - 2 * c["scale"])}[c["thr"]]
        keep = img.copy()
        mask = np.nan_to_num(img.astype(float), nan=-np.inf) > thr
        check_seg(t, t.call(make_segments, img, npixels=c["npix"], threshold=thr), mask, c["npix"], "{}".format(c))
        if c["size"] == "small" and any(len(k) >= c["npix"] for k in components(mask)):
            cat, seg, final = t.call(make_catalog, img, threshold=thr, npixels=c["npix"], deblend=False, plot=False)
            check_seg(t, seg, mask, c["npix"], "catalog of {}".format(c))
            t.equal(len(cat), len(parts(seg)), "sources in the catalog of {}".format(c))
        t.check(np.array_equal(img, keep, equal_nan=img.dtype.kind == "f"), "the image was modified")
        t.outcome(int(mask.sum()))
    elif kind == "deb":
        c = case[1]
        img = scene(c)
        keep = img.copy()
        seg = make_segments(img, npixels=c["npix"], threshold=1.0)
        check_seg(t, seg, img > 1.0, c["npix"], "scene")
        before = seg.data.copy()
        d = t.call(deblend_segments, img, seg, npixels=c["npix"], nlevels=c["nlevels"], contrast=c["contrast"])
        check_deblend(t, before, d, c)
        t.check(np.array_equal(before, seg.data), "the segmentation was modified")
        t.check(np.array_equal(img, keep), "the image was modified")
        # each option does what it says, against the library function it stands for
        from photutils.segmentation import deblend_sources

        ref = deblend_sources(img, seg, npixels=c["npix"], nlevels=c["nlevels"], contrast=c["contrast"])
        t.check(set(parts(ref).values()) == set(parts(d).values()), "deblending with {} differs from the library", c)
        t.outcome(len(parts(d)), c["contrast"])
    elif kind == "default":
        run_default(case[1], t)
    else:
        run_cat(case[1], t)


def check_deblend(t, before, d, c):
    after = np.asarray(d.data)
    t.check(np.array_equal(after > 0, before > 0), "deblending changed the footprint")
    for l in np.unique(after[after > 0]):
        t.check(len(np.unique(before[after == l])) == 1, "deblending joined segments")
    if c["contrast"] == 1:
        t.check(len(np.unique(after)) == len(np.unique(before)), "deblended at full contrast")


def run_default(k, t):
    """Options that are left out take their documented defaults."""
    img = scene(dict(sep=5, ratio=0.5))
    if k == 0:
        seg = t.call(make_segments, img, npixels=4)
        check_seg(t, seg, img > 3.0, 4, "default threshold of 3")
    elif k == 1:
        seg = make_segments(img, npixels=4, threshold=1.0)
        a = t.call(deblend_segments, img, seg, npixels=4)
        b = t.call(deblend_segments, img, seg, npixels=4, nlevels=30, contrast=1 / 1000)
        t.check(np.array_equal(a.data, b.data), "default levels and contrast")
    elif k == 2:
        a = t.call(make_catalog, img, 1.0, npixels=4, plot=False)
        b = t.call(make_catalog, img, 1.0, wcs=None, deblend=True, npixels=4, nlevels=30, contrast=1 / 1000, plot=False)
        t.check(np.array_equal(a[2].data, b[2].data), "catalog defaults")
    else:
        from matplotlib import pyplot as plt

        plt.close("all")
        a = t.call(make_catalog, img, 1.0, npixels=4)
        t.check(len(plt.get_fignums()) > 0, "plots by default")
        plt.close("all")
    t.outcome(k)


def run_cat(c, t):
    from matplotlib import pyplot as plt

    img = scene(c)
    thr = 1.0 if c["thr"] == "num" else np.where(np.mgrid[: img.shape[0], : img.shape[1]][1] > 15, 2.5, 1.0)
    if c["thr"] == "high":
        thr = 20.0
    if c["container"] == "f4":
        img = img.astype("f4")
    image = img
    if c["container"] == "ccd":
        image = CCDData(img.copy(), unit="adu")
    elif c["container"] == "cutout":
        image = Cutout2D(img.copy(), ((img.shape[1] - 1) / 2, (img.shape[0] - 1) / 2), img.shape)
    w = None
    if c["wcs"]:
        w = WCS(naxis=2)
        w.wcs.crpix = [3, 4]
        w.wcs.crval = [150.0, 2.0]
        w.wcs.cdelt = [-1e-4, 1e-4]
        w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    npix = c["npix"]
    if not any(len(k) >= npix for k in components(img > thr)):
        return
    plt.close("all")
    kw = dict(vmin=0, vmax=50, figsize=(6, 3)) if c["vm"] else {}
    cat, seg, deb = t.call(make_catalog, image, thr, wcs=w, deblend=c["deblend"], npixels=npix, nlevels=c["nlevels"],
                           contrast=c["contrast"], plot=c["plot"], **kw)
    if c["plot"]:
        t.check(len(plt.get_fignums()) == 1, "one figure")
        t.equal(len(plt.gcf().axes), 2 if c["deblend"] else 1, "panels")
        if c["vm"]:
            t.same(plt.gcf().get_size_inches(), (6, 3), "figure size")
        for ax, s in zip(plt.gcf().axes, (seg, deb)):
            shown = [i.get_array() for i in ax.images]
            t.equal(len(shown), 2, "images on a panel")
            t.same(np.asarray(shown[0], float), img.astype(float), "image on a panel")
            t.same(np.asarray(shown[1], float), s.data.astype(float), "segments on a panel")
            if c["vm"]:
                t.same(ax.images[0].get_clim(), (0, 50), "colour range of the image")
    else:
        t.check(len(plt.get_fignums()) == 0, "drew although plot=False")
    plt.close("all")
    check_seg(t, seg, img > thr, npix, "catalog segmentation")
    if c["deblend"]:
        ref = deblend_segments(np.asarray(img), make_segments(np.asarray(img), npixels=npix, threshold=thr), npixels=npix, nlevels=c["nlevels"], contrast=c["contrast"])
        t.check(np.array_equal(ref.data, deb.data), "deblended segmentation does not follow its options")
        check_deblend(t, seg.data, deb, c)
        final = deb
    else:
        t.check(deb is None, "deblended although deblend=False")
        final = seg
    p = parts(final)
    labels = [int(v) for v in np.ravel(cat.labels)]
    t.equal(sorted(labels), sorted(p), "catalog labels")
    d = img.astype(float)
    for row in cat:
        l = int(np.ravel(row.label)[0])
        pix = np.array(sorted(p[l]))
        v = d[pix[:, 0], pix[:, 1]]
        t.same(float(np.ravel(row.segment_flux)[0]), v.sum(), "segment flux", rtol=1e-5)
        t.same(float(np.ravel(row.max_value)[0]), v.max(), "maximum", rtol=1e-6)
        t.same(float(np.ravel(row.area.value)[0]), len(pix), "area")
        if w is not None:
            sky = row.sky_centroid
            cy, cx = (pix * v[:, None]).sum(0) / v.sum()
            want = w.pixel_to_world(cx, cy)
            t.check(np.ravel(sky.separation(want).arcsec)[0] < 0.01, "sky position")
    t.outcome(len(labels), c["contrast"], npix)
