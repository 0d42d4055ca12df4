"""Aperture sums and areas of radial_photometry."""
import numpy as np

from astropy import units as u

from mc import core
from mc.oracles import ellipse_overlap, pattern
from petrofit import radial_photometry

ID = "C01"
ASSUMPTIONS = [
    "pixel (j, i) is the unit square centred on x=i, y=j",
    "'subpixel' uses photutils' default of 5x5 subpixels",
]

SHAPES = {"sq": (11, 11), "wide": (9, 14), "tall": (13, 8), "big": (131, 147), "strip": (3, 210)}


def bounds(tier):
    return ("product of image shape/dtype, centre, elongation, angle, radii, mask, error, method and "
            "plotting, within the stated number of deviations from a base case, plus full sub-products; images up to 131x147 with lists of 70 radii and radii up to 300")


POS = [(5, 5), (4.3, 5.6), (0, 0), (6.5, 2.5), (-0.3, 4.2)]
RL = [[1, 2, 3], [0.25, 1.7, 3.6], [3.3, 1.1, 2.2], [2.4, 2.4, 1.2], [4.7], [2, 9, 30]]
LONG = [[k * 1.31 for k in range(1, 71)], [120.3, 64.2, 33.1, 300.7], [25.2] * 3]
AX = dict(
    shape=["sq", "wide", "tall"],
    dtype=["f8", "f4", "i4", ">f8", ">f4", "u2"],
    pos=POS,
    elong=[1.0, 1.6, 4.0],
    theta=[0.0, 0.4, np.pi / 2, -1.1, 2.7, 4.1, -8.0],
    r=RL,
    mask=["checker", "all", "none", "half", "nan", "empty", "inf"],
    error=["vary", "const", "none", "nan", "zero", "zeros", "hole"],
    method=["exact", "center", "subpixel"],
    plot=[False, True],
    container=["list", "array", "tuple"],
    sign=[1, -1, 1e-9],
    etype=["f8", "f4", "i4", ">f8", "u1", "i2"],
    ptype=["tuple", "list", "array", "np"],
    ttype=["float", "rad", "deg", "np"],
    order=["C", "F", "ro"],
    lim=[(0, None), (None, None), (-3, 5.5)],
)
BASE = {k: v[0] for k, v in AX.items()}


def cases(tier):
    out = [("x", c) for c in core.deviations(BASE, AX, 2 if tier == "quick" else 3)]
    full = core.product(
        shape=["wide", "tall"], dtype=["f8"], pos=POS[:5] if tier == "quick" else POS,
        elong=AX["elong"], theta=AX["theta"],
        r=[RL[1], RL[2], RL[5]], mask=["none", "checker", "nan"],
        error=["vary"], method=AX["method"], plot=[False], container=["list"], sign=[1],
    )
    out += [("x", c) for c in full]
    # large images, long lists, large apertures
    big = core.product(shape=["big", "strip"], pos=[(64.3, 70.6), (140.2, 1.4)], elong=[1.0, 2.7], theta=[0.4, 2.7] if tier == "quick" else AX["theta"],
                       r=LONG, mask=["none", "nan"], error=["vary"], method=AX["method"])
    out += [("x", dict(BASE, **c)) for c in big if not (c["shape"] == "strip" and c["pos"][0] < 100)]
    # unmasked NaN inside the aperture must not be turned into a number
    for m in AX["method"]:
        for p in POS[:2]:
            for plot in (False, True):
                for k in range(6):
                    out.append(("nan", dict(BASE, pos=p, method=m, plot=plot, at=k)))
    # an unmasked NaN outside all apertures changes nothing
    for c in core.product(method=AX["method"], plot=[False, True], error=["none", "vary"], theta=[0.0, 2.7], elong=[1.0, 1.6]):
        out.append(("outside", dict(BASE, r=[1, 2, 3], **c)))
    return out


def nondegenerate(shape, x0, y0, r, c):
    while ellipse_overlap(shape, x0, y0, r, r / c["elong"], c["theta"], c["method"])[1].any():
        r = r * 1.003
    return r


def run(case, t):
    kind, c = case
    shape = SHAPES[c["shape"]]
    img = pattern(shape, 3) * c["sign"]
    dtype = np.dtype(c["dtype"])
    if dtype.kind in "iu":
        img = np.round(pattern(shape, 3))
        if dtype.kind == "i" and c["sign"] < 0:
            img = -img
    img = img.astype(dtype)
    err = None
    if c["error"] == "const":
        err = np.full(shape, 0.5)
    elif c["error"] in ("vary", "nan", "hole"):
        err = pattern(shape, 5, 0.1, 4.0)
    elif c["error"] == "zero":
        err = np.zeros(shape)
    elif c["error"] == "zeros":
        err = pattern(shape, 5, 0.1, 4.0)
        err[1:8, 2:7] = 0
    j, i = np.mgrid[: shape[0], : shape[1]]
    good = np.ones(shape, bool)
    mask = None
    if c["mask"] == "all":
        mask = good.copy()
    elif c["mask"] == "checker":
        good = (i + 2 * j) % 3 != 0
        mask = good.copy()
    elif c["mask"] == "empty":
        good = np.zeros(shape, bool)
        mask = good.copy()
    elif c["mask"] == "inf":
        # infinite pixels are left out like any other masked pixel
        good = (i * 3 + j) % 4 != 1
        mask = good.copy()
        if dtype.kind == "f":
            img[~good] = np.where((i + j) % 2, np.inf, -np.inf)[~good]
    elif c["mask"] == "half":
        good = i < shape[1] // 2 + 1
        mask = good.copy()
    elif c["mask"] == "nan":
        good = (i * 3 + j) % 4 != 1
        mask = good.copy()
        if dtype.kind == "f":
            img[~good] = np.nan
    if c["error"] == "nan" and mask is not None:
        err[~good] = np.nan
    if c["error"] == "hole":
        # the error of a pixel is unknown: so are those of the apertures it is in
        err[4, 6] = np.nan
    x0, y0 = c["pos"]
    # photutils' exact overlap fails where the ellipse goes through a pixel corner
    c = dict(BASE, **c)
    if err is not None:
        whole = c["etype"] in ("i4", "u1", "i2") and c["error"] not in ("nan", "hole")
        err = (np.ceil(err * 60) if whole else err).astype(c["etype"] if whole or c["etype"][-2] == "f" else "f8")
    if c["order"] == "F":
        img, err, mask = (a if a is None else np.asfortranarray(a) for a in (img, err, mask))
    elif c["order"] == "ro":
        for a in (img, err, mask):
            if a is not None:
                a.flags.writeable = False
    pos = {"tuple": (x0, y0), "list": [x0, y0], "array": np.array([x0, y0]), "np": (np.float64(x0), np.float64(y0))}[c["ptype"]]
    theta = {"float": c["theta"], "np": np.float64(c["theta"]), "rad": c["theta"] * u.rad, "deg": np.degrees(c["theta"]) * u.deg}[c["ttype"]]
    c = dict(c, r=[nondegenerate(shape, x0, y0, r, c) for r in c["r"]])
    rl = {"list": list, "array": np.array, "tuple": tuple}[c["container"]](c["r"])
    if kind == "nan":
        at = [(5, 5), (4, 5), (6, 5), (5, 8), (8, 5), (5, 2)][c["at"]]
        img[at] = np.nan
        t.rejects(radial_photometry, "unmasked NaN inside the aperture", img, (x0, y0), [[1.5, 3], [3, 0.2], [3], [1, 2, 4.5], [4.5, 1, 2], [1, 4.5, 1]][c["at"]],
                  method=c["method"], plot=c["plot"])
        mask = np.ones(shape, bool)
        mask[3, 3] = False
        t.rejects(radial_photometry, "unmasked NaN next to a masked pixel", img, (x0, y0), [1.0, 4.5], mask=mask, method=c["method"], plot=c["plot"])
        mask[at] = False
        t.call(radial_photometry, img, (x0, y0), [1.0, 4.5], mask=mask, method=c["method"], plot=c["plot"])
        return
    if kind == "outside":
        img[0, 0] = img[10, 9] = np.nan
    keep = [None if a is None else a.copy() for a in (img, err, mask)]
    if c["plot"]:
        from matplotlib import pyplot as plt

        plt.close("all")
    flux, area, error = t.call(
        radial_photometry, img, pos, rl, error=err, mask=mask, elong=c["elong"],
        theta=theta, plot=c["plot"], method=c["method"], **({} if c["lim"] == (0, None) else dict(vmin=c["lim"][0], vmax=c["lim"][1])),
    )
    if c["plot"]:
        plt.close("all")
    for a, b, n in zip(keep, (img, err, mask), ("image", "error", "mask")):
        if a is not None:
            t.check(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "the {} was modified", n)
    data = np.where(good, img.astype(float), 0.0)
    if kind == "outside":
        data = np.nan_to_num(data)
    var = None if err is None else np.where(good, err.astype(float), 0.0) ** 2
    t.check(list(rl) == list(c["r"]) and [float(v) for v in pos] == [x0, y0], "the radii or the position were modified: {} {}", rl, pos)
    wf, wa, we = [], [], []
    skip = []
    for k, r in enumerate(c["r"]):
        w, tie = ellipse_overlap(shape, x0, y0, r, r / c["elong"], c["theta"], c["method"])
        w = w * good
        skip.append(bool((tie & good).any()))
        wf.append((w * data).sum())
        wa.append(w.sum())
        we.append(np.nan if var is None else np.sqrt((w * var)[w > 0].sum()))
    assert not any(skip)
    t.check(len(flux) == len(area) == len(error) == len(c["r"]), "one value per radius")
    scale = max(abs(data).max(), 1e-300)
    rt = 1e-9 if dtype.itemsize != 4 or dtype.kind != "f" else 1e-5
    case_txt = "{}".format(c)
    t.same(np.asarray(flux), np.array(wf), "flux " + case_txt, rtol=rt, atol=1e-8 * scale)
    t.same(np.asarray(area), np.array(wa), "area", rtol=1e-8, atol=2e-6 if rt < 1e-6 else 1e-4)
    t.same(np.asarray(error), np.array(we), "error", rtol=rt, atol=1e-6)
    t.outcome(flux, area)
