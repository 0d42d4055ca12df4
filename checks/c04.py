"""Photometry of catalog sources."""
import numpy as np

from astropy.nddata import CCDData, Cutout2D
from photutils.segmentation import SegmentationImage, SourceCatalog

from mc import core
from mc.oracles import ellipse_overlap, pattern
from petrofit import source_photometry

ID = "C04"
NY, NX = 17, 22

SHAPES = {
    "dot": [(0, 0)],
    "block": [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1)],
    "bar": [(i, j) for i in (-2, -1, 0, 1, 2) for j in (0, 1)],
    "diag": [(i, i + k) for i in (-2, -1, 0, 1, 2) for k in (0, 1)],
    "L": [(0, j) for j in (-2, -1, 0, 1)] + [(1, -2), (2, -2), (1, -1)],
}
XS, YS = [0, 1, 8, 20, 21], [0, 1, 9, 15, 16]
AX = dict(
    x=[8, 0, 21, 20, 1], y=[9, 0, 16, 15, 1],
    shape=["block", "dot", "bar", "diag", "L"],
    peak=[0, 2, -1],
    neighbour=["many", "touch", "near", "none"],
    r=[[1, 2, 3.5], [4, 1.5, 4], [0.8], [5.2, 9], [2, 30], [9, 5.2, 1.3]],
    cutout=[None, 12, 13, 7.0, 60, 4],
    error=["vary", "none", "nan"],
    method=["exact", "center", "subpixel"],
    bg=[False, True],
    container=["array", "ccd", "cutout"],
    dtype=["f8", "f4", "i4", ">f8", ">f4"],
    nan=[False, True],
    row=["row", "getlabel"],
    plot=[False, True],
    rcont=["list", "array", "ints"],
    etype=["f8", "f4", "i4", ">f8", "u1", "i2"],
    order=["C", "F", "ro"],
)
BASE = {k: v[0] for k, v in AX.items()}


def bounds(tier):
    return ("17x22 scenes: all combinations of at most {} deviations from a base scene over {} axes, plus the full product of "
            "position x shape x neighbour x cutout; scenes of 119x154 pixels with up to 41 radii").format(2 if tier == "quick" else 3, len(AX))


def cases(tier):
    out = core.deviations(BASE, AX, 2 if tier == "quick" else 3)
    full = core.product(x=XS, y=YS, shape=["block", "diag", "L"], neighbour=["none", "touch", "many"],
                        cutout=[None, 13, 60] if tier == "quick" else AX["cutout"],
                        bg=[False, True], r=[[1, 2.5, 4.5]])
    out += [dict(BASE, error="vary", **c) for c in full]
    form = core.product(x=[0, 8, 21], y=[9, 16], etype=AX["etype"], dtype=["f8", "i4", ">f4"], container=AX["container"], cutout=[None, 13], order=["C", "ro"])
    out += [dict(BASE, **c) for c in form]
    zoom = core.product(x=[0, 8, 20], y=[9, 16], shape=["block", "L"], neighbour=["none", "many"], cutout=[None, 61, 200, 400], bg=[False, True],
                        r=[[9.2, 25.1, 47.3], [k * 1.53 for k in range(1, 42)]], error=["none", "vary"], zoom=[7], method=AX["method"])
    out += [dict(BASE, **c) for c in (zoom[::1] if tier != "quick" else [c for c in zoom if c["error"] == "vary"])]
    # plotting is slow; keep each plotted configuration once
    seen, res = set(), []
    for c in out:
        k = core.digest(c)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def scene(c):
    lab = np.zeros((NY, NX), int)
    x, y = c["x"], c["y"]

    def put(cx, cy, offs, label):
        for dx, dy in offs:
            if 0 <= cy + dy < NY and 0 <= cx + dx < NX and lab[cy + dy, cx + dx] == 0:
                lab[cy + dy, cx + dx] = label

    put(x, y, SHAPES[c["shape"]], 3)
    sx = -1 if x > NX // 2 else 1
    sy = -1 if y > NY // 2 else 1
    if c["neighbour"] in ("touch", "many"):
        put(x + 2 * sx, y + sy, SHAPES["block"], 1)
    if c["neighbour"] in ("near", "many"):
        put(x + 4 * sx, y + 4 * sy, SHAPES["bar"], 2)
    if c["neighbour"] == "many":
        put(x + sx, y + 5 * sy, SHAPES["dot"], 5)
    z = c.get("zoom", 1)
    lab = np.kron(lab, np.ones((z, z), int))
    img = pattern(lab.shape, 11, 0.0, 3.0)
    img[lab > 0] += 20
    own = np.argwhere(lab == 3)
    j, i = own[c["peak"] % len(own)]
    img[j, i] += 50
    return img, lab


def run(case, t):
    c = case
    img, lab = scene(c)
    NY, NX = img.shape
    dt = np.dtype(c["dtype"])
    if dt.kind == "i":
        img = np.round(img * 10)
    img = img.astype(dt)
    seg = SegmentationImage(lab.copy())
    cat = SourceCatalog(img.astype(float), seg)
    idx = [int(v) for v in np.ravel(cat.labels)].index(3)
    src = cat[idx] if c["row"] == "row" else cat.get_label(3)
    x0, y0 = int(np.ravel(src.maxval_xindex)[0]), int(np.ravel(src.maxval_yindex)[0])
    own = np.where(lab == 3, img.astype(float), -np.inf)
    assert (y0, x0) == np.unravel_index(own.argmax(), own.shape)
    elong = float(np.ravel(src.elongation.value)[0])
    theta = float(np.ravel(src.orientation.to("rad").value)[0])
    good = np.isin(lab, [3] if c["bg"] else [0, 3])
    if c["nan"] and dt.kind == "f":
        j, i = np.mgrid[:NY, :NX]
        hole = ((i * 5 + j * 3) % 7 == 0) & (lab != 3)
        img[hole] = np.nan
        img[tuple(np.argwhere(lab == 3)[-1])] = np.nan if c["shape"] != "dot" else img[tuple(np.argwhere(lab == 3)[-1])]
        good &= ~np.isnan(img)
    err = None
    if c["error"] != "none":
        err = pattern((NY, NX), 13, 0.1, 2.0)
        if c["error"] == "nan":
            err[~good] = np.nan
    image = img
    if c["container"] == "cutout":
        image = Cutout2D(img.copy(), ((NX - 1) / 2, (NY - 1) / 2), (NY, NX))
    if c["container"] == "ccd":
        image = CCDData(img.copy(), unit="adu")
    arg = image
    c = dict(BASE, **c)
    if err is not None:
        whole = c["etype"] in ("i4", "u1", "i2") and c["error"] != "nan"
        err = (np.ceil(err * 60) if whole else err).astype(c["etype"] if whole or c["etype"][-2] == "f" else "f8")
    if c["order"] == "F":
        image, img = (np.asfortranarray(image),) * 2 if image is img else (image, img)
        arg, err = image, None if err is None else np.asfortranarray(err)
    elif c["order"] == "ro":
        for a in (image if isinstance(image, np.ndarray) else image.data, err):
            if a is not None:
                a.flags.writeable = False
    if c["rcont"] == "ints":
        c["r"] = [max(1, int(v)) for v in c["r"]]
    rl = np.array(c["r"]) if c["rcont"] == "array" else list(c["r"])
    # window of the cutout: N pixels (made even) around the brightest pixel
    n = int(np.ceil(max(c["r"]) * 3)) if c["cutout"] is None else int(c["cutout"])
    n += n % 2
    jj, ii = np.mgrid[:NY, :NX]
    win = (ii >= x0 - n // 2) & (ii < x0 + n // 2) & (jj >= y0 - n // 2) & (jj < y0 + n // 2)
    keep = [img.copy(), lab.copy(), None if err is None else err.copy()]
    if c["plot"]:
        from matplotlib import pyplot as plt

        plt.close("all")
    flux, area, error = t.call(
        source_photometry, src, arg, seg, rl, error=err, cutout_size=c["cutout"], method=c["method"],
        mask_background=c["bg"], plot=c["plot"], bg_sub=False,
    )
    if c["plot"]:
        plt.close("all")
    t.check(list(rl) == list(c["r"]), "the radii were modified: {}", rl)
    use = good & win
    data = np.where(use, img.astype(float), 0.0)
    wf, wa, we, ok = [], [], [], []
    for r in c["r"]:
        w, tie = ellipse_overlap((NY, NX), x0, y0, r, r / elong, theta, c["method"])
        ok.append(not (tie & use).any() and not (c["method"] == "exact" and (tie.any() or r / elong < 0.5)))
        w = w * use
        wf.append((w * data).sum())
        wa.append(w.sum())
        we.append(np.nan if err is None else np.sqrt((w * np.where(use, err.astype(float), 0) ** 2).sum()))
    ok = np.array(ok)
    t.check(len(flux) == len(area) == len(error) == len(ok), "one value per radius")
    rt = 1e-9 if dt.itemsize != 4 or dt.kind != "f" else 1e-5
    t.same(np.asarray(area)[ok], np.array(wa)[ok], "area", rtol=1e-8, atol=2e-6 if rt < 1e-6 else 1e-4)
    t.same(np.asarray(flux)[ok], np.array(wf)[ok], "flux", rtol=rt, atol=1e-7)
    t.same(np.asarray(error)[ok], np.array(we)[ok], "error", rtol=rt, atol=1e-6)
    cur = image if isinstance(image, np.ndarray) else image.data
    t.check(np.array_equal(cur, keep[0], equal_nan=dt.kind == "f"), "the image was modified")
    t.check(np.array_equal(seg.data, keep[1]), "the segmentation was modified")
    if err is not None:
        t.check(np.array_equal(err, keep[2], equal_nan=True), "the error map was modified")
    t.outcome(flux, area)
