"""Source masks and masked images."""
import itertools

import numpy as np

from astropy.nddata import CCDData, Cutout2D
from photutils.segmentation import SegmentationImage, SourceCatalog

from mc import core
from mc.oracles import pattern
from petrofit import masked_segm_image, segm_mask

ID = "C03"
SHAPE = (2, 3)


def bounds(tier):
    return ("all label maps of a 2x3 image over the labels 0..{} x all requests of at most 2 labels in every form x "
            "background flag; all dtypes/containers/fills; two-call histories; images with up to 500 sources and requests for up to all of them").format(2 if tier == "quick" else 3)


def label_maps(nl):
    for v in itertools.product(range(nl + 1), repeat=6):
        yield list(v)


FORMS = ["int", "np", "list", "nplist"]


def cases(tier):
    nl = 2 if tier == "quick" else 3
    out = [("map", m) for m in label_maps(nl)]
    big = [
        [0, 1, 2, 3, 0, 3], [5, 5, 0, 7, 7, 0], [300, 0, 70000, 1, 300, 255], [256, 512, 0, 1, 256, 0],
    ]
    for m in big:
        for dt in ["int32", "int64", "int16", "uint8", "uint16"]:
            if max(m) <= np.iinfo(dt).max:
                out.append(("big", m, dt))
    ax = dict(
        container=["array", "ccd", "cutout", "list-of-catalogs", "catalog"],
        dtype=["f8", "f4", "i4", "u1", "i2", ">f4"],
        fill=[None, 0, -1.5, 7, "inf", "nan"],
        bg=[False, True],
        src=[[1], [2], [1, 3], [3, 1], [2, 2], [0], [0, 2], [9], []],
    )
    out += [("img", c) for c in core.product(**ax)]
    for a, b in itertools.product(range(6), repeat=2):
        out.append(("hist", a, b))
    for bad in range(5):
        out.append(("bad", bad))
    out += [("many", c) for c in core.product(n=[40, 130, 500], dtype=["int32", "int64", "uint16"], pick=["odd", "low", "high", "all", "reversed", "one", "rows", "lastrows", "row"], bg=[False, True], ccd=[False, True])]
    return out


def catalog(lab, image=None):
    seg = SegmentationImage(np.array(lab))
    return SourceCatalog(pattern(seg.data.shape) if image is None else image, seg)


def requests(labels):
    """All requests of one or two labels (some absent), as (labels, builder)."""
    for l in list(labels) + [9]:
        yield [l], l
        yield [l], np.int64(l)
        yield [l], np.int32(l)
        yield [l], [l]
    yield [], []
    for pair in itertools.permutations(labels, 2):
        yield list(pair), list(pair)
        yield list(pair), [np.int32(v) for v in pair]
    yield list(labels) * 2, list(labels) * 2


def expect(lab, want, bg):
    s = set(want) | (set() if bg else {0})
    return np.isin(lab, sorted(s))


def run(case, t):
    kind = case[0]
    if kind == "map":
        lab = np.array(case[1]).reshape(SHAPE)
        seg = SegmentationImage(lab.copy())
        labels = sorted(set(lab.ravel().tolist()) | {1, 2})
        img = pattern(SHAPE, 4)
        for want, req in requests(labels):
            for bg in (False, True):
                exp = expect(lab, want, bg)
                m = t.call(segm_mask, req, seg, mask_background=bg)
                t.check(np.asarray(m).dtype == bool and np.array_equal(m, exp),
                        "mask of {!r} (background masked: {}) is\n{}\ninstead of\n{}", req, bg, m, exp)
        for l in labels:
            t.check(np.array_equal(t.call(segm_mask, l, seg), expect(lab, [l], False)), "default keeps the background")
            r = t.call(masked_segm_image, l, img, seg)
            t.same(r, np.where(expect(lab, [l], False), img, np.nan), "masked image")
        if set(lab.ravel()) - {0}:
            cat = catalog(lab)
            for row in cat:
                for bg in (False, True):
                    for req in (row, [row]):
                        m = t.call(segm_mask, req, seg, mask_background=bg)
                        t.check(np.array_equal(m, expect(lab, [int(np.ravel(row.label)[0])], bg)), "mask of a catalog row")
            rows = list(cat)
            if len(rows) > 1:
                m = t.call(segm_mask, rows, seg)
                t.check(np.array_equal(m, expect(lab, [int(np.ravel(r.label)[0]) for r in rows], False)), "mask of rows")
        t.check(np.array_equal(seg.data, lab), "segmentation was modified")
        t.outcome(case[1])
    elif kind == "big":
        _, m, dt = case
        lab = np.array(m, dtype=dt).reshape(SHAPE)
        seg = SegmentationImage(lab.copy())
        labels = sorted(set(lab.ravel().tolist()))
        for want, req in requests(labels):
            for bg in (False, True):
                exp = expect(lab.astype(int), want, bg)
                mk = t.call(segm_mask, req, seg, mask_background=bg)
                t.check(np.array_equal(mk, exp), "mask of {!r} with labels {}", req, dt)
        for row in catalog(lab):
            l = int(np.ravel(row.label)[0])
            for bg in (False, True):
                t.check(np.array_equal(t.call(segm_mask, row, seg, bg), expect(lab.astype(int), [l], bg)), "mask of the row of label {} of {}", l, dt)
        t.outcome(case)
    elif kind == "img":
        run_img(case[1], t)
    elif kind == "many":
        run_many(case[1], t)
    elif kind == "hist":
        run_hist(case[1], case[2], t)
    elif kind == "bad":
        seg = SegmentationImage(np.array([[0, 1, 2]]))
        t.rejects(segm_mask, "request that is not a label", ["a", 1.5, None, (1, 2), {1: 2}][case[1]], seg)


def run_img(c, t):
    lab = np.array([[0, 1, 1, 2], [3, 3, 0, 2], [0, 3, 1, 0]])
    base = np.round(pattern(lab.shape, 6, 1, 100)).astype(c["dtype"])
    if c["container"] in ("list-of-catalogs", "catalog"):
        if not set(c["src"]) <= {1, 2, 3}:
            return
        if c["container"] == "catalog" and len(c["src"]) != 1:
            return
        cat = catalog(lab)
        rows = {int(np.ravel(r.label)[0]): r for r in cat}
        req = [rows[l] for l in c["src"]]
        if c["container"] == "catalog":
            req = req[0]
        image = base.copy()
    else:
        req = list(c["src"])
        if len(req) == 1:
            req = req[0]
        image = base.copy()
        if c["container"] == "ccd":
            image = CCDData(image, unit="adu")
        elif c["container"] == "cutout":
            image = Cutout2D(image, (1, 1), lab.shape, mode="partial", fill_value=0)
            full = np.array(image.data)
            image.data = base.copy()
    seg = SegmentationImage(lab.copy())
    fill = {"inf": np.inf, "nan": np.nan}.get(c["fill"], c["fill"]) if isinstance(c["fill"], str) else c["fill"]
    res = t.call(masked_segm_image, req, image, seg, fill=fill, mask_background=c["bg"])
    got = res if isinstance(res, np.ndarray) else res.data
    exp = np.where(expect(lab, c["src"], c["bg"]), base.astype(float), np.nan if fill is None else fill)
    t.same(np.asarray(got, float), exp, "masked image")
    t.check(type(res) is type(image), "the container became {}", type(res))
    orig = image if isinstance(image, np.ndarray) else image.data
    t.check(np.array_equal(orig, base), "the original image was modified")
    t.check(not np.shares_memory(np.asarray(got), np.asarray(orig)), "result shares memory with the image")
    if c["container"] == "ccd":
        t.check(res.unit == image.unit, "unit lost")
    t.check(np.array_equal(seg.data, lab), "segmentation was modified")
    t.outcome(c)


def run_many(c, t):
    """Images with many sources and long requests."""
    n = c["n"]
    j, i = np.mgrid[:62, :75]
    k = (i // 3) + 25 * (j // 3)
    lab = np.where((i % 3 < 2) & (j % 3 < 2) & (k < n), (k * 7) % n + 1, 0).astype(c["dtype"])
    seg = SegmentationImage(lab.copy())
    every = sorted(set(lab.ravel().tolist()) - {0})
    want = {"odd": every[::2], "low": every[: n // 2], "high": every[n // 2 :], "all": every, "reversed": every[::-1], "one": every[-1:], "rows": every[3:40:3], "lastrows": every[:-40:-3], "row": every[-2:-1]}[c["pick"]]
    req = list(want)
    if "row" in c["pick"]:
        rows = {int(np.ravel(r.label)[0]): r for r in SourceCatalog(pattern(lab.shape), seg)}
        req = [rows[l] for l in want]
    exp = expect(lab.astype(int), want, c["bg"])
    m = t.call(segm_mask, req, seg, mask_background=c["bg"])
    t.check(np.array_equal(m, exp), "mask of {} of {} sources differs at {} pixels", len(want), n, int((np.asarray(m) != exp).sum()))
    img = pattern(lab.shape, 4)
    res = t.call(masked_segm_image, req, CCDData(img, unit="adu") if c["ccd"] else img, seg, mask_background=c["bg"])
    t.same(np.asarray(res.data if c["ccd"] else res, float), np.where(exp, img, np.nan), "masked image of {} of {} sources".format(len(want), n))
    t.check("row" in c["pick"] or req == list(want), "the request became {}", req)
    t.outcome(int(exp.sum()))


def run_hist(a, b, t):
    """Two calls that share one request list and one segmentation."""
    lab = np.array([[0, 1, 1, 2], [3, 3, 0, 2]])
    seg = SegmentationImage(lab.copy())
    img = pattern(lab.shape)
    req = [2, 1]

    def op(k):
        bg = bool(k % 2)
        if k < 2:
            m = t.call(segm_mask, req, seg, mask_background=bg)
        elif k < 4:
            m = ~np.isnan(t.call(masked_segm_image, req, img, seg, mask_background=bg))
        else:
            m = t.call(segm_mask, req, seg, bg)
            m = np.array(m)
        t.check(np.array_equal(m, expect(lab, [2, 1], bg)), "call {} in history {}", k, (a, b))
        t.check(req == [2, 1], "request list became {}", req)

    for k in (a, b, a):
        op(k)
    t.outcome(a, b)
