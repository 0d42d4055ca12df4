"""Catalog order and source accessors."""
import itertools

import numpy as np

from photutils.segmentation import SegmentationImage, SourceCatalog

from mc import core
from mc.oracles import pattern
from petrofit import get_source_ellip, get_source_elong, get_source_position, get_source_theta, order_cat

ID = "C07"


def bounds(tier):
    return "all orders of 5 segment sizes over label permutations x keys x directions; lattice of elliptical sources (position, axis ratio, angle, peak offset); catalogs of up to 150 sources; values that differ by 1e-4 to 1e-13"


KEYS = ["area", "segment_flux", "max_value", "label", "xcentroid", "elongation"]


def cases(tier):
    out = []
    perms = list(itertools.permutations(range(5))) if tier != "quick" else list(itertools.permutations(range(4)))
    for p in perms:
        out.append(("order", list(p)))
    # labels with gaps, and not in the order of the positions
    for p in perms:
        for lab in ([2, 3, 5, 9], [9, 5, 3, 2], [4, 1, 7, 3], [1, 2, 3, 7], [10, 20, 30, 40]):
            if len(lab) == len(p) or tier != "quick":
                out.append(("order", list(p), (lab + [6])[: len(p)]))
    out.append(("order", [0]))
    out.append(("order", [0], [6]))
    out.append(("order", [2, 2, 1, 2]))
    out.append(("order", [1, 1]))
    # values that are almost the same
    out += [("close", list(p), e) for p in perms for e in (1e-4, 1e-7, 1e-10, 1e-13)]
    out += [("large", c) for c in core.product(n=[11, 60, 150], mul=[1, 7, 13], gap=[1, 3])]
    out += [("acc", c) for c in core.product(
        x=[15, 3, 28, 14.4], y=[12, 4, 20, 12.7], a=[2.0, 4.0], q=[1.0, 0.7, 0.35], th=[0.0, 0.5, 1.2, np.pi / 2, 2.2, 3.0, -0.6], second=[False, True])]
    return out


def run(case, t):
    if case[0] == "order":
        run_order(case[1], t, *case[2:])
    elif case[0] == "close":
        run_close(*case[1:], t)
    elif case[0] == "large":
        run_large(case[1], t)
    else:
        run_acc(case[1], t)


def run_close(p, eps, t):
    lab = np.kron(np.arange(1, len(p) + 1)[:, None], np.ones((4, 8), int))
    lab[:, :2] = lab[::4] = 0
    img = np.where(lab > 0, 1 + eps * np.take([0] + p, lab), 0.0)
    cat = SourceCatalog(img, SegmentationImage(lab))
    for key in ("max_value", "min_value", "segment_flux"):
        for rev in (True, False):
            o = [int(v) for v in t.call(order_cat, cat, key=key, reverse=rev)]
            t.check([p[k] for k in o] == sorted(p, reverse=rev), "key {} reverse {}: values that differ by {} are ordered {}", key, rev, eps, [p[k] for k in o])
    t.state(p, eps)


def run_large(c, t):
    """Catalogs of many sources, with ties."""
    n, cols = c["n"], 10
    lab = np.zeros((9 * (n // cols + 1), 9 * cols), int)
    for k in range(n):
        y, x = 9 * (k // cols), 9 * (k % cols)
        s = (k * c["mul"]) % n
        m = lab[y + 1 : y + 8, x + 1 : x + 8]
        m.flat[: 6 + s % 40] = 1 + c["gap"] * ((k * 17) % n if n % 17 else k)
    img = pattern(lab.shape, 5)
    cat = SourceCatalog(img, SegmentationImage(lab))
    labels = np.unique(lab)[1:]
    cols_ = dict(area=[(lab == v).sum() for v in labels], segment_flux=[img[lab == v].sum() for v in labels], max_value=[img[lab == v].max() for v in labels], label=labels)
    for key in cols_:
        v = np.asarray(cols_[key], float)
        for rev in (True, False):
            o = [int(i) for i in t.call(order_cat, cat, key=key, reverse=rev)]
            t.check(sorted(o) == list(range(n)), "{} sources: order {} is not a permutation", n, o)
            d = np.diff(v[o])
            t.check((d <= 1e-9 * abs(v).max()).all() if rev else (d >= -1e-9 * abs(v).max()).all(), "{} sources, key {} reverse {}: values in the returned order are {}", n, key, rev, v[o].tolist())
    o = [int(i) for i in t.call(order_cat, cat)]
    t.check((np.diff(np.asarray(cols_["area"])[o]) <= 0).all(), "default order of {} sources", n)
    x, y = (np.ravel(v) for v in t.call(get_source_position, cat))
    for k, v in enumerate(labels):
        own = np.where(lab == v, img, -1)
        my, mx = np.unravel_index(own.argmax(), own.shape)
        t.check((int(x[k]), int(y[k])) == (mx, my), "position of source {} of {} is {}", k, n, (x[k], y[k]))
        p = t.call(get_source_position, cat[k])
        t.check([int(np.ravel(q)[0]) for q in p] == [mx, my], "position of row {} of {} is {}", k, n, p)
    t.state(c)
    t.outcome(o[:5])


def run_order(p, t, labels=None):
    labels = list(range(1, len(p) + 1)) if labels is None else labels
    lab = np.zeros((6 * len(p) + 2, 9), int)
    for k, size in enumerate(p):
        lab[6 * k + 1: 6 * k + 2 + size, 1: 4 + (size % 2)] = labels[k]
    img = pattern(lab.shape, 5)
    cat = SourceCatalog(img, SegmentationImage(lab))
    tab = cat.to_table()
    n = len(p)
    for key in KEYS:
        col = np.array([float(getattr(v, "value", v)) for v in tab[key]] if key in tab.colnames else [])
        if not len(col):
            continue
        for rev in (True, False, None):
            kw = {} if rev is None else dict(reverse=rev)
            o = t.call(order_cat, cat, key=key, **kw)
            o = [int(v) for v in o]
            t.check(sorted(o) == list(range(n)), "order {} is not a permutation", o)
            v = col[o]
            good = np.all(np.diff(v) <= 0) if rev in (True, None) else np.all(np.diff(v) >= 0)
            t.check(good, "key {} reverse {}: values in the returned order are {}", key, rev, v.tolist())
    o = [int(v) for v in t.call(order_cat, cat)]
    a = np.array([(lab == k).sum() for k in sorted(labels)])
    t.check(np.all(np.diff(a[o]) <= 0) and sorted(o) == list(range(n)), "default order is by area, largest first: {}", a[o])
    t.outcome(p, o)


def run_acc(c, t):
    ny, nx = 26, 32
    j, i = np.mgrid[:ny, :nx].astype(float)
    ct, st = np.cos(c["th"]), np.sin(c["th"])
    u = (i - c["x"]) * ct + (j - c["y"]) * st
    v = -(i - c["x"]) * st + (j - c["y"]) * ct
    rho2 = (u / c["a"]) ** 2 + (v / (c["a"] * c["q"])) ** 2
    img = 100 * np.exp(-rho2 / 2) + 1e-3 * pattern((ny, nx), 3)
    lab = (rho2 < 9).astype(int) * 2
    if c["second"]:
        lab[22:25, 10:14][lab[22:25, 10:14] == 0] = 1
        lab[1, 1:5][lab[1, 1:5] == 0] = 5
    seg = SegmentationImage(lab)
    cat = SourceCatalog(img, seg)
    labels = [int(x) for x in np.ravel(cat.labels)]
    k = labels.index(2)
    row, trow = cat[k], cat.to_table(columns=["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"])[k]
    own = np.where(lab == 2, img, -1)
    my, mx = np.unravel_index(own.argmax(), own.shape)
    # second moments
    w = np.where(lab == 2, img, 0)
    cx, cy = (w * i).sum() / w.sum(), (w * j).sum() / w.sum()
    xx, yy, xy = (w * (i - cx) ** 2).sum() / w.sum(), (w * (j - cy) ** 2).sum() / w.sum(), (w * (i - cx) * (j - cy)).sum() / w.sum()
    cov = np.array([[xx, xy], [xy, yy]])
    ev = np.sort(np.linalg.eigvalsh(cov))
    elong = np.sqrt(ev[1] / ev[0])
    theta = 0.5 * np.arctan2(2 * xy, xx - yy)
    sky = ev[0] > 1 / 12
    for name, s, sel in (("row", row, None), ("table row", trow, None), ("catalog", cat, k)):
        def one(v):
            v = np.ravel(getattr(v, "value", v))
            return float(v[sel] if sel is not None else v[0])

        x, y = t.call(get_source_position, s)
        t.check((one(x), one(y)) == (mx, my), "{}: position {} instead of {}", name, (one(x), one(y)), (mx, my))
        e = one(t.call(get_source_elong, s))
        el = one(t.call(get_source_ellip, s))
        th = t.call(get_source_theta, s)
        unit = getattr(th, "unit", None)
        t.check(unit is None or str(unit) in ("rad", ""), "{}: orientation in {}", name, unit)
        if sky:
            t.same(e, elong, name + ": elongation", rtol=1e-3)
            t.same(el, 1 - 1 / elong, name + ": ellipticity", rtol=1e-3, atol=1e-3)
            if elong > 1.05:
                d = (one(th) - theta + np.pi / 2) % np.pi - np.pi / 2
                t.check(abs(d) < 1e-3, "{}: orientation {} instead of {}", name, one(th), theta)
    if len(labels) > 1:
        x, y = get_source_position(cat)
        t.check(len(np.ravel(x)) == len(labels), "catalog accessors give one value per source")
    t.outcome(mx, my, elong, theta)
