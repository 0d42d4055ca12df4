"""Histories of evaluations of a PSF-convolved model."""
import copy

import numpy as np

from astropy.modeling import models

from mc import core
from mc.render import render
from petrofit import PSFConvolvedModel2D, model_to_image

ID = "C17"
P3 = np.array([[1, 2, 0.5], [3, 9, 1], [0, 2, 0.25]]) / 18.75
P5 = np.array([[1, 0, 1, 2, 0], [2, 3, 0, 1, 1], [5, 9, 4, 0, 1], [0, 2, 1, 0, 0.5], [0.5, 1, 3.0, 0, 1]]) / 38.0
PSF = {"none": None, "p3": P3, "p5": P5}
# x0, y0, nx, ny: same size elsewhere, same bounding square in another shape, transposed ranges
GRIDS = {"a": (0, 0, 10, 8), "b": (3, -2, 10, 8), "c": (0, 0, 8, 10), "d": (0, 0, 10, 10), "e": (0, 0, 6, 8), "f": (-2, 3, 8, 10), "g": (0.3, 0.25, 10, 8), "h": (0.45, 0.4, 10, 8), "i": (0.3, 0.4, 10, 10)}
OVER = {"none": None, "2": 2, "4": 4, "win": ("x_0", "y_0", 4, 2), "win4": (5.0, 3.0, 5, 4)}
OPS = [["eval", g] for g in GRIDS] + [["over", o] for o in OVER] + [["psf", p] for p in PSF] + [["pover", 2], ["pover", None]] + [
    ["par", "x_0", 3.7], ["par", "amplitude", 2.5], ["par", "psf_pa", 90.0], ["par", "psf_pa", -90.0], ["par", "n", 2.2], ["cache", False], ["cache", True], ["clear"], ["copy"], ["deepcopy"], ["swap"], ["spoil"], ["spoilgrid"], ["other"], ["toimage"],
    ["submodel"]]
SMALL = [["eval", "a"], ["eval", "b"], ["eval", "c"], ["eval", "g"], ["eval", "h"], ["over", "none"], ["over", "2"], ["over", "win"], ["psf", "p5"], ["pover", 2], ["par", "x_0", 3.7], ["cache", False], ["clear"], ["copy"], ["swap"], ["spoil"],
         ["other"]]
DEF = dict(amplitude=4.0, r_eff=2.2, n=1.4, x_0=5.2, y_0=3.9, ellip=0.35, theta=0.5, psf_pa=0.0)
# settings of the first model at the start; the others are left at None, no PSF angle
START = {
    "none": dict(psf="none"), "p3": dict(psf="p3"), "turned": dict(psf="p3", pa=90.0), "full": dict(psf="p5", over="4", pover=2, pa=-90.0),
    "window": dict(psf="p3", over="win", pover=2, pa=90.0),
}
_fresh = {}


def bounds(tier):
    return "all histories of up to {} out of {} operations{}, from five starting settings, over two models and their copies; after each, every live model is evaluated on two grids".format(
        *((2, len(OPS), " and of 3 out of {} with and without a PSF".format(len(SMALL))) if tier == "quick" else (3, len(OPS), " and of 4 out of {}".format(len(SMALL)))))


def cases(tier):
    out = []
    for psf in START:
        for h in core.histories(OPS, 2 if tier == "quick" else 3):
            out.append((psf, h))
        if psf in ("none", "p3"):
            for h in core.histories(SMALL, 3 if tier == "quick" else 4, 3):
                out.append((psf, h))
    return out


def base(par):
    return models.Sersic2D(**{k: v for k, v in par.items() if k != "psf_pa"})


def build(st):
    m = PSFConvolvedModel2D(base(st["par"]), psf=None if st["psf"] == "none" else PSF[st["psf"]].copy(), oversample=OVER[st["over"]], psf_oversample=st["pover"])
    m.psf_pa = st["par"]["psf_pa"]
    return m


def coords(g):
    x0, y0, nx, ny = GRIDS[g]
    yy, xx = np.mgrid[:ny, :nx]
    return xx + x0, yy + y0


def fresh(st, g):
    """Image of a new model with these settings, confirmed by the reference renderer."""
    key = (repr(st), g)
    if key not in _fresh:
        xx, yy = coords(g)
        img = np.array(build(st)(xx, yy))
        x0, y0, nx, ny = GRIDS[g]
        pa = st["par"]["psf_pa"]
        ref, inner = render(base(st["par"]), x0, y0, nx, ny, PSF[st["psf"]], OVER[st["over"]], st["pover"], pa, {0.0: 0, 90.0: 1, -90.0: 3}[pa])
        _fresh[key] = (img, ref, inner)
    return _fresh[key]


def valid(st):
    f = {"none": 1, "2": 2, "4": 4, "win": 2, "win4": 4}[st["over"]]
    return f % (st["pover"] or 1) == 0 and not (st["pover"] and st["psf"] == "none") and not (st["pover"] and st["pover"] > 1 and st["over"] == "none")


def look(t, m, st, g, what):
    xx, yy = coords(g)
    img = np.asarray(t.call(m, xx, yy))
    want, ref, inner = fresh(st, g)
    t.same(np.where(inner, img, 0), np.where(inner, ref, 0), what + ": image on grid {}".format(g), rtol=1e-7, atol=1e-9)
    t.same(img, want, what + ": image on grid {} against a new model".format(g), rtol=1e-8, atol=1e-10)
    return img


def run(case, t):
    psf, hist = case
    s = START[psf]
    st0 = dict(psf=s["psf"], over=s.get("over", "none"), pover=s.get("pover"), par=dict(DEF, psf_pa=s.get("pa", 0.0)))
    objs = [(t.call(build, st0), copy.deepcopy(st0)), (t.call(build, dict(st0, over="2", par=dict(st0["par"], x_0=2.1))), copy.deepcopy(dict(st0, over="2", par=dict(st0["par"], x_0=2.1))))]
    cur = 0
    last = None
    done = []
    for op in hist:
        m, st = objs[cur]
        k = op[0]
        done.append(op)
        what = "after {}".format(done)
        if k == "eval":
            last = look(t, m, st, op[1], what)
        elif k in ("over", "psf", "pover"):
            new = dict(st, **{k: op[1]})
            if not valid(new):
                continue
            t.call(setattr, m, {"over": "oversample", "psf": "psf", "pover": "psf_oversample"}[k], {"over": OVER, "psf": PSF, "pover": {2: 2, None: None}}[k][op[1]])
            st.update(new)
        elif k == "par":
            t.call(setattr, m, op[1], op[2])
            st["par"][op[1]] = op[2]
        elif k == "cache":
            t.call(setattr, m, "cache_grid", op[1])
            t.equal(bool(m.cache_grid), op[1], "cache_grid")
        elif k == "clear":
            t.call(m.clear_cached_grid)
        elif k == "copy":
            objs.append((t.call(m.copy), copy.deepcopy(st)))
            cur = len(objs) - 1
        elif k == "deepcopy":
            objs.append((t.call(copy.deepcopy, m), copy.deepcopy(st)))
            cur = len(objs) - 1
        elif k == "swap":
            cur = (cur + 1) % len(objs)
        elif k == "spoil":
            img = t.call(m, *coords("a"))
            img[...] = -7.0
            if last is not None:
                last[...] = 3.0
        elif k == "spoilgrid":
            xx, yy = coords("a")
            t.call(m, xx, yy)
            xx += 5
            yy *= 3
        elif k == "other":
            o = (cur + 1) % len(objs)
            look(t, objs[o][0], objs[o][1], "d", what + " (other model)")
        elif k == "toimage":
            img = t.call(model_to_image, m, (10, 8), center=(8, 2))
            t.same(img, fresh(st, "b")[0], what + ": model_to_image", rtol=1e-8, atol=1e-10)
        elif k == "submodel":
            b = t.call(lambda: m.model)
            b.x_0 = -50.0
            t.call(b, *coords("a"))
    for i, (m, st) in enumerate(objs):
        for g in ("b", "a"):
            img = look(t, m, st, g, "model {} after {}".format(i, hist))
        t.state(i, st, hist[-1])
        t.outcome(np.round(img, 8))
