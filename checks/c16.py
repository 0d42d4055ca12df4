"""Images of PSF-convolved, oversampled models."""
import itertools

import numpy as np

from astropy.modeling import models

from mc import core
from mc.render import envelope, render
from petrofit import GenSersic2D, Nuker2D, PSFConvolvedModel2D, model_to_image

ID = "C16"
ASSUMPTIONS = ["with a PSF, pixels that need light from outside the image are only required to lie between no such light and all of it",
               "PSFs have odd sizes; window centres are not half-way between pixels",
               "base models are evaluated with astropy's own call, at the coordinates of the reference model"]
AX = dict(
    base=["sersic", "gauss", "moffat", "plane", "compound", "three", "gensersic", "nuker", "ellip"],
    cen=[(5.0, 6.0), (6.3, 4.6), (0.0, 0.0), (10.6, 9.7), (-1.2, 3.3), (5.4, 20.1)],
    shape=[(12, 12), (17, 11), (9, 16), (11, 13)],
    origin=[(0, 0), (3, -2), (-7, 5), (-100, 200), (0.5, 0.25), (0.3, -0.7)],
    over=[None, 1, 2, 3, 4, 6, ("name", "name", 4, 6), ("name", "name", 5, 6), ("name", "name", 3, 2), (0.0, 0.0, 4, 6), (5.2, -3.1, 6, 6), (2.0, "name", 5, 12), ("name", 1.0, 40, 6), (-30.0, 2.0, 3, 6), (1, 2, 1, 6)],
    psf=["none", "a3", "a53", "one", "a7", "unnorm", "delta", "int", "u1"],
    pover=[None, 1, 2, 3],
    pa=[0.0, 90.0, 180.0, -90.0, 30.0, -45.5, 360.0, 0.4, -0.7, 725.0],
    how=["image", "call", "flat", "shuffle", "fortran", "subset", "evaluate", "float"],
)
BASE = dict(base="sersic", cen=(6.3, 4.6), shape=(17, 11), origin=(0, 0), over=None, psf="none", pover=None, pa=0.0, how="image")
PSFS = {
    "none": None,
    "a3": np.array([[1, 2, 0.5], [3, 9, 1], [0, 2, 0.25]]) / 18.75,
    "a53": np.array([[1, 0, 1], [2, 3, 0], [5, 9, 4], [0, 2, 1], [0.5, 1, 3.0]]) / 32.5,
    "one": np.array([[1.0]]),
    "a7": np.arange(49.0).reshape(7, 7) ** 2 / (np.arange(49.0) ** 2).sum(),
    "unnorm": np.array([[1.0, 2, 3], [4, 5, 6], [7, 8, 9]]),
    "int": np.array([[1, 2, 3], [4, 15, 6], [0, 8, 2]]),
    "u1": np.array([[1, 0, 3, 90, 7], [4, 150, 6, 0, 1], [0, 8, 2, 3, 3], [0, 1, 2, 3, 9], [1, 1, 1, 2, 77]], "u1"),
    "delta": np.array([[0, 0, 0, 0, 0], [0, 0, 0, 0, 0], [0, 0, 0, 0, 0], [0, 0, 0, 1.0, 0], [0, 0, 0, 0, 0]]),
}
for _n, _s in (("g15", 15), ("g31", 31)):
    _y, _x = np.mgrid[:_s, :_s] - _s // 2
    PSFS[_n] = np.exp(-(_x**2 + 1.5 * _y**2 + 0.4 * _x * _y) / 14.0) * (1 + 0.3 * np.tanh(_x))
    PSFS[_n] /= PSFS[_n].sum()
PSFS["r21"] = np.fromfunction(lambda j, i: 1.0 / (2 + i + 3 * j) ** 2, (21, 9))
PSFS["r21"] /= PSFS["r21"].sum()


def bounds(tier):
    return "deviations of up to {} axes out of base model, centre, shape, origin, oversampling rule, PSF, PSF sampling, PSF angle and way of calling; full products of rule x PSF x sampling x angle, rule x origin x shape x centre; images of 64x48 and 41x90 pixels with PSFs of up to 31x31".format(
        3 if tier == "quick" else 4)


def ok(c):
    f = 1 if c["over"] is None else c["over"] if isinstance(c["over"], int) else c["over"][3]
    s = c["pover"] or 1
    return f % s == 0 and not (c["pover"] and c["psf"] == "none")


def cases(tier):
    cs = core.deviations(BASE, AX, 3 if tier == "quick" else 4)
    cs += [dict(BASE, **c) for c in core.product(over=AX["over"], psf=AX["psf"][1:5], pover=AX["pover"], pa=AX["pa"] if tier != "quick" else AX["pa"][:5:2], cen=[(8.3, 4.6)])]
    cs += [dict(BASE, **c) for c in core.product(over=AX["over"], origin=AX["origin"], shape=AX["shape"], cen=AX["cen"], pover=[None], psf=["none"] if tier == "quick" else ["none", "a3"])]
    cs += [dict(BASE, **c) for c in core.product(base=AX["base"], over=AX["over"][:8], psf=["none", "a3"], pover=[None, 2], how=["image", "shuffle"])]
    cs += [dict(BASE, **c) for c in core.product(base=["sersic", "compound"], cen=[(30.2, 21.6), (5.4, 2.3)], shape=[(64, 48), (41, 90)], over=[None, 2, ("name", "name", 20, 6)], psf=["none", "g15", "g31", "r21"], pover=[None, 2],
                                                 origin=[(0, 0), (-40, 300)] if tier != "quick" else [(0, 0)], pa=[0.0, 90.0] if tier != "quick" else [0.0])]
    seen, out = set(), []
    for c in cs:
        k = repr(sorted(c.items()))
        if ok(c) and k not in seen:
            seen.add(k)
            out.append(c)
    return out


def base_model(name, x, y):
    if name == "sersic":
        return models.Sersic2D(3.0, 2.6, 1.7, x, y, 0.3, 0.6)
    if name == "ellip":
        return models.Sersic2D(1.0, 4.0, 4.0, x + 0.013, y - 0.008, 0.7, -1.1)  # (not on a pixel centre: infinitely steep)
    if name == "gauss":
        return models.Gaussian2D(5.0, x, y, 1.3, 2.4, 0.5)
    if name == "moffat":
        return models.Moffat2D(4.0, x, y, 2.0, 2.5)
    if name == "plane":
        return models.Planar2D(0.31, 0.17, 40.0)
    if name == "compound":
        return models.Sersic2D(3.0, 2.6, 1.7, x, y, 0.3, 0.6) + models.Gaussian2D(5.0, x + 2, y - 1, 1.3, 2.4, 0.5)
    if name == "three":
        return models.Sersic2D(3.0, 2.6, 1.7, x, y, 0.3, 0.6) + models.Sersic2D(1.0, 5, 1.0, x, y, 0.1, 0) + models.Const2D(2.0)
    if name == "gensersic":
        return GenSersic2D(amplitude=3.0, r_eff=2.6, n=1.7, x_0=x, y_0=y, ellip=0.3, theta=0.6, c_0=0.8)
    if name == "nuker":
        return Nuker2D(amplitude=3.0, r_break=3.0, x_0=x + 0.011, y_0=y + 0.007, alpha=2.0, betta=3.0, gamma=0.3)
    raise KeyError(name)


def names(base):
    ps = list(base.param_names)
    for a, b in (("x_0", "y_0"), ("x_mean", "y_mean"), ("x_0_0", "y_0_0")):
        if a in ps:
            return a, b
    return None


def image_coords(c):
    nx, ny = c["shape"]
    yy, xx = np.mgrid[:ny, :nx]
    return xx + c["origin"][0], yy + c["origin"][1]


def evaluate(t, m, c):
    """The image as an array [y, x], whatever the way of calling."""
    nx, ny = c["shape"]
    xx, yy = image_coords(c)
    how = c["how"]
    if how == "image":
        if c["origin"] == (0, 0):
            return t.call(model_to_image, m, (nx, ny))
        if all(float(o).is_integer() for o in c["origin"]):
            return t.call(model_to_image, m, (nx, ny), center=(c["origin"][0] + nx // 2, c["origin"][1] + ny // 2))
        return t.call(m, xx, yy)
    if how == "call":
        return t.call(m, xx, yy)
    if how == "float":
        return t.call(m, xx.astype(float), yy.astype(float))
    if how == "evaluate":
        return t.call(m.evaluate, xx, yy, *m.parameters)
    if how == "fortran":
        return t.call(m, np.asfortranarray(xx), np.asfortranarray(yy))
    idx = np.arange(nx * ny)
    if how == "shuffle":
        idx = (idx * 37 + 11) % (nx * ny) if (nx * ny) % 37 else idx[::-1]
    if how == "subset":
        idx = np.array([i for i in idx if i % 3 != 1 or i in (0, nx * ny - 1)])
        extra = [0, nx - 1, nx * (ny - 1), nx * ny - 1]
        idx = np.array(sorted(set(idx.tolist()) | set(extra)))
    v = np.asarray(t.call(m, xx.ravel()[idx], yy.ravel()[idx]))
    t.check(v.shape == idx.shape, "{} values for {} pixels", v.shape, idx.shape)
    out = np.full(nx * ny, np.nan)
    out[idx] = v
    return out.reshape(ny, nx)


def setup(c):
    base = base_model(c["base"], c["cen"][0] + c["origin"][0], c["cen"][1] + c["origin"][1])
    over = c["over"]
    if isinstance(over, (tuple, list)):
        nm = names(base)
        o = list(over)
        for k in (0, 1):
            if o[k] == "name":
                o[k] = nm[k] if nm else c["cen"][k] + c["origin"][k]
            else:
                o[k] = o[k] + c["origin"][k]
        over = tuple(o)
    psf = PSFS[c["psf"]]
    return base, over, None if psf is None else psf.copy()


def run(c, t):
    base, over, psf = setup(c)
    nx, ny = c["shape"]
    m = t.call(PSFConvolvedModel2D, base, psf=psf, oversample=over, psf_oversample=c["pover"])
    m.psf_pa = c["pa"]
    got = evaluate(t, m, c)
    t.check(got.shape == (ny, nx), "image of shape {}", got.shape)
    turn = {90.0: 1, 180.0: 2, -90.0: 3, 360.0: 0}.get(c["pa"]) if psf is not None and psf.shape[0] == psf.shape[1] else None
    want, inner = render(base, c["origin"][0], c["origin"][1], nx, ny, psf, over, c["pover"], c["pa"], turn)
    scale = np.nanmax(abs(want))
    if psf is not None:  # convolving by Fourier transform has errors relative to the brightest pixel of the (square) sampling grid
        n = max(nx, ny)
        scale = max(scale, np.nanmax(abs(render(base, c["origin"][0], c["origin"][1], n, n, None, over, None)[0])))
    tol = 1e-6 if c["pa"] else 1e-9
    if c["how"] in ("flat", "shuffle", "subset", "fortran", "evaluate", "float"):
        # the same pixels in any form and order
        whole = np.asarray(t.call(m, *image_coords(c)), float)
        t.same(np.where(np.isnan(got), 0, got), np.where(np.isnan(got), 0, whole), "pixels given as " + c["how"], rtol=1e-9, atol=1e-12 * scale)
    have = ~np.isnan(got) if c["how"] == "subset" else np.ones(got.shape, bool)
    cmp = inner & have
    d = np.where(cmp, abs(got - want), 0)
    k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
    t.compared += int(cmp.sum())
    t.check(not (d > tol * np.maximum(abs(want), scale * 1e-3) + tol * 1e-3 * scale).any() and not np.isnan(got[cmp]).any(),
            "pixel (x={}, y={}) is {} instead of {}\n got {}\n expected {}", k[1], k[0], got[k], want[k], np.round(got[k[0]], 6).tolist(), np.round(want[k[0]], 6).tolist())
    if psf is not None and not inner.all() and not isinstance(over, tuple) and c["base"] != "plane" and not c["pa"] % 90:
        lo, hi = envelope(base, c["origin"][0], c["origin"][1], nx, ny, psf, over, c["pover"], c["pa"])
        e = 1e-6 * scale
        bad = have & ((got < lo - e) | (got > hi + e))
        t.check(not bad.any(), "edge pixels outside of [no light from outside, all of it]: {}", np.argwhere(bad)[:3].tolist())
    if psf is not None:
        t.same(psf, PSFS[c["psf"]], "PSF after the evaluation")
    t.state(c)
    t.outcome(np.round(np.nan_to_num(got[:2, :3]) / scale, 7))
