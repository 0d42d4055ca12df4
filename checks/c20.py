"""Image and grid coordinates."""
import itertools

import numpy as np

from astropy.modeling import custom_model, models
from astropy.nddata import CCDData, Cutout2D

from mc import core
from mc.oracles import pattern
from mc.render import samples
from petrofit import PSFConvolvedModel2D, make_grid, model_to_image, plot_fit
from petrofit.modeling.fitting import model_center_to_image_origin

ID = "C20"
ASSUMPTIONS = ["'integrate' and 'linear_interp' modes are compared for models whose pixel averages are known in closed form"]


@custom_model
def Code(x, y, a=1.0, b=1000.0, c=0.125):
    """Every pixel has its own value."""
    return a * x + b * y + c * x * y


def bounds(tier):
    return "all widths and heights 1..{0} x centres {1} x models x forms of size; all grid sizes 1..{0}, factors 1..{2} and origins; modes x factors; images of up to 200x150 pixels; fit plots of all container types".format(
        7 if tier == "quick" else 11, CEN, 6 if tier == "quick" else 9)


CEN = [None, (0, 0), (5, 3), (-4, 7), (3, 3), (100, -50), (2.5, 4.5), (1.25, -0.75)]
MODELS = ["code", "gauss", "wrap", "compound", "callable"]


def cases(tier):
    n = 7 if tier == "quick" else 11
    out = []
    for nx, ny in itertools.product(range(1, n + 1), repeat=2):
        out.append(("size", nx, ny))
    out += [("size", nx, ny) for nx, ny in ((1, 64), (200, 1), (200, 150), (128, 128), (31, 130), (100, 100))]
    out += [("grid", s, f) for s, f in ((50, 2), (101, 10), (64, 1), (17, 50), (1, 100), (200, 3))]
    out += [("mode", c) for c in core.product(mode=["center", "linear_interp", "oversample"], size=[(60, 41), (33, 120)], cen=[None, (30, 20), (-300, 1000)], factor=[2, 5, 10])]
    out += [("fit", c) for c in core.product(shape=[(80, 60), (15, 120)], cen=[None, (40, 33)], box=["array", "ccd", "cutout", "nan", "masked"], opt=[0, 1, 2])]
    out += [("grid", s, f) for s in range(1, n + 1) for f in range(1, (6 if tier == "quick" else 9) + 1)]
    out += [("mode", c) for c in core.product(mode=["center", "linear_interp", "oversample", "integrate"], size=[(5, 4), (3, 6), (4, 4)], cen=[None, (6, 2), (-3, 1)], factor=[2, 3, 10])]
    out += [("fit", c) for c in core.product(shape=[(8, 6), (5, 9), (7, 7)], cen=[None, (4, 3), (10, -2), (0, 0)], box=["array", "ccd", "cutout", "int", "f4", "ro", "nan", "masked"], opt=[0, 1, 2, 3])]
    out += [("bad", k) for k in range(12)]
    return out


def model(name):
    if name == "code":
        return Code()
    if name == "gauss":
        return models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3)
    if name == "wrap":
        return PSFConvolvedModel2D(models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3))
    if name == "compound":
        return Code() + models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3)
    return lambda x, y: 2.0 * x - 7.0 * y + 0.5 * x * y


def origin(c, nx, ny):
    return (0, 0) if c is None else (c[0] - nx // 2, c[1] - ny // 2)


def plain(name, xx, yy):
    m = model(name)
    if name == "wrap":
        m = m.model
    return np.asarray(m(xx, yy), float)


def run(case, t):
    kind = case[0]
    if kind == "size":
        nx, ny = case[1:]
        for name, c in itertools.product(MODELS, CEN):
            x0, y0 = origin(c, nx, ny)
            yy, xx = np.mgrid[:ny, :nx]
            want = plain(name, xx + float(x0), yy + float(y0))
            forms = [(nx, ny), [nx, ny], np.array([nx, ny]), (float(nx), float(ny)), (np.int64(nx), np.int32(ny))]
            if nx == ny:
                forms += [nx, float(nx), np.int64(nx), np.float64(nx)]
            for k, f in enumerate(forms):
                cc = c if c is None or k % 3 == 0 else list(c) if k % 3 == 1 else np.array(c)
                if k and name in ("gauss", "compound"):
                    continue
                got = t.call(model_to_image, model(name), f, center=cc)
                t.check(isinstance(got, np.ndarray) and got.shape == (ny, nx), "size {!r} centre {}: image of shape {}", f, cc, getattr(got, "shape", None))
                t.same(got, want, "model {} size {!r} centre {!r}".format(name, f, cc), rtol=1e-9, atol=1e-9)
            if c is not None:
                o = t.call(model_center_to_image_origin, c, (nx, ny))
                t.same([float(v) for v in o], [x0, y0], "origin for centre {} and size {}".format(c, (nx, ny)))
        t.state(nx, ny)
        t.outcome(got)
    elif kind == "grid":
        s, f = case[1:]
        for o in [(0, 0), (3, -2), (0.5, 0.25), (-100.5, 7), (1e3, -1e3)]:
            o0 = list(o)
            x, y = t.call(make_grid, s, origin=o, factor=f)
            x, y = np.asarray(x), np.asarray(y)
            sx, sy = samples(o[0], s, f), samples(o[1], s, f)
            wx, wy = np.meshgrid(sx, sy)
            t.same(x, wx, "x of the grid of size {} factor {} origin {}".format(s, f, o), rtol=1e-12, atol=1e-9)
            t.same(y, wy, "y of the grid of size {} factor {} origin {}".format(s, f, o), rtol=1e-12, atol=1e-9)
            # the samples of a pixel average to its centre and stay inside it
            px = x[0].reshape(s, f)
            t.same(px.mean(axis=1), np.arange(s) + o[0], "mean of the samples of a pixel", rtol=1e-12, atol=1e-9)
            t.check((abs(px - (np.arange(s) + o[0])[:, None]) < 0.5).all(), "samples outside their pixel")
            t.equal(list(o), o0, "origin after the call")
        x, y = t.call(make_grid, s)
        t.same(x[0], np.arange(s), "default grid")
        t.same(y[:, 0], np.arange(s), "default grid")
        t.state(s, f)
        t.outcome(x[0])
    elif kind == "mode":
        c = case[1]
        nx, ny = c["size"]
        x0, y0 = origin(c["cen"], nx, ny)
        yy, xx = np.mgrid[:ny, :nx]
        # bilinear model: the average of a pixel equals its centre in every mode
        m = Code()
        want = np.asarray(m(xx + x0, yy + y0))
        got = t.call(model_to_image, m, (nx, ny), mode=c["mode"], factor=c["factor"], center=c["cen"])
        t.same(got, want, "bilinear model in mode {}".format(c["mode"]), rtol=1e-8, atol=1e-6)
        # quadratic model: the averages differ by a known constant
        q = models.Polynomial2D(2, c0_0=1.0, c2_0=1.0, c0_2=2.0, c1_0=0.5)
        base = np.asarray(q(xx + x0, yy + y0))
        extra = {"center": 0.0, "linear_interp": 3 * 0.25, "integrate": 3 / 12.0}.get(c["mode"])
        if extra is None:
            k = (np.arange(c["factor"]) + 0.5) / c["factor"] - 0.5
            extra = 3 * (k**2).mean()
        got = t.call(model_to_image, q, (nx, ny), mode=c["mode"], factor=c["factor"], center=c["cen"])
        t.same(got, base + extra, "quadratic model in mode {} factor {}".format(c["mode"], c["factor"]), rtol=1e-7, atol=1e-6)
        t.state(c)
        t.outcome(got)
    elif kind == "fit":
        fit(case[1], t)
    elif kind == "bad":
        k = case[1]
        m = Code()
        bad = [dict(size=(3, 4, 5)), dict(size=(3.5, 4)), dict(size=2.5), dict(size="5"), dict(size=(5,)), dict(size=None), dict(size=(4, 4), center=(1, 2, 3)), dict(size=(4, 4), center=3),
               dict(size=(4, 4), center="ab"), dict(size=(4, 4), center=(1,)), dict(size=(4, 4), mode="nearest"), dict(size={"x": 1})][k]
        t.rejects(model_to_image, "{}".format(bad), m, **bad)
        t.rejects(make_grid, "fractional factor", 4, factor=2.5)
        t.state(k)


def fit(c, t):
    from matplotlib import pyplot as plt

    nx, ny = c["shape"]
    img = pattern((ny, nx), 3, -5, 20)
    if c["box"] == "int":
        img = np.round(img).astype(int)
    elif c["box"] == "f4":
        img = img.astype("f4")
    if c["box"] == "nan":
        img[0, nx // 2] = img[ny - 1, 0] = np.nan
        img[ny // 2, nx - 1] = np.nan
    elif c["box"] == "masked":
        img = np.ma.masked_array(img, mask=(np.arange(nx * ny) % 5 == 2).reshape(ny, nx))
    arr = np.ma.getdata(img).copy()
    hide = np.ma.getmaskarray(img)
    box = img
    if c["box"] == "ccd":
        box = CCDData(arr.copy(), unit="adu")
    elif c["box"] == "cutout":
        big = np.full((ny + 8, nx + 10), 99.0)
        big[3 : 3 + ny, 4 : 4 + nx] = arr
        box = Cutout2D(big, (4 + (nx - 1) / 2, 3 + (ny - 1) / 2), (ny, nx), copy=True)
        t.check(np.array_equal(box.data, arr), "harness: cutout")
    elif c["box"] == "ro":
        img.flags.writeable = False
    m = [models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3), PSFConvolvedModel2D(models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3), psf=np.array([[0, 0.125, 0], [0.25, 0.25, 0.25], [0, 0.125, 0]])),
         models.Planar2D(1, 2, 3), models.Gaussian2D(3.0, 2.2, 3.1, 2.0, 1.2, 0.3)][c["opt"]]
    p0 = np.array(m.parameters)
    x0, y0 = origin(c["cen"], nx, ny)
    kw = [dict(), dict(cbar=False, vmin=-1, vmax=5), dict(fontsize=9, figsize=[9, 3], flux_label="Jy"), dict(mode="linear_interp")][c["opt"]]
    plt.close("all")
    axs, cbar, mi, res = t.call(plot_fit, m, box, center=c["cen"], **kw)
    yy, xx = np.mgrid[:ny, :nx]
    want = np.asarray(m(xx + x0, yy + y0))
    if c["opt"] == 3:
        # the mean of the corners of the pixel
        want = np.mean([m(xx + x0 + dx, yy + y0 + dy) for dx in (-0.5, 0.5) for dy in (-0.5, 0.5)], axis=0)
    t.same(mi, want, "model image", rtol=1e-9, atol=1e-9)
    if c["box"] == "masked":
        t.check(np.ma.isMaskedArray(res) and np.array_equal(res.mask, hide), "mask of the residual {!r}", res)
        t.check(np.array_equal(np.ma.getmaskarray(axs[2].images[0].get_array()), hide), "masked pixels of the drawn residual")
    t.same(np.asarray(res)[~hide], (arr.astype(float) - want)[~hide], "residual image", rtol=1e-6, atol=1e-5 if c["box"] == "f4" else 1e-9)
    t.same(m.parameters, p0, "model after plotting")
    t.same(np.asarray(box.data if hasattr(box, "wcs") or c["box"] in ("ccd", "cutout") else box), arr, "image after plotting")
    t.check(len(axs) == 3, "{} axes", len(axs))
    for ax, im in zip(axs, (arr, want, arr - want)):
        t.check(len(ax.images) == 1, "{} images on an axis", len(ax.images))
        shown = ax.images[0].get_array()
        use = ~np.ma.getmaskarray(shown) & np.isfinite(im)
        t.check((use | hide | ~np.isfinite(im)).all(), "valid pixels are not drawn as {}", ax.get_title())
        t.check(not use[hide].any() or ax is axs[1], "masked pixels drawn as {}", ax.get_title())
        t.same(np.ma.getdata(shown).astype(float)[use], im[use], "image drawn as {}".format(ax.get_title()), rtol=1e-6, atol=1e-5)
    clims = [ax.images[0].get_clim() for ax in axs]
    t.check(clims[0] == clims[1] == clims[2], "colour ranges differ: {}", clims)
    if c["opt"] == 1:
        t.same(clims[0], (-1, 5), "colour range")
    t.check((cbar is None) == (c["opt"] == 1), "colour bar {!r}", cbar)
    plt.gcf().canvas.draw()
    plt.close("all")
    t.state(c)
    t.outcome(mi)
