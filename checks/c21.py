"""Fitting on the valid pixels."""
import itertools
import warnings

import numpy as np

from astropy.modeling import fitting, models
from astropy.modeling.optimizers import DEFAULT_ACC, DEFAULT_EPS

from mc import core
from mc.oracles import pattern
from petrofit import PSFConvolvedModel2D, fit_background, fit_model, model_to_image

ID = "C21"
FIT = {"linear": fitting.LinearLSQFitter, "trf": fitting.TRFLSQFitter, "levmar": fitting.LevMarLSQFitter, "lm": fitting.LMLSQFitter, "dogbox": fitting.DogBoxLSQFitter}
ASSUMPTIONS = ["linear models are compared with weighted linear least squares (numpy), other models with the noise-free truth they were made from"]


def bounds(tier):
    return "all 512 sets of invalid pixels of a 3x3 image (4096 of a 3x4 image in thorough) x NaN/mask/both x weights with the linear fitter; all sets of up to 2 invalid pixels with every fitter; images of up to 101x101 and 1x400 pixels; recovery lattice of 6 models x fitters x invalid patterns; constraints lattice"


def cases(tier):
    out = [("lin", 3, 3, k) for k in range(512 // 8)]
    if tier != "quick":
        out += [("lin", 3, 4, k) for k in range(4096 // 8)]
    for f in FIT:
        for n in (0, 1, 2):
            for s in itertools.combinations(range(12), n):
                if tier != "quick" or n < 2 or f in ("trf", "levmar"):
                    out.append(("few", f, list(s)))
    out += [("rec", c) for c in core.product(model=["gauss", "sersic", "wrap", "wrappsf", "wrapover", "two"], fit=["trf", "levmar", "lm"] if tier == "quick" else ["trf", "levmar", "lm", "dogbox"],
                                            bad=["none", "corner", "row", "checker", "mask", "big"], w=[0, 1])
            if tier != "quick" or c["fit"] == "trf" or (c["w"] == 0 and c["bad"] in ("row", "mask", "none"))]
    out += [("con", c) for c in core.product(kind=["fixed", "bounds", "both"], fit=["trf", "levmar", "lm", "linear"], which=[0, 1, 2], w=[0, 1])]
    out += [("misc", k) for k in range(12)]
    out += [("large", c) for c in core.product(shape=[(70, 60), (33, 200), (101, 101), (1, 400), (64, 128)], bad=range(8), fit=["linear", "trf"])]
    return out


def lstsq(img, ok, w):
    if ok.sum() < 3:
        return None, 0
    ny, nx = img.shape
    yy, xx = np.mgrid[:ny, :nx]
    wt = np.ones(img.shape) if w is None else w
    a = np.stack([xx[ok], yy[ok], np.ones(ok.sum())], axis=1) * wt[ok][:, None]
    return np.linalg.lstsq(a, img[ok] * wt[ok], rcond=None)[0], np.linalg.matrix_rank(a)


def spoil(img, bad, how):
    """The image with its bad pixels marked as invalid."""
    z = img.astype(float).copy()
    if how == "nan":
        z[bad] = np.nan
        return z
    z[bad] = 1e7
    if how == "mask":
        return np.ma.masked_array(z, bad)
    m = bad.copy()
    half = bad & (np.arange(bad.size).reshape(bad.shape) % 2 == 0)
    z[half] = np.nan
    m[half] = False
    return np.ma.masked_array(z, m)


def snapshot(x):
    return None if x is None else (np.array(np.ma.getdata(x)), np.array(np.ma.getmaskarray(x)))


def fit(t, img, model, what, **kw):
    """Fit and check that nothing but the result changed."""
    s_img, s_w = snapshot(img), snapshot(kw.get("weights"))
    p0 = np.array(model.parameters)
    c0 = (dict(model.fixed), dict(model.bounds))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = t.call(fit_model, img, model, **kw)
    t.check(isinstance(r, tuple) and len(r) == 2, "{}: returned {!r}", what, type(r))
    m, f = r
    cls = kw.get("fitter", fitting.TRFLSQFitter)
    t.check(isinstance(f, cls) and isinstance(f.fit_info, dict) and len(f.fit_info) > 0, "{}: fitter is {!r}", what, f)
    t.check(m is not model and type(m) is type(model), "{}: fitted model is {!r}", what, type(m))
    t.same(model.parameters, p0, what + ": input model")
    t.check((dict(model.fixed), dict(model.bounds)) == c0, "{}: constraints of the input model changed", what)
    a, b = snapshot(img)
    t.same(a, s_img[0], what + ": input image")
    t.check((b == s_img[1]).all(), "{}: mask of the input image changed", what)
    if s_w is not None:
        t.same(kw["weights"], s_w[0], what + ": weights")
    return m, f


def run(case, t):
    kind = case[0]
    if kind == "lin":
        ny, nx, k = case[1:]
        img = pattern((ny, nx), 4, -9, 30)
        wts = pattern((ny, nx), 8, 0.2, 3)
        for s in range(8 * k, 8 * k + 8):
            bad = np.array([(s >> i) & 1 for i in range(nx * ny)], bool).reshape(ny, nx)
            for w in (None, wts):
                want, rank = lstsq(img, ~bad, w)
                if rank < 3:
                    continue
                for how in ("nan", "mask", "both"):
                    m, _ = fit(t, spoil(img, bad, how), models.Planar2D(0.5, -1, 3), "invalid {} {}".format(np.argwhere(bad).tolist(), how), weights=w, fitter=FIT["linear"])
                    t.same(m.parameters, want, "plane through the valid pixels; invalid (y, x): {} marked by {}; weights {}".format(np.argwhere(bad).tolist(), how, w is not None), rtol=1e-7, atol=1e-7)
                t.state(s, w is None)
                t.outcome(np.round(m.parameters, 6))
    elif kind == "few":
        img = pattern((3, 4), 5, -9, 30)
        wts = pattern((3, 4), 9, 0.5, 2)
        bad = np.zeros(12, bool)
        bad[case[2]] = True
        bad = bad.reshape(3, 4)
        for w in (None, wts):
            want, _ = lstsq(img, ~bad, w)
            for how in ("nan", "mask"):
                m, _ = fit(t, spoil(img, bad, how), models.Planar2D(0.5, -1, 3), "invalid {} {}".format(np.argwhere(bad).tolist(), how), weights=w, fitter=FIT[case[1]])
                t.same(m.parameters, want, "plane with {} through the valid pixels; invalid (y, x): {} marked by {}; weights {}".format(case[1], np.argwhere(bad).tolist(), how, w is not None), rtol=1e-4, atol=1e-4)
        t.state(case)
        t.outcome(np.round(m.parameters, 3))
    elif kind == "rec":
        recover(case[1], t)
    elif kind == "con":
        constrained(case[1], t)
    elif kind == "large":
        large(case[1], t)
    else:
        misc(case[1], t)


def large(c, t):
    """Planes through images of thousands of pixels; sets of invalid pixels of every share."""
    ny, nx = c["shape"]
    img = pattern((ny, nx), 4, -9, 30)
    wts = pattern((ny, nx), 8, 0.2, 3)
    i = np.arange(nx * ny).reshape(ny, nx)
    y, x = np.divmod(i, nx)
    keep = [x > -1, x != nx - 1, x > nx // 2, (i * 7919) % (nx * ny) < 40, (x + y) % 2 == 0, i > 3, (x < nx - 1) & (x % 10 < 5), (i * 31) % 97 != 5][c["bad"]]
    if ny == 1:
        want = None
    for w in (None, wts):
        for how in ("nan", "mask", "both"):
            what = "{}x{} pixels, {} valid, marked by {}, weights {}, {}".format(ny, nx, keep.sum(), how, w is not None, c["fit"])
            if ny == 1:
                m0 = models.Planar2D(0.5, 0.0, 3, fixed={"slope_y": True})
                wt = np.ones(img.shape) if w is None else w
                a = np.stack([x[keep], np.ones(keep.sum())], axis=1) * wt[keep][:, None]
                s = np.linalg.lstsq(a, img[keep] * wt[keep], rcond=None)[0]
                want = [s[0], 0.0, s[1]]
            else:
                m0 = models.Planar2D(0.5, -1, 3)
                want, rank = lstsq(img, keep, w)
                if rank < 3:
                    continue
            m, _ = fit(t, spoil(img, ~keep, how), m0, what, weights=w, fitter=FIT[c["fit"]])
            tol = 1e-7 if c["fit"] == "linear" else 1e-4
            t.same(m.parameters, want, "plane through " + what, rtol=tol, atol=tol)
    t.state(c)
    t.outcome(np.round(want, 4))


def truth(name):
    """True model and a start that differs from it."""
    if name == "gauss":
        return models.Gaussian2D(9, 6.3, 4.2, 1.6, 2.4, 0.3), dict(amplitude=6, x_mean=5.5, y_mean=5, x_stddev=1.3, y_stddev=2.9, theta=0.5)
    if name == "two":
        return models.Gaussian2D(9, 3.3, 4.2, 1.3, 1.3, 0, fixed={"theta": True}) + models.Const2D(2.0), dict(amplitude_0=7, x_mean_0=4, y_mean_0=4.5, amplitude_1=1.0)
    s = models.Sersic2D(5, 2.4, 1.2, 6.2, 4.7, 0.3, 0.4, bounds={"n": (0.3, 5), "r_eff": (0.3, 9), "ellip": (0, 0.9)})
    start = dict(amplitude=4, r_eff=2.8, n=1.0, x_0=6.0, y_0=5.0, ellip=0.2, theta=0.5)
    if name == "sersic":
        return s, start
    psf = np.array([[0, 1, 0], [2, 8, 1], [0, 1, 0]]) / 13.0
    kw = {"wrap": dict(), "wrappsf": dict(psf=psf), "wrapover": dict(psf=psf, oversample=("x_0", "y_0", 4, 3))}[name]
    w = PSFConvolvedModel2D(s, **kw)
    w.psf_pa.fixed = True
    return w, start


def bad_pixels(kind, shape):
    b = np.zeros(shape, bool)
    if kind == "corner":
        b[:2, :3] = True
    elif kind in ("row", "big"):
        b[0, :] = True
        b[:, -1] = True
        if kind == "big":
            b[-3:, :] = True
            b[2, 5] = True
    elif kind in ("checker", "mask"):
        b[::3, 1::2] = True
    return b


def recover(c, t):
    true, start = truth(c["model"])
    img = np.asarray(model_to_image(true, (13, 11)))
    bad = bad_pixels(c["bad"], img.shape)
    if c["bad"] in ("row", "big", "corner") and c["model"] == "wrappsf":
        # the image of a convolved model depends on the light outside of the fitted frame: keep the frame, lose its inside
        bad[0, 0] = bad[0, -1] = bad[-1, 0] = bad[-1, -1] = False
    if c["model"] == "wrapover":
        bad[0, 0] = bad[0, -1] = bad[-1, 0] = bad[-1, -1] = False
    z = spoil(img, bad, "mask" if c["bad"] in ("mask", "corner") else "nan")
    m0 = true.copy()
    for k, v in start.items():
        setattr(m0, k, v)
    w = pattern(img.shape, 3, 0.5, 2) if c["w"] else None
    m, f = fit(t, z, m0, str(c), weights=w, fitter=FIT[c["fit"]])
    got = np.asarray(model_to_image(m, (13, 11)))
    d = abs(got - img).max() / img.max()
    t.check(d < 2e-3, "{}: the fitted model differs from the truth by {} of the maximum: {} instead of {}", c, d, np.round(m.parameters, 4).tolist(), np.round(true.parameters, 4).tolist())
    for p in true.param_names:
        if m.fixed[p]:
            t.same(getattr(m, p).value, getattr(true, p).value, "{}: fixed parameter {}".format(c, p), rtol=1e-12)
        else:
            a, b = getattr(m, p).value, getattr(true, p).value
            if p.startswith(("theta", "ellip")) and c["bad"] == "big":
                continue
            t.check(abs(a - b) < 0.02 * max(1, abs(b)), "{}: {} is {} instead of {}", c, p, a, b)
    t.state(c)
    t.outcome(np.round(m.parameters, 2))


def constrained(c, t):
    """Planes with fixed or bounded coefficients."""
    img = np.asarray(models.Planar2D(2.0, -3.0, 10.0)(*np.meshgrid(np.arange(6.0), np.arange(5.0)))) + pattern((5, 6), 2, -0.1, 0.1)
    names = ["slope_x", "slope_y", "intercept"]
    p, q = names[c["which"]], names[(c["which"] + 1) % 3]
    fixed, bnd = {}, {}
    if c["kind"] in ("fixed", "both"):
        fixed = {p: True}
    if c["kind"] in ("bounds", "both"):
        bnd = {q: {"slope_x": (-1, 1.5), "slope_y": (-2.5, 4), "intercept": (0, 8)}[q]}
    if c["fit"] in ("linear", "lm") and bnd:  # these fitters do not honour bounds
        return
    m0 = models.Planar2D(1.0, -1.0, 5.0, fixed=fixed, bounds=bnd)
    w = pattern((5, 6), 3, 0.5, 2) if c["w"] else None
    m, f = fit(t, img, m0, str(c), weights=w, fitter=FIT[c["fit"]])
    for k in fixed:
        t.same(getattr(m, k).value, getattr(m0, k).value, "{}: fixed parameter {}".format(c, k), rtol=0, atol=0)
    for k, (lo, hi) in bnd.items():
        v = getattr(m, k).value
        t.check(lo - 1e-9 <= v <= hi + 1e-9, "{}: {}={} is outside of [{}, {}]", c, k, v, lo, hi)
    t.check(dict(m.fixed) == dict(m0.fixed) and {k: tuple(v) for k, v in m.bounds.items()} == {k: tuple(v) for k, v in m0.bounds.items()}, "{}: constraints of the fitted model", c)
    # the fixed problem is still a least-squares plane
    if not bnd:
        free = [n for n in names if n not in fixed]
        yy, xx = np.mgrid[:5, :6]
        cols = dict(slope_x=xx.ravel(), slope_y=yy.ravel(), intercept=np.ones(30))
        wt = np.ones(30) if w is None else w.ravel()
        rhs = img.ravel() - sum(getattr(m0, n).value * cols[n] for n in fixed)
        sol = np.linalg.lstsq(np.stack([cols[n] * wt for n in free], axis=1), rhs * wt, rcond=None)[0]
        t.same([getattr(m, n).value for n in free], sol, "{}: free coefficients".format(c), rtol=1e-4, atol=1e-4)
    t.state(c)
    t.outcome(np.round(m.parameters, 4))


def settings(k, t):
    """The settings of the fitter are those that were asked for."""
    name = ("trf", "levmar", "lm", "trf")[k]
    g, _ = truth("gauss")
    z = np.asarray(model_to_image(g, (13, 11))) + 0.05 * pattern((11, 13), 3, -1, 1)
    z[2, 3] = np.nan
    j, i = np.nonzero(~np.isnan(z))
    w = pattern(z.shape, 5, 0.5, 2.0) if k == 3 else None
    seen = set()
    for kw in core.product(epsilon=[DEFAULT_EPS, 1e-3, 0.2], acc=[DEFAULT_ACC, 1e-2, 0.3], maxiter=[5000, 4, 1], estimate_jacobian=[False, True], calc_uncertainties=[False, True]):
        cu = kw.pop("calc_uncertainties")
        m0 = models.Gaussian2D(2, 5.5, 5.5, 2.0, 2.0, 0.1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = FIT[name](calc_uncertainties=cu)
            want = ref(m0, i, j, z[j, i], weights=None if w is None else w[j, i], **kw)
        m, f = fit(t, z, m0, "{} {}".format(name, kw), weights=w, fitter=FIT[name], calc_uncertainties=cu, **kw)
        t.same(m.parameters, want.parameters, "parameters with {} {}".format(name, kw), rtol=1e-6, atol=1e-7)
        t.check((m.cov_matrix is None) == (want.cov_matrix is None), "{}: covariance {!r}", kw, m.cov_matrix)
        if "nfev" in ref.fit_info:
            t.equal(f.fit_info["nfev"], ref.fit_info["nfev"], "evaluations with {}".format(kw))
        seen.add(tuple(np.round(want.parameters, 5)))
        # the same through the background fit
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b, fb = t.call(fit_background, z, m0, sigma=None, fitter=FIT[name], calc_uncertainties=cu)
        direct, _ = fit(t, z, m0, "direct", fitter=FIT[name], calc_uncertainties=cu)
        t.check((b.cov_matrix is None) == (direct.cov_matrix is None), "background: covariance {!r}", b.cov_matrix)
        t.check(isinstance(fb, FIT[name]), "background: fitter {!r}", fb)
    t.check(len(seen) > 3, "harness: the settings make no difference")


def misc(k, t):
    img = pattern((6, 5), 4, -9, 30)
    want, _ = lstsq(img, np.ones(img.shape, bool), None)
    if k == 0:
        t.rejects(fit_model, "weights of another shape", img, models.Planar2D(), weights=np.ones((5, 6)))
        t.rejects(fit_model, "weights of another length", img, models.Planar2D(), weights=np.ones(30))
    elif k == 1:  # integer and read-only images, several dtypes
        for dt in ("i4", "u2", "f4", ">f8"):
            z = np.round(pattern((6, 5), 4, 1, 30)).astype(dt)
            z.flags.writeable = False
            m, _ = fit(t, z, models.Planar2D(), dt, fitter=FIT["linear"])
            t.same(m.parameters, lstsq(z.astype(float), np.ones(z.shape, bool), None)[0], "plane of an image of type " + dt, rtol=1e-6, atol=1e-6)
    elif k == 2:  # default fitter
        m, f = fit(t, img, models.Planar2D(), "default fitter")
        t.check(isinstance(f, fitting.TRFLSQFitter), "default fitter is {!r}", f)
        t.same(m.parameters, want, "plane with the default fitter", rtol=1e-4, atol=1e-4)
    elif k == 3:  # uncertainties on request only
        for name in ("trf", "levmar", "lm", "linear"):
            m, f = fit(t, img, models.Planar2D(1, 1, 1), name, fitter=FIT[name], calc_uncertainties=True)
            t.check(m.cov_matrix is not None and m.stds is not None, "{}: no covariance although it was requested", name)
            a = np.stack([np.mgrid[:6, :5][1].ravel(), np.mgrid[:6, :5][0].ravel(), np.ones(30)], axis=1).astype(float)
            res = img.ravel() - a @ want
            cov = np.linalg.inv(a.T @ a) * (res**2).sum() / (30 - 3)
            t.same(m.cov_matrix.cov_matrix, cov, name + ": covariance", rtol=2e-3, atol=1e-6)
            m, f = fit(t, img, models.Planar2D(1, 1, 1), name, fitter=FIT[name])
            t.check(m.cov_matrix is None, "{}: covariance without request", name)
    elif k == 4:  # a limited number of iterations is respected
        g, start = truth("gauss")
        z = np.asarray(model_to_image(g, (13, 11)))
        m0 = models.Gaussian2D(2, 3, 7, 3, 1, 0)
        m1, f1 = fit(t, z, m0, "one iteration", maxiter=1, fitter=FIT["trf"])
        t.check(f1.fit_info["nfev"] <= 1, "{} evaluations instead of one", f1.fit_info["nfev"])
        m2, f2 = fit(t, z, m0, "many iterations", fitter=FIT["trf"])
        t.check(f2.fit_info["nfev"] > 1, "{} evaluations", f2.fit_info["nfev"])
    elif k == 5:  # two fits do not know each other
        a, _ = fit(t, img, models.Planar2D(), "first", fitter=FIT["linear"])
        b, _ = fit(t, img * 2, models.Planar2D(), "second", fitter=FIT["linear"])
        t.same(a.parameters * 2, b.parameters, "second fit", rtol=1e-9)
        t.same(a.parameters, want, "first fit after the second", rtol=1e-9)
    elif k == 6:  # estimated and analytic derivatives agree
        g, start = truth("gauss")
        z = np.asarray(model_to_image(g, (13, 11)))
        out = [fit(t, z, models.Gaussian2D(**start), "jacobian {}".format(e), estimate_jacobian=e, fitter=FIT[f])[0].parameters for e in (False, True) for f in ("trf", "levmar")]
        for o in out:
            t.same(o, g.parameters, "Gaussian", rtol=1e-3, atol=1e-3)
    elif k == 7:  # mask of a masked image without any masked pixel
        m, _ = fit(t, np.ma.masked_array(img), models.Planar2D(), "no mask", fitter=FIT["linear"])
        t.same(m.parameters, want, "masked image without masked pixels", rtol=1e-9)
        m, _ = fit(t, np.ma.masked_array(img, False), models.Planar2D(), "scalar mask", fitter=FIT["linear"])
        t.same(m.parameters, want, "masked image with a scalar mask", rtol=1e-9)
    elif 8 <= k <= 11:
        settings(k - 8, t)
    t.state(k)
