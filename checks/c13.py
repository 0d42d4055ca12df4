"""Unit scaling."""
import itertools

import numpy as np

from astropy.modeling import models

from mc import core, petro
from mc.core import Violation
from mc.oracles import pattern
from petrofit import PSFConvolvedModel2D, Petrosian, calculate_petrosian, fraction_to_r, model_to_image, radial_photometry

ID = "C13"
POW = [-40, -12, -3, 1, 5, 30]
FLUX = ["total_flux", "half_flux"]
FLUX_ERR = ["total_flux_err", "half_flux_err"]
RADII = ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_total_flux", "r_total_flux_err", "r_half_light", "r_half_light_err", "r_50", "r_50_err", "r20", "r20_err", "r80",
         "rdef", "rdef_err"]
ASSUMPTIONS = ["scales are powers of two, which binary floating point multiplies exactly, so that sampled radii cannot tie differently"]


def bounds(tier):
    return "all curves of 4 increments over {{1,4,9}} and 6 named profiles x flux/area/radius scales 2^{} x interpolation x errors; photometry and models x scales".format(POW)


def cases(tier):
    out = []
    for inc in itertools.product([1, 4, 9], repeat=2 if tier == "quick" else 3):
        for kd in ("cubic", "linear", None):
            out.append(("cog", list(inc), kd))
    for n in ("ok", "err", "err2", "short", "noeta"):
        for s in POW:
            out.append(("named", n, s))
    out += [("fluxerr", n, s) for n in ("err", "err2") for s in (-3, 5)]
    for c in core.product(method=["exact", "center", "subpixel"], mask=[0, 1], elong=[1.0, 1.7], s=POW):
        out.append(("phot", c))
    for c in core.product(psf=[0, 1], over=[None, 3, ["x_0", "y_0", 4, 2]], base=[0, 1, 2], s=POW):
        out.append(("model", c))
    return out


def scaled(r, a, f, fe, ae, kr=1.0, ka=1.0, kf=1.0):
    return (r * kr, a * ka, f * kf, None if fe is None else fe * kf, None if ae is None else ae * ka)


def profile_scales(t, data, kw, scales, what):
    def obs(d):
        p = t.call(Petrosian, d[0], d[1], d[2], flux_err=d[3], area_err=d[4], **kw)
        return t.call(petro.observe, p)

    base = obs(data)
    t.outcome(base)
    for axis in ("flux", "area", "radius", "all"):
        for s in scales:
            k = 2.0 ** s
            kr, ka, kf = {"flux": (1, 1, k), "area": (1, k, 1), "radius": (k, 1, 1), "all": (k, 2.0 ** -3, 2.0 ** 7)}[axis]
            got = obs(scaled(*data, kr=kr, ka=ka, kf=kf))
            w = "{}: {} scaled by 2^{}".format(what, axis, s)
            for q in RADII:
                t.same(got[q], base[q] * kr, w + ": " + q, atol=1e-12 * kr)
            for q in FLUX:
                t.same(got[q], base[q] * kf, w + ": " + q, atol=1e-12 * kf)
            if kr == 1 and kf == 1:
                for q in FLUX_ERR:
                    t.same(got[q], base[q], w + ": " + q)
            for q in ("c2080", "c5090", "petrosian_list", "petrosian_err"):
                if base[q] is None:
                    t.check(got[q] is None, "{}: {} appeared", w, q)
                else:
                    t.same(got[q], base[q], w + ": " + q)
            for q in ("ci", "ci37"):
                t.same(np.array(got[q]) / [kr, kr, 1], base[q], w + ": " + q)
            t.equal(got["r_epsilon_in_range"], base["r_epsilon_in_range"], w + ": range flag")
            t.state(what, axis, s)


def run(case, t):
    kind = case[0]
    if kind == "cog":
        for tl in itertools.product([1, 4, 9], repeat=2):
            inc = case[1] + list(tl)
            f = np.cumsum([3.0] + inc)
            r = np.array([1.0, 2, 3.5, 6, 8, 12])[: len(f)]
            for fe in (None, 0.02 * f + 0.1):
                profile_scales(t, (r, np.pi * r**2, f, fe, None), dict(interp_kind=case[2], interp_num=101, eta=0.3), POW[::2] if fe is None else POW[1:2],
                               "increments {} {}".format(inc, case[2]))
    elif kind == "named":
        data = petro.profile(case[1])
        for kd in ("cubic", "linear"):
            profile_scales(t, data, dict(interp_kind=kd, interp_num=777), [case[2]], "profile {} {}".format(case[1], kd))
    elif kind == "fluxerr":
        fluxerr(t, case)
    elif kind == "phot":
        c = case[1]
        img = pattern((12, 14), 5, -4, 50)
        err = pattern((12, 14), 6, 0.1, 2)
        mask = (pattern((12, 14), 7, 0, 1) > 0.2) if c["mask"] else None
        rl = [1, 2, 3.3, 4.4, 7]
        k = 2.0 ** c["s"]
        kw = dict(mask=mask, elong=c["elong"], theta=0.4, method=c["method"])
        f0, a0, e0 = t.call(radial_photometry, img.copy(), (6.2, 5.7), rl, error=err.copy(), **kw)
        f1, a1, e1 = t.call(radial_photometry, img * k, (6.2, 5.7), rl, error=err * k, **kw)
        t.same(np.array(f1) / k, f0, "fluxes of an image scaled by 2^{}".format(c["s"]))
        t.same(np.array(e1) / k, e0, "flux errors of an image scaled by 2^{}".format(c["s"]))
        t.same(a1, a0, "areas of an image scaled by 2^{}".format(c["s"]))
        p0, p1 = t.call(calculate_petrosian, a0, f0)[0], t.call(calculate_petrosian, a1, f1)[0]
        t.same(p1, p0, "profile of an image scaled by 2^{}".format(c["s"]))
        t.outcome(f1)
    elif kind == "model":
        c = case[1]
        k = 2.0 ** c["s"]
        psf = None if not c["psf"] else np.array([[1, 2, 0], [3, 10, 1], [0, 2, 1.0]]) / 20
        out = []
        for amp in (3.0, 3.0 * k):
            base = [models.Sersic2D(amp, 3, 1.5, 6.3, 5.8, 0.3, 0.4), models.Gaussian2D(amp, 6.3, 5.8, 2, 3, 0.2, name="g"),
                    models.Sersic2D(amp, 3, 1.5, 6.3, 5.8, 0.3, 0.4) + models.Gaussian2D(amp, 6, 5, 2, 3)][c["base"]]
            over = c["over"]
            if isinstance(over, list):
                name = {0: "x_0", 1: "x_mean", 2: "x_0_0"}[c["base"]]
                over = (name, name.replace("x", "y"), over[2], over[3])
            m = t.call(PSFConvolvedModel2D, base, psf=psf, oversample=over)
            out.append(t.call(model_to_image, m, (13, 12)))
        t.same(out[1] / k, out[0], "model image with amplitude scaled by 2^{}".format(c["s"]), atol=1e-12)
        t.outcome(out[0])


def fluxerr(t, case):
    """Flux uncertainties are fluxes too."""
    data = petro.profile(case[1])
    k = 2.0 ** case[2]

    def both(d):
        p = t.call(Petrosian, d[0], d[1], d[2], flux_err=d[3], area_err=d[4], total_flux_fraction=0.8)
        return p, [t.call(lambda: float(getattr(p, q))) for q in FLUX_ERR]

    p0, e0 = both(data)
    p1, e1 = both(scaled(*data, kf=k))
    known = False
    for q, rq, v0, v1 in zip(FLUX_ERR, ("r_total_flux", "r_half_light"), e0, e1):
        t.compared += 1
        if np.isclose(v1, v0 * k, rtol=1e-6, equal_nan=True):
            continue
        # the recorded defect: the radius error (pixels) is added in quadrature to the flux error
        for p, v in ((p0, v0), (p1, v1)):
            i = int(np.argmin(abs(np.array(p.r_list) - getattr(p, rq))))
            cand = [np.hypot(p.flux_err[j], getattr(p, rq + "_err")) for j in (max(i - 1, 0), i, min(i + 1, len(p.r_list) - 1))]
            t.check(any(np.isclose(v, c, rtol=1e-6) for c in cand), "{} of profile {} is {}", q, case[1], v)
        known = True
    if known:
        raise Violation("total_flux_err and half_flux_err do not scale with the flux", key="flux-error-units")
