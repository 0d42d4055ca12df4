"""Formulas of the profiles, against integration and their defining relations."""
import itertools

import numpy as np
from scipy.integrate import quad
from scipy.optimize import brentq

from astropy.modeling import models

from mc import core
from petrofit import (GenSersic2D, I0_to_Ie, Ie_to_I0, Nuker2D, petrosian_model, petrosian_profile, sersic_enclosed, sersic_enclosed_inv, sersic_enclosed_model)
from petrofit.modeling.models import CoreSersic2D

ID = "C22"
ASSUMPTIONS = ["integrals are numerical (scipy quad, 1e-9); indices 0.3 to 10, radii from 0.001 to 30 effective radii"]
N = [0.3, 0.5, 1.0, 1.5, 2.0, 2.7, 4.0, 6.0, 8.0, 10.0]


def bounds(tier):
    return "{} Sersic indices x sizes x ellipticities x amplitudes x radii; shapes of the generalised, Nuker and core profiles at 16 points of the plane".format(len(indices(tier)))


def indices(tier):
    return N if tier == "quick" else sorted(N + [0.2, 0.7, 0.85, 1.2, 3.3, 5.0, 7.1, 9.0])


def cases(tier):
    out = [("sersic", c) for c in core.product(n=indices(tier), r_eff=[0.5, 1.0, 7.3, 40.0], ellip=[0.0, 0.25, 0.6, 0.9])]
    out += [("gen", c) for c in core.product(n=[0.5, 1.0, 4.0] if tier == "quick" else [0.3, 0.5, 1.0, 2.5, 4.0, 8.0], c_0=[0.0, -0.5, 0.4, 1.0, 2.0] if tier == "quick" else [0.0, -0.9, -0.5, 0.1, 0.4, 1.0, 1.5, 2.0], ellip=[0.0, 0.3, 0.7], theta=[0.0, 0.5, 1.5707963267948966, -2.0, 4.1])]
    out += [("nuker", c) for c in core.product(alpha=[0.5, 1.0, 2.0, 7.0], betta=[1.2, 2.0, 4.0], gamma=[0.0, 0.5, 1.1], r_break=[0.4, 1.0, 6.0] if tier == "quick" else [0.1, 0.4, 1.0, 3.0, 6.0, 50.0])]
    out += [("core", c) for c in core.product(alpha=[1.0, 3.0, 10.0], gamma=[0.0, 0.1, 0.8], n=[1.0, 2.5, 4.0], r_break=[0.5, 3.0], r_eff=[1.0, 12.0], ellip=[0.0, 0.4])]
    out += [("misc", k) for k in range(6)]
    return out


_bn = {}


def bn(n):
    """Half of the light of exp(-b (r^(1/n) - 1)) is inside r=1 (light is integrated in x = b r^(1/n))."""
    if n not in _bn:
        # integral of x^(2n-1) e^-x, in x = s^2 so that the integrand is smooth for small n
        g = lambda b: quad(lambda s: 2 * s ** (4 * n - 1) * np.exp(-s * s), 0, np.sqrt(b), epsabs=0, epsrel=1e-11, limit=200)[0]
        hi = 4 * n + 60
        tot = g(hi)
        _bn[n] = brentq(lambda b: g(b) / tot - 0.5, 1e-4, 2 * n + 5, xtol=1e-14, rtol=1e-13)
    return _bn[n]


def light(r, n):
    """Light of a round unit Sersic profile inside r, in units of I_e r_eff^2."""
    f = lambda s: 2 * np.pi * s * np.exp(-bn(n) * (s ** (1 / n) - 1))
    # integrate in t = s^(1/n)
    h = lambda u: f(u**n) * n * u ** (n - 1)
    e = min(r ** (1 / n), 80 / bn(n) + 3)
    pts = [p for p in (0.5, 1.0, 2.0) if p < e]
    tot, a = 0.0, 0.0
    for p in pts + [e]:
        tot += quad(h, a, p, epsabs=0, epsrel=1e-11, limit=400)[0]
        a = p
    return tot


_cache = {}


def profile_tables(n):
    if n not in _cache:
        x = np.array([0.001, 0.05, 0.3, 0.7, 1.0, 1.5, 3.0, 8.0, 30.0])
        _cache[n] = x, np.array([light(v, n) for v in x]), np.exp(-bn(n) * (x ** (1 / n) - 1))
    return _cache[n]


def shapes(fn, t, args, x, want, what):
    """A function is the same for arrays, matrices and single values, and keeps its input."""
    keep = x.copy()
    got = t.call(fn, x, *args)
    t.same(got, want, what, rtol=1e-7, atol=0)
    t.same(x, keep, what + ": input array", rtol=0, atol=0)
    m = x[:8].reshape(2, 4)
    t.same(t.call(fn, m, *args), np.asarray(want)[:8].reshape(2, 4), what + " of a matrix", rtol=1e-7, atol=0)
    for k in (0, len(x) // 2, len(x) - 1):
        t.same(t.call(fn, float(x[k]), *args), want[k], what + " of one value", rtol=1e-7, atol=0)
    return got


def run(case, t):
    kind, c = case
    if kind == "sersic":
        sersic(c, t)
    elif kind == "gen":
        gen(c, t)
    elif kind == "nuker":
        nuker(c, t)
    elif kind == "core":
        core_sersic(c, t)
    else:
        misc(c, t)


def sersic(c, t):
    n, r_eff, ellip = c["n"], c["r_eff"], c["ellip"]
    x, l, i = profile_tables(n)
    r = x * r_eff
    for amp in (1.0, 0.013, 4e4):
        flux = amp * r_eff**2 * (1 - ellip) * l
        args = (amp, r_eff, n, ellip)
        shapes(sersic_enclosed, t, args, r, flux, "enclosed flux {} amplitude {}".format(c, amp))
        t.same(t.call(sersic_enclosed, r, amplitude=amp, r_eff=r_eff, n=n, ellip=ellip), flux, "enclosed flux by keywords", rtol=1e-7, atol=0)
        if ellip == 0:
            t.same(t.call(sersic_enclosed, r, amp, r_eff, n), flux, "enclosed flux without ellipticity", rtol=1e-7, atol=0)
            inner = flux < 0.999 * flux[-1]
            t.same(t.call(sersic_enclosed_inv, flux[inner], amp, r_eff, n), r[inner], "enclosed radius without ellipticity", rtol=1e-5, atol=0)
        total = t.call(sersic_enclosed, np.inf, *args)
        t.same(t.call(sersic_enclosed, r_eff, *args), total / 2, "{}: half of the total flux at r_eff".format(c), rtol=1e-9, atol=0)
        # where the curve is not flat, the flux tells the radius
        mid = flux < 0.999 * total
        t.same(t.call(sersic_enclosed_inv, flux[mid], *args), r[mid], "{}: radius that encloses the flux".format(c), rtol=1e-5, atol=0)
        for f, q in zip(flux[mid], r[mid]):
            t.same(t.call(sersic_enclosed_inv, float(f), *args), q, "{}: radius that encloses one flux".format(c), rtol=1e-5, atol=0)
        fr = np.array([1e-12, 1e-6, 0.01, 0.2, 0.5, 0.8, 0.95, 1 - 1e-4, 1 - 1e-6, 1 - 1e-8, 1 - 1e-10])
        far = t.call(sersic_enclosed_inv, fr * total, *args)
        t.check((np.diff(far) > 0).all(), "{}: radii of growing fluxes {}", c, far)
        rest = np.array([(total - t.call(sersic_enclosed, v, *args)) / total for v in far[7:]])
        t.check((abs(rest - (1 - fr[7:])) < 1e-11).all(), "{}: flux outside of the radii of nearly all flux {}", c, rest)
        t.same(t.call(sersic_enclosed, t.call(sersic_enclosed_inv, fr * total, *args), *args), fr * total, "{}: flux inside of the radius of a flux".format(c), rtol=1e-9, atol=0)
        m = t.call(sersic_enclosed_model, amplitude=amp, r_eff=r_eff, n=n, ellip=ellip)
        t.same(t.call(m, r), flux, "{}: fit-ready enclosed flux".format(c), rtol=1e-7, atol=0)
        t.same(t.call(sersic_enclosed_model, amp, r_eff, n, ellip)(r), flux, "{}: fit-ready enclosed flux by position".format(c), rtol=1e-7, atol=0)
        m2 = m.copy()
        m2.amplitude = 3 * amp
        t.same(m2(r), 3 * flux, "fit-ready model after a change", rtol=1e-7, atol=0)
        t.same(m(r), flux, "first model after a change of the second", rtol=1e-7, atol=0)
    eta = i / (l / (np.pi * x**2))
    shapes(petrosian_profile, t, (r_eff, n), r, eta, "Petrosian profile {}".format(c))
    t.same(t.call(petrosian_model, r_eff=r_eff, n=n)(r), eta, "{}: fit-ready Petrosian profile".format(c), rtol=1e-7, atol=0)
    t.same(t.call(petrosian_model, r_eff, n)(r), eta, "{}: fit-ready Petrosian profile by position".format(c), rtol=1e-7, atol=0)
    for v in (1.0, 0.02, 7e5):
        i0 = v * np.exp(bn(n))
        t.same(t.call(Ie_to_I0, v, n), i0, "{}: central intensity".format(c), rtol=1e-8, atol=0)
        t.same(t.call(I0_to_Ie, v, n), v / np.exp(bn(n)), "{}: effective intensity".format(c), rtol=1e-8, atol=0)
        t.same(t.call(I0_to_Ie, t.call(Ie_to_I0, v, n), n), v, "{}: there and back".format(c), rtol=1e-12, atol=0)
        t.same(models.Sersic1D(v, r_eff, n)(0.0), t.call(Ie_to_I0, v, n), "{}: the profile in its centre".format(c), rtol=1e-8, atol=0)
    a = np.array([1.0, 2.0, 5.5])
    t.same(t.call(Ie_to_I0, a, n), a * np.exp(bn(n)), "central intensities", rtol=1e-8, atol=0)
    t.same(t.call(I0_to_Ie, a, n), a / np.exp(bn(n)), "effective intensities", rtol=1e-8, atol=0)
    t.state(c)
    t.outcome(eta)


PHI = np.arange(16) * 2 * np.pi / 16 + 0.1


def gen(c, t):
    n, c0, e, th = c["n"], c["c_0"], c["ellip"], c["theta"]
    amp, r_eff, x0, y0 = 3.5, 4.2, 1.3, -2.1
    m = t.call(GenSersic2D, amplitude=amp, r_eff=r_eff, n=n, x_0=x0, y_0=y0, ellip=e, theta=th, c_0=c0)
    k = c0 + 2
    for rad in (0.3, 1.0, 2.6):
        want = amp * np.exp(-bn(n) * (rad ** (1 / n) - 1))
        u, v = np.cos(PHI), np.sin(PHI)
        s = (abs(u) ** k + abs(v) ** k) ** (-1 / k)  # on the generalised unit circle
        xm, ym = u * s * rad * r_eff, v * s * rad * r_eff * (1 - e)
        x, y = x0 + xm * np.cos(th) - ym * np.sin(th), y0 + xm * np.sin(th) + ym * np.cos(th)
        t.same(t.call(m, x, y), np.full(16, want), "{}: brightness on the generalised ellipse of {} r_eff".format(c, rad), rtol=1e-7, atol=0)
        t.same(t.call(m, x[3], y[3]), want, "{}: brightness of one point".format(c), rtol=1e-7, atol=0)
        t.same(t.call(m, x.reshape(4, 4), y.reshape(4, 4)), np.full((4, 4), want), "{}: brightness of an image".format(c), rtol=1e-7, atol=0)
    t.same(t.call(m, x0, y0), amp * np.exp(bn(n)), "{}: centre".format(c), rtol=1e-7, atol=0)
    if c0 == 0:
        yy, xx = np.mgrid[-6:5, -4:7]
        s = models.Sersic2D(amp, r_eff, n, x0, y0, e, th)
        t.same(t.call(m, xx, yy), s(xx, yy), "{}: Sersic image".format(c), rtol=1e-9, atol=0)
        d = t.call(GenSersic2D, amplitude=amp, r_eff=r_eff, n=n, x_0=x0, y_0=y0, ellip=e, theta=th)
        t.same(t.call(d, xx, yy), s(xx, yy), "{}: boxiness is zero by default".format(c), rtol=1e-9, atol=0)
    t.state(c)
    t.outcome(m(1.0, 1.0))


def nuker(c, t):
    al, be, ga, rb = c["alpha"], c["betta"], c["gamma"], c["r_break"]
    x0, y0, amp = 2.2, -1.7, 6.5
    m = t.call(Nuker2D, amplitude=amp, r_break=rb, x_0=x0, y_0=y0, alpha=al, betta=be, gamma=ga)
    at = lambda r: t.call(m, x0 + r * np.cos(PHI), y0 + r * np.sin(PHI))
    t.same(at(rb), np.full(16, amp), "{}: brightness at the break radius".format(c), rtol=1e-8, atol=0)
    for f in (1e-3, 0.03, 0.5, 1.0, 1.7, 20.0, 1e3):
        r, h = f * rb, 1e-4
        v = at(r)
        t.same(v, np.full(16, v[0]), "{}: brightness on a circle of {} break radii".format(c, f), rtol=1e-8, atol=0)
        slope = np.log(at(r * (1 + h))[0] / at(r / (1 + h))[0]) / (2 * np.log(1 + h))
        u = f**al
        t.same(slope, -(ga + be * u) / (1 + u), "{}: slope at {} break radii".format(c, f), rtol=1e-5, atol=1e-6)
    z = t.call(m, np.array([x0, x0 + 1]), np.array([y0, y0]))
    t.check(np.isfinite(z[1]), "{}: brightness next to the centre {}", c, z[1])
    yy, xx = np.mgrid[-3:4, -2:5]
    r = np.hypot(xx - x0, yy - y0)
    t.same(t.call(m, xx, yy), amp * 2 ** ((be - ga) / al) * (r / rb) ** -ga * (1 + (r / rb) ** al) ** ((ga - be) / al), "{}: image".format(c), rtol=1e-8, atol=0)
    t.state(c)
    t.outcome(slope)


def core_sersic(c, t):
    al, ga, n, rb, re, e = (c[k] for k in ("alpha", "gamma", "n", "r_break", "r_eff", "ellip"))
    amp, x0, y0, th = 6.5, 2.2, -1.7, 0.6
    m = t.call(CoreSersic2D, amplitude=amp, r_eff=re, r_break=rb, n=n, x_0=x0, y_0=y0, alpha=al, gamma=ga, ellip=e, theta=th)
    b = bn(n)

    def at(r):
        xm, ym = r * np.cos(PHI), (1 - e) * r * np.sin(PHI)
        return t.call(m, x0 + xm * np.cos(th) - ym * np.sin(th), y0 + xm * np.sin(th) + ym * np.cos(th))

    t.same(at(rb), np.full(16, amp), "{}: brightness at the break radius".format(c), rtol=1e-7, atol=0)
    for f in (0.01, 0.3, 1.0, 2.0, 9.0):
        r, h = f * rb, 1e-4
        v = at(r)
        t.same(v, np.full(16, v[0]), "{}: brightness on the ellipse of {} break radii".format(c, f), rtol=1e-7, atol=0)
        slope = np.log(at(r * (1 + h))[0] / at(r / (1 + h))[0]) / (2 * np.log(1 + h))
        w = (r**al + rb**al) / re**al
        want = -ga * rb**al / (r**al + rb**al) - b / n * (r / re) ** al * w ** (1 / (al * n) - 1)
        t.same(slope, want, "{}: slope at {} break radii".format(c, f), rtol=1e-4, atol=1e-6)
    t.state(c)
    t.outcome(slope)


def misc(k, t):
    r = np.array([0.5, 2.0, 9.0, 60.0])
    if k == 0:  # defaults of the fit-ready models
        t.same(t.call(sersic_enclosed_model)(r), t.call(sersic_enclosed, r, 1000, 30, 2, 0), "default enclosed model", rtol=1e-12)
        t.same(t.call(petrosian_model)(r), t.call(petrosian_profile, r, 1, 4), "default Petrosian model", rtol=1e-12)
    elif k == 1:  # names
        t.equal(tuple(sersic_enclosed_model().param_names), ("amplitude", "r_eff", "n", "ellip"), "parameters of the enclosed model")
        t.equal(tuple(petrosian_model().param_names), ("r_eff", "n"), "parameters of the Petrosian model")
        t.equal(tuple(GenSersic2D().param_names), ("amplitude", "r_eff", "n", "x_0", "y_0", "ellip", "theta", "c_0"), "parameters of the generalised Sersic model")
        t.equal(tuple(Nuker2D().param_names), ("amplitude", "r_break", "x_0", "y_0", "alpha", "betta", "gamma"), "parameters of the Nuker model")
    elif k == 2:  # integers are as good as floats
        i = np.array([1, 2, 5])
        t.same(t.call(sersic_enclosed, i, 3, 2, 4, 0), t.call(sersic_enclosed, i * 1.0, 3.0, 2.0, 4.0, 0.0), "integers", rtol=1e-12)
        t.same(t.call(petrosian_profile, i, 2, 4), t.call(petrosian_profile, i * 1.0, 2.0, 4.0), "integers", rtol=1e-12)
        t.same(t.call(sersic_enclosed_inv, i, 3, 2, 4, 0), t.call(sersic_enclosed_inv, i * 1.0, 3.0, 2.0, 4.0, 0.0), "integers", rtol=1e-12)
        t.same(t.call(Ie_to_I0, 2, 4), t.call(Ie_to_I0, 2.0, 4.0), "integers", rtol=1e-12)
        g = GenSersic2D(amplitude=1, r_eff=3, n=1, x_0=1, y_0=2, ellip=0, theta=0, c_0=0)
        t.same(t.call(g, np.array([1, 4]), np.array([2, 2])), [np.exp(bn(1.0)), 1.0], "integers", rtol=1e-7)
        t.same(t.call(Nuker2D(amplitude=2, r_break=3, x_0=1, y_0=2), np.array([4, 1]), np.array([2, 5])), [2, 2], "integers", rtol=1e-9)
    elif k == 3:  # limits of the Petrosian profile
        for n in (0.5, 1.0, 4.0):
            e = petrosian_profile(np.logspace(-6, 1.5, 40), 1.0, n)
            t.check((np.diff(e) < 0).all() and e[0] > 0.9 - 0.1 * n and e[0] <= 1 + 1e-9 and e[-1] < 0.1, "profile of n={} does not fall from one towards zero: {}", n, e)
    elif k == 4:  # nothing inside of zero, all inside of infinity
        for n in (0.5, 1.0, 4.0):
            t.same(t.call(sersic_enclosed, 0.0, 2.0, 3.0, n, 0.3), 0.0, "flux inside of zero")
            t.same(t.call(sersic_enclosed_inv, 0.0, 2.0, 3.0, n, 0.3), 0.0, "radius of no flux")
            t.same(t.call(sersic_enclosed, 1e9, 2.0, 3.0, n, 0.3), t.call(sersic_enclosed, np.inf, 2.0, 3.0, n, 0.3), "total flux", rtol=1e-9)
    elif k == 5:  # a fit of a fit-ready model finds the parameters
        from astropy.modeling import fitting
        x = np.arange(1.0, 40)
        for n, re in ((1.0, 6.0), (2.5, 9.0)):
            m = petrosian_model(r_eff=5.0, n=1.5)
            f = fitting.TRFLSQFitter()(m, x, petrosian_profile(x, re, n))
            t.same(f.parameters, [re, n], "fit of a Petrosian profile", rtol=1e-4)
            m = sersic_enclosed_model(amplitude=3.0, r_eff=5.0, n=1.5, fixed={"ellip": True})
            f = fitting.TRFLSQFitter()(m, x, sersic_enclosed(x, 2.0, re, n))
            t.same(f.parameters, [2.0, re, n, 0], "fit of a curve of growth", rtol=1e-3, atol=1e-6)
    t.state(k)
