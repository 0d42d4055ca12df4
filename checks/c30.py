"""
C30: an ideal galaxy, end to end.

Lattice of Sersic galaxies (index x size x ellipticity x angle x centre x how
it is rendered x how it is measured x spacing of radii): render it with the
library, find it or take its true geometry, measure its curve of growth in
matching ellipses, analyse it.  Oracle: incomplete gamma functions evaluated
here.
"""
import math
import warnings

import numpy as np

from astropy.modeling import models
from scipy.optimize import brentq
from scipy.special import gamma, gammainc, gammaincinv

import petrofit as pf
from mc import core

ID = "C30"
ASSUMPTIONS = [
    "galaxies are resolved (minor axis of at least 4 pixels at the effective radius and 1.75 at the radius of 20% of the flux) and the image reaches the radius of 99% of the flux",
    "tolerances: enclosed fluxes 2% (1% outside the effective radius), radii 2% plus the spacing of the radii for the Petrosian radius, concentrations 0.06; wider by half when the geometry comes from the catalog",
]
AMP = 10.0


def bounds(tier):
    return "all {} combinations".format(len(cases(tier)))


def cases(tier):
    if tier == "quick":
        out = core.product(n=[0.6, 1.0, 2.0, 3.0], re=[8.0, 11.0], ellip=[0.0, 0.2, 0.4], theta=[0.0, 0.7, 2.2],
                           centre=[(0, 0), (0.3, -0.4)], render=["window"], path=["direct", "catalog"], step=[1.0])
        out += core.product(n=[1.0], re=[9.0], ellip=[0.3], theta=[1.1], centre=[(0, 0), (5.5, -7)],
                            render=["factor", "mode", "center"], path=["direct", "catalog"], step=[0.5, 1.0, "log", "rev"])
    else:
        out = core.product(n=[0.6, 1.0, 1.5, 2.0, 3.0], re=[7.0, 8.0, 10.0, 13.0], ellip=[0.0, 0.25, 0.45], theta=[0.0, 0.7, 1.57, 2.2, 3.0],
                           centre=[(0, 0), (0.5, 0.5), (0.3, -0.4)], render=["window"], path=["direct", "catalog"], step=[1.0])
        out += core.product(n=[0.6, 1.0, 1.5], re=[7.0, 9.0], ellip=[0.3], theta=[0.3, 1.1, 2.7], centre=[(0, 0), (0.5, 0), (5.5, -7)],
                            render=["factor", "mode", "center"], path=["direct", "catalog"], step=[0.5, 1.0, "log", "rev"])
    # circles have no angle
    return [c for c in out if (c["ellip"] > 0 or c["theta"] == 0.0) and c["re"] * (1 - c["ellip"]) >= 4
            and Galaxy(c["n"], c["re"], c["ellip"]).radius(0.2) * (1 - c["ellip"]) >= 1.75
            and not (c["path"] == "catalog" and c["centre"][0] % 1)]


class Galaxy:
    def __init__(self, n, re, ellip):
        self.n, self.re, self.q = n, re, 1 - ellip
        self.b = gammaincinv(2 * n, 0.5)
        self.total = 2 * math.pi * n * AMP * math.exp(self.b) * self.b ** (-2 * n) * gamma(2 * n) * re**2 * self.q

    def flux(self, r):
        return self.total * gammainc(2 * self.n, self.b * (np.asarray(r, float) / self.re) ** (1 / self.n))

    def intensity(self, r):
        return AMP * np.exp(-self.b * ((np.asarray(r, float) / self.re) ** (1 / self.n) - 1))

    def radius(self, fraction):
        return self.re * (gammaincinv(2 * self.n, fraction) / self.b) ** self.n

    def eta(self, r):
        return self.intensity(r) * math.pi * r * r * self.q / self.flux(r)

    def petrosian(self, eta=0.2):
        return brentq(lambda r: self.eta(r) - eta, 0.2 * self.re, 40 * self.re)


def run(c, t):
    g = Galaxy(c["n"], c["re"], c["ellip"])
    rp, r99 = g.petrosian(), g.radius(0.99)
    eps = r99 / rp
    rmax = 1.12 * max(r99, 2 * rp)
    half = int(rmax + max(np.abs(c["centre"]))) + 3
    shape = (2 * half + 1, 2 * half + 4)  # rows, columns
    x0, y0 = half + 1 + c["centre"][0], half + c["centre"][1]
    model = models.Sersic2D(AMP, c["re"], c["n"], x0, y0, c["ellip"], c["theta"])
    size = (shape[1], shape[0])
    if c["render"] == "window":
        m = pf.PSFConvolvedModel2D(model, oversample=("x_0", "y_0", 21, 10))
        z = t.call(pf.model_to_image, m, size)
    elif c["render"] == "factor":
        z = t.call(pf.model_to_image, pf.PSFConvolvedModel2D(model, oversample=4), size)
    elif c["render"] == "mode":
        z = t.call(pf.model_to_image, model, size, mode="oversample", factor=5)
    else:
        z = t.call(pf.model_to_image, model, size)
    z = np.asarray(z)
    t.equal(z.shape, shape, "shape of the image")
    # radii
    n = int(rmax)
    if c["step"] == "log":
        radii = np.array(t.call(pf.make_radius_list, rmax, 60, log=True))
    elif c["step"] == "rev":
        radii = np.array(t.call(pf.make_radius_list, rmax, n))
    else:
        radii = np.array(t.call(pf.make_radius_list, rmax, int(rmax / c["step"])))
    wide = 1.0
    if c["path"] == "direct":
        args = [z, (x0, y0), radii]
        kw = dict(elong=1 / g.q, theta=c["theta"])
        if c["step"] == "rev":
            args[2] = radii[::-1]
        r, area, flux, err = None, None, None, None
        flux, area, err = t.call(pf.radial_photometry, *args, **kw)
        if c["step"] == "rev":
            flux, area, err = flux[::-1], area[::-1], err[::-1]
    else:
        wide = 1.5
        thr = float(g.intensity(1.8 * c["re"]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cat, seg, deb = t.call(pf.make_catalog, z, thr, npixels=9, deblend=False, plot=False)
        t.equal(len(cat), 1, "number of sources")
        src = cat[t.call(pf.order_cat, cat)[0]]
        px, py = t.call(pf.get_source_position, src)
        t.check(abs(px - x0) <= 0.51 and abs(py - y0) <= 0.51, "position {} {} instead of {} {}", px, py, x0, y0)
        t.same(t.call(pf.get_source_elong, src), 1 / g.q, "elongation", rtol=0.03)
        if c["ellip"] > 0.2:
            d = (float(t.call(pf.get_source_theta, src)) - c["theta"] + np.pi / 2) % np.pi - np.pi / 2
            t.check(abs(d) < 0.03, "orientation is off by {} rad", d)
        flux, area, err = t.call(pf.source_photometry, src, z, seg, radii, mask_background=False)
    flux, area = np.asarray(flux, float), np.asarray(area, float)
    t.same(area, math.pi * radii**2 * g.q, "areas", rtol=0.03 if c["path"] == "catalog" else 1e-3, atol=1e-3)
    off = 0.0 if c["path"] == "direct" else max(abs(px - x0), abs(py - y0))
    big = radii > 0.5 * c["re"]
    sampled = 1.0 if c["render"] != "center" else 3.0
    t.same(flux[big] / g.flux(radii[big]), np.ones(big.sum()), "enclosed fluxes over the analytic ones", rtol=0, atol=0.022 * wide * sampled + 0.02 * off)
    late = radii > c["re"]
    t.same(flux[late] / g.flux(radii[late]), np.ones(late.sum()), "enclosed fluxes outside the effective radius over the analytic ones", rtol=0, atol=0.009 * wide * sampled + 0.02 * off)
    p = t.call(pf.Petrosian, radii, area, flux, epsilon=eps)
    # Petrosian profile: rings between the apertures
    F, A = g.flux(radii), math.pi * radii**2 * g.q
    want = np.full(len(radii), np.nan)
    want[1:] = np.diff(F) / np.diff(A) / (F / A)[1:]
    got = np.asarray(p.petrosian_list, float)
    sel = (radii > 0.7 * c["re"]) & (radii < 1.3 * rp)
    sel[:2] = False
    t.same(got[sel], want[sel], "Petrosian profile", rtol=0.03 * wide * sampled, atol=0.004)
    # the profile at a radius is that of the ring inside it, so the crossing lies further out than for the continuous profile
    k = int(np.searchsorted(radii, rp))
    gap = float(radii[k] - radii[k - 1])

    def ring(r):
        return (g.flux(r) - g.flux(r - gap)) / (r**2 - (r - gap) ** 2) / (g.flux(r) / r**2) - 0.2

    want_p = brentq(ring, 0.5 * rp + gap, 1.5 * rp + 3 * gap)
    t.check(rp < want_p < rp + 2 * gap, "reference")
    t.same(float(p.r_petrosian), want_p, "Petrosian radius", rtol=0.01 * wide, atol=0.3 * gap)
    # with the measured Petrosian radius, epsilon reaches the radius of 99% of the flux
    p2 = t.call(pf.Petrosian, radii, area, flux, epsilon=r99 / float(p.r_petrosian))
    tol = 0.012 * wide * sampled
    t.same(float(p2.r_epsilon), r99, "outer radius", rtol=1e-9)
    t.same(float(p2.r_half_light), c["re"], "half-light radius", rtol=tol, atol=0.02 + 0.3 * off)
    t.same(float(p2.total_flux), g.total * 0.99, "total flux", rtol=0.006 * wide * sampled)
    t.same(float(p2.r_total_flux), r99, "radius of the total flux", rtol=0.03 * wide)
    t.same(float(p2.half_flux), g.total / 2, "half of the flux", rtol=0.012 * wide * sampled)
    for a, b in ((0.2, 0.8), (0.5, 0.9)):
        want_c = 5 * math.log10(g.radius(b) / g.radius(a))
        ra, rb, cc = t.call(p2.concentration_index, a, b)
        t.same(float(rb), g.radius(b), "radius of {} of the flux".format(b), rtol=tol)
        t.same(float(ra), g.radius(a), "radius of {} of the flux".format(a), rtol=2 * tol, atol=0.03 + 0.5 * off)
        t.same(float(cc), want_c, "concentration", rtol=0, atol=0.06 * wide * sampled + 0.2 * off)
    t.same(float(p2.c2080), 5 * math.log10(g.radius(0.8) / g.radius(0.2)), "C2080", rtol=0, atol=0.06 * wide * sampled + 0.2 * off)
    # with the epsilon of the ideal galaxy the spacing of the radii carries over
    t.same(float(p.r_half_light), c["re"], "half-light radius with the ideal epsilon", rtol=tol + 0.02, atol=0.02 + 0.3 * off)
    # brightness at the effective radius
    if c["path"] == "direct" and c["re"] >= 8 and c["step"] == 1.0:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = t.call(pf.get_amplitude_at_r, c["re"], z, x0, y0, c["ellip"], c["theta"])
        t.same(float(a), AMP, "amplitude at the effective radius", rtol=0.04)
    t.outcome(float(p.r_petrosian), float(p2.r_half_light))
