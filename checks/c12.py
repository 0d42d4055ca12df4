"""Every Petrosian quantity is a number or NaN."""
import itertools

import numpy as np

from astropy.wcs import WCS

from mc import core, petro
from mc.oracles import curve
from petrofit import Petrosian

ID = "C12"
ASSUMPTIONS = ["cubic interpolation (also used for fluxes when interpolation is off) needs four points; three-point curves are explored with linear interpolation"]
INC = [5, 1, 0, -3]


def bounds(tier):
    return "all curves of growth of 3 to {} points with increments {} and start values -2, 0, 3 x error arrays x interpolation; four other settings; curves of up to 400 points; all plots".format(
        5 if tier == "quick" else 6, INC)


def cases(tier):
    out = []
    for start in (3, 0, -2) if tier == "quick" else (3, 0, -2, 2.5):
        for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            for inc in itertools.product(INC, repeat=min(n, 2)):
                out.append((start, list(inc), n, tier != "quick"))
    out += [("long", c) for c in core.product(n=[12, 60, 400], shape=["plain", "bump", "wave", "flat", "noisy"], spacing=["even", "log", "fine", "huge"])]
    out += [("set", list(c), k) for c in itertools.product([5, 1, -3], [5, 0], [1, -3], [5, 1, 0]) for k in range(len(SETTINGS))]
    out += [("zero", n) for n in (3, 4, 6, 12)]
    out += [("plot", n, k) for n in ("ok", "err", "err2", "area", "short", "noeta", "int") for k in range(6)]
    return out


SETTINGS = [dict(epsilon=0.7, epsilon_fraction=0.5, total_flux_fraction=0.8, eta=0.3), dict(epsilon=3.0, epsilon_fraction=0.8, total_flux_fraction=0.95, eta=0.5),
            dict(epsilon=1.5, epsilon_fraction=0.9, total_flux_fraction=0.99, eta=0.1), dict(epsilon=0.3, epsilon_fraction=0.99, total_flux_fraction=0.5),
            dict(epsilon=1.0, epsilon_fraction=0.99, total_flux_fraction=0.99, eta=0.3), dict(epsilon=1.0, epsilon_fraction=0.5, total_flux_fraction=0.5, eta=0.05)]
ERR = ["none", "small", "big", "area", "zero", "down", "up"]


def run(case, t):
    if case[0] == "plot":
        return run_plot(case[1], case[2], t)
    if case[0] == "zero":
        n = case[1]
        for f in (np.zeros(n), np.ones(n), np.arange(n) * 1.0, np.arange(n)[::-1] * 1.0, np.arange(n) ** 2 * -1.0, np.arange(1, n + 1)):
            look(f, t, kinds=((("cubic", 500), (None, 10)) if n > 3 else ()) + (("linear", 500),))
        return
    if case[0] == "long":
        r, area, f = petro.long_curve(**case[1])
        look(f, t, (("cubic", 5000), ("linear", 300), (None, 10)), full=False, r=r)
        return
    if case[0] == "set":
        look(np.cumsum([3.0] + case[1]), t, (("cubic", 500), (None, 10), ("linear", 100)), full=False, **SETTINGS[case[2]])
        return
    start, inc, n, full = case
    for tl in itertools.product(INC, repeat=n - len(inc)):
        f = np.cumsum([start] + inc + list(tl)).astype(float)
        kinds = ((("cubic", 500), (None, 10)) if n > 2 else ()) + (("linear", 100),)
        look(f, t, kinds, full)


def look(f, t, kinds, full=True, r=None, **settings):
    n = len(f)
    r = np.array([1.0, 2.0, 4.0, 7.0, 11.0, 16.0, 22, 29, 37, 46, 56, 67])[:n] if r is None else r
    eps = settings.get("epsilon", 2.0)
    area = np.pi * r**2
    wcs = WCS(naxis=2)
    wcs.wcs.cdelt = [-1 / 3600, 1 / 3600]
    wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    for kd, num in kinds:
        for e in ERR if full else {'linear': ERR, 'cubic': ['none', 'big', 'area', 'down'], None: ['small']}[kd]:
            fe = {"none": None, "small": np.full(n, 0.05), "big": np.full(n, 50.0), "area": None, "zero": np.zeros(n), "down": np.linspace(1.0, 0.05, n) ** 2, "up": np.linspace(0.05, 1.0, n) ** 2}[e]
            ae = np.full(n, 0.5) if e == "area" else None
            p = t.call(Petrosian, r, area, f, flux_err=fe, area_err=ae, interp_kind=kd, interp_num=num, **settings)
            what = "fluxes {} kind {} errors {}".format(f.tolist(), kd, e)
            vals = {}
            for s in petro.SCALARS:
                v = t.call(lambda: getattr(p, s))
                vals[s] = number(t, v, what, s)
            for fr in (0.2, 0.8, 0.99):
                vals["r%g" % fr] = number(t, t.call(p.fraction_flux_to_r, fr), what, "fraction radius")
                number(t, t.call(p.fraction_flux_to_r_err, fr), what, "fraction radius error")
            for v in t.call(p.concentration_index, 0.3, 0.6):
                number(t, v, what, "concentration")
            vals["h_as"] = number(t, t.call(p.r_half_light_arcsec, wcs), what, "half-light radius in arcsec")
            vals["t_as"] = number(t, t.call(p.r_total_flux_arcsec, wcs), what, "total radius in arcsec")
            t.same([vals["h_as"], vals["t_as"]], [vals["r_half_light"], vals["r_total_flux"]], what + ": arcsec", rtol=1e-6)
            rp = vals["r_petrosian"]
            t.same(vals["r_epsilon"], rp * eps, what + ": r_epsilon")
            inr = bool(t.call(lambda: p.r_epsilon_in_range))
            t.check(inr == (r[0] <= rp * eps <= r[-1]), "{}: in-range flag {}", what, inr)
            if np.isnan(rp):
                for s in vals:
                    t.check(np.isnan(vals[s]), "{}: {} is {} although there is no Petrosian radius", what, s, vals[s])
            if not inr:
                for s in ("r_total_flux", "r_half_light", "total_flux", "half_flux", "c2080", "c5090", "r0.2"):
                    t.check(np.isnan(vals[s]), "{}: {} is {} although r_epsilon is not measured", what, s, vals[s])
            for s in ("r_total_flux", "r_half_light", "r0.2", "r0.8"):
                t.check(np.isnan(vals[s]) or r[0] - 1e-9 <= vals[s] <= r[-1] + 1e-9, "{}: {}={} outside the measured radii", what, s, vals[s])
            c = curve(r, f, kd)
            for s, q in (("total_flux", "r_total_flux"), ("half_flux", "r_half_light")):
                if np.isnan(vals[q]):
                    t.check(np.isnan(vals[s]), "{}: {} without its radius", what, s)
                else:
                    t.same(vals[s], float(c(vals[q])), what + ": " + s, rtol=1e-6, atol=1e-6 * max(1, abs(f).max()))
            if fe is not None:  # at least the uncertainty of the flux measured there
                for s, q in (("total_flux_err", "r_total_flux"), ("half_flux_err", "r_half_light")):
                    if not np.isnan(vals[s]):
                        i = np.clip(np.searchsorted(r, vals[q]), 1, n - 1)
                        t.check(vals[s] >= min(fe[i - 1], fe[i]) * (1 - 1e-9), "{}: {}={} with flux errors {}", what, s, vals[s], fe.tolist())
            t.equal(vals["r_50"] if vals["r_50"] == vals["r_50"] else "nan", vals["r_half_light"] if vals["r_half_light"] == vals["r_half_light"] else "nan", "r_50")
            for s in petro.SCALARS:
                if s.endswith("_err") and fe is None and s not in ("r_petrosian_err",):
                    t.check(np.isnan(vals[s]), "{}: {} without flux errors", what, s)
            if fe is None and ae is None:
                t.check(np.isnan(vals["r_petrosian_err"]), "{}: error of r_petrosian without errors", what)
            t.state(f.tolist(), kd, e)
            t.outcome(vals)


def number(t, v, what, s):
    t.check(not isinstance(v, (list, tuple, str)) and v is not None and np.ndim(v) == 0, "{}: {} is {!r}", what, s, v)
    return float(v)


def run_plot(name, k, t):
    from matplotlib import pyplot as plt

    p = petro.make(name, interp_kind=["cubic", "linear", None][k % 3], eta=0.2 if k < 3 else 0.02)
    plt.close("all")
    for fn in (p.plot, p.plot_cog, p.imshow):
        plt.figure()
        t.call(fn)
    plt.figure()
    t.call(p.plot, plot_r=False, err_alpha=None, show_legend=False, radius_unit=None)
    t.call(p.plot_cog, plot_r=False, err_alpha=None, show_legend=False, radius_unit=None, flux_unit="Jy")
    plt.gcf().canvas.draw()
    plt.close("all")
    t.outcome(name, k)
