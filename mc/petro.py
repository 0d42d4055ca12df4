"""Observing Petrosian objects through their public interface."""
import numpy as np

SCALARS = [
    "r_petrosian", "r_petrosian_err", "r_epsilon", "r_total_flux", "r_total_flux_err", "total_flux", "total_flux_err", "half_flux",
    "half_flux_err", "r_half_light", "r_half_light_err", "r_50", "r_50_err", "c2080", "c5090",
]
ARRAYS = ["r_list", "area_list", "flux_list", "area_err", "flux_err", "petrosian_list", "petrosian_err"]


def observe(p, extra=True, light=False):
    """Every quantity of the object."""
    out = {n: getattr(p, n) for n in SCALARS}
    for n in ARRAYS:
        v = getattr(p, n)
        out[n] = None if v is None else np.array(v, dtype=float)
    for n in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num", "has_petrosian_err"):
        out[n] = getattr(p, n)
    out["r_epsilon_in_range"] = bool(p.r_epsilon_in_range)
    if light:
        out["ci37"] = list(p.concentration_index(0.3, 0.7))
        out["r20_err"] = p.fraction_flux_to_r_err(0.2)
    elif extra:
        out["ci"] = list(p.concentration_index())
        out["ci37"] = list(p.concentration_index(0.3, 0.7))
        out["r20"] = p.fraction_flux_to_r(0.2)
        out["r20_err"] = p.fraction_flux_to_r_err(0.2)
        out["r80"] = p.fraction_flux_to_r(0.8)
        out["rdef"] = p.fraction_flux_to_r()
        out["rdef_err"] = p.fraction_flux_to_r_err()
    return out


def compare(t, got, want, what, rtol=1e-9):
    for k in want:
        g, w = got[k], want[k]
        if isinstance(w, (str, bool)) or w is None or g is None:
            t.check(g is w or g == w, "{}: {} is {!r} instead of {!r}", what, k, g, w)
        else:
            t.same(g, w, what + ": " + k, rtol=rtol)


def profile(name):
    """Named curves of growth: r_list, area_list, flux_list, flux_err, area_err."""
    if name == "ok":  # well-behaved, everything measurable
        r = np.array([1, 2, 3, 5, 7, 9, 12, 15, 20, 26, 34, 45], float)
        f = 100 * (1 - np.exp(-r / 4.0) * (1 + r / 4.0))
        return r, np.pi * r**2, f, None, None
    if name == "err":
        r, a, f, _, _ = profile("ok")
        return r, a, f, 0.002 * f + 0.05, None
    if name == "area":  # errors of the area only
        r, a, f, _, _ = profile("ok")
        return r, a, f, None, 0.01 * a
    if name == "err2":
        r, a, f, _, _ = profile("ok")
        return r, a / 1.5, f + 0.3 * np.sin(r), 0.01 * f + 0.3, 0.01 * a
    if name == "short":  # r_petrosian measurable, 2 r_petrosian is not
        r, a, f, _, _ = profile("ok")
        return r[:8], a[:8], f[:8], np.full(8, 0.2), None
    if name == "noeta":  # never falls to 0.2
        r = np.array([1, 2, 3, 4, 5, 6], float)
        return r, np.pi * r**2, 5 * r**1.8, np.full(6, 0.1), None
    if name == "int":
        r = np.arange(1, 12)
        f = np.array([10, 32, 55, 75, 90, 100, 107, 112, 115, 117, 118])
        return r, np.round(np.pi * r**2).astype(int), f, None, None
    raise KeyError(name)


def make(name, **kw):
    import petrofit as pf

    r, a, f, fe, ae = profile(name)
    return pf.Petrosian(r, a, f, flux_err=fe, area_err=ae, **kw)


def long_curve(n, shape, spacing):
    """Radii, areas and fluxes of a measurement with many radii."""
    r = {"even": np.linspace(0.7, 90.0, n), "log": np.geomspace(0.5, 400.0, n), "fine": np.linspace(0.05, 12.0, n), "huge": np.linspace(1.0, 9000.0, n)}[spacing]
    s = r[-1] / 12
    x = r / s
    f = 1 - np.exp(-x) * (1 + x)
    if shape == "bump":  # a ring: the profile falls below 0.2, and rises again
        f = f + 0.6 / (1 + np.exp(-(x - 8) * 3))
    elif shape == "wave":
        f = f * (1 + 0.02 * np.sin(5 * x))
    elif shape == "flat":
        f = r**2 / r[-1] ** 2
    elif shape == "noisy":
        k = np.arange(n)
        f = f + 0.003 * ((k * 7919) % 101 / 50.0 - 1)
    return r, np.pi * r**2, 1000.0 * f
