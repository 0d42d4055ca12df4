"""Correction grids: order, rows, files."""
import itertools
import math
import os
import shutil
import tempfile
import warnings

import numpy as np

from astropy.modeling import models
from astropy.table import Table
from scipy.special import gamma, gammaincinv

from mc import core, sched
from petrofit import Petrosian, PetrosianCorrection, PSFConvolvedModel2D, generate_petrosian_sersic_correction as generate, model_to_image, radial_photometry

ID = "C15"
ASSUMPTIONS = ["the process pool is replaced by a controlled one that runs pickled copies of the tasks in the chosen order; real pools with 2 workers and one per core are run as a conformance check",
               "measured columns are compared with independent measurements on radii 1 or 2 pixels apart (4% or 0.4 pixels), analytic ones exactly"]
COLS = ["n", "r_eff", "sersic_r_20", "sersic_r_80", "sersic_r_99", "sersic_L_inf", "p02", "p03", "p04", "p05", "p0502", "p0302", "u_epsilon", "u_epsilon_50", "u_epsilon_80",
        "u_r_50", "u_r_99", "u_r_20", "u_r_80", "u_c2080", "u_c5090", "c_epsilon", "c_epsilon_50", "c_epsilon_80", "c_r_50", "c_r_99", "c_r_20", "c_r_80", "c_c2080", "c_c5090"]
OV = ("x_0", "y_0", 10, 10)


def bounds(tier):
    return "all {} completion orders of the tasks of 2x2 (thorough: 2x3) grids and of 1x3 and 3x1 grids; 17 parameter lists x serial/pool; PSF and oversampling settings; file states x formats x overwriting".format(
        24 if tier == "quick" else "24 and 720")


PSF = np.outer([1, 2, 4, 6, 4, 2, 1], [1, 2, 3, 4, 3, 2, 1.0])
PSF = PSF / PSF.sum()
PSF[3, 3] += 1 - PSF.sum()
LISTS = [([5.0], [1.0]), ([5, 3], [1]), ([3, 5], [2.0, 1.0]), ([4], [1, 2.0, 1.5]), ([2.5, 2.5], [1.0]), ([6.0, 3.0, 4.0], [1.1]), ([1.5], [0.8]), ([5], [1.0000004, 1.2]), ([3.0], [4.0]), ([4.0], [2.5]),
         ([1.0], [1.0]), ([2.125, 2.0625], [1.125]), ([3.337], [1.0625, 1.03125, 1.015625]), ([2.0, 2.001], [1.123457, 1.123]),
         ([2.25, 1.3125, 2.25, 1.75], [1.1]), ([2.0], [1.25, 0.9, 1.0625, 0.9]), ([2.75, 1.5, 2.125, 1.03125, 1.5], [1.3, 0.85])]


def cases(tier):
    out = []
    for p in itertools.permutations(range(4)):
        out.append(("order", [4.0, 2.0], [1.5, 1.0], list(p)))
    if tier != "quick":
        for p in itertools.permutations(range(6)):
            out.append(("order", [3.0, 2.0, 2.5], [1.5, 1.0], list(p)))
    for p in itertools.permutations(range(3)):
        out.append(("order", [2.0, 4.0, 3.0], [1.2], list(p)))
        out.append(("order", [2.5], [2.0, 1.0, 1.5], list(p)))
    for i in range(len(LISTS)):
        for form in ("list", "array", "tuple") if i != 6 else ("list",):
            out.append(("rows", i, form))
    for i, s in itertools.product((0, 9) if tier == "quick" else (0, 2, 3, 9), ([None, OV, None], [None, None, None], [None, 3, None], [PSF.tolist(), OV, None], [PSF.tolist(), 2, None], [PSF.tolist(), ["x_0", "y_0", 10, 8], 2],
                                              [PSF.tolist(), 4, 4])):
        out.append(("psf", i, s))
    out += [("real", n) for n in (2, True, 3)]
    out += [("file", c) for c in core.product(fmt=["ascii.ecsv", "fits", None], exists=[0, 1, 2], overwrite=[False, True], n_cpu=[None, 2])]
    out += [("misc", k) for k in range(5)]
    return out


def analytic(n, re):
    b = gammaincinv(2 * n, 0.5)
    amp = 100 / math.exp(b)
    total = amp * re**2 * 2 * math.pi * n * math.exp(b) / b ** (2 * n) * gamma(2 * n)
    rad = [re * (gammaincinv(2 * n, 0.99 * f) / b) ** n for f in (0.2, 0.8, 1.0)]
    return total, rad


def check_row(t, row, n, re, measured=None, what=""):
    g = {c: float(row[c]) for c in COLS}
    w = "{} row n={} r_eff={}: ".format(what, n, re)
    total, (r20, r80, r99) = analytic(n, re)
    t.same([g["n"], g["r_eff"]], [n, re], w + "parameters", rtol=1e-12)
    t.same([g["sersic_r_20"], g["sersic_r_80"], g["sersic_r_99"], g["sersic_L_inf"]], [r20, r80, r99, total], w + "analytic radii and flux", rtol=1e-8)
    t.same(g["u_epsilon"], 2.0, w + "uncorrected epsilon")
    p02 = g["p02"]
    t.same([g["p0502"], g["p0302"]], [5 * np.log10(p02 / g["p05"]), 5 * np.log10(p02 / g["p03"])], w + "Petrosian concentrations")
    t.same([g["u_epsilon_50"], g["u_epsilon_80"]], [g["u_r_50"] / p02, g["u_r_80"] / p02], w + "uncorrected epsilons", rtol=1e-5)
    t.same([g["u_c2080"], g["c_c2080"]], [5 * np.log10(g["u_r_80"] / g["u_r_20"]), 5 * np.log10(g["c_r_80"] / g["c_r_20"])], w + "concentrations", rtol=1e-9)
    t.same(g["c_epsilon_50"], g["c_r_50"] / p02, w + "corrected epsilon for half of the flux", rtol=1e-5)
    t.check(p02 > g["p03"] > g["p04"] > g["p05"] > 0, "{}Petrosian radii are not ordered", w)
    return g


_m = {}


def measure(n, re, psf, over, pover, step=2):
    """The same galaxy measured independently, on radii every ``step`` pixels."""
    key = (n, re, str(psf), str(over), pover, step)
    if key in _m:
        return _m[key]
    _, (r20, r80, r99) = analytic(n, re)
    rmax = int(max(r99 * (3 if n < 2 else 1.3), 8)) + 3
    if re < 7 and n < 1:
        rmax = int(r99 * 8)
    c = rmax + 2
    m = PSFConvolvedModel2D(models.Sersic2D(100 / math.exp(gammaincinv(2 * n, 0.5)), re, n, c, c), psf=psf, oversample=over, psf_oversample=pover)
    img = model_to_image(m, 2 * c)
    rl = np.arange(1, rmax + 1, float(step))
    f, a, _ = radial_photometry(img, (c, c), rl)
    p = Petrosian(rl, a, f)
    out = {"p0%d" % (10 * e): Petrosian(rl, a, f, eta=e).r_petrosian for e in (0.2, 0.3, 0.4, 0.5)}
    out["u_r_20"], out["u_r_50"], out["u_r_80"] = [p.fraction_flux_to_r(x) for x in (0.2, 0.5, 0.8)]
    out["u_r_99"] = np.nan
    q = Petrosian(rl, a, f)
    total = analytic(n, re)[0] * 0.99
    r_tot = float(np.interp(total, f, rl)) if f[-1] >= total else np.nan
    out["c_epsilon"] = r_tot / p.r_petrosian
    out["c_epsilon_80"] = float(np.interp(0.8 * total, f, rl)) / p.r_petrosian
    q.epsilon = out["c_epsilon"]
    out["c_r_20"], out["c_r_50"], out["c_r_80"] = [q.fraction_flux_to_r(x) for x in (0.2, 0.5, 0.8)]
    out["r_tot"] = r_tot
    _m[key] = out
    return out


def check_measured(t, g, n, re, psf=None, over=OV, pover=None, what=""):
    m, m1 = [measure(n, re, psf, over, pover, st) for st in (2, 1)]
    w = "{} row n={} r_eff={}: ".format(what, n, re)
    for k in ("p02", "p03", "p04", "p05", "u_r_20", "u_r_50", "u_r_80", "c_r_20", "c_r_50", "c_r_80"):
        t.check(any(np.isnan(x[k]) or abs(g[k] - x[k]) <= max(0.04 * x[k], 0.4) for x in (m, m1)), "{}{} is {}, measured independently {} and {}", w, k, g[k], m[k], m1[k])
    r_tot = g["c_epsilon"] * g["p02"]
    if not np.isnan(m["r_tot"]):
        # the outer curve of growth is flat: the radius is known to one step of the radius list
        t.check(abs(r_tot - m["r_tot"]) <= max(0.04 * m["r_tot"], 2.0), "{}epsilon times the Petrosian radius is {}, the total-flux radius is {}", w, r_tot, m["r_tot"])
    t.check(any(abs(g["c_epsilon_80"] - x["c_epsilon_80"]) <= max(0.04 * x["c_epsilon_80"], 0.5 / g["p02"]) for x in (m, m1)), "{}epsilon for 80% is {} instead of {}", w, g["c_epsilon_80"], m["c_epsilon_80"])
    t.check(abs(g["c_r_99"] - r_tot) <= max(0.08 * r_tot, 2.5), "{}corrected total-flux radius {} instead of {}", w, g["c_r_99"], r_tot)
    t.check(abs(g["u_r_99"] - 2 * g["p02"]) <= 0.12 * g["u_r_99"] + 8 or g["u_r_99"] <= 2 * g["p02"], "{}uncorrected total-flux radius {}", w, g["u_r_99"])
    t.same(g["u_c5090"] > 0, True, w + "C5090")


_alone = {}


def alone(n, re, kw):
    key = (n, re, str(kw))
    if key not in _alone:
        tb = generate(None, r_eff_list=[re], n_list=[n], **kw)
        _alone[key] = [float(tb[0][c]) for c in tb.colnames]
    return _alone[key]


def check_table(t, tab, rl, nl, kw, what):
    t.equal(list(tab.colnames), COLS, what + ": columns")
    want = [(n, r) for n in nl for r in rl]
    t.equal(len(tab), len(want), what + ": number of rows")
    got = [(float(x["n"]), float(x["r_eff"])) for x in tab]
    t.same(got, np.round(np.array(want, float), 6), what + ": order of the rows", rtol=1e-12)
    for row, (n, r) in zip(tab, want):
        t.same([float(row[c]) for c in COLS], alone(n, r, kw), "{}: row n={} r_eff={} computed with others".format(what, n, r), rtol=1e-10)


def run(case, t):
    kind = case[0]
    if kind == "order":
        _, rl, nl, order = case
        with sched.controlled(order) as ctl:
            tab = t.call(generate, None, r_eff_list=rl, n_list=nl, oversample=OV, n_cpu=2)
        n = len(rl) * len(nl)
        if sorted(ctl.ran) != list(range(n)) or ctl.ran != order:
            # the pool was not used in the way the stand-in controls; results are still compared
            t.state("uncontrolled", order)
        check_table(t, tab, rl, nl, dict(oversample=OV), "completion order {}".format(order))
        t.state(rl, nl, ctl.ran)
        t.outcome([list(r) for r in tab])
    elif kind == "rows":
        rl, nl = LISTS[case[1]]
        mk = {"list": list, "array": np.array, "tuple": tuple}[case[2]]
        a, b = mk(rl), mk(nl)
        tab = t.call(generate, None, r_eff_list=a, n_list=b, oversample=OV)
        t.equal(repr(a), repr(mk(rl)), "list of radii after the call")
        t.equal(repr(b), repr(mk(nl)), "list of indices after the call")
        nl = [round(x, 6) for x in nl]
        check_table(t, tab, rl, nl, dict(oversample=OV), "{} {}".format(rl, nl))
        for row, (n, r) in zip(tab, [(n, r) for n in nl for r in rl]):
            g = check_row(t, row, n, r)
            check_measured(t, g, n, r)
        if case[2] == "list":
            with sched.controlled(list(range(len(rl) * len(nl)))[::-1]):
                par = t.call(generate, None, r_eff_list=a, n_list=b, oversample=OV, n_cpu=4)
            for c in COLS:
                t.same(np.array(par[c]), np.array(tab[c]), "parallel and serial column " + c, rtol=1e-12)
        t.outcome([list(r) for r in tab])
    elif kind == "psf":
        rl, nl = LISTS[case[1]]
        psf, over, pover = case[2]
        psf = None if psf is None else np.array(psf)
        over = tuple(over) if isinstance(over, list) else over
        p0 = None if psf is None else psf.copy()
        tab = t.call(generate, None, psf=psf, r_eff_list=rl, n_list=nl, oversample=over, psf_oversample=pover)
        if psf is not None:
            t.same(psf, p0, "PSF after the call")
        g = check_row(t, tab[0], nl[0], rl[0], what="psf/oversampling")
        check_measured(t, g, nl[0], rl[0], psf, over, pover, "psf {} oversample {}/{}".format(psf is not None, over, pover))
        with sched.controlled([0]):
            par = t.call(generate, None, psf=psf, r_eff_list=rl, n_list=nl, oversample=over, psf_oversample=pover, n_cpu=2)
        t.same([float(v) for v in par[0]], [float(v) for v in tab[0]], "parallel row with a PSF", rtol=1e-12)
        t.outcome(list(tab[0]))
    elif kind == "real":
        rl, nl = [4.0, 2.0, 3.0], [1.5, 1.0]
        tab = t.call(generate, None, r_eff_list=rl, n_list=nl, oversample=OV, n_cpu=case[1])
        check_table(t, tab, rl, nl, dict(oversample=OV), "real pool of {}".format(case[1]))
        t.outcome([list(r) for r in tab])
    elif kind == "file":
        run_file(case[1], t)
    elif kind == "misc":
        misc(case[1], t)


def run_file(c, t):
    d = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        ext = {"ascii.ecsv": "yaml", "fits": "fits", None: "ecsv"}[c["fmt"]]
        path = os.path.join(d, "grid." + ext)
        fmt = c["fmt"]
        old = None
        if c["exists"]:
            if c["exists"] == 1:
                Table(rows=[[1.0, 2.0]], names=["n", "p02"]).write(path, format=fmt)
            else:
                with open(path, "w") as f:
                    f.write("not a table")
            old = open(path, "rb").read()
        with sched.controlled([1, 0]):
            tab = t.call(generate, path, r_eff_list=[3.0, 2.0], n_list=[1.0], oversample=OV, out_format=fmt, overwrite=c["overwrite"], n_cpu=c["n_cpu"])
        check_table(t, tab, [3.0, 2.0], [1.0], dict(oversample=OV), str(c))
        if c["exists"] and not c["overwrite"]:
            t.check(open(path, "rb").read() == old, "{}: an existing file was changed", c)
        else:
            back = t.call(PetrosianCorrection.read, path, file_format=fmt).grid
            t.equal(list(back.colnames), COLS, "columns read back")
            for n in COLS:
                t.same(np.array(back[n], float), np.array(tab[n], float), "column read back: " + n)
        t.equal(os.listdir(d), [os.path.basename(path)], "files written")
        t.state(c)
        t.outcome(c)
    finally:
        shutil.rmtree(d)


def misc(k, t):
    d = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        if k == 0:  # no file is written without a name
            cwd = os.getcwd()
            os.chdir(d)
            try:
                t.call(generate, None, r_eff_list=[2.0], n_list=[1.0], oversample=OV)
            finally:
                os.chdir(cwd)
            t.equal(os.listdir(d), [], "files written without a file name")
        elif k == 1:  # a file that cannot be written does not lose the table
            tab = t.call(generate, os.path.join(d, "missing", "grid.ecsv"), r_eff_list=[2.0], n_list=[1.0], oversample=OV)
            check_table(t, tab, [2.0], [1.0], dict(oversample=OV), "unwritable file")
        elif k == 2:
            t.rejects(generate, "plots from several processes", None, r_eff_list=[2.0, 3.0], n_list=[1.0], oversample=OV, n_cpu=2, plot=True)
        elif k == 3:
            for psf, warn in ((np.full((3, 3), 0.25), True), (np.array([[0, 0.125, 0], [0.25, 0.25, 0.25], [0, 0.125, 0]]), False)):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    t.call(generate, None, psf=psf, r_eff_list=[2.0], n_list=[1.0], oversample=OV)
                t.check(any("normal" in str(x.message).lower() for x in ws) == warn, "normalisation warning for a PSF that sums to {}", psf.sum())
        elif k == 4:
            from matplotlib import pyplot as plt

            tab = t.call(generate, None, r_eff_list=[2.0], n_list=[1.0], oversample=OV, plot=True)
            plt.close("all")
            check_table(t, tab, [2.0], [1.0], dict(oversample=OV), "with plots")
        t.state(k)
    finally:
        shutil.rmtree(d)
