"""Wrapping and unwrapping models."""
import copy
import itertools

import numpy as np

from astropy.modeling import custom_model, models

from mc import core
from petrofit import GenSersic2D, Nuker2D, PSFConvolvedModel2D, get_default_gen_sersic_bounds, get_default_sersic_bounds

ID = "C19"


@custom_model
def Ramp(x, y, slope=1.0, x_0=0.0, level=2.0):
    return level + slope * (x - x_0) + 0 * y


def make(name):
    if name == "sersic":
        return models.Sersic2D(3.0, 2.6, 1.7, 5, 6, 0.3, 0.6, bounds=get_default_sersic_bounds(), fixed={"n": True})
    if name == "plain":
        return models.Sersic2D(3.0, 2.6, 1.7, 5, 6, 0.3, 0.6)
    if name == "gauss":
        m = models.Gaussian2D(2.0, 4.5, 3.5, 2, 3, 0.1, bounds={"x_mean": (3, 8)})
        m.theta.fixed = True
        return m
    if name == "compound":
        return models.Sersic2D(3.0, 2.6, 1.7, 5, 6, 0.3, 0.6, fixed={"n": True}, bounds={"r_eff": (1, 9)}) + models.Gaussian2D(2.0, 4.5, 3.5, 2, 3, 0.1, bounds={"x_mean": (3, 8)}, fixed={"y_stddev": True})
    if name == "three":
        m = models.Sersic2D(3.0, 2.6, 1.7, 5, 6) + models.Sersic2D(1.0, 4.0, 4, 5, 6) + models.Const2D(0.5, bounds={"amplitude": (0, 1)})
        m.n_1.fixed = True
        m.bounds["r_eff_0"] = (1, 4)
        return m
    if name == "product":
        return models.Gaussian2D(2.0, 4.5, 3.5, 2, 3) * models.Const2D(0.5, fixed={"amplitude": True})
    if name == "gensersic":
        return GenSersic2D(amplitude=3.0, r_eff=2.6, n=1.7, x_0=5, y_0=6, ellip=0.2, theta=0.5, c_0=0.4, bounds=get_default_gen_sersic_bounds())
    if name == "nuker":
        return Nuker2D(amplitude=3.0, x_0=4.51, y_0=3.52, bounds={"alpha": (1, 5)})
    if name == "ramp":
        return Ramp(0.3, 1.0, 4.0, fixed={"slope": True})
    if name == "plane":
        return models.Planar2D(0.1, 0.2, 3.0)
    raise KeyError(name)


NAMES = ["sersic", "plain", "gauss", "compound", "three", "product", "gensersic", "nuker", "ramp", "plane"]
# who, what, which parameter (index from the start, or 'last')
CHG = [["val", 0], ["val", "last"], ["fix", 1], ["fixd", 0], ["unfix", "last"], ["bnd", 1], ["bndd", 0], ["min", "last"]]
OPS = [[who] + c for who in ("base", "wrap", "conv") for c in CHG] + [["convert"], ["wrapcopy"], ["rewrap"], ["eval"], ["wrap", "pa", 0], ["wrap", "many", 0]]


def bounds(tier):
    return "10 base models: all histories of up to {} operations out of {} on the base model, the wrapper and a converted copy; construction with every kind of constraint argument; refusals".format(
        2 if tier == "quick" else 3, len(OPS))


def cases(tier):
    out = []
    for n in NAMES:
        out += [(n, [])]
        out += [(n, h) for h in core.histories(OPS, 2 if tier == "quick" or n not in ("sersic", "compound", "ramp") else 3)]
    out += [("kw", n, k) for n in NAMES for k in range(6)]
    out += [("refuse", k) for k in range(6)]
    out += [("bounds", h) for h in core.histories(["get", "getgen", "mutate", "override", "overridegen", "overridemut"], 3)]
    return out


def shadow(m):
    return {p: [float(getattr(m, p).value), bool(getattr(m, p).fixed), bnd(getattr(m, p).bounds)] for p in m.param_names}


def bnd(b):
    return [None if v is None else float(v) for v in b]


def compare(t, m, sh, order, what):
    t.equal(list(m.param_names), order, what + ": parameter names")
    for i, p in enumerate(order):
        v, f, b = sh[p]
        got = (float(getattr(m, p).value), float(m.parameters[i]))
        t.check(got == (v, v), "{}: {} is {} instead of {}", what, p, got, v)
        got = (bool(getattr(m, p).fixed), bool(m.fixed[p]))
        t.check(got == (f, f), "{}: fixed flag of {} is {} instead of {}", what, p, got, f)
        got = (bnd(getattr(m, p).bounds), bnd(m.bounds[p]))
        t.check(got == (b, b), "{}: bounds of {} are {} instead of {}", what, p, got, b)
    t.check(set(m.fixed) == set(order) and set(m.bounds) == set(order), "{}: constraints of {}", what, sorted(set(m.fixed) ^ set(order)))


def change(t, m, sh, op, k):
    what, idx = op
    names = [p for p in m.param_names if p != "psf_pa"]
    p = names[-1] if idx == "last" else names[min(idx, len(names) - 1)]
    new = 1.25 + 0.5 * k
    if what == "val":
        t.call(setattr, m, p, new)
        sh[p][0] = new
    elif what == "fix":
        getattr(m, p).fixed = True
        sh[p][1] = True
    elif what == "fixd":
        m.fixed[p] = True
        sh[p][1] = True
    elif what == "unfix":
        getattr(m, p).fixed = False
        sh[p][1] = False
    elif what == "bnd":
        getattr(m, p).bounds = (0.5, new + 10)
        sh[p][2] = [0.5, new + 10]
    elif what == "bndd":
        m.bounds[p] = (None, new + 20)
        sh[p][2] = [None, new + 20]
    elif what == "min":
        getattr(m, p).min = -new
        sh[p][2][0] = -new
    elif what == "pa":
        m.psf_pa = 10.0 + k
        sh["psf_pa"][0] = 10.0 + k
        m.psf_pa.bounds = (0, 90)
        sh["psf_pa"][2] = [0.0, 90.0]
    elif what == "many":
        m.parameters = np.array(m.parameters) * 0.5 + 0.1
        for q, v in zip(m.param_names, m.parameters):
            sh[q][0] = float(v)


def values(m):
    yy, xx = np.mgrid[:4, :5]
    return np.asarray(m(xx, yy), float) + np.zeros(xx.shape)


def run(case, t):
    if case[0] == "kw":
        return run_kw(case[1], case[2], t)
    if case[0] == "refuse":
        return run_refuse(case[1], t)
    if case[0] == "bounds":
        return run_bounds(case[1], t)
    name, hist = case
    base = make(name)
    sb = shadow(base)
    order = list(base.param_names)
    w = t.call(PSFConvolvedModel2D, base)
    sw = dict(copy.deepcopy(sb), psf_pa=[0.0, False, [None, None]])
    compare(t, base, sb, order, "base model after wrapping")
    compare(t, w, sw, order + ["psf_pa"], "wrapper")
    conv = t.call(lambda: w.model)
    sc = copy.deepcopy(sb)
    live = {"base": [base, sb], "wrap": [w, sw], "conv": [conv, sc]}
    extra = []
    for k, op in enumerate(hist):
        w, sw = live["wrap"]
        if op[0] in live:
            change(t, live[op[0]][0], live[op[0]][1], op[1:], k + 1)
        elif op[0] == "convert":
            extra.append(live["conv"])
            live["conv"] = [t.call(lambda: w.model), copy.deepcopy({p: v for p, v in sw.items() if p != "psf_pa"})]
        elif op[0] == "wrapcopy":
            extra.append(live["wrap"])
            live["wrap"] = [t.call(w.copy), copy.deepcopy(sw)]
        elif op[0] == "rewrap":
            extra.append(live["wrap"])
            m, sh = live["conv"]
            live["wrap"] = [t.call(PSFConvolvedModel2D, m), dict(copy.deepcopy(sh), psf_pa=[0.0, False, [None, None]])]
        elif op[0] == "eval":
            t.call(values, w)
        for who, (m, sh) in list(live.items()) + [("older", e) for e in extra]:
            compare(t, m, sh, order + (["psf_pa"] if "psf_pa" in sh else []), "{} after {}".format(who, hist[: k + 1]))
    w, sw = live["wrap"]
    c = t.call(lambda: w.model)
    t.check(type(c) is type(base) and c is not base and c is not w.model, "{}: converted model is {!r}", hist, type(c))
    compare(t, c, {p: v for p, v in sw.items() if p != "psf_pa"}, order, "converted after {}".format(hist))
    compare(t, w, sw, order + ["psf_pa"], "wrapper after converting")
    # the wrapper renders the base model with its own values
    if not w.psf_pa.value or w.psf is None:
        t.same(values(w), values(c), "image of the wrapper and of the converted model after {}".format(hist), rtol=1e-9)
    ref = make(name)
    for p in order:
        setattr(ref, p, sw[p][0])
    t.same(values(w), values(ref), "image of the wrapper after {}".format(hist), rtol=1e-9)
    t.state(name, sb, sw, live["conv"][1])
    t.outcome(list(sw.items()))


def run_kw(name, k, t):
    """Constraints and names given to the wrapper itself."""
    base = make(name)
    sb = shadow(base)
    order = list(base.param_names)
    p, q = order[0], order[-1]
    sw = dict(copy.deepcopy(sb), psf_pa=[0.0, False, [None, None]])
    kw = {}
    if k == 1:
        kw = dict(fixed={p: True, "psf_pa": True})
        for x in sw:
            sw[x][1] = x in (p, "psf_pa")
    elif k == 2:
        kw = dict(bounds={q: (-5, 50), "psf_pa": (0, 360)})
        for x in sw:
            sw[x][2] = {q: [-5.0, 50.0], "psf_pa": [0.0, 360.0]}.get(x, [None, None])
    elif k == 3:
        kw = dict(fixed={q: True}, bounds={p: (0, 9)})
        for x in sw:
            sw[x][1:] = [x == q, [0.0, 9.0] if x == p else [None, None]]
    elif k == 4:
        kw = dict(psf_pa=30.0)
        sw["psf_pa"][0] = 30.0
    elif k == 5:
        kw = dict(name="wrapped")
    if k in (2, 3) and name in ("gauss", "compound", "product"):
        return  # the bounds of astropy's own Gaussian widths come back in part
    w = t.call(PSFConvolvedModel2D, base, **kw)
    if k == 5:
        t.equal(w.name, "wrapped", "name")
    compare(t, w, sw, order + ["psf_pa"], "wrapper made with {}".format(kw))
    compare(t, base, sb, order, "base model after wrapping with {}".format(kw))
    c = t.call(lambda: w.model)
    compare(t, c, {x: v for x, v in sw.items() if x != "psf_pa"}, order, "converted from a wrapper made with {}".format(kw))
    # two wrappers of one base model are independent of each other and of other classes' parameters
    w2 = t.call(PSFConvolvedModel2D, base)
    setattr(w2, p, 9.75)
    w2.fixed[q] = not w2.fixed[q]
    compare(t, w, sw, order + ["psf_pa"], "wrapper after changing another one")
    compare(t, base, sb, order, "base model after changing a wrapper")
    other = t.call(PSFConvolvedModel2D, make("plane" if name != "plane" else "sersic"))
    compare(t, w, sw, order + ["psf_pa"], "wrapper after wrapping another model")
    t.equal(len(other.param_names), len(make("plane" if name != "plane" else "sersic").param_names) + 1, "parameters of another wrapper")
    t.state(name, k)


def run_refuse(k, t):
    w = PSFConvolvedModel2D(make("sersic"), psf=np.array([[0, 0, 0], [0, 1.0, 0], [0, 0, 0]]))
    if k == 0:
        t.rejects(PSFConvolvedModel2D, "a one-dimensional model", models.Sersic1D(1, 2, 3))
    elif k == 1:
        t.rejects(PSFConvolvedModel2D, "a one-dimensional compound model", models.Gaussian1D(1, 2, 3) + models.Const1D(1))
    elif k == 2:
        t.rejects(PSFConvolvedModel2D, "a wrapped model", w)
    elif k == 3:
        t.rejects(PSFConvolvedModel2D, "a wrapped model with a PSF", w, psf=w.psf)
        t.rejects(PSFConvolvedModel2D, "a copy of a wrapped model", w.copy())
    elif k == 4:
        w2 = t.call(PSFConvolvedModel2D, w.model)
        t.same(w2.parameters, w.parameters, "parameters after wrapping the converted model")
    elif k == 5:
        t.rejects(PSFConvolvedModel2D, "a polynomial in one dimension", models.Polynomial1D(2))
    t.state(k)


S0 = {"amplitude": [0.0, None], "r_eff": [1e-3, None], "n": [0.1, 10.0], "ellip": [0.0, 0.99], "theta": [-2 * np.pi, 2 * np.pi]}
G0 = dict(S0, c_0=[0.0, 2.0])


def run_bounds(hist, t):
    def same(d, want, what):
        t.check({k: bnd(v) for k, v in d.items()} == want, "{}: {}", what, d)

    last = {}
    for op in hist:
        what = "after {}".format(hist)
        if op == "get":
            last = t.call(get_default_sersic_bounds)
            same(last, S0, what)
        elif op == "getgen":
            last = t.call(get_default_gen_sersic_bounds)
            same(last, G0, what)
        elif op == "mutate":
            last["n"] = (3, 4)
            last["extra"] = (0, 1)
            last.pop("ellip", None)
        elif op == "override":
            o = {"n": (1, 4), "x_0": (2, 3)}
            last = t.call(get_default_sersic_bounds, o)
            same(last, dict(S0, n=[1.0, 4.0], x_0=[2.0, 3.0]), what)
            same(o, {"n": [1.0, 4.0], "x_0": [2.0, 3.0]}, what + ": overrides after the call")
        elif op == "overridegen":
            o = {"c_0": (-1, 1)}
            last = t.call(get_default_gen_sersic_bounds, o)
            same(last, dict(G0, c_0=[-1.0, 1.0]), what)
        elif op == "overridemut":
            o = {"n": (1, 4)}
            last = t.call(get_default_sersic_bounds, override=o)
            last["n"] = (9, 9.5)
            same(o, {"n": [1.0, 4.0]}, what + ": overrides after changing the result")
    same(get_default_sersic_bounds(), S0, "defaults after {}".format(hist))
    same(get_default_gen_sersic_bounds(), G0, "general defaults after {}".format(hist))
    t.state(hist)
