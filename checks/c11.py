"""Histories of a Petrosian object."""
import copy
import itertools

import numpy as np

from mc import core, petro
from petrofit import Petrosian

ID = "C11"
DEF = dict(eta=0.2, epsilon=2.0, epsilon_fraction=0.99, total_flux_fraction=0.99, interp_kind="cubic", interp_num=5000)
SETS = [("eta", 0.3), ("eta", 0.5), ("eta", 0.2), ("epsilon", 1.25), ("epsilon", 2.0), ("epsilon_fraction", 0.8), ("total_flux_fraction", 0.9), ("interp_kind", "linear"),
        ("interp_kind", None), ("interp_num", 200), ("eta", 0.21875), ("epsilon", 1.40625), ("epsilon_fraction", 0.859375), ("total_flux_fraction", 0.921875), ("interp_num", 211)]
SMALL = [["eta", 0.3], ["eta", 0.21875], ["epsilon", 1.25], ["epsilon_fraction", 0.8], ["total_flux_fraction", 0.9], ["interp_kind", "linear"], ["interp_kind", None], ["interp_num", 200],
         ["read"], ["plot"], ["copy"], ["deepcopy"], ["swap"], ["mutate-input"], ["use"], ["other"]]
OPS = [list(o) for o in SETS] + [["read"], ["plot"], ["plot_cog"], ["imshow"], ["copy"], ["deepcopy"], ["swap"], ["mutate-input"], ["r_petrosian"], ["use"], ["other"]]
_fresh = {}


def bounds(tier):
    return "all histories of up to 2 operations out of {} (settings, reads, plots, copies, switching between copies) over 4 profiles; all of 3 operations out of {}; all construction settings".format(
        len(OPS), "{} over one profile".format(len(SMALL)) if tier == "quick" else "{} over two profiles and {} over 2".format(len(OPS), len(SMALL)))


def cases(tier):
    out = []
    for name in ("ok", "err", "short", "noeta"):
        out += [(name, 300, h) for h in core.histories(OPS, 2)]
    out += [("err", 5000, h) for h in core.histories(OPS, 1)]
    if tier == "quick":
        out += [("err", 100, h) for h in core.histories(SMALL, 3, 3)]
    else:
        for name in ("err", "short"):
            out += [(name, 100, h) for h in core.histories(OPS, 3, 3)]
        for name in ("ok", "noeta"):
            out += [(name, 300, h) for h in core.histories(SMALL, 3, 3)]
    # construction with every combination of settings equals setting them later
    for c in core.product(eta=[0.2, 0.5], epsilon=[2.0, 1.25], epsilon_fraction=[0.99, 0.8], total_flux_fraction=[0.99, 0.9],
                          interp_kind=["cubic", "linear", None], interp_num=[5000, 200] if tier != "quick" else [200]):
        for name in ("ok", "err2"):
            out.append((name, 5000, [[k, v] for k, v in c.items()]))
    return out


def fresh(name, st):
    key = (name, tuple(sorted(st.items(), key=str)))
    if key not in _fresh:
        _fresh[key] = petro.observe(petro.make(name, **st), light=True)
    return _fresh[key]


def run(case, t):
    from matplotlib import pyplot as plt

    name, num, hist = case
    data = [None if v is None else np.array(v) for v in petro.profile(name)]
    r, a, f, fe, ae = data
    kw = {} if num == 5000 else dict(interp_num=num)
    objs = [(t.call(Petrosian, r, a, f, flux_err=fe, area_err=ae, **kw), dict(DEF, interp_num=num))]
    cur = 0
    for op in hist:
        p, st = objs[cur]
        k = op[0]
        if len(op) == 2:
            t.call(setattr, p, k, op[1])
            st[k] = op[1]
        elif k == "read":
            t.call(petro.observe, p, light=True)
        elif k == "r_petrosian":
            t.call(lambda: (p.r_petrosian, p.c2080, p.r_total_flux_err))
        elif k in ("plot", "plot_cog"):
            plt.figure()
            t.call(getattr(p, k))
            plt.close("all")
        elif k == "imshow":
            plt.figure()
            t.call(p.imshow, (3, 3), 1.5, 0.3)
            plt.close("all")
        elif k in ("copy", "deepcopy"):
            objs.append((t.call(getattr(copy, k), p), dict(st)))
            cur = len(objs) - 1
        elif k == "swap":
            cur = (cur + 1) % len(objs)
        elif k == "mutate-input":
            for v in data:
                if v is not None:
                    v += 1.0
        elif k == "other":
            # an unrelated object with other settings
            q = t.call(Petrosian, r[:-1], a[:-1], f[:-1] * 2, eta=0.35, epsilon=1.1, epsilon_fraction=0.7, total_flux_fraction=0.6, interp_kind="slinear", interp_num=77)
            q._r_plot_alpha = 0.3
            t.call(lambda: (q.r_total_flux, q.c2080))
        elif k == "use":
            # a correction-like use: a copy with another epsilon
            q = copy.copy(p)
            q.epsilon = p.epsilon * 0.7
            t.call(lambda: (q.r_total_flux, q.c2080))
    for p, st in objs:
        obs = t.call(petro.observe, p, light=True)
        petro.compare(t, obs, fresh(name, st), "after {}".format(hist))
        t.state(name, obs)
        t.outcome(obs)
