"""Guards of the sampling settings: all reachable setting states and all assignments from each."""
import collections
import itertools
import warnings

import numpy as np

from astropy.modeling import models

from mc import core
from mc.core import digest
from mc.render import render
from petrofit import PSFConvolvedModel2D

ID = "C18"
PSF = {
    "none": None,
    "norm": np.array([[1, 2, 0.5], [3, 9, 1], [0, 2, 0.25]]) / 18.75,
    "unnorm": np.array([[1.0, 2, 3], [4, 5, 6], [7, 8, 9]]),
    "almost": np.array([[0.0, 0, 0], [0, 1 + 1e-8, 0], [0, 0, 0]]),
    "zero": np.zeros((3, 3)),
    "int": np.array([[0, 0, 0], [0, 1, 0], [0, 0, 0]]),
}
OVER = [None, 1, 2, 3, 4, 6, 0, -1, -2, -6, ("x_0", "y_0", 4, 2), (3.5, 2, 4, 3), ["x_0", 2.2, 3, 6], (1, 2, 4, 0), (1, 2, 4, -2), (1, 2, 4), (1, 2, 4, 2, 2), [], (1, 2, 4.0, 2), (1, 2, 4, 2.0), (1, 2, "4", 2), (1, 2, 4, None),
        2.0, 2.5, "2", "x_0", {"x": 1}, (4, 2)]
POVER = [None, 1, 2, 3, 4, 6, 0, -1, -2, 2.0, "2", (2,), 12]
OPS = [("psf", k) for k in PSF] + [("over", i) for i in range(len(OVER))] + [("pover", i) for i in range(len(POVER))]
INIT = ("none", 0, 0)


def factor(i):
    v = OVER[i]
    return 1 if v is None else v if isinstance(v, int) else v[3]


def step(s, op):
    """Guard model: the next state, or None if the assignment is refused."""
    psf, o, p = s
    k, v = op
    pf = POVER[p] or 1
    if k == "psf":
        return (v, o, p)
    if k == "over":
        x = OVER[v]
        if x is None:
            return (psf, v, p) if pf == 1 else None
        if isinstance(x, (tuple, list)):
            if len(x) != 4 or type(x[2]) is not int or type(x[3]) is not int:
                return None
            x = x[3]
        if type(x) is not int or x <= 0 or x % pf:
            return None
        return (psf, v, p)
    x = POVER[v]
    if x is None:
        return (psf, o, v)
    if psf == "none" or type(x) is not int or x <= 0 or factor(o) % x:
        return None
    return (psf, o, v)


def reach(depth=99):
    """All states of the guard model with a shortest history to each."""
    hist = {INIT: []}
    todo = collections.deque([INIT])
    while todo:
        s = todo.popleft()
        if len(hist[s]) >= depth:
            continue
        for op in OPS:
            n = step(s, op)
            if n is not None and n not in hist:
                hist[n] = hist[s] + [op]
                todo.append(n)
    return hist


def bounds(tier):
    return "all {} setting states reachable by {} assignments, and every assignment from each of them{}; every combination at construction".format(
        len(reach()), len(OPS), "" if tier == "quick" else " followed by every second one")


def cases(tier):
    out = [("hist", h, tier != "quick") for h in reach().values()]
    out += [("init", p, i) for p in PSF for i in range(len(OVER))]
    out += [("warn", 0)]
    return out


def base():
    return models.Sersic2D(2.0, 2.0, 1.3, 4.2, 3.7, 0.2, 0.4)


def same_setting(got, want):
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and list(got) == list(want)
    return (got is None) if want is None else got == want


def check_state(t, m, s, what):
    psf, o, p = s
    t.check(same_setting(m.oversample, OVER[o]), "{}: oversample is {!r} instead of {!r}", what, m.oversample, OVER[o])
    t.check(same_setting(m.psf_oversample, POVER[p]), "{}: psf_oversample is {!r} instead of {!r}", what, m.psf_oversample, POVER[p])
    if PSF[psf] is None:
        t.check(m.psf is None, "{}: there is a PSF", what)
    else:
        t.same(m.psf, PSF[psf], what + ": PSF")


def assign(t, m, s, op, what):
    k, v = op
    attr = {"psf": "psf", "over": "oversample", "pover": "psf_oversample"}[k]
    val = (PSF if k == "psf" else OVER if k == "over" else POVER)[v]
    val = val.copy() if isinstance(val, (np.ndarray, list, dict)) else val
    n = step(s, op)
    w = "{} then {}={!r}".format(what, attr, val)
    if n is None:
        t.rejects(setattr, w, m, attr, val)
        n = s
    else:
        t.call(setattr, m, attr, val)
    check_state(t, m, n, w)
    return n


def run(case, t):
    if case[0] == "hist":
        h = [tuple(x) for x in case[1]]

        def reached():
            m, s = t.call(PSFConvolvedModel2D, base()), INIT
            for op in h:
                s = assign(t, m, s, op, "new model")
            return m, s

        m, s = reached()
        check_state(t, m, s, str(h))
        usable(t, m, s)
        for op in OPS:
            m, s1 = reached()
            s2 = assign(t, m, s1, op, str(h))
            t.state(s2)
            usable(t, m, s2)
            if case[2]:
                for op2 in OPS:
                    if step(s1, op) is None or step(s2, op2) is None:
                        # a refused assignment leaves nothing behind that changes a later one
                        s3 = assign(t, m, s2, op2, "{} {}".format(h, op))
                        if s3 != s2:
                            m, s1 = reached()
                            assign(t, m, s1, op, str(h))
    elif case[0] == "init":
        p, i = case[1], case[2]
        for j in range(len(POVER)):
            s = INIT
            for op in (("psf", p), ("over", i), ("pover", j)):
                s = None if s is None else step(s, op)
            kw = dict(psf=None if PSF[p] is None else PSF[p].copy(), oversample=OVER[i], psf_oversample=POVER[j])
            if s is None:
                t.rejects(PSFConvolvedModel2D, "construction with {} {!r} {!r}".format(p, OVER[i], POVER[j]), base(), **kw)
            else:
                m = t.call(PSFConvolvedModel2D, base(), **kw)
                check_state(t, m, s, "construction")
                t.state(s)
                usable(t, m, s)
    else:
        for k, warn in (("norm", False), ("unnorm", True), ("almost", False), ("zero", True), ("int", False), ("none", False)):
            for how in ("init", "set"):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    if how == "init":
                        t.call(PSFConvolvedModel2D, base(), psf=PSF[k])
                    else:
                        m = PSFConvolvedModel2D(base())
                        t.call(setattr, m, "psf", PSF[k])
                got = any("normal" in str(w.message).lower() for w in ws)
                t.check(got == warn, "normalisation warning for the PSF {} ({}): {}", k, how, got)


def usable(t, m, s):
    """Accepted settings are used."""
    psf, o, p = s
    key = digest(s)
    if key not in _ref:
        _ref[key] = render(base(), 0, 0, 9, 8, PSF[psf], OVER[o] if not isinstance(OVER[o], list) else tuple(OVER[o]), POVER[p])
    want, inner = _ref[key]
    yy, xx = np.mgrid[:8, :9]
    got = np.asarray(t.call(m, xx, yy))
    t.same(np.where(inner, got, 0), np.where(inner, want, 0), "image with settings {} {} {}".format(psf, OVER[o], POVER[p]), rtol=1e-7, atol=1e-9)


_ref = {}
