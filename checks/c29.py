"""Concurrent evaluation of models: every interleaving with a bounded number of preemptions."""
import itertools
import warnings

import numpy as np

from astropy.modeling import models

from mc import threads
from petrofit import (GenSersic2D, Nuker2D, PSFConvolvedModel2D, fit_model, make_grid, model_to_image, petrosian_model, sersic_enclosed_model)

ID = "C29"
ASSUMPTIONS = [
    "threads are switched inside petrofit's own functions only (before operations that can touch shared state, or before lines); numpy, scipy and astropy calls are atomic",
    "at most 1 preemption before every operation, and 2 before operations on attributes, items and in-place operations, in quick; 2 before every line, 2 before every operation of two scenarios and 3 with three threads in thorough",
    "parameters, psf and oversampling of a shared model are not changed while it is evaluated",
]
PSF3 = np.array([[0, 1, 0], [2, 8, 1], [0, 1, 0]]) / 13.0
PSF5 = np.outer([1, 2, 4, 3, 1], [1, 3, 5, 2, 1]) / (11.0 * 12.0)


def sersic(**k):
    p = dict(amplitude=5, r_eff=2.4, n=1.2, x_0=3.2, y_0=2.7, ellip=0.3, theta=0.4)
    p.update(k)
    return models.Sersic2D(**p)


def grid(nx, ny, x0=0, y0=0):
    return np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0)


# scenario: function that makes fresh tasks; "solo" results come from fresh objects as well
def same_model(make, *grids, warm=None, off=False):
    def build():
        m = make()
        if off:
            m.cache_grid = False
        if warm is not None:
            m(*grid(*warm))
        return [lambda g=g: m(*grid(*g)) for g in grids]

    return build


def wrap(**k):
    return lambda: PSFConvolvedModel2D(sersic(), **k)


def clearing():
    m = PSFConvolvedModel2D(sersic(), psf=PSF3)
    m(*grid(6, 5))
    return [lambda: m(*grid(6, 5)), lambda: (m.clear_cached_grid(), m(*grid(6, 5, 2)))[1]]


def toggling():
    m = PSFConvolvedModel2D(sersic(), psf=PSF3)

    def other():
        m.cache_grid = False
        z = m(*grid(4, 7, 1, 1))
        m.cache_grid = True
        return z

    return [lambda: m(*grid(6, 5)), other]


def params():
    m = PSFConvolvedModel2D(sersic(), psf=PSF5, oversample=("x_0", "y_0", 3, 2))
    p = list(m.parameters)
    q = list(p)
    q[0], q[3], q[4], q[-1] = 9.0, 1.3, 4.1, 30.0
    return [lambda: m.evaluate(*grid(6, 5), *p), lambda: m.evaluate(*grid(6, 5), *q)]


def angles():
    # the PSF is turned by another angle in each thread
    m = PSFConvolvedModel2D(sersic(), psf=PSF5)
    p = list(m.parameters)
    q = list(p)
    p[-1], q[-1] = 20.0, 75.0
    return [lambda: m.evaluate(*grid(6, 5), *p), lambda: m.evaluate(*grid(6, 5), *q)]


def two_wrappers():
    s = sersic()
    return [lambda m=PSFConvolvedModel2D(s, psf=PSF3, oversample=2): m(*grid(6, 5)), lambda m=PSFConvolvedModel2D(s, psf=PSF5): m(*grid(5, 6))]


def two_wrappers_reuse():
    s = sersic()
    a, b = PSFConvolvedModel2D(s, psf=PSF3, oversample=(3, 3, 4, 2)), PSFConvolvedModel2D(s, oversample=(2, 2, 3, 4))
    a(*grid(6, 5)), b(*grid(6, 5))
    return [lambda: a(*grid(6, 5)), lambda: b(*grid(6, 5))]


def two_copies():
    a = PSFConvolvedModel2D(sersic(), psf=PSF3, oversample=4)
    a(*grid(6, 5))
    b = a.copy()
    b.amplitude = 2.0
    return [lambda: a(*grid(6, 5, 1)), lambda: b(*grid(6, 5))]


def images():
    m = PSFConvolvedModel2D(sersic(), psf=PSF3, oversample=("x_0", "y_0", 3, 3))
    return [lambda: model_to_image(m, (6, 5)), lambda: model_to_image(m, (6, 5), center=(5, 4))]


def plain():
    m = GenSersic2D(amplitude=5, r_eff=2.4, n=1.2, x_0=3.2, y_0=2.7, ellip=0.3, theta=0.4, c_0=0.5)
    k = Nuker2D(x_0=2.2, y_0=3.1)
    return [lambda: model_to_image(m, (6, 5)) + k(*grid(6, 5)), lambda: m(*grid(6, 5, 2)) + model_to_image(k, (6, 5), center=(6, 6))]


def curves():
    a, b, r = sersic_enclosed_model(10, 3, 2), petrosian_model(3, 2), np.arange(1.0, 5)
    return [lambda: a(r) + b(r * 2), lambda: b(r) + a(r * 3)]


def grids():
    return [lambda: np.array(make_grid(4, origin=(1, 2), factor=2)), lambda: np.array(make_grid(3, origin=(0, -1), factor=3))]


def model_property():
    m = PSFConvolvedModel2D(sersic(), psf=PSF3)
    return [lambda: m(*grid(6, 5)), lambda: model_to_image(m.model, (5, 4)), ]


def attributes():
    a, b = PSFConvolvedModel2D(sersic(), psf=PSF3), PSFConvolvedModel2D(sersic())

    def first():
        a.oversample = 2
        a.psf_oversample = 2
        return a(*grid(6, 5))

    def second():
        b.oversample = (2, 2, 3, 3)
        return b(*grid(6, 5))

    return [first, second]


def building():
    def first():
        return PSFConvolvedModel2D(sersic(), psf=PSF3, oversample=2)(*grid(6, 5))

    def second():
        return PSFConvolvedModel2D(sersic(n=2, amplitude=1) + models.Const2D(0.5), psf=PSF5)(*grid(5, 6))

    return [first, second]


def fitting():
    true = PSFConvolvedModel2D(models.Gaussian2D(5, 2.2, 2.7, 1.1, 1.4, 0), psf=PSF3)
    ims = [np.asarray(model_to_image(true, s)) for s in ((6, 5), (5, 6))]
    m = true.copy()
    for n in m.fixed:
        m.fixed[n] = n != "amplitude" and n != "x_mean"
    m.amplitude, m.x_mean = 4.0, 2.4
    return [lambda im=im: fit_model(im, m, maxiter=3)[0].parameters for im in ims]


def three():
    m = PSFConvolvedModel2D(sersic(), psf=PSF3)
    return [lambda g=g: m(*grid(*g)) for g in ((6, 5), (6, 5, 1, 0), (5, 6))]


SCEN = {
    "sizes": same_model(wrap(psf=PSF3), (6, 5), (4, 7)),
    "origins": same_model(wrap(psf=PSF3), (6, 5), (6, 5, 2, 1)),
    "transposed": same_model(wrap(), (6, 5), (5, 6)),
    "warm first": same_model(wrap(psf=PSF3), (6, 5), (6, 5, 2, 1), warm=(6, 5)),
    "warm second": same_model(wrap(oversample=2), (6, 5, 2, 1), (6, 5), warm=(6, 5, 2, 1)),
    "warm none": same_model(wrap(oversample=("x_0", "y_0", 3, 4), psf=PSF5), (6, 5, 2, 1), (6, 5), warm=(7, 3)),
    "uncached": same_model(wrap(psf=PSF5), (6, 5, 2, 1), (4, 7), off=True),
    "equal": same_model(wrap(psf=PSF5, oversample=2, psf_oversample=2), (6, 5), (6, 5)),
    "window": same_model(wrap(oversample=(3, 2, 4, 3)), (6, 5), (6, 5, 1.5, 0.5)),
    "clearing": clearing, "toggling": toggling, "params": params, "angles": angles, "wrappers": two_wrappers, "wrappers reuse": two_wrappers_reuse, "copies": two_copies, "images": images,
    "plain": plain, "curves": curves, "grids": grids, "model property": model_property, "attributes": attributes, "building": building,
    "fitting": fitting, "three": three,
}
CORE = ("origins", "warm first", "uncached", "window", "clearing", "params", "angles", "copies")
HEAVY = ("fitting", "building", "attributes")


def bounds(tier):
    return ASSUMPTIONS[1] + "; {} scenarios, every thread first, every preemption point".format(len(SCEN))


def solo(name):
    """What every thread gets alone, and how many steps it takes."""
    n = len(SCEN[name]())
    out, steps = [], {"line": [], "opcode": [], "state": []}
    for k in range(n):
        for grain in ("line", "opcode", "state"):
            r = threads.run([SCEN[name]()[k]], [], grain)
            steps[grain].append(r.steps[0])
            if r.errors[0] is not None:
                raise r.errors[0]
        out.append(np.array(r.results[0], dtype=float))
    return out, steps


def cases(tier):
    out = []
    for name in SCEN:
        n = 3 if name == "three" else 2
        for first in range(n):
            for part in range(4):
                out.append((name, first, "state" if name == "fitting" else "opcode", 1, part, 4))
            if tier == "quick" and name in CORE:
                for part in range(4):
                    out.append((name, first, "state", 2, part, 4))
            if tier != "quick":
                if name not in HEAVY:
                    for part in range(8):
                        out.append((name, first, "line", 2, part, 8))
                if name in ("origins", "warm first"):
                    for part in range(32):
                        out.append((name, first, "opcode", 2, part, 32))
                if name in ("attributes", "building"):
                    for part in range(16):
                        out.append((name, first, "state", 2, part, 16))
                if name == "fitting":
                    for part in range(8):
                        out.append((name, first, "line", 1, part, 8))
                if name == "three":
                    for part in range(30):
                        out.append((name, first, "state", 3, part, 30))
    return out


def explore(name, segments, grain, want, t):
    tasks = SCEN[name]()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = threads.run(tasks, segments, grain)
    t.ops += len(tasks)
    for k, w in enumerate(want):
        what = "scenario '{}', thread {}, schedule {} ({} steps, the rest in order)".format(name, k, segments, grain)
        t.check(r.errors[k] is None, "{} raised {!r}", what, r.errors[k])
        t.same(r.results[k], w, what, rtol=1e-9, atol=1e-12)
    if len(segments) < 3 and name not in ("clearing", "toggling", "fitting"):
        # nothing wrong is left behind either
        for k, w in enumerate(want):
            t.same(tasks[k](), w, "scenario '{}', task {} again after schedule {} ({} steps)".format(name, k, segments, grain), rtol=1e-9, atol=1e-12)
    t.state(name, segments, grain)
    return r


def run(case, t):
    name, first, grain, depth = case[:4]
    part, parts = case[4:] if len(case) > 4 else (0, 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want, steps = solo(name)
    n = len(want)
    slack = 1.3 if name != "fitting" else 1.0
    total = [int(s * slack) + 8 for s in steps[grain]]
    others = [k for k in range(n) if k != first]
    firsts = range(part, total[first], parts)
    for i in firsts:
        if depth == 1:
            for o in others:
                r = explore(name, [(first, i), (o, None)], grain, want, t)
                t.outcome(r.steps)
            if r.overran:
                break
            continue
        stop = False
        for o in others:
            for j in range(1, total[o]):
                seg = [(first, i), (o, j)]
                if depth == 2:
                    seg.append((first, None))
                    r = explore(name, seg, grain, want, t)
                    if r.overran:
                        stop = r.used[0] < i
                        break
                else:
                    q = [k for k in others if k != o][0]
                    for l in range(1, total[q]):
                        r = explore(name, seg + [(q, l), (first, None)], grain, want, t)
                        if r.overran:
                            break
        if stop:
            break
