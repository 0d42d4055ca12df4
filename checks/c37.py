"""Interrupted calls."""
import ast
import functools
import os
import sys
import warnings

import numpy as np

import matplotlib
from matplotlib import pyplot as plt

import petrofit as pf
from checks import c28, c34
from mc import menu

ID = "C37"
ASSUMPTIONS = [
    "interruptions (such as Ctrl-C) arrive between two lines of the library or at the end of one of its functions; interruptions inside other packages are those at the next line of the library",
    "files that are being written and figures that are being drawn are not part of the state",
]
HOME = os.path.dirname(os.path.abspath(pf.__file__)) + os.sep
def corrected(eta, fraction, draw=False):
    def build(v):
        def use(g, p):
            c = pf.PetrosianCorrection(g, enforce_range=False)
            return [c.estimate_n(p), c.estimate_epsilon(p), c.correct(p)]

        return menu.figure_of(lambda g, p: pf.PetrosianCorrection(g, enforce_range=False).plot_correction(p)[1]) if draw else use, [menu.grid(v), menu.petrosian(v, eta=eta, epsilon_fraction=fraction, epsilon=1.4, interp_num=120)], {}

    return build


def measured(**kw):
    def build(v):
        def use(p):
            return [p.r_petrosian, p.r_petrosian_err, p.r_half_light, p.r_total_flux, p.total_flux, p.concentration_index(0.3, 0.7), p.c5090, p.u_r_80 if hasattr(p, "u_r_80") else None, p.fraction_flux_to_r(0.4), p.r_total_flux_err, p.r_half_light_err]

        return use, [menu.petrosian(v, interp_num=120, **kw)], {}

    return build


# the same operations with settings that are not the default ones
ALL = dict(menu.ALL, correction_eta=corrected(0.3, 0.8), correction_fraction=corrected(0.5, 0.99), correction_plot_eta=corrected(0.4, 0.5, True),
           measure_eta=measured(eta=0.35, epsilon=1.3), measure_fraction=measured(epsilon_fraction=0.8, total_flux_fraction=0.9), measure_kind=measured(interp_kind="linear"))


class Interrupted(KeyboardInterrupt):
    pass


class Tracer:
    """Counts the lines that the library executes, and interrupts before one of them."""

    def __init__(self, stop=None):
        self.stop, self.seen, self.events, self.fired = stop, {}, [], False

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event in ("line", "return"):
            key = (frame.f_code.co_filename[len(HOME):], frame.f_lineno, event)
            n = self.seen[key] = self.seen.get(key, 0) + 1
            if self.stop is None:
                self.events.append(key + (n,))
            elif not self.fired and len(self.events) == 0 and self.stop == key + (n,):
                self.fired = True
                raise Interrupted()
        return self.line


def traced(stop, fn, *a, **k):
    """Runs fn, interrupted at the given event: (result or None, tracer)."""
    tr = Tracer(stop)
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return fn(*a, **k), tr
    except Interrupted:
        return None, tr
    finally:
        sys.settrace(old)


def surroundings():
    """Settings of the process that calls could leave changed."""
    return [repr(warnings.filters), repr(np.geterr()), repr(sorted((k, v) for k, v in matplotlib.rcParams.items() if k != "backend")), repr(np.get_printoptions()), os.getcwd(), sorted(k for k in os.environ)]


# operations that take long: number of parts they are split into
SLOW = {"generate_grid": 16, "petrosian_measure": 12, "correction_plot": 8, "source_photometry_plot": 5, "petrosian_plot_cog": 5, "correction_apply": 4, "fwhm_plot": 4,
        "correction_free": 4, "petrosian_imshow": 4, "petrosian_imshow_default": 4, "plot_fit": 4, "petrosian_plot": 2, "correction_plot_eta": 4, "correction_eta": 4, "correction_fraction": 4, "measure_eta": 3, "measure_fraction": 3, "measure_kind": 2, "bad_correct_outside": 2}
LONG = ("generate_grid", "correction_free", "petrosian_imshow_default")  # not in quick runs
# these modify their argument, which is what they are for
SKIP = {"bad_assign", "petrosian_change"}


def occurrences(name, tier):
    if tier == "quick":
        return 1 if name in SLOW else 2
    return 2 if name in SLOW else 8


@functools.lru_cache(None)
def cleaning(name):
    """Lines that clean up or are about to be protected: Python cannot protect these themselves."""
    with open(HOME + name) as f:
        tree = ast.parse(f.read())
    out, leave = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            out.add(n.lineno)
            for part in [n.finalbody] + [h.body for h in n.handlers]:
                for x in part:
                    out.update(range(x.lineno, x.end_lineno + 1))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            leave.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__"):
            out.update(range(n.lineno, n.end_lineno + 1))
    return out, leave


def points(events, occ):
    out = []
    for e in events:
        clean, leave = cleaning(e[0])
        # a with statement is visited again when it is left
        if e[3] <= occ and e[1] not in clean and not (e[1] in leave and e[3] > 1):
            out.append(e)
    return out


def bounds(tier):
    return "{} operations of the menu and every operation on {} kinds of objects{}, interrupted before every line and at every return of the library's functions ({})".format(
        len(ALL) - len(SKIP) - len(LONG if tier == "quick" else ()), len(c34.KINDS), "" if tier == "quick" else " after every history of one operation",
        "first two executions of each line, first one in {} slow operations".format(len(SLOW) - len(LONG)) if tier == "quick" else "first eight executions of each line, first two in slow operations, two sets of values")


def cases(tier):
    out = []
    for n in ALL:
        if n in SKIP or (tier == "quick" and n in LONG):
            continue
        m = SLOW.get(n, 1)
        out += [["call", n, v, i, m, occurrences(n, tier)] for v in ((0,) if tier == "quick" else (0, 1)) for i in range(m)]
    for k, c in c34.KINDS.items():
        hists = [[]] + [[o] for o in ops(c)]
        m = 6 if k in ("Petro", "Corr", "Fitted") else 1
        out += [["object", k, h, o, i, m, 1 if tier == "quick" and m > 1 else 2 if m > 1 else 8] for h in (hists if tier != "quick" else hists[:1]) for o in ops(c) for i in range(m)]
    return out


def ops(c):
    """Operations that are one assignment or call."""
    return [o for o in c.OPS if o != "no psf"]


def attempt(fn, args, kw):
    try:
        return fn(*args, **kw)
    except Exception as e:
        return "raised " + type(e).__name__


def run(case, t):
    (call if case[0] == "call" else obj)(t, *case[1:])


def call(t, name, v, part, parts, occ):
    want = menu.call(*ALL[name](v))
    # numpy reports what it does by default, so that settings that are switched off for a while can be seen
    with c28.quiet(), np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):
        fn, args, kw = ALL[name](v)
        _, tr = traced(None, attempt, fn, args, kw)
        plt.close("all")
        todo = points(tr.events, occ)[part::parts]
        around = surroundings()
        args = None
        for e in todo:
            if args is None or parts == 1:
                fn, args, kw = ALL[name](v)
                before = c28.snapshot(args, kw)
            t.ops += 1
            _, tr = traced(e, attempt, fn, args, kw)
            plt.close("all")
            what = "{}, interrupted at {}:{} ({} {})".format(name, *e)
            if tr.fired:  # otherwise another way was taken this time
                t.state(name, e)
            c28.unchanged(t, before, c28.snapshot(args, kw), what)
            t.check(surroundings() == around, "{}: settings of the process stay changed", what)
            if parts == 1 or e == todo[-1]:
                got = menu.flatten(attempt(fn, args, kw))
                plt.close("all")
                d = menu.differ(got, want)
                t.check(not d, "{}, then again with the same arguments: {}", what, d)
    got = menu.call(*ALL[name](v))
    d = menu.differ(got, want)
    t.check(not d, "{} after it was interrupted {} times: {}", name, len(todo), d)
    t.outcome(want)


def obj(t, kind, hist, op, part, parts, occ):
    c = c34.KINDS[kind]

    def built():
        return c34.built(c, hist)

    with c34.quiet(), np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):
        old = menu.flatten(c.see(built()))
        o = built()
        around = surroundings()
        _, tr = traced(None, c34.step, c, o, op)
        plt.close("all")
        new = menu.flatten(c.see(o))
        reads = not menu.differ(old, new)
        todo = points(tr.events, occ)[part::parts]
        o = built()
        for e in todo:
            if not reads:
                o = built()
            t.ops += 1
            _, tr = traced(e, c34.step, c, o, op)
            plt.close("all")
            what = "{} after {}: {}, interrupted at {}:{} ({} {})".format(kind, hist, op, *e)
            if tr.fired:
                t.state(kind, hist, op, e)
            t.check(surroundings() == around, "{}: settings of the process stay changed", what)
            if reads and e != todo[-1] and parts > 1:  # what an interrupted reading leaves behind is seen at the end
                continue
            now = menu.flatten(c.see(o))
            d = menu.differ(now, old) and menu.differ(now, new)
            t.check(not d, "{}: neither as before nor as after: {}", what, d)
            c34.step(c, o, op)
            plt.close("all")
            d = menu.differ(menu.flatten(c.see(o)), new)
            t.check(not d, "{}, then done again: {}", what, d)
        t.outcome(new)
