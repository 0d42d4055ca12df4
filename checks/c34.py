"""Copies and pickles of objects."""
import base64
import contextlib
import copy
import io
import itertools
import os
import pickle
import subprocess
import sys
import warnings

import numpy as np

from astropy.modeling import models
from matplotlib import pyplot as plt

import petrofit as pf
from mc import core, menu, petro
from mc.oracles import pattern
from petrofit.modeling import models as pm

ID = "C34"
ASSUMPTIONS = ["functions that tie parameters can be found by name, as pickle requires", "copy.copy of a model shares its parameters, as in astropy, and is not part of the space",
               "models made by astropy's custom_model decorator (Nuker2D, CoreSersic2D, sersic_enclosed_model, petrosian_model) are copied but not pickled: astropy gives them the name of its own module, so pickle refuses them"]
PSF2 = np.array([[0, 2, 1], [1, 6, 0], [0.5, 1, 0], [0, 3, 0], [1, 0, 0]]) / 15.5


def half_of(m):
    """A parameter tied to another one."""
    return 0.5 * m.n


def draw(p):
    plt.figure()
    p.plot()
    plt.close("all")


class Petro:
    make = staticmethod(lambda: petro.make("err2", interp_num=100))
    OPS = ["eta", "epsilon", "fraction", "total", "kind", "read", "draw", "short"]
    HOW = ["copy"]

    @staticmethod
    def do(o, op):
        if op == "eta":
            o.eta = 0.35
        elif op == "epsilon":
            o.epsilon = 1.25
        elif op == "fraction":
            o.epsilon_fraction = 0.8
        elif op == "total":
            o.total_flux_fraction = 0.9
        elif op == "kind":
            o.interp_kind = "linear"
        elif op == "read":
            petro.observe(o, light=True)
        elif op == "draw":
            draw(o)
        else:
            o.interp_num = 60

    @staticmethod
    def see(o):
        return petro.observe(o, light=True)


class Image:
    """Models that are evaluated on images."""

    HOW = ["method copy", "method deepcopy"]
    OPS = ["par", "fixed", "bounds", "tied", "eval", "name"]

    @classmethod
    def do(cls, o, op):
        p = o.param_names
        if op == "par":
            setattr(o, p[0], 2.75)
        elif op == "fixed":
            getattr(o, p[1]).fixed = True
        elif op == "bounds":
            getattr(o, p[1]).bounds = (0.5, 50)
        elif op == "tied":
            getattr(o, p[-1]).tied = half_of
        elif op == "eval":
            cls.image(o)
        elif op == "name":
            o.name = "renamed"
        else:
            raise KeyError(op)

    @staticmethod
    def image(o):
        return np.array([pf.model_to_image(o, (11, 9)), pf.model_to_image(o, (11, 9), center=(7, 2))])

    @classmethod
    def see(cls, o):
        c = {k: [(bool(o.fixed[p]), tuple(o.bounds[p]), o.tied[p] is half_of) for p in o.param_names] for k in ("constraints",)}
        return dict(kind=type(o).__name__, names=list(o.param_names), parameters=np.array(o.parameters, float), name=str(o.name), image=cls.image(o), **c)


class Line(Image):
    """Models of one coordinate."""

    @staticmethod
    def image(o):
        return np.array([o(np.linspace(0.1, 9, 12)), o(np.array([3.0] * 12))])


class Conv(Image):
    OPS = Image.OPS + ["psf", "no psf", "over", "window", "fine", "angle"]
    make = staticmethod(lambda: pf.PSFConvolvedModel2D(models.Sersic2D(3, 2.4, 1.2, 5.2, 4.6, 0.2, 0.4), psf=menu.PSF))

    @classmethod
    def do(cls, o, op):
        if op == "psf":
            o.psf = PSF2.copy()
        elif op == "no psf":
            o.psf_oversample = None
            o.psf = None
        elif op == "over":
            o.oversample = 2
        elif op == "window":
            o.oversample = ("x_0", "y_0", 4, 4)
        elif op == "fine":
            if o.psf is not None:
                o.psf_oversample = 2
        elif op == "angle":
            o.psf_pa = 30.0
        else:
            Image.do(o, op)

    @classmethod
    def see(cls, o):
        d = Image.see(o)
        d.update(psf=o.psf, over=o.oversample, fine=o.psf_oversample, inner=[type(o.model).__name__, list(o.model.parameters)])
        return d


class Turned(Conv):
    make = staticmethod(lambda: pf.PSFConvolvedModel2D(models.Sersic2D(3, 2.4, 1.2, 5.2, 4.6, 0.2, 0.4), psf=PSF2, oversample=4, psf_oversample=2, psf_pa=40.0, name="turned"))


class Compound(Conv):
    make = staticmethod(lambda: pf.PSFConvolvedModel2D(models.Sersic2D(3, 2.4, 1.2, 5.2, 4.6, 0.2, 0.4) + models.Gaussian2D(2, 3, 4, 1.3, 1.1, 0.3), psf=menu.PSF))
    OPS = Image.OPS + ["psf", "over", "angle"]

    @staticmethod
    def do(o, op):
        if op == "tied":
            o.n_0.tied = half_of0
        else:
            Conv.do(o, op)


def half_of0(m):
    return 0.5 * m.r_eff_0


class Gen(Image):
    make = staticmethod(lambda: pf.GenSersic2D(0.4, amplitude=3, r_eff=2.4, n=1.2, x_0=5.2, y_0=4.6, ellip=0.2, theta=0.4))


class GenConv(Conv):
    make = staticmethod(lambda: pf.PSFConvolvedModel2D(Gen.make(), psf=menu.PSF, oversample=2))
    OPS = Image.OPS + ["psf", "angle"]


class Nuker(Image):
    PICKLED = False
    make = staticmethod(lambda: pf.Nuker2D(amplitude=2, r_break=3, x_0=4.3, y_0=3.6, alpha=2, betta=4, gamma=0.3))


class CoreSersic(Image):
    PICKLED = False
    make = staticmethod(lambda: pm.CoreSersic2D(amplitude=2, r_eff=3, r_break=1, n=2, x_0=4.3, y_0=3.6))


class Enclosed(Line):
    PICKLED = False
    make = staticmethod(lambda: pf.sersic_enclosed_model(amplitude=2, r_eff=3, n=2, ellip=0.3))


class Profile(Line):
    PICKLED = False
    make = staticmethod(lambda: pf.petrosian_model(r_eff=3, n=2))


class Fitted(Conv):
    OPS = Image.OPS + ["psf", "angle"]
    _m = None

    @classmethod
    def make(cls):
        if cls._m is None:
            m = pf.PSFConvolvedModel2D(models.Sersic2D(3, 2.4, 1.2, 5.2, 4.6, 0.2, 0.4, bounds={"n": (0.3, 6), "r_eff": (0.5, 9), "ellip": (0, 0.9)}), psf=menu.PSF)
            m.psf_pa.fixed = True
            z = pf.model_to_image(m, (11, 9)) * (1 + pattern((9, 11), 3, -0.02, 0.02))
            cls._z = z
            cls._m = m
        return pf.fit_model(cls._z, cls._m.copy(), calc_uncertainties=True, maxiter=30)[0]

    @classmethod
    def see(cls, o):
        d = Conv.see(o)
        d.update(stds=None if o.stds is None else list(o.stds.stds))
        return d


class Corr:
    make = staticmethod(lambda: pf.PetrosianCorrection(menu.grid(0)))
    OPS = ["range", "use", "draw", "swap grid"]
    HOW = ["copy"]
    _p = None

    @classmethod
    def seen(cls):
        if cls._p is None:
            r, a, f = menu.curve(0)
            cls._p = [menu.petrosian(0), menu.petrosian(2), pf.Petrosian(r * 1.7, a * 1.7**2, f)]
        return cls._p

    @classmethod
    def do(cls, o, op):
        if op == "range":
            o.enforce_range = False
        elif op == "use":
            [o.estimate_n(p) for p in cls.seen()[:1]]
        elif op == "draw":
            o.plot_correction(cls.seen()[0])
            plt.close("all")
        else:
            o.grid = menu.grid(1)

    @classmethod
    def see(cls, o):
        out = dict(range=o.enforce_range, grid=menu.flatten(o.grid))
        for i, p in enumerate(cls.seen()):
            try:
                out[str(i)] = [float(o.estimate_n(p)), float(o.estimate_epsilon(p)), float(o.correct(p).r_total_flux)]
            except AssertionError:
                out[str(i)] = "refused"
        return out


class Approx:
    make = staticmethod(pf.PetroApprox)
    OPS = ["use"]
    HOW = ["copy"]

    @staticmethod
    def do(o, op):
        Approx.see(o)

    @staticmethod
    def see(o):
        return dict(v=[[float(getattr(o, n)(*a)) for a in ((2.5,), (3.1,))] for n in ("u2080_to_c2080", "c2080_to_u2080") if hasattr(o, n)])


KINDS = {c.__name__: c for c in (Petro, Conv, Turned, Compound, Gen, GenConv, Nuker, CoreSersic, Enclosed, Profile, Fitted, Corr, Approx)}
PICKLES = ["pickle {}".format(k) for k in range(pickle.HIGHEST_PROTOCOL + 1)]
_ref = {}


def bounds(tier):
    return "{} kinds of objects: all histories of up to {} assignments and uses, then each way of copying (copy, deepcopy, copy methods, every pickle protocol, pickles restored in a fresh process), then all histories of up to {} operations on the original or the copy".format(
        len(KINDS), *((2, "1 (after histories of 1)") if tier == "quick" else (3, "1 (2 after histories of 1)")))


def ways(k):
    return ["deepcopy"] + KINDS[k].HOW + (PICKLES if pickled(k) else [])


def pickled(k):
    return getattr(KINDS[k], "PICKLED", True)


def cases(tier):
    out = []
    deep = 2 if tier == "quick" else 3
    for k, c in KINDS.items():
        hist = [list(h) for d in range(deep + 1) for h in itertools.product(c.OPS, repeat=d)]
        if k == "Fitted":
            hist = [h for h in hist if len(h) <= deep - 1]
        for h in hist:
            if len(h) == deep and deep > 1:
                out.append((k, h, ways(k) if tier != "quick" else ["deepcopy"] + c.HOW[:1] + (["pickle 2", PICKLES[-1]] if pickled(k) else []), [[]]))
                continue
            then = [[]] + [[(w, o)] for w in (0, 1) for o in c.OPS]
            if tier != "quick" and len(h) < 2:
                then += [[a, b] for a in [(w, o) for w in (0, 1) for o in c.OPS] for b in [(1 - a[0], o) for o in c.OPS]]
            for w in ways(k):
                if tier == "quick" and len(h) == 1 and w in PICKLES[1:-1]:
                    continue
                out.append((k, h, [w], then))
        # a pickle is restored where nothing of this object was used before
        if pickled(k):
            out.append((k, [list(h) for h in hist if len(h) < 2], "process", None))
    return out


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def built(c, hist):
    o = c.make()
    for op in hist:
        step(c, o, op)
    return o


def step(c, o, op):
    """One operation; a refused assignment changes nothing (C18)."""
    try:
        c.do(o, op)
    except ValueError:
        pass


def reference(k, hist):
    """What an object with this history shows that was never copied."""
    key = (k, tuple(hist))
    if key not in _ref:
        _ref[key] = menu.flatten(KINDS[k].see(built(KINDS[k], hist)))
    return _ref[key]


def copied(o, way):
    if way == "copy":
        return copy.copy(o)
    if way == "deepcopy":
        return copy.deepcopy(o)
    if way.startswith("method"):
        return getattr(o, way.split()[1])()
    return pickle.loads(pickle.dumps(o, int(way.split()[1])))


def run(case, t):
    k, hist, how, then = case
    c = KINDS[k]
    with quiet():
        if how == "process":
            return process(k, hist, t)
        for way in how:
            for after in then:
                o = t.call(built, c, hist)
                n = t.call(copied, o, way)
                t.check(n is not o and type(n) is type(o), "{} of {} is a {!r}", way, k, n)
                for who, op in after:
                    t.call(step, c, (o, n)[who], op)
                for who, obj in enumerate((o, n)):
                    h = list(hist) + [op for w, op in after if w == who]
                    d = menu.differ(menu.flatten(t.call(c.see, obj)), reference(k, h))
                    t.check(not d, "{} after {}: {} by {}, then {}: {}: {}", k, hist, "the copy made" if who else "the original copied", way, after, "it differs", d)
                t.state(k, hist, after)
        t.outcome(reference(k, hist))


CHILD = """
import sys, pickle, base64, warnings
sys.dont_write_bytecode = True
sys.path[:0] = {path!r}
warnings.simplefilter("ignore")
import os
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
np.seterr(all="ignore")
todo = pickle.loads(base64.b64decode(sys.stdin.read()))
out = []
for data in todo:
    o = pickle.loads(data)
    from checks import c34
    from mc import menu
    out.append(menu.flatten(c34.KINDS[{kind!r}].see(o)))
sys.stdout.write("RESULT" + base64.b64encode(pickle.dumps(out)).decode())
"""


def process(k, hists, t):
    c = KINDS[k]
    data = [pickle.dumps(t.call(built, c, h)) for h in hists]
    path = [core.ROOT, os.environ.get("PETROFIT_REPO", "/repo")]
    t.ops += 1
    r = subprocess.run([sys.executable, "-c", CHILD.format(path=path, kind=k)], input=base64.b64encode(pickle.dumps(data)).decode(), capture_output=True, text=True, timeout=200)
    t.check("RESULT" in r.stdout, "{}: a pickle could not be restored and used in another process: {}", k, r.stderr[-600:].replace("{", "(").replace("}", ")"))
    for h, got in zip(hists, pickle.loads(base64.b64decode(r.stdout.split("RESULT", 1)[1]))):
        d = menu.differ(got, reference(k, h))
        t.check(not d, "{} after {}, restored in another process: {}", k, h, d)
        t.state(k, h)
