"""
C27: results do not depend on the calls made before.

Alphabet: the menu of operations in mc/menu.py (about 100 calls covering the
API, plus refused calls).  Every history runs in its own forked process that
starts from the state right after import, so no history sees another one:
the operations of the history run first (with other argument values), then
the observed operation, whose result has to equal the result it has as the
first call of a process.  quick: all histories of length 2 (every operation
before every operation).  thorough: both argument variants, and all histories
of length 3 over the fast operations.  Further: every operation after itself with every neighbour of
every argument (values that differ in the last digits, in one item, in order or
in sign), given as a new object and written into the same object.
"""
import hashlib
import os
import random
import signal
import sys
import traceback
import warnings

import numpy as np

from mc import menu
from mc.core import Violation

ID = "C27"
ROTATE = False
SLOW = {  # more than about 60 ms: not used as the middle of histories of length 3
    n for n in menu.ALL
    if n.startswith(("petrosian_", "correction_", "generate_", "fwhm", "plot_", "make_catalog"))
    or n.endswith(("_plot", "_default", "_errors"))
}
TWINS = {"magnitude_list", "enclosed_inv", "gen_bounds_override", "sersic_bounds_override", "aperture_plain", "fraction_plain",
         "radial_photometry_plain", "segm_mask_bg", "order_cat_key", "geometry_table", "gaussian", "deblend", "fit_wrapped",
         "tick_frame", "conversions", "interpolation_none"}  # only in histories of length 2
FAST = [n for n in menu.ALL if n not in SLOW | TWINS]
BASE = {}


def bounds(tier):
    n, m = len(menu.ALL), len(menu.OPS)
    if tier == "quick":
        return "all {} x {} histories of length 2; every operation after itself with each neighbour of each argument".format(n, m)
    k = len(FAST)
    return "all {} x {} histories of length 2 in both variants, all {}^3 histories of length 3 over the fast operations; every operation after itself with each neighbour of each argument".format(n, m, k)


def apart(fn):
    """Run fn in a forked process; returns the text it returned, or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            text = fn()
            if text:
                data = text.encode()
                while data:
                    data = data[os.write(w, data):]
            code = 0
        except BaseException:
            try:
                os.write(w, traceback.format_exc(limit=-3)[-3000:].encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    text = b"".join(chunks).decode()
    if code == -signal.SIGALRM:
        return "did not return within 120 s"
    if code == -9:
        raise MemoryError("a process was killed")
    if code != 0:
        return "the process failed ({}): {}".format(code, text)
    return text or None


def base(name, v):
    """The result as the first call of a process (and that twice: it has to be repeatable)."""
    if (name, v) not in BASE:
        import pickle, base64

        def run():
            return base64.b64encode(pickle.dumps(menu.run_any(name, v))).decode()

        text = apart(run)
        try:
            BASE[name, v] = pickle.loads(base64.b64decode(text))
        except Exception:
            raise Violation("{} as the first call: {}".format(name, text))
    return BASE[name, v]


def settings():
    import matplotlib

    return dict(
        geterr=dict(np.geterr()), printing={k: v for k, v in np.get_printoptions().items()},
        rc={k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")},
        filters=[repr(w) for w in warnings.filters], cwd=os.getcwd(), path=list(sys.path),
        env={k: v for k, v in os.environ.items() if k not in ("COLUMNS", "LINES")},
        hook=repr(sys.excepthook),
    )


def observe(name, v, want):
    got = menu.run_any(name, v)
    return menu.differ(got, want, rtol=1e-7, atol=1e-10)


def cases(tier):
    out = []
    names = list(menu.ALL)
    for v in ((1,) if tier == "quick" else (1, 0)):
        for a in names:
            out.append(dict(history=[[a, v]], then="all"))
    for a in names:
        out += [dict(op=a, slot=k) for k in menu.slots(a)]
    if tier != "quick":
        for a in FAST:
            for b in FAST:
                out.append(dict(history=[[a, 1], [b, 2]], then="fast"))
    return out


def near(name, slot, t):
    """The operation after the same one with a neighbour of one argument."""
    base(name, 0)
    want = BASE[name, 0]

    def build():
        fn, args, kw = menu.ALL[name](0)
        args, kw = list(args), dict(kw)
        return fn, args, kw, args if isinstance(slot, int) else kw

    fn, args, kw, box = build()
    todo = menu.neighbours(box[slot])
    for k in range(len(todo)):
        def other():
            fn, args, kw, box = build()
            box[slot] = menu.neighbours(box[slot])[k][1]
            menu.call(fn, args, kw)
            return menu.differ(menu.run_any(name, 0), want, rtol=1e-7, atol=1e-10)

        def inplace():
            fn, args, kw, box = build()
            x = box[slot]
            keep = np.array(x)
            x[...] = menu.neighbours(x)[k][1]
            menu.call(fn, args, kw)
            x[...] = keep
            return menu.differ(menu.call(fn, args, kw), want, rtol=1e-7, atol=1e-10)

        ways = [("", other)]
        if type(box[slot]) is np.ndarray and box[slot].flags.writeable:
            ways.append((" (in the same array)", inplace))
        for text, go in ways:
            d = apart(go)
            t.ops += 2
            t.compared += 1
            t.state(name, slot, k, text)
            t.check(not d, "{} returns something else after a call with argument {} {}{}: {}", name, slot, todo[k][0], text, d)


def run(case, t):
    if "op" in case:
        return near(case["op"], case["slot"], t)
    then = {"all": list(menu.OPS), "fast": [n for n in FAST if n in menu.OPS]}.get(case["then"], case["then"])
    for n in then:
        base(n, 0)
        t.state(repr(case["history"]), n)
        t.outcome(n, len(BASE[n, 0]))
    history = case["history"]

    def go():
        made = [menu.unguarded(n, v) for n, v in history]
        kept = menu.flatten(made)

        def look(n):
            d = observe(n, 0, BASE[n, 0])
            d2 = d or menu.differ(menu.flatten(made), kept, rtol=0, atol=0)
            return d or (d2 and "(its result after them was) " + d2)

        for n in then:
            d = apart(lambda: look(n))
            if d:
                return "changed what {} returns: {}".format(n, d)

    def numbers(seed):
        """The random states that operations leave which began with this one."""
        def go():
            np.random.seed(seed)
            random.seed(seed)
            before = settings()
            for n, v in history:
                menu.unguarded(n, v)
            after = settings()
            for k in before:
                if before[k] != after[k]:
                    d = k
                    if isinstance(before[k], dict):
                        d = [(q, before[k].get(q), after[k].get(q)) for q in sorted(set(before[k]) | set(after[k])) if before[k].get(q) != after[k].get(q)]
                    return "left a global setting changed: {} {}".format(k, d)
            return "states {} {}".format(*(hashlib.sha256(repr(s).encode()).hexdigest() for s in ((np.random.get_state()[1].tolist(), np.random.get_state()[2:]), random.getstate())))
        return apart(go)

    a, b = numbers(3), numbers(4)
    t.check(a.startswith("states "), "{} {}", " and ".join(n for n, _ in history), a)
    a, b = a.split(), b.split()
    t.check(len(a) == len(b) == 3 and a[1] != b[1] and a[2] != b[2], "{} reset the random state of the process", " and ".join(n for n, _ in history))
    d = apart(go)
    t.ops += 3 * len(history) + len(then)
    t.compared += len(then)
    t.check(not d, "after {}: {}", " and ".join(n for n, _ in history), d)
