"""
C28: no operation modifies its arguments.

Every operation of the menu in mc/menu.py (about 100 calls, plus refused ones)
x three sets of argument values x argument forms (as they are, read-only, in
column order, strided backwards view, other byte order).  Deep snapshots of all
arguments are compared before and after the call, the result with the result
for plain arguments, and results that were returned earlier are compared again
after later calls with the same and with other arguments.
"""
import contextlib
import io
import warnings

import numpy as np

from matplotlib import pyplot as plt

from mc import menu
from mc.core import Violation

ID = "C28"
FORMS = {"plain": None, "read-only": menu.read_only, "column order": menu.fortran,
         "strided": menu.strided, "byte order": menu.swapped}


def bounds(tier):
    n = len(menu.ALL)
    return "{} operations x 3 sets of values x {} forms of array arguments, each called twice{}".format(
        n, len(FORMS), "" if tier == "quick" else ", and every ordered pair of operations on what the first one returned")


def cases(tier):
    out = []
    for n in menu.ALL:
        if n == "bad_assign":  # assigns to its argument on purpose
            continue
        _, args, kw = menu.ALL[n](0)
        arrays = any(isinstance(a, np.ndarray) for a in list(args) + list(kw.values()))
        out += [dict(op=n, v=v, form=f) for v in range(3) for f in (FORMS if arrays else ["plain"])]
    if tier != "quick":
        out += [dict(op=n, then=list(menu.OPS)) for n in menu.OPS]
    return out


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def snapshot(args, kw):
    return [(type(a).__name__, menu.flatten(a)) for a in args] + [(k, type(a).__name__, menu.flatten(a)) for k, a in sorted(kw.items())]


def unchanged(t, before, after, what):
    for i, (b, a) in enumerate(zip(before, after)):
        t.compared += 1
        name = b[0] if len(b) == 3 else "number {}".format(i)
        if b[:-1] != a[:-1]:
            raise Violation("{}: argument {} became {}".format(what, name, a[:-1]))
        d = menu.differ(a[-1], b[-1], rtol=0, atol=0)
        if d:
            raise Violation("{}: argument {} was modified: {}".format(what, name, d))


def call(t, fn, args, kw):
    """The result, or the refusal."""
    t.ops += 1
    with quiet():
        try:
            return fn(*args, **kw)
        except Exception as e:
            plt.close("all")
            return "raised " + type(e).__name__


def run(case, t):
    name = case["op"]
    if "then" in case:
        fn, args, kw = menu.ALL[name](0)
        first = call(t, fn, args, kw)
        flat = menu.flatten(first)
        for other in case["then"]:
            for v in (0, 1):
                call(t, *menu.ALL[other](v))
            d = menu.differ(menu.flatten(first), flat, rtol=0, atol=0)
            t.compared += 1
            t.state(name, other)
            t.check(not d, "a call of {} modified what {} had returned: {}", other, name, d)
        return
    change, v = FORMS[case["form"]], case["v"]
    want = menu.run_any(name, v)
    fn, args, kw = menu.ALL[name](v)
    if change is not None:
        args, kw = [change(a) for a in args], {k: change(a) for k, a in kw.items()}
    before = snapshot(args, kw)
    unchanged(t, before, snapshot(args, kw), "reading the arguments")  # the snapshots themselves are neutral
    what = "{} ({} arguments)".format(name, case["form"])
    first = call(t, fn, args, kw)
    unchanged(t, before, snapshot(args, kw), what)
    flat = menu.flatten(first)
    d = menu.differ(flat, want)
    t.compared += 1
    t.check(not d, "{}: the result differs from that for plain arguments: {}", what, d)
    t.outcome(flat)
    second = call(t, fn, args, kw)
    unchanged(t, before, snapshot(args, kw), what + " again")
    d = menu.differ(menu.flatten(second), flat)
    t.compared += 1
    t.check(not d, "{}: the second call with the same arguments returned something else: {}", what, d)
    call(t, *menu.ALL[name]((v + 1) % 3))
    for r in (first, second):
        t.compared += 1
        d = menu.differ(menu.flatten(r), flat)
        t.check(not d, "{}: a later call modified what had been returned: {}", what, d)
