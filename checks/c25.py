"""Natural sorting and catalog matching."""
import itertools
import math

import numpy as np

from astropy import units as u
from astropy.table import Table

from mc import core
from petrofit import match_catalogs, natural_sort

ID = "C25"
ASSUMPTIONS = ["nearest sources that are equally far may be returned in any order"]

SETS = [
    ["a1", "a2", "a10", "A3", "a02", "b1"],
    ["10", "9", "1", "100", "010", "0"],
    ["img_1_10.fits", "img_1_2.fits", "IMG_1_9.fits", "img_02_1.fits", "img_1.fits", "img.fits"],
    ["x", "X", "x0", "", "0x", "Y"],
    ["f9_c10", "f10_c9", "f9_c9", "F10_C10", "f9", "g"],
    ["a1b", "a1", "a1B2", "a12", "a-1", "a 1"],
    [" a2", "a10", " a10", "b", "a2 ", "a 2"],
    [3, 12, 2.5, 100, -4, 0],
    ["obs2²", "obs2", "obs10", "²", "obs", "Obs1"],
    ["99999999999999999999", "100000000000000000000", "9", "a99999999999999999999", "A100000000000000000000", "a"],
    ["Å2", "å10", "Å1", "z1", "É", "é1"],
]
RA = [0.0, 0.001, 10.0, 180.0, 359.9995, 350.0]
DEC = [-90.0, -45.0, 0.0, 0.002, 89.9, 90.0]


def bounds(tier):
    return "all {} orders of lists of 6 items (11 sets), all lists of up to {} items with repeats; all catalog pairs of 1 source against {} of 36 positions, and tuples in 4 units; lists of up to 500 items and numbers of 200 digits; catalogs of up to 500 sources".format(720, 3 if tier == "quick" else 4, "1 or 2" if tier == "quick" else "up to 3")


def cases(tier):
    out = [("perm", k, f) for k in range(len(SETS)) for f in range(6)]
    out += [("words", k, n) for k in range(len(SETS)) for n in range(0, 4 if tier == "quick" else 5)]
    pts = list(range(36))
    out += [("one", p) for p in pts]
    if tier != "quick":
        out += [("two", p, q) for p in pts for q in pts[::3]]
    out += [("many", c) for c in core.product(n1=[1, 2, 5, 30], n2=[1, 3, 40], unit=["deg", "rad", "hourdeg", "quantity", "default"], form=["array", "list", "column", "int"])]
    out += [("long", k) for k in range(8)]
    out += [("many", c) for c in core.product(n1=[300, 1], n2=[500, 2], unit=["deg", "quantity"], form=["array"])]
    return out


def key(s):
    """Digit runs by value, everything else without case."""
    if not isinstance(s, str):
        return [("", 0), ("#", s)]
    out, k = [], 0
    while True:
        j = k
        while j < len(s) and s[j] not in "0123456789":
            j += 1
        out.append(("", s[k:j].lower()))
        if j == len(s):
            return out
        k = j
        while k < len(s) and s[k] in "0123456789":
            k += 1
        out.append(("#", int(s[j:k])))


def before(a, b):
    """-1, 0, 1: order of two items."""
    if not isinstance(a, str):
        return (a > b) - (a < b)
    x, y = key(a), key(b)
    for (_, p), (_, q) in zip(x, y):
        if p != q:
            return -1 if p < q else 1
    return (len(x) > len(y)) - (len(x) < len(y))


def sort_check(items, t, what):
    src = list(items)
    got = t.call(natural_sort, src)
    t.check(isinstance(got, list), "{}: result is {!r}", what, type(got))
    t.check(got is not src and src == list(items), "{}: the input list changed to {}", what, src)
    t.check(len(got) == len(items) and sorted(map(repr, got)) == sorted(map(repr, items)), "{}: {} are other items than {}", what, got, items)
    for a, b in zip(got, got[1:]):
        r = before(a, b)
        t.check(r <= 0, "{}: {!r} is sorted before {!r} in {}", what, a, b, got)
    # equal items keep their order
    want = []
    for i in src:
        k = len(want)
        while k > 0 and before(i, want[k - 1]) < 0:
            k -= 1
        want.insert(k, i)
    t.check(got == want, "{}: {} is {}, expected {}", what, src, got, want)
    return got


def long_list(k):
    """Lists of many or long items."""
    if k == 0:
        return ["img_%d.fits" % ((i * 37) % 500) for i in range(500)]
    if k == 1:
        return ["%s%d_%03d" % ("aA"[i % 2], (i * 7) % 30, (i * 11) % 50) for i in range(400)]
    if k == 2:
        return ["x" * n + str(n % 7) for n in range(120, 0, -1)]
    if k == 3:  # numbers of up to 200 digits
        return ["f%d" % (10**n + n) for n in range(200, 0, -3)] + ["f" + "0" * n + "7" for n in range(60)]
    if k == 4:  # many runs in one name
        return ["_".join(str((i * j) % 13) for j in range(1, 60)) for i in range(60)]
    if k == 5:  # a difference at the end only
        return ["1.2.3." * 40 + str((i * 29) % 100) for i in range(100)]
    if k == 6:
        return ["s%d" % (2**60 + (i * 5) % 17) for i in range(17)] + ["s%d" % (2**53 + (i * 5) % 17) for i in range(17)]
    return [((i * 53) % 211) / 4.0 for i in range(211)]


def run(case, t):
    kind = case[0]
    if kind == "long":
        got = sort_check(long_list(case[1]), t, "long list")
        t.check(t.call(natural_sort, got[::-1]) == sort_check(got[::-1], t, "reversed"), "the order depends on the call")
        t.outcome(len(got))
        return
    if kind == "perm":
        items = SETS[case[1]]
        rest = items[: case[2]] + items[case[2] + 1 :]
        for p in itertools.permutations(rest):
            sort_check([items[case[2]]] + list(p), t, "order")
        t.outcome(natural_sort(items))
    elif kind == "words":
        for p in itertools.product(SETS[case[1]], repeat=case[2]):
            sort_check(list(p), t, "list")
            got = t.call(natural_sort, tuple(p))
            t.check(got == natural_sort(list(p)), "tuple {} sorted to {}", p, got)
        if case[2] == 2:
            a = [SETS[case[1]][i] for i in (3, 1, 5)]
            t.check([str(v) for v in t.call(natural_sort, np.array(a))] == [str(v) for v in natural_sort(list(np.array(a)))], "array sorted")
            t.check(t.call(natural_sort, iter(a)) == natural_sort(a), "iterator sorted")
            t.check(set(t.call(natural_sort, set(a))) == set(a), "set sorted")
    elif kind in ("one", "two"):
        here = case[1]
        pos = lambda k: (RA[k % 6], DEC[k // 6])
        firsts = [pos(here)]
        others = [[k] for k in range(36)] + [[k, j] for k in range(36) for j in range(36) if j != k] if kind == "one" else [[case[2], k, j] for k in range(36) for j in range(0, 36, 5)]
        # in one call for each number of sources of the second catalog
        for o in others:
            if kind == "one" and len(o) == 2 and (o[0] > o[1] or o[1] % 3):
                continue
            match(firsts, [pos(k) for k in o], "deg", "list", t)
    else:
        c = case[1]
        g = np.random.RandomState(17 + c["n1"] * 100 + c["n2"])
        a = [(float(x), float(y)) for x, y in zip(g.uniform(0, 360, c["n1"]), np.degrees(np.arcsin(g.uniform(-1, 1, c["n1"]))))]
        b = [(float(x), float(y)) for x, y in zip(g.uniform(0, 360, c["n2"]), np.degrees(np.arcsin(g.uniform(-1, 1, c["n2"]))))]
        if c["form"] == "int":
            a, b = [tuple(map(round, p)) for p in a], [tuple(map(round, p)) for p in b]
        match(a, b, c["unit"], c["form"], t)
    t.state(case)


def sep(p, q):
    """Angle between two positions in degrees."""
    v = []
    for ra, de in (p, q):
        r, d = math.radians(ra), math.radians(de)
        v.append((math.cos(d) * math.cos(r), math.cos(d) * math.sin(r), math.sin(d)))
    (x, y, z), (i, j, k) = v
    cr = math.sqrt((y * k - z * j) ** 2 + (z * i - x * k) ** 2 + (x * j - y * i) ** 2)
    return math.degrees(math.atan2(cr, x * i + y * j + z * k))


def match(a, b, unit, form, t):
    def cols(pts):
        ra, de = [p[0] for p in pts], [p[1] for p in pts]
        if unit == "rad":
            ra, de = [math.radians(v) for v in ra], [math.radians(v) for v in de]
        elif unit == "hourdeg":
            ra = [v / 15.0 for v in ra]
        if form in ("array", "int"):
            ra, de = np.array(ra), np.array(de)
            ra.flags.writeable = de.flags.writeable = False
        elif form == "column":
            tab = Table({"ra": ra, "dec": de})
            ra, de = tab["ra"], tab["dec"]
        if unit == "quantity":
            ra, de = np.array(ra) * u.deg, np.array(de) * u.deg
        return ra, de

    ca, cb = cols(a), cols(b)
    keep = [np.array(getattr(v, "value", v), float) for v in ca + cb]
    kw = {"rad": {"unit": "rad"}, "hourdeg": {"unit": (u.hourangle, u.deg)}, "deg": {"unit": "deg"}}.get(unit, {})
    r = t.call(match_catalogs, ca[0], ca[1], cb[0], cb[1], **kw)
    what = "matching {} with {} ({})".format(a[:3], b[:3], unit)
    t.check(len(r) >= 2 and len(r[0]) == len(a) and len(r[1]) == len(a), "{}: {} results", what, len(r))
    for k, p in enumerate(a):
        d = [sep(p, q) for q in b]
        i = int(r[0][k])
        t.check(0 <= i < len(b) and d[i] <= min(d) + 1e-9, "{}: source {} is matched with {} at {} deg, the nearest is at {} deg", what, k, i, d[i] if i < len(d) else None, min(d))
        t.check(abs(r[1][k].to_value(u.deg) - d[i]) < 1e-8, "{}: separation {} deg instead of {}", what, r[1][k].to_value(u.deg), d[i])
    for v, k in zip(ca + cb, keep):
        t.same(np.array(getattr(v, "value", v), float), k, what + ": input", rtol=0, atol=0)
    t.outcome(r[0][:4].tolist())
