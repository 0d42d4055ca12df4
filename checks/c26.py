"""Subtraction of cutouts."""
import numpy as np

from astropy.nddata import Cutout2D

from mc import core
from mc.oracles import pattern
from petrofit import cutout_subtract

ID = "C26"
ASSUMPTIONS = ["centres are whole pixels; the centre of an even cutout is the pixel after its middle, as numpy and astropy number them"]
TYPES = [("f8", "f8"), ("f4", "f8"), ("f8", "f4"), ("i4", "i4"), ("i4", "f8"), ("u1", "f4"), ("u1", "i2"), ("f8", "i8"), ("u1", "u1"), ("u2", "u2"), ("i2", "u2"), ("f4", "u1"), ("u8", "u8")]


def bounds(tier):
    m, n = size(tier)
    return "all image shapes up to {0}x{0}, all cutout shapes up to {1}x{1}, every centre within {1} pixels of the image, 13 pairs of types; 24 pairs of up to 300 pixels at up to 156 centres".format(m, n)


def size(tier):
    return (4, 5) if tier == "quick" else (7, 8)


def cases(tier):
    m, n = size(tier)
    out = [(h, w, a, b, n) for h in range(1, m + 1) for w in range(1, m + 1) for a in range(1, n + 1) for b in range(1, n + 1)]
    return out + [("big",) + s + c for s in [(90, 100), (1, 300), (257, 1), (130, 64)] for c in [(31, 41), (150, 140), (1, 50), (60, 1), (64, 64), (129, 7)]]


def reference(image, target, x, y):
    z = np.asarray(image, float).copy()
    dy, dx = target.shape
    for j in range(dy):
        p = y - dy // 2 + j
        if not 0 <= p < z.shape[0]:
            continue
        for i in range(dx):
            q = x - dx // 2 + i
            if 0 <= p < z.shape[0] and 0 <= q < z.shape[1]:
                z[p, q] -= float(target[j, i])
    return z


def one(t, img, cut, x, y, what):
    ki, kc = img.copy(), cut.copy()
    want = reference(img, cut, x, y)
    got = t.call(cutout_subtract, img, cut, x, y)
    t.check(isinstance(got, np.ndarray) and not np.shares_memory(got, img) and not np.shares_memory(got, cut), "{}: the result is not a new image", what)
    t.same(got, want, what, rtol=1e-6, atol=1e-6)
    t.check(np.array_equal(img, ki, equal_nan=img.dtype.kind == "f") and np.array_equal(cut, kc, equal_nan=cut.dtype.kind == "f"), "{}: an input image changed", what)
    got2 = t.call(cutout_subtract, image=img, target=cut, x=x, y=y)
    t.same(got2, got, what + " by keywords", rtol=0, atol=0)
    return got


def big(h, w, a, b, t):
    img0, cut0 = np.round(pattern((h, w), 3, 20, 90)), np.round(pattern((a, b), 8, 1, 9))
    k = 0
    for x in sorted({0, 1, w // 2, w - 1, w, -b // 2, b // 2, w + b // 2, w + (b + 1) // 2, -1000, 10**6, 64, 65}):
        for y in sorted({0, h // 3, h - 1, h, -a // 2, -(a // 2) + 1, a // 2, h + a // 2, h + (a + 1) // 2, -1000, 10**6, 128}):
            k += 1
            p, q = TYPES[k % len(TYPES)]
            img, cut = img0.astype(p), cut0.astype(q)
            if p == q == "f8":
                img, cut = img * 10.0 ** (k % 300 - 150), cut * 10.0 ** (k % 300 - 150)
            elif p == "f8":
                img[h // 2, w // 2], img[0, 0], img[-1, -1] = np.inf, -np.inf, np.nan
            t.outcome(np.nan_to_num(one(t, img, cut, x, y, "image {}x{} ({}) minus cutout {}x{} ({}) at x={}, y={}".format(h, w, p, a, b, q, x, y))).sum())
            t.state(h, w, a, b, x, y)


def run(case, t):
    if case[0] == "big":
        big(*case[1:], t)
        return
    h, w, a, b, n = case
    img0, cut0 = np.round(pattern((h, w), 3, 20, 90)), np.round(pattern((a, b), 8, 1, 9))
    for x in range(-n, w + n + 1):
        for y in range(-n, h + n + 1):
            k = (x * 3 + y + h + a) % len(TYPES)
            p, q = TYPES[k]
            img, cut = img0.astype(p), (cut0 * (20 if q in ("u1", "u2", "u8") else 1)).astype(q)
            if p == "f8" and (x + y) % 3 == 0:
                img[0, -1] = np.nan
            if q == "f8" and (x + y) % 5 == 0:
                cut[-1, 0] = np.nan
            img.flags.writeable = (x % 2) == 0
            cut.flags.writeable = (y % 2) == 0
            got = one(t, img, cut, x, y, "image {}x{} ({}) minus cutout {}x{} ({}) at x={}, y={}".format(h, w, p, a, b, q, x, y))
            t.outcome(got)
            t.state(x, y)
    # what is left of an image when its own cutout is subtracted
    if a <= h and b <= w:
        for x in range(b // 2, w - (b - 1) // 2):
            for y in range(a // 2, h - (a - 1) // 2):
                sub = img0[y - a // 2 : y - a // 2 + a, x - b // 2 : x - b // 2 + b]
                z = one(t, img0, sub, np.int64(x), np.int64(y), "own cutout {}x{} at x={}, y={}".format(a, b, x, y))
                t.check((z == 0).sum() >= a * b, "own cutout {}x{} at ({}, {}) does not vanish", a, b, x, y)
                # strided and transposed cutouts
                wide = np.repeat(np.repeat(sub, 2, axis=0), 2, axis=1)[::2, ::2]
                t.same(t.call(cutout_subtract, img0, wide, x, y), z, "strided cutout")
                t.same(t.call(cutout_subtract, np.asfortranarray(img0), sub.T.copy().T, x, y), z, "transposed cutout")
                if a % 2 and b % 2:
                    c = Cutout2D(img0, (x, y), (a, b))
                    t.same(t.call(cutout_subtract, img0, c.data, x, y), z, "cutout of astropy")
