"""Reference models written from the documentation, independent of petrofit."""
import math

import numpy as np


# -- overlap of an ellipse with the pixels of an image ------------------------

def _cross(ax, ay, bx, by):
    return ax * by - ay * bx


def _seg_area(ax, ay, bx, by):
    """
    Signed area of (triangle O, A, B) intersected with the unit disk, vectorised
    over segments A->B.
    """
    dx, dy = bx - ax, by - ay
    a = dx * dx + dy * dy
    b = 2 * (ax * dx + ay * dy)
    c = ax * ax + ay * ay - 1.0
    disc = b * b - 4 * a * c
    hit = (disc > 0) & (a > 0)
    s = np.sqrt(np.where(hit, disc, 0.0))
    a_ = np.where(a > 0, a, 1.0)
    t1 = np.where(hit, (-b - s) / (2 * a_), 2.0)
    t2 = np.where(hit, (-b + s) / (2 * a_), -2.0)
    lo = np.clip(t1, 0, 1)
    hi = np.clip(t2, 0, 1)
    inside = hit & (hi > lo)
    lo = np.where(inside, lo, 0.0)
    hi = np.where(inside, hi, 0.0)

    def sector(px, py, qx, qy):
        return 0.5 * np.arctan2(_cross(px, py, qx, qy), px * qx + py * qy)

    p1x, p1y = ax + lo * dx, ay + lo * dy
    p2x, p2y = ax + hi * dx, ay + hi * dy
    tri = 0.5 * _cross(p1x, p1y, p2x, p2y)
    area_in = sector(ax, ay, p1x, p1y) + tri + sector(p2x, p2y, bx, by)
    area_out = sector(ax, ay, bx, by)
    return np.where(inside, area_in, area_out)


def ellipse_overlap(shape, x0, y0, a, b, theta, method="exact", subpixels=5):
    """
    Fraction of every pixel of an image (pixel (j, i) is the unit square around
    x=i, y=j) that is inside the ellipse.  Second result: True where a sampling
    point (or, for 'exact', a pixel corner) is on the boundary: there both answers
    of a sampling method are right, and photutils' exact overlap is unreliable.
    """
    ny, nx = shape
    jj, ii = np.mgrid[:ny, :nx].astype(float)
    ct, st = math.cos(theta), math.sin(theta)

    def to_unit(x, y):
        dx, dy = x - x0, y - y0
        return (dx * ct + dy * st) / a, (-dx * st + dy * ct) / b

    tie = np.zeros(shape, bool)
    if method == "exact":
        corners = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)]
        pts = [to_unit(ii + cx, jj + cy) for cx, cy in corners]
        area = np.zeros(shape)
        for k in range(4):
            (px, py), (qx, qy) = pts[k], pts[(k + 1) % 4]
            area += _seg_area(px, py, qx, qy)
            tie |= abs(px * px + py * py - 1) < 1e-9
        w = np.clip(area * a * b, 0.0, 1.0)
        return np.where(w < 1e-12, 0.0, w), tie
    n = 1 if method == "center" else subpixels
    off = (np.arange(n) + 0.5) / n - 0.5
    w = np.zeros(shape)
    for oy in off:
        for ox in off:
            u, v = to_unit(ii + ox, jj + oy)
            d = u * u + v * v
            w += d < 1
            tie |= abs(d - 1) < 1e-9
    return w / n**2, tie


# -- deterministic images -----------------------------------------------------

def pattern(shape, k=1, lo=1.0, hi=50.0):
    """Image with distinct irregular positive values (a fixed integer hash)."""
    ny, nx = shape
    j, i = np.mgrid[:ny, :nx].astype(np.int64)
    h = (i * 7919 + j * 104729 + k * 1299709 + i * j * 31337) % 100003
    h = (h * h * 3 + h * 17 + k) % 99991
    return lo + (hi - lo) * h / 99991.0


# -- Petrosian ----------------------------------------------------------------

def curve(x, y, kind):
    """Interpolating function of the named kind (independent implementations)."""
    from scipy.interpolate import CubicSpline

    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if kind in ("cubic", None) and len(x) >= 4:
        return CubicSpline(x, y, bc_type="not-a-knot")
    if kind == "linear":
        return lambda v: np.interp(v, x, y)
    from scipy.interpolate import interp1d

    return interp1d(x, y, kind=kind or "cubic")


def sample_curve(x, y, kind, num):
    """The sampled curve in which crossings are searched."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if kind is None:
        return x, y
    n = max(num, len(x))
    xs = np.linspace(x.min(), x.max(), n)
    return xs, np.asarray(curve(x, y, kind)(xs), float)


def nearest_at_first(y, target, growing):
    """Index of the value closest to target up to the first at or beyond it."""
    hit = np.nonzero(y >= target if growing else y <= target)[0]
    if not len(hit):
        return None
    return int(np.argmin(abs(y[: hit[0] + 1] - target)))


class Crossing:
    """
    All acceptable answers of a first-crossing search on a sampled curve: the
    answer for the target and for targets moved by a relative 1e-9 (ties of
    floating point), each give or take one sample.
    """

    def __init__(self, xs, ys, target, growing=False, slack=1, tol=None):
        self.xs, self.ys, self.target, self.slack = xs, ys, target, slack
        tol = tol if tol is not None else 1e-9 * max(1.0, abs(target))
        self.answers = [nearest_at_first(ys, target + d, growing) for d in (0, -tol, tol)]
        self.none_ok = None in self.answers
        self.idx = [a for a in self.answers if a is not None]
        # plateaus at the target: anything between the extreme first crossings
        if self.idx:
            lo = min(self.idx)
            hi = max(self.idx) if not self.none_ok else len(ys) - 1
            self.flat = [k for k in range(lo, hi + 1) if abs(ys[k] - target) <= tol]
        else:
            self.flat = []

    def accepts(self, r):
        r = float(r)
        if np.isnan(r):
            return self.none_ok
        if not self.idx:
            return False
        k = int(np.argmin(abs(self.xs - r)))
        scale = max(abs(self.xs[0]), abs(self.xs[-1]), 1e-300)
        if abs(self.xs[k] - r) > 1e-9 * scale:
            # between samples: within one sample of an answer is fine if slack allows
            if not self.slack:
                return False
            step = abs(self.xs[1] - self.xs[0])
            return any(abs(self.xs[a] - r) <= step * (1 + 1e-6) for a in self.idx)
        if any(abs(k - a) <= self.slack for a in self.idx):
            return True
        return k in self.flat

    def values(self):
        out = [float(self.xs[a]) for a in self.idx] + [float(self.xs[k]) for k in (self.flat[:1] + self.flat[-1:])]
        if self.none_ok:
            out.append(float("nan"))
        return out

    def __repr__(self):
        return "one of {}".format(sorted(set(self.values()), key=repr)[:4])
