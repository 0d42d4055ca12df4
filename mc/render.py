"""Reference rendering of a PSF-convolved model, written from the documentation."""
import numpy as np
from scipy.ndimage import rotate


def samples(lo, n, f):
    """Coordinates of f evenly spaced samples in each of n pixels, the first centred on lo."""
    k = np.arange(n * f)
    return lo + k // f - 0.5 + (k % f + 0.5) / f


def mean_blocks(a, f):
    ny, nx = a.shape
    return a.reshape(ny // f, f, nx // f, f).mean(axis=(1, 3))


def sampled(base, x0, y0, nx, ny, f, s):
    """Model averaged over f*f samples per pixel, at s*s cells per pixel."""
    xx, yy = np.meshgrid(samples(x0, nx, f), samples(y0, ny, f))
    return mean_blocks(np.asarray(base(xx, yy), float) + np.zeros(xx.shape), f // s)


def convolve(img, psf):
    """Direct convolution centred on the middle pixel of the PSF, zeros outside; and where it needs nothing from outside."""
    ny, nx = img.shape
    ky, kx = psf.shape
    cy, cx = (ky - 1) // 2, (kx - 1) // 2
    pad = np.zeros((ny + 2 * ky, nx + 2 * kx))
    pad[ky : ky + ny, kx : kx + nx] = img
    out = np.zeros(img.shape)
    for a in range(ky):
        for b in range(kx):
            dy, dx = a - cy, b - cx
            out += psf[a, b] * pad[ky - dy : ky - dy + ny, kx - dx : kx - dx + nx]
    inner = np.zeros(img.shape, bool)
    inner[ky - 1 - cy : ny - cy, kx - 1 - cx : nx - cx] = True
    return out, inner


def window(over, names):
    """Centre, size and factor of the window; names maps parameter names to values."""
    cx, cy, size, f = over
    cx = names[cx] if isinstance(cx, str) else cx
    cy = names[cy] if isinstance(cy, str) else cy
    return float(cx), float(cy), int(size), int(f)


def cells(base, x0, y0, nx, ny, over, s):
    if over is None:
        return sampled(base, x0, y0, nx, ny, s, s)
    if isinstance(over, int):
        return sampled(base, x0, y0, nx, ny, over, s)
    names = dict(zip(base.param_names, base.parameters))
    cx, cy, size, f = window(over, names)
    img = sampled(base, x0, y0, nx, ny, s, s)
    fine = sampled(base, x0, y0, nx, ny, f, s)
    # pixels of the window: `size` pixels from round(c) - size // 2 on
    px = np.round(np.arange(nx) + x0, 9)
    py = np.round(np.arange(ny) + y0, 9)
    lx, ly = np.round(cx) - size // 2, np.round(cy) - size // 2
    # whole pixels: for fractional origins the pixel nearest to the corner is the first one
    ix = np.round(lx - x0)
    iy = np.round(ly - y0)
    inx = (np.arange(nx) >= ix) & (np.arange(nx) < ix + size)
    iny = (np.arange(ny) >= iy) & (np.arange(ny) < iy + size)
    m = np.repeat(np.repeat(iny, s)[:, None] & np.repeat(inx, s)[None, :], 1, axis=0)
    return np.where(m, fine, img)


def render(base, x0, y0, nx, ny, psf=None, over=None, pover=None, pa=0.0, turn=None):
    """Image of the pixels centred on x0.., y0.. and the mask of pixels whose value needs nothing from outside the image."""
    s = pover or 1
    img = cells(base, x0, y0, nx, ny, over, s)
    ok = np.ones(img.shape, bool)
    if psf is not None:
        p = np.asarray(psf, float)
        if pa:
            p = np.rot90(p, turn) if turn is not None else rotate(p, pa, reshape=False, order=3, mode="constant", cval=0.0)
        img, ok = convolve(img, p)
    return mean_blocks(img, s), mean_blocks(ok.astype(float), s) > 0.999


def envelope(base, x0, y0, nx, ny, psf, over, pover, pa=0.0):
    """Image without any light from outside and with all of it (positive models and PSFs; no window)."""
    s = pover or 1
    p = np.asarray(psf, float)
    if pa:
        p = rotate(p, pa, reshape=False, order=3)
    m = max(p.shape) // s + 2
    full = cells(base, x0 - m, y0 - m, nx + 2 * m, ny + 2 * m, over, s)
    hi = mean_blocks(convolve(full, p)[0], s)[m : m + ny, m : m + nx]
    cut = np.zeros(full.shape)
    cut[m * s : (m + ny) * s, m * s : (m + nx) * s] = full[m * s : (m + ny) * s, m * s : (m + nx) * s]
    lo = mean_blocks(convolve(cut, p)[0], s)[m : m + ny, m : m + nx]
    return lo, hi
