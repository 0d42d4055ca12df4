"""Aperture and annulus geometry."""
import numpy as np

from mc import core
from mc.oracles import ellipse_overlap, pattern
from petrofit import radial_elliptical_annulus, radial_elliptical_aperture, plot_apertures

ID = "C02"


def bounds(tier):
    return "full product of centres, radii, thicknesses, elongations and angles; all subsets of 3 apertures drawn"


def cases(tier):
    pos = [[5, 5], [4.3, 5.6], [0, 0], [-2.5, 7.25], [[3, 4], [6, 5.5]]]
    rs = [1, 2.5, 3.7, 40] if tier == "quick" else [0.3, 1, 2.5, 3, 3.7, 40, 1000]
    th = [0.0, 0.4, np.pi / 2, -1.1, 2.7, 3.5, -4.4, 8.0]
    el = [1.0, 1.6, 2, 4.0, 25.0, 0.5, 0.8]
    out = [("ap", c) for c in core.product(pos=pos, r=rs, elong=el, theta=th)]
    out += [("an", c) for c in core.product(pos=pos, r=rs, dr=[0.5, 1, 2.3], elong=el, theta=th)]
    out += [("plot", c) for c in core.product(n=[0, 1, 2, 3], image=[False, True], lim=[False, True],
                                              kind=["ap", "an"])]
    return out


def run(case, t):
    kind, c = case
    if kind == "plot":
        return run_plot(c, t)
    pos = c["pos"]
    r, el, th = c["r"], c["elong"], c["theta"]
    if kind == "ap":
        ap = t.call(radial_elliptical_aperture, pos, r, elong=el, theta=th)
        t.same(ap.positions, pos, "centre")
        t.same([ap.a, ap.b], [r, r / el], "semi-axes")
        t.same(float(getattr(ap.theta, "value", ap.theta)), th, "angle")
        t.same(ap.area, np.pi * r * r / el, "area")
        ap2 = t.call(radial_elliptical_aperture, pos, r)
        t.same([ap2.a, ap2.b, float(getattr(ap2.theta, "value", ap2.theta))], [r, r, 0], "defaults")
    else:
        dr = c["dr"]
        an = t.call(radial_elliptical_annulus, pos, r, dr, elong=el, theta=th)
        t.same(an.positions, pos, "centre")
        t.same([an.a_in, an.a_out, an.b_in, an.b_out], [r, r + dr, r / el, (r + dr) / el], "semi-axes")
        t.same(float(getattr(an.theta, "value", an.theta)), th, "angle")
        an2 = t.call(radial_elliptical_annulus, pos, r, dr)
        t.same([an2.a_in, an2.a_out, an2.b_in, an2.b_out, float(getattr(an2.theta, "value", an2.theta))],
               [r, r + dr, r, r + dr, 0], "defaults")
        # the annulus measures the difference of its two apertures
        img = pattern((13, 11), 7)
        # (photutils is unreliable for ellipses much thinner than a pixel)
        if np.ndim(pos) == 1 and r < 20 and pos[0] >= 0 and r / el > 0.5:
            a_in = radial_elliptical_aperture(pos, r, el, th)
            a_out = radial_elliptical_aperture(pos, r + dr, el, th)
            x0, y0 = pos
            ws = []
            for rr in (r, r + dr):
                w, tie = ellipse_overlap(img.shape, x0, y0, rr, rr / el, th)
                if tie.any():
                    return
                ws.append(w)
            s = [float(x.do_photometry(img)[0][0]) for x in (an, a_in, a_out)]
            t.ops += 3
            t.same(s[0], s[2] - s[1], "annulus is the difference of its apertures", atol=1e-8)
            t.same(s[0], (img * (ws[1] - ws[0])).sum(), "annulus sum", atol=1e-7)
    t.outcome(kind, r, el, th)


def run_plot(c, t):
    from matplotlib import pyplot as plt

    plt.close("all")
    fig, ax = plt.subplots()
    mk = radial_elliptical_aperture if c["kind"] == "ap" else lambda p, r, e, th: radial_elliptical_annulus(p, r, 1.5, e, th)
    geo = [((5, 5), 2, 1.0, 0.0), ((3, 7.5), 3, 2.0, 0.7), ((9, 2), 1.5, 1.3, -0.4)][: c["n"]]
    aps = [mk(*g) for g in geo]
    img = pattern((12, 12), 2) if c["image"] else None
    kw = dict(vmin=1, vmax=7) if c["lim"] else {}
    t.call(plot_apertures, img, aps, color="red", lw=2.5, **kw)
    axes = plt.gcf().axes
    t.check(len(axes) == 1 and axes[0] is ax, "drawn on the current axes")
    t.check(len(ax.images) == (1 if c["image"] else 0), "image shown only if given")
    if c["image"]:
        t.same(np.asarray(ax.images[0].get_array()), img, "shown image")
        if c["lim"]:
            t.same(ax.images[0].get_clim(), (1, 7), "limits of the shown image")
    pts = []
    for p in ax.patches:
        path = p.get_path()
        v = p.get_patch_transform().transform(path.vertices)
        pts.append(v)
    t.equal(len(pts), len(geo), "number of outlines")
    for v, (pos, r, el, th) in zip(pts, geo):
        # the outline reaches the end points of the (outer) major axis
        ro = r if c["kind"] == "ap" else r + 1.5
        for s in (1, -1):
            e = np.array(pos) + s * ro * np.array([np.cos(th), np.sin(th)])
            t.check(np.hypot(*(v - e).T).min() < 0.02 * ro + 1e-6, "outline misses the end of its major axis {}", e)
        d = np.hypot(*(v - np.array(pos)).T)
        t.check(d.max() < ro * 1.42, "outline larger than the aperture")
    plt.close("all")
    t.outcome(c)
