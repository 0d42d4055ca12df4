"""Fill the tables of DESIGN.md from the checks and the planted bugs: /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("PETROFIT_REPO", "/repo")]
sys.dont_write_bytecode = True
ORACLE = dict(
    C01="own pixel/ellipse overlap (exact by integration of the chord, centre, subpixel), numpy sums", C02="attributes from r, elongation, angle; annulus = difference of two apertures; drawn outlines",
    C03="set membership of labels per pixel", C04="full-frame overlap model with masked pixels; no cutout", C05="numpy least squares on the background pixels after astropy clipping",
    C06="union-find labelling; set relations between segments before and after deblending", C07="second moments of pixels; sorted() of the columns", C08="exact rational arithmetic (fractions) and first-order propagation",
    C09="first crossing on an independent interpolation", C10="inverse of an independent interpolation, shifted by the errors", C11="a new object with the same settings", C12="number-or-NaN, NaN propagation, interpolation at the radii",
    C13="metamorphic: powers of two, exact in binary floating point", C14="nearest row by brute force in units of the column spread", C15="index-major order; analytic Sersic relations (own incomplete gamma); serial table",
    C16="loop-free rendering model (mc/render.py), scipy.ndimage rotation, direct convolution", C17="a new model with the same settings and the rendering model", C18="guard model of the settings",
    C19="table of values, fixed flags and bounds; snapshots of the other objects", C20="explicit coordinates; closed-form pixel averages", C21="weighted numpy least squares, noise-free truth",
    C22="scipy quad integration and own solution for b_n; logarithmic slopes", C23="closed forms, header arithmetic", C24="definition of the first crossing; numpy linspace/logspace", C25="key of (text, number) parts; brute-force great-circle distances",
    C26="loop over pixels", C27="result as the first call of a process", C28="deep snapshots of the arguments; results for plain arguments; earlier results", C29="image each evaluation gives alone",
    C37="the same call without an interruption; the state before it or after it",
    C35="the result of the original image, transformed",
    C36="the documented forms of each argument, listed in the check",
    C34="an object with the same history that was never copied",
    C33="the fully spelled out call with the documented defaults, listed in the check",
    C30="analytic Sersic curve of growth, Petrosian radius, concentration", C31="analytic isophote brightness and Gaussian parameters", C32="values of the object compared with the artists of the figure")
TH = json.load(open(os.path.join(ROOT, "tools", "times.json")))


def main():
    rows = []
    for k in sorted(ORACLE):
        m = importlib.import_module("checks." + k.lower())
        e = TH.get(k, {})
        q, th = m.bounds("quick"), m.bounds("thorough")
        text = q if q == th else q + " — *thorough:* " + th
        rows.append("| {} | {} ({} executions, {} comparisons in quick) | {} | {} / {} |".format(
            k, text.replace("|", "\\|"), e.get("n", "?"), e.get("cmp", "?"), ORACLE[k], e.get("quick", "?"), e.get("thorough", "?")))
    seeds = ["| id | property | needs | breaks | first |", "|---|---|---|---|---|"]
    first = json.load(open(os.path.join(ROOT, "tools", "first.json")))
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        seeds.append("| {} | {} | {} | {} | {} |".format(i, m["property"], m["needs"], m["what_it_breaks"], first.get(i, "caught")))
    s = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDED@@", "\n".join(seeds)))


main()
