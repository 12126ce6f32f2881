"""C23 figures of single elements and groups: cardinal points, planes and lengths, read back from the artists"""
import inspect
import math
import re
import warnings

import numpy as np

from rtmon import gen, model, oracle
from rtmon.checks import c21

INF = gen.INF


def setup(ctx):
    import raytracing.thorlabs    # noqa
    import raytracing.eo          # noqa
    import raytracing.olympus     # noqa
    import raytracing.nikon       # noqa
    import raytracing as rt
    from raytracing.specialtylenses import Objective, AchromatDoubletLens, SingletLens
    ctx.lenses, ctx.objectives = [], []
    for m in (rt.thorlabs, rt.eo, rt.olympus, rt.nikon):
        for name, c in sorted(inspect.getmembers(m, inspect.isclass)):
            if c.__module__ != m.__name__:
                continue
            if issubclass(c, Objective):
                ctx.objectives.append(c)
            elif issubclass(c, (AchromatDoubletLens, SingletLens)):
                ctx.lenses.append(c)


def case(ctx):
    import raytracing as rt
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            if ctx.rng.random() < 0.75:
                single(ctx, rt, ctx.rng, shot)
            else:
                group(ctx, rt, ctx.rng, shot)


def texts(ax):
    return [t.get_text() for t in list(ax.texts) + list(ax.artists) if hasattr(t, "get_text") and t.get_visible()]


def near(a, b):
    return abs(a - b) <= 6e-4 + 1e-7 * abs(b)


def sameSet(ctx, got, want, key, what):
    missing = [w for w in want if not any(near(g, w) for g in got)]
    extra = [g for g in got if not any(near(g, w) for w in want)]
    ctx.true(not missing and not extra, key, lambda: "%s at %s, expected %s" % (what, got, want))


def single(ctx, rt, rng, shot):
    k = rng.random()
    spec = None
    extra = []
    if k < 0.2:
        c = rng.choice(ctx.lenses)
        e = c(wavelength=rng.uniform(0.45, 0.9)) if rng.random() < 0.4 and "wavelength" in inspect.signature(c.__init__).parameters else c()
        what = c.__name__
    elif k < 0.35:
        c = rng.choice(ctx.objectives)
        if rng.random() < 0.5:
            e, what = c(), c.__name__
        else:
            f, wd = rng.uniform(2, 20), rng.uniform(0.1, 3)
            a = dict(f=f, NA=rng.uniform(0.1, 1.0), focusToFocusLength=2 * f + rng.uniform(5, 60) + wd, backAperture=rng.uniform(3, 25),
                     workingDistance=wd, magnification=180 / f, fieldNumber=22, label="objective")
            e, what = rt.Objective(**a), "Objective %s" % a
    else:
        o = gen.Options(minN=1, maxN=1, pDia=0.5, indices=rng.random() < 0.6, groups=False, maxEntry=40.0, matrixL=True, dLo=0.5, dHi=60.0)
        spec = gen.element(rng, rng.choice((1.0, 1.0, 1.33)), o)
        for _ in range(50):
            if spec["k"] != "group":
                break
            spec = gen.element(rng, 1.0, o)
        else:
            return
        e, what = gen.build(spec), gen.show([spec])
    flips = rng.choice((0, 0, 1, 1, 2))
    for _ in range(flips):
        e = e.flipOrientation()
    if rng.random() < 0.2:
        e.label = "the label"
    times = rng.choice((1, 1, 2))
    ctx.input("%s, turned around %d times, displayed %d times" % (what, flips, times))
    before = c21.snap(rt.MatrixGroup([e])) if spec else None
    m = (e.A, e.B, e.C, e.D)
    leaf = model.Leaf(*m, L=e.L, nf=e.frontIndex, nb=e.backIndex, fv=e.frontVertex, bv=e.backVertex)
    kind = type(e).__name__
    for _ in range(times):
        shot.plt.close("all")
        n0 = shot.shown
        e.display()
        ctx.true(shot.shown == n0 + 1, "shown", "shown %d times" % (shot.shown - n0))
        ax = shot.axes()
        ctx.observe("figures read")
        if not cardinals(ctx, ax, e, leaf, rt):
            return
        if spec and (flips % 2 == 0 or gen.mayTurn(spec)):
            now = gen.turn(spec) if flips % 2 else spec
            c21.elementsDrawn(ctx, ax, [now], [now])
            ctx.observe("turned elements drawn", flips % 2)
        if hasattr(e, "workingDistance"):
            # the outline goes from the back aperture to the front one
            zb, zf = (e.L, e.workingDistance) if flips % 2 else (0.0, e.L - e.workingDistance)
            h, H = e.NA * e.workingDistance, e.backAperture / 2
            want = [(zb, H), (zb, -H), (zf, h), (zf, -h)]
            ctx.true(any(len(v) > 6 and all(c21.has(v, a, b, 1e-6 * (1 + e.L + H)) for a, b in want) for v in c21.allPatches(ax)), "outline",
                     lambda: "no outline through %s" % want)
            ctx.observe("outlines of objectives")
            ctx.observe("outlines of turned objectives", flips % 2)
        if e.label:
            ctx.true(e.label in texts(ax), "label", lambda: "no label %r among %s" % (e.label, texts(ax)))
        ctx.true((e.A, e.B, e.C, e.D) == m and (spec is None or c21.snap(rt.MatrixGroup([e])) == before), "unchanged", "displaying the element changed it")
    if times > 1:
        ctx.observe("displayed again")
    ctx.observe("kind: " + ("lens of a catalogue" if spec is None and not hasattr(e, "workingDistance") else "objective" if spec is None else spec["k"]))
    ctx.nontrivial((what, flips, times))


def cardinals(ctx, ax, e, l, rt):
    """Everything that is drawn about focal points, principal planes and vertices; False if not judged"""
    power = abs(l.C) > 1e-4
    if not power and l.C != 0:
        ctx.observe("weak power")
        return False
    want, planes, pairs, lengths = [], [], [], {"EFL": [], "FFL": [], "BFL": []}
    names = {}
    if power:
        c = model.cardinal(l)
        if max(abs(c[k]) for k in ("F1", "F2", "H1", "H2")) > 1e5:
            ctx.observe("weak power")
            return False
        want += [c["F1"], c["F2"], c["H1"], c["H2"]]
        planes += [c["H1"], c["H2"]]
        pairs += [(c["H1"], c["F1"]), (c["H2"], c["F2"])]
        lengths["EFL"] = [c["f1"], c["f2"]]
        names["$P_f$"] = names["$P_b$"] = 1
        if l.fv is not None:
            pairs.append((l.fv, c["F1"]))
            lengths["FFL"] = [l.fv - c["F1"]]
        if l.bv is not None:
            pairs.append((l.bv, c["F2"]))
            lengths["BFL"] = [c["F2"] - l.bv]
        ctx.observe("elements with power")
    else:
        names["$P_f$"] = names["$P_b$"] = 0
    if l.L != 0:
        names["$V_f$"], names["$V_b$"] = int(l.fv is not None), int(l.bv is not None)
        want += [v for v in (l.fv, l.bv) if v is not None]
    if hasattr(e, "workingDistance"):
        L = e.L
        f = abs(1 / l.C)
        lens = L - f if not e.isFlipped else f
        want += [0.0, L, lens - f, lens + f]
    sameSet(ctx, c21.markers(ax), want, "points", "points")
    dashed = sorted(float(x.get_xdata()[0]) for x in ax.lines
                    if x.get_visible() and len(x.get_xdata()) == 2 and x.get_marker() != "o" and x.get_xdata()[0] == x.get_xdata()[1]
                    and x.get_ydata()[0] == -x.get_ydata()[1] != 0)
    ctx.true(len(dashed) == len(planes), "planes", lambda: "principal planes at %s, expected %s" % (dashed, planes))
    sameSet(ctx, dashed, planes, "planes", "principal planes")
    drawn = [(float(p._posA_posB[0][0]), float(p._posA_posB[1][0])) for p in ax.patches if type(p).__name__ == "FancyArrowPatch" and p.get_visible()]
    level = [p for p in ax.patches if type(p).__name__ == "FancyArrowPatch" and p._posA_posB[0][1] != p._posA_posB[1][1]]
    ctx.true(not level, "arrows", "an arrow is not horizontal")
    c21.match(ctx, [tuple(sorted(p)) for p in drawn], [tuple(sorted(p)) for p in pairs], lambda a, b: near(a[0], b[0]) and near(a[1], b[1]), "arrows", "arrows of focal lengths")
    tt = texts(ax)
    for name, values in lengths.items():
        got = [float(x) for t in tt for x in re.findall(name + r" = (-?[0-9.]+|-?inf|nan)", t)]
        c21.match(ctx, got, values, lambda a, b: abs(a - b) <= 0.0501 + 1e-9 * abs(b), "lengths", name)
        ctx.observe("lengths read", len(got))
    for name, n in names.items():
        got = sum(name in t for t in tt)
        ctx.true(got == n, "names", lambda: "%s is shown %d times, expected %d: %s" % (name, got, n, tt))
    ctx.observe("points checked", len(want))
    return True


def group(ctx, rt, rng, shot):
    specs = c21.makeSystem(rng)
    if rng.random() < 0.4:
        specs = specs[1:] or specs
    flat = [e for s in specs for e in (s["e"] if s["k"] == "group" else [s])]
    p = model.product(model.leaves(specs))
    if max(abs(p.A), abs(p.D), abs(p.C) * 10, abs(p.B) / 10) > 60:
        from rtmon.core import Skip
        raise Skip("strong system")
    times = rng.choice((1, 1, 2))
    ctx.input("MatrixGroup %s, displayed %d times" % (gen.show(specs), times))
    g = rt.MatrixGroup(gen.buildAll(specs))
    before = c21.snap(g)
    for _ in range(times):
        shot.plt.close("all")
        n0 = shot.shown
        g.display()
        ctx.true(shot.shown == n0 + 1, "shown", "shown %d times" % (shot.shown - n0))
        ax = shot.axes()
        c21.elementsDrawn(ctx, ax, specs, flat)
        sameSet(ctx, [x for x in c21.markers(ax) if abs(x) < 5e3], [x for x in c21.focalPoints(specs) if abs(x) < 5e3], "group:points", "focal points of the elements")
        fresh = rt.ImagingPath(gen.buildAll(specs))
        tt = texts(ax)
        for name, z in (("AS", fresh.apertureStop()[0]), ("FS", fresh.fieldStop()[0])):
            ctx.true(tt.count(name) == (0 if z is None else 1), "group:stops", lambda: "%s is shown %d times, it is at %r" % (name, tt.count(name), z))
        ctx.true(c21.snap(g) == before, "unchanged", "displaying the group changed it")
        ctx.observe("groups read")
    ctx.nontrivial((gen.kindsOf(specs), times, len(specs)))
