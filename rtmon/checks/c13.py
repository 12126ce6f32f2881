"""C13 laser cavities"""
import math

from rtmon import gen, model, oracle
from rtmon.core import isclose

INF = gen.INF


def cavitySpecs(rng):
    """The elements from one end to the other, or a complete round trip"""
    out = []
    n = 1.0
    kinds = ["space", "space", "mirror", "lens", "slab", "crystal", "thick", "group", "brewster", "matrix"]
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(kinds)
        if k == "space":
            out.append({"k": "space", "d": gen.fl(rng, 1, 120), "n": 1.0})
        elif k == "mirror":
            out.append({"k": "mirror", "R": -gen.fl(rng, 20, 400) if rng.random() < 0.8 else gen.fl(rng, 20, 400)})
        elif k == "lens":
            out.append({"k": "lens", "f": gen.fl(rng, 20, 300)})
        elif k == "slab":
            out.append({"k": "slab", "n": rng.choice(gen.NS[1:]), "t": gen.fl(rng, 1, 30)})
        elif k == "thick":
            out.append({"k": "thick", "n": 1.5, "R1": gen.fl(rng, 40, 300), "R2": -gen.fl(rng, 40, 300), "t": gen.fl(rng, 1, 9)})
        elif k == "crystal":
            m = rng.choice(gen.NS[1:])
            out += [{"k": "interface", "n1": 1.0, "n2": m, "R": rng.choice((INF, gen.fl(rng, 50, 300)))}, {"k": "space", "d": gen.fl(rng, 2, 20), "n": m},
                    {"k": "interface", "n1": m, "n2": 1.0, "R": rng.choice((INF, -gen.fl(rng, 50, 300)))}]
        elif k == "group":
            out.append({"k": "group", "e": [{"k": "space", "d": gen.fl(rng, 1, 40), "n": 1.0}, rng.choice((
                {"k": "mirror", "R": -gen.fl(rng, 50, 400)}, {"k": "lens", "f": gen.fl(rng, 50, 200)}))]})
        elif k == "brewster":
            a = rng.uniform(0.7, 1.4)
            out.append({"k": "matrix", "A": a, "B": rng.uniform(-5, 5), "C": 0.0, "D": 1 / a, "nf": 1.0, "nb": 1.0})
        else:
            s = gen.matrixSpec(rng, 1.0)
            if s["nb"] == 1.0:
                out.append(s)
    if rng.random() < 0.6:
        out = [{"k": "space", "d": gen.fl(rng, 1, 150), "n": 1.0}] + out + [{"k": "mirror", "R": -gen.fl(rng, 50, 500)}]
    return out or [{"k": "space", "d": 10.0, "n": 1.0}]


def reverse(ls):
    """The way back: the elements turned around; light meets the same side of a mirror"""
    return [l if l.kind == "mirror" else model.flipLeaf(l) for l in reversed(ls)]


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = cavitySpecs(rng)
    if rng.random() < 0.1:
        # everything inside of a medium
        n = rng.choice(gen.NS[1:])
        specs = [{"k": "space", "d": gen.fl(rng, 5, 50), "n": n}, {"k": "matrix", "A": 1.0, "B": 0.0, "C": -1 / gen.fl(rng, 50, 300), "D": 1.0, "nf": n, "nb": n},
                 {"k": "space", "d": gen.fl(rng, 5, 50), "n": n}]
    ls = model.leaves(specs)
    elements = gen.buildAll(specs)
    cavity = rt.LaserCavity(elements)
    way = rng.choice(("as is", "reverse", "reverse", "reverse"))
    first = last = False
    if way == "reverse":
        first, last = rng.random() < 0.3, rng.random() < 0.5
        if first and last and len(specs) < 3:
            first = False
        # the end that is skipped stands in a single medium
        first = first and specs[0]["k"] != "interface"
        last = last and specs[-1]["k"] != "interface"
    ctx.input("%s %s skip first=%r last=%r" % (gen.show(specs), way, first, last))
    if way == "reverse":
        snap = [oracle.snapSystem(e) for e in elements]
        cavity.appendElementsInReverse(skipFirstElement=first, skipLastElement=last)
        part = specs[1 if first else 0:len(specs) - (1 if last else 0)]
        ls = ls + reverse(model.leaves(part))
        ctx.true([oracle.snapSystem(e) for e in elements] == snap, "reverse:modified", "the elements of the way forward were modified")
        objs = oracle.leafObjects(cavity)
        ctx.true(len(objs) == len(ls), "reverse:elements", lambda: "%d elements in the round trip, expected %d" % (len(objs), len(ls)))
        for i, (e, l) in enumerate(zip(objs, ls)):
            oracle.matrixIs(ctx, e, l, "reverse:element", "element %d of the round trip (%s)" % (i, l.kind), vertices=False)
        ctx.observe("round trips made by reversing")
    p = model.product(ls)
    if max(abs(p.A), abs(p.D), abs(p.B) / 10, abs(p.C) * 100) > 1e5:
        ctx.observe("too far from a resonator (not judged)")
        return
    oracle.matrixIs(ctx, cavity, p, "roundtrip", "matrix of the round trip", vertices=False)
    modes = cavity.laserModes()
    eigen = cavity.eigenModes()
    if abs(p.C) < 1e-8:
        ctx.observe("cavities without power")
        ctx.true(tuple(eigen) == (None, None) and list(modes) == [] and not cavity.isStable, "noPower", "modes %r without power" % (modes,))
        return
    if abs(p.C) < 2e-5:
        return
    half = (p.A + p.D) / 2
    s = max(1, abs(p.A), abs(p.D))
    if abs(abs(half) - 1) < 1e-7 * s * s:
        ctx.observe("at the limit of stability (not judged)")
        return
    stable = abs(half) < 1
    ctx.observe("stable cavities" if stable else "unstable cavities")
    ctx.true(bool(cavity.isStable) == stable, "stability", lambda: "isStable=%r, (A+D)/2=%r" % (cavity.isStable, half))
    # modes repeat after a round trip
    good = max(abs(abs(half) - 1) / (s * s), 1e-9)
    rel = 1e-11 * s * s / good + 1e-9
    for b in eigen:
        if rel < 1e-3 and abs(p.C * b.q + p.D) > 1e-6 * s:
            q2 = model.qThrough((p.A, p.B, p.C, p.D), b.q)
            ctx.true(abs(q2 - b.q) <= rel * (abs(q2) + abs(b.q) + s / abs(p.C)) / min(1, abs(p.C * b.q + p.D)), "eigen", lambda: "eigenmode q=%r becomes %r after a round trip" % (b.q, q2))
            ctx.close(b.n, p.nf, "eigen:n", "index of the eigenmode")
            ctx.observe("eigenmodes")
    if not stable:
        ctx.true(len(modes) == 0, "modes", lambda: "%d modes in an unstable cavity: %s" % (len(modes), [m.q for m in modes]))
    else:
        ctx.true(len(modes) == 1, "modes", lambda: "%d modes in a stable cavity" % len(modes))
        mode = modes[0]
        im = math.sqrt(1 - half * half) / abs(p.C)
        re = (p.A - p.D) / (2 * p.C)
        tol = rel * (abs(re) + s / abs(p.C))
        ctx.true(abs(mode.q - complex(re, im)) <= tol, "mode", lambda: "mode q=%r, expected %r" % (mode.q, complex(re, im)))
        ctx.true(mode.isFinite and mode.q.imag > 0, "mode", "the mode is not finite")
        # its size everywhere is the same after a round trip, in the real cavity
        if rel < 1e-4:
            after = cavity * mode
            ctx.close(after.w, mode.w, "mode:roundtrip", "size of the mode after a round trip", rel=rel * 100 + 1e-6)
            ctx.close(after.z, p.L, "mode:roundtrip", "length of the round trip", scale=1)
            tr = cavity.trace(mode)
            ctx.close(tr[-1].w, mode.w, "mode:roundtrip", "size of the mode after a trace", rel=rel * 100 + 1e-6)
            ctx.observe("modes sent around")
    ctx.nontrivial((gen.kindsOf(specs), way, first, last, round(half, 6)))
