"""C10 turning elements and groups around"""
import math

from rtmon import gen, model, oracle, published
from rtmon.core import isclose

INF = gen.INF
isinf = math.isinf


def explicitVertices(s):
    """known finding: explicit vertices of a matrix with a length are exchanged, not mirrored"""
    return s["k"] == "matrix" and s.get("L") and s.get("fv") is not None


def flat(specs):
    return [e for s in specs for e in (flat(s["e"]) if s["k"] == "group" else [s])]


def anySpec(specs, f):
    return any(anySpec(s["e"], f) if s["k"] == "group" else f(s) for s in specs)


def catalogue(ctx):
    """Lenses and objectives of the catalogue: alone or in a group, any number of times"""
    import raytracing as rt
    from raytracing.specialtylenses import Objective
    rng = ctx.rng
    kind = rng.choice(("lens", "objective", "objective", "generic"))
    if kind == "generic":
        f = gen.fl(rng, 2, 40)
        e = Objective(f=f, NA=rng.uniform(0.1, 1), focusToFocusLength=2 * f + gen.fl(rng, 0, 60), backAperture=gen.fl(rng, 3, 30), workingDistance=f * rng.uniform(0.1, 0.9), url="u", label="o")
        name = "Objective f=%r L=%r wd=%r" % (f, e.L, e.workingDistance)
    else:
        from rtmon.checks.c20 import find
        table = published.LENSES if kind == "lens" else published.OBJECTIVES
        name = rng.choice(sorted(table))
        cls = find(name, table[name])
        if cls is None:
            return False        # C20 says so
        e = cls()
    before = {"A": e.A, "B": e.B, "C": e.C, "D": e.D, "L": e.L, "fv": e.frontVertex, "bv": e.backVertex}
    shape = [(oracle.snapElement(x)[4:7], x.label) for x in e]
    faces = [(oracle.snapElement(x)[:4]) for x in e]
    inGroup = rng.random() < 0.3
    n = rng.randint(1, 5)
    ctx.input("%s flipped %d times%s" % (name, n, " in a group" * inGroup))
    system = e
    if inGroup:
        system = rng.choice((rt.MatrixGroup, rt.ImagingPath))([rt.Space(d=5.0), rt.Lens(f=70.0)])
        system.append(rt.MatrixGroup([e]) if rng.random() < 0.5 else e)
    for i in range(1, n + 1):
        ctx.true(system.flipOrientation() is system, "flip:returns", "flipOrientation does not return the element")
        odd = i % 2
        w = dict(before, A=before["D"], D=before["A"], fv=before["L"] - before["bv"], bv=before["L"] - before["fv"]) if odd else before
        s = max(1.0, *(abs(w[k]) for k in "ABCD"))
        for k in "ABCD":
            ctx.close(getattr(e, k), w[k], "catalogue:" + k, "%s of %s flipped %d times" % (k, name, i), scale=s)
        ctx.close(e.L, w["L"], "catalogue:L", "length of %s flipped %d times" % (name, i), scale=w["L"])
        ctx.close(e.frontVertex, w["fv"], "catalogue:vertex", "front vertex of %s flipped %d times" % (name, i), scale=w["L"])
        ctx.close(e.backVertex, w["bv"], "catalogue:vertex", "back vertex of %s flipped %d times" % (name, i), scale=w["L"])
        ctx.true(bool(e.isFlipped) == bool(odd), "flip:isFlipped", "%s says isFlipped=%r after %d flips" % (name, e.isFlipped, i))
        now = [(oracle.snapElement(x)[4:7], x.label) for x in e]
        ctx.true(now == (shape[::-1] if odd else shape), "catalogue:elements", lambda: "lengths, apertures or order of the elements of %s flipped %d times" % (name, i))
        for x, m in zip(e, faces[::-1] if odd else faces):
            det = m[0] * m[3] - m[1] * m[2]
            m = (m[3] / det, m[1] / det, m[2] / det, m[0] / det) if odd else m
            for k, v in zip("ABCD", m):
                ctx.close(getattr(x, k), v, "catalogue:element", "%s of an element of %s flipped %d times" % (k, name, i), scale=max(1.0, *map(abs, m)))
        f = e.effectiveFocalLengths()
        if abs(w["C"]) > 1e-4:
            ctx.close(e.backFocalLength(), w["L"] - w["A"] / w["C"] - w["bv"], "catalogue:focal", "back focal length of %s flipped %d times" % (name, i), rel=1e-8, scale=w["L"] + abs(1 / w["C"]))
            ctx.close(e.frontFocalLength(), w["fv"] - w["D"] / w["C"], "catalogue:focal", "front focal length of %s flipped %d times" % (name, i), rel=1e-8, scale=w["L"] + abs(1 / w["C"]))
            ctx.close(f[1], -1 / w["C"], "catalogue:focal", "focal length of %s flipped %d times" % (name, i), rel=1e-8)
        ctx.observe("flips of the catalogue")
    ctx.observe("flips", n)
    ctx.nontrivial((name, n, inGroup))
    return True


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    if rng.random() < 0.06 and catalogue(ctx):
        return
    o = gen.Options(minN=1, maxN=rng.choice((1, 3, 6, 10)), pDia=0.5, NA=True, indices=rng.random() < 0.7, matrixL=True)
    specs = gen.system(rng, o)
    twice = None
    if rng.random() < 0.15:
        # the same object several times
        s = rng.choice(({"k": "thick", "n": 1.5, "R1": gen.fl(rng, 20, 90), "R2": rng.choice((INF, -33.0)), "t": gen.fl(rng, 1, 9)},
                        {"k": "matrix", "A": 1.2, "B": 3.0, "C": -0.01, "D": (1 - 0.03) / 1.2, "nf": 1.0, "nb": 1.0},
                        {"k": "lens", "f": 30.0}))
        specs = [s, {"k": "space", "d": gen.fl(rng, 1, 50), "n": 1.0}, s]
        if rng.random() < 0.5:
            specs += [{"k": "space", "d": 7.0, "n": 1.0}, {"k": "lens", "f": 44.0, "dia": 8.0}]
        twice = True
        ctx.observe("objects there twice")
    mirrored = False
    if not twice and rng.random() < 0.08:
        # a relay: elements, and the same ones turned around after them
        o = gen.Options(minN=1, maxN=4, pDia=0.5, indices=rng.random() < 0.5, groups=False, matrixL=True)
        half = gen.system(rng, o)
        if all(gen.mayTurn(s) for s in half):
            specs = half + [dict(gen.turn(s), turned=True) for s in reversed(half)]
            mirrored = True
            ctx.observe("mirrored systems")
    vertices = not anySpec(specs, explicitVertices)
    mirrors = anySpec(specs, lambda s: s["k"] == "mirror")
    ls = model.leaves(specs)
    p = model.product(ls)
    ctx.input(gen.show(specs) + (" (first and third: the same object)" if twice else ""))
    elements = gen.buildAll(specs)
    if twice:
        elements[2] = elements[0]
    single = len(elements) == 1 and rng.random() < 0.8
    system = elements[0] if single else rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))(elements)
    names = []
    for i, e in enumerate(oracle.leafObjects(system)):
        if not (twice and i == 2 or mirrored):
            e.label = "element %d" % i
        names.append(e.label)
    before = (system.isFlipped, [x[1] for x in oracle.snapSystem(system)])

    back = [model.flipLeaf(l) for l in reversed(ls)]
    q = model.product(back)
    r = system.flipOrientation()
    ctx.true(r is system, "flip:returns", "flipOrientation does not return the element")
    ctx.observe("flips")
    for s in set(gen.kindsOf(specs)):
        ctx.observe("flips of " + (s if isinstance(s, str) else "group"))
    oracle.matrixIs(ctx, system, q, "flip", "flipped system", vertices=vertices)
    ctx.true(bool(system.isFlipped) != bool(before[0]), "flip:isFlipped", "isFlipped did not change")
    # the elements themselves, in reverse
    objs = oracle.leafObjects(system)
    ctx.true(len(objs) == len(back), "flip:elements", lambda: "%d elements after the flip, expected %d" % (len(objs), len(back)))
    for i, (e, l) in enumerate(zip(objs, back)):
        oracle.matrixIs(ctx, e, l, "flip:element", "flipped element %d (%s)" % (i, l.kind), vertices=vertices)
        ctx.close(e.apertureDiameter, l.dia, "flip:aperture", "aperture of flipped element %d (%s)" % (i, l.kind))
        ctx.close(e.apertureNA, l.NA, "flip:aperture", "limit angle of flipped element %d (%s)" % (i, l.kind))
    ctx.true([e.label for e in objs] == names[::-1], "flip:labels", lambda: "labels %s after the flip, they were %s" % ([e.label for e in objs], names))
    # the surfaces that light meets
    for e, s in zip(objs, map(gen.turn, reversed(flat(specs)))):
        faces = {"thick": lambda: [(s["R1"], s["n"], s["t"]), (s["R2"], 1.0, 0.0)], "slab": lambda: [(INF, s["n"], s["t"]), (INF, 1.0, 0.0)],
                 "interface": lambda: [(s["R"], None, 0.0)], "mirror": lambda: [(s["R"], None, 0.0)]}.get(s["k"])
        if faces is None:
            continue
        faces, got = faces(), e.surfaces
        if ctx.true(len(got) == len(faces), "flip:surfaces", lambda: "%d surfaces on a flipped %s" % (len(got), s["k"])):
            for x, (R, n, L) in zip(got, faces):
                ctx.close(x.R if not isinf(x.R) else INF, R if not isinf(R) else INF, "flip:surfaces", "radius of a flipped %s" % s)
                if L:
                    ctx.close(x.n, n, "flip:surfaces", "index behind a surface of a flipped %s" % s)
                ctx.close(x.L, L, "flip:surfaces", "thickness behind a surface of a flipped %s" % s)
            ctx.observe("surfaces of flipped elements", len(got))
    if not mirrors:
        # determinant, cardinal points change sides
        ctx.close(q.A * q.D - q.B * q.C, p.nb / p.nf, "flip:determinant", "determinant", scale=abs(q.A * q.D) + 1)
        if abs(p.C) > 1e-3:
            c = model.cardinal(p)
            s = max(1.0, abs(p.A), abs(p.D)) / abs(p.C) * 10 + abs(p.L)
            f = system.effectiveFocalLengths()
            ctx.close(f[0], c["f2"], "flip:cardinal", "front focal length after the flip", scale=s)
            ctx.close(f[1], c["f1"], "flip:cardinal", "back focal length after the flip", scale=s)
            h = system.principalPlanePositions(0)
            ctx.close(h[0], p.L - c["H2"], "flip:cardinal", "front principal plane after the flip", scale=s, rel=1e-8)
            ctx.close(h[1], p.L - c["H1"], "flip:cardinal", "back principal plane after the flip", scale=s, rel=1e-8)
            if vertices and p.fv is not None and p.bv is not None:
                ctx.close(system.frontFocalLength(), c["F2"] - p.bv, "flip:cardinal", "front focal length from the vertex after the flip", scale=s, rel=1e-8)
                ctx.close(system.backFocalLength(), p.fv - c["F1"], "flip:cardinal", "back focal length from the vertex after the flip", scale=s, rel=1e-8)
            ctx.observe("cardinal points compared")
        # light goes back the way it came
        fresh = gen.buildAll(specs)
        forward = rt.MatrixGroup(fresh)
        for _ in range(2):
            y, t = gen.ray(rng, 8.0, 0.2)
            if model.trace(ls, y, t)[1] < 1e-6 or oracle.exitCut(ls, y, t) is not None:
                continue
            out = forward.traceThrough(rt.Ray(y, t))
            if out.isBlocked:
                continue
            yo, to = out.y, out.theta
            if model.trace(back, yo, -to)[1] < 1e-6 or oracle.exitCut(back, yo, -to) is not None:
                continue
            tr = rt.MatrixGroup([system]) if single else system
            end = tr.traceThrough(rt.Ray(yo, -to))
            if end.isBlocked:
                # only where an aperture limits the angle or stands inside of a length on one side
                w = model.trace(back, yo, -to)[0][-1]
                ctx.true(w.blocked, "flip:reversible", "Ray(%r, %r) does not come back: blocked at %r" % (y, t, end.z))
                continue
            s = oracle.scaleOf(model.trace(ls, y, t)[0]) * max(1, abs(q.A), abs(q.B), abs(q.C), abs(q.D))
            ctx.close(end.y, y, "flip:reversible", "height of Ray(%r, %r) that comes back" % (y, t), scale=s)
            ctx.close(end.theta, -t, "flip:reversible", "angle of Ray(%r, %r) that comes back" % (y, t), scale=s)
            ctx.close(end.z, p.L, "flip:reversible", "path of Ray(%r, %r) that comes back" % (y, t), scale=1 + p.L)
            ctx.observe("rays sent back")
    else:
        ctx.observe("systems with mirrors")
    # twice is nothing
    n = rng.choice((1, 1, 3))
    for _ in range(n):
        system.flipOrientation()
    if n % 2:
        oracle.matrixIs(ctx, system, p, "involution", "system flipped %d times" % (n + 1), vertices=vertices)
        for e, l in zip(oracle.leafObjects(system), ls):
            oracle.matrixIs(ctx, e, l, "involution", "%s flipped %d times" % (l.kind, n + 1), vertices=vertices)
        ctx.true(bool(system.isFlipped) == bool(before[0]), "involution", "isFlipped after flipping %d times" % (n + 1))
    ctx.nontrivial((gen.kindsOf(specs), round(p.A, 6), round(p.B, 6)))


def known(ctx):
    import raytracing as rt
    m = rt.Matrix(1, 0, -0.1, 1, physicalLength=10, frontVertex=2, backVertex=9)
    ctx.input("Matrix(C=-0.1, physicalLength=10, frontVertex=2, backVertex=9).flipOrientation()")
    m.flipOrientation()
    if not (isclose(m.frontVertex, 1) and isclose(m.backVertex, 8)):
        ctx.fail("explicit-vertices", "the vertices are exchanged: %r, %r" % (m.frontVertex, m.backVertex))
