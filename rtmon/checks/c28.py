"""C28 equality is that of the optics, copies are independent, and descriptions show the values"""
import copy
import math
import pickle
import re
import warnings

from rtmon import gen, model, oracle

INF = gen.INF
NUMBER = r"([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan))"
KEYS = {"lens": ("f", "dia"), "space": ("d", "n", "dia"), "mirror": ("R", "dia"), "interface": ("n1", "n2", "R", "dia"), "thick": ("n", "R1", "R2", "t", "dia"),
        "slab": ("n", "t", "dia"), "aperture": ("dia",), "matrix": ("A", "B", "dia")}


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.rng.choice((elements, elements, rays, beams, copies))(ctx, ctx.rng)


def numbers(text):
    return [float(x) for x in re.findall(NUMBER, text)]


def shown(v, w, digits):
    """w is v as written with these digits"""
    if not math.isfinite(v):
        return v == w
    return abs(v - w) <= 0.5000001 * 10 ** -digits + 1e-12 * abs(v)


def use(ctx, rt, rng, e):
    """Ask anything of an element that is not supposed to change it"""
    how = rng.choice(("trace", "ask", "many", "group", "display", "str"))
    if how == "trace":
        e.trace(rt.Ray(0.5, 0.01))
        e.trace(rt.Ray(1e6, 0.01))
    elif how == "ask":
        e.effectiveFocalLengths(), e.focusPositions(0), e.principalPlanePositions(0), e.magnification(), e.forwardConjugate(), e.isImaging, e.hasPower, e.surfaces
        e.largestDiameter, e.displayHalfHeight(), e.pointsOfInterest(0)
        if e.L == 0:
            e.transferMatrix()
    elif how == "many":
        e.traceManyThrough([rt.Ray(0.1, 0), rt.Ray(1e6, 0)], progress=False)
    elif how == "group" and e.frontIndex == 1.0:
        p = rt.ImagingPath([rt.Space(d=5), e])
        p.trace(rt.Ray(0.1, 0.01)), p.apertureStop(), p.entrancePupil(), p.intermediateConjugates()
    elif how == "display":
        from raytracing.graphics import GraphicOf
        g = GraphicOf(e, x=3.0, minSize=rng.choice((0, 20)))
        if g is not None:
            for x in (g if isinstance(g, list) else [g]):
                x.components, x.mainComponents
    else:
        str(e)
    return how


def elements(ctx, rng):
    import raytracing as rt
    o = gen.Options(minN=1, maxN=1, pDia=0.6, groups=False)
    spec = gen.system(rng, o)[0]
    if spec["k"] not in KEYS:
        return
    if rng.random() < 0.15:
        # large or small values
        far = 10.0 ** rng.uniform(2, 6)
        if spec["k"] == "space":
            spec = dict(spec, d=spec["d"] * far)
        elif spec["k"] == "lens":
            spec = dict(spec, f=spec["f"] * far)
        elif spec["k"] == "matrix":
            spec = dict(spec, B=spec["B"] * far, C=spec["C"] / far)
        ctx.observe("large values")
    named = rng.random() < 0.2
    if named:
        spec = dict(spec, label=rng.choice(("f1", "a label", "L$_2$", "é")))
    a, b = gen.build(spec), gen.build(spec)
    ctx.input(gen.show([spec]))
    if named:
        ctx.true(a.label == spec["label"], "label", lambda: "%s is labelled %r" % (gen.show([spec]), a.label))
        ctx.observe("labels")
    used = []
    for i in range(rng.randint(1, 3)):
        ctx.true(a == b and b == a and not (a != b), "equal", lambda: "%s is not equal to another one%s" % (gen.show([spec]), " after " + ", ".join(used) if used else ""))
        used.append(use(ctx, rt, rng, a))
    ctx.true(a == b and b == a and not (a != b), "equal", lambda: "%s is not equal to another one after %s" % (gen.show([spec]), ", ".join(used)))
    ctx.observe("equal elements")
    # another value is another element
    key = rng.choice([k for k in KEYS[spec["k"]] if k == "dia" or k in spec])
    other = dict(spec)
    v = spec.get(key, INF)
    factor = rng.choice((1.5, 1 + 1e-6, 1 + 1e-12))
    other[key] = 33.25 if math.isinf(v) else v * factor if v else 0.125
    if spec["k"] == "matrix" and key in "AB":
        if other["A"] == 0:
            return
        other["D"] = (other["nf"] / other["nb"] + other["B"] * other["C"]) / other["A"]
    if other[key] != v:
        c = gen.build(other)
        ctx.true(a != c and c != a and not (a == c), "different", lambda: "%s is equal to %s" % (gen.show([spec]), gen.show([other])))
        ctx.observe("different elements")
    for x in (None, 3, "lens", rt.Ray(1, 2), [a]):
        ctx.true(a != x and not (a == x), "different", lambda: "%s is equal to %r" % (gen.show([spec]), x))
    # the description has the values
    l = model.leaf(spec)
    text = str(a)
    got = numbers(text)
    ctx.true(len(got) >= 4 and all(shown(x, y, 3) for x, y in zip((l.A, l.B, l.C, l.D), got)), "description", lambda: "%s is described as %s" % (gen.show([spec]), text))
    if a.C != 0:
        ctx.true(len(got) == 5 and shown(-1 / l.C, got[4], 3) or abs(1 / l.C) > 1e9, "description", lambda: "focal length of %s described as %s" % (gen.show([spec]), text))
    else:
        ctx.true("afocal" in text, "description", lambda: "%s, without power, is described as %s" % (gen.show([spec]), text))
    ctx.observe("descriptions")
    ctx.nontrivial((gen.show([spec]), key))


def rays(ctx, rng):
    import raytracing as rt
    y, t = gen.ray(rng)
    if rng.random() < 0.1:
        y, t = y * 10.0 ** rng.uniform(1, 5), t * 10.0 ** rng.uniform(0, 2)
    z, blocked, w = rng.choice((0, gen.fl(rng, 0, 100), -gen.fl(rng, 1, 100))), rng.random() < 0.3, rng.choice((None, 0.5, 1.064))
    ctx.input("Ray(%r, %r, z=%r, isBlocked=%r)" % (y, t, z, blocked))
    a = rt.Ray(y, t, z=z, isBlocked=blocked, wavelength=w)
    b = rt.Ray(y, t)
    ctx.true(a == b and b == a, "equal", "rays of the same height and angle are not equal")
    d = rng.choice((1e-9, 0.1, -1))
    ctx.true(a != rt.Ray(y + d, t) and a != rt.Ray(y, t + d) and not a == rt.Ray(y + d, t), "different", "rays of different height or angle are equal")
    for x in (None, y, (y, t), rt.Space(d=1)):
        ctx.true(a != x and not a == x, "different", lambda: "a ray is equal to %r" % (x,))
    text = str(a)
    got = numbers(text)
    ctx.true(len(got) == 3 and all(shown(p, q, 3) for p, q in zip((y, t, z), got)) and ("blocked" in text) == blocked, "description", lambda: "ray described as %s" % text)
    ctx.true(a.isNotBlocked == (not blocked), "description", "isNotBlocked")
    # elsewhere: along a straight line, with the same colour
    q = z + rng.uniform(-50, 50)
    o = a.at(z=q)
    ctx.close(o.y, y + (q - z) * t, "at", "height of the ray at %r" % q, scale=abs(y) + 100 * abs(t))
    ctx.true((o.theta, o.z, o.isBlocked, o.wavelength) == (t, q, blocked, w), "at", lambda: "the ray at %r: %r" % (q, vars(o)))
    ctx.true((a.y, a.theta, a.z, a.isBlocked, a.wavelength) == (y, t, z, blocked, w), "unchanged", "the ray changed")
    # through systems
    specs = gen.system(rng, gen.Options(minN=1, maxN=4, pDia=0.3))
    g = rt.MatrixGroup(gen.buildAll(specs))
    tr = g.trace(rt.Ray(y, t, wavelength=w))
    ctx.true(all(p.wavelength == w for p in tr), "wavelength", lambda: "a ray of wavelength %r has %s in %s" % (w, [p.wavelength for p in tr], gen.show(specs)))
    r = g.traceManyThrough([rt.Ray(y, t, wavelength=w)], progress=False)
    ctx.true(all(p.wavelength == w for p in r), "wavelength", "the wavelength is lost")
    ctx.observe("rays compared")
    ctx.nontrivial((y, t, z, gen.show(specs)))


def beams(ctx, rng):
    import raytracing as rt
    lam = rng.choice((632.8e-6, 1064e-6, rng.uniform(400e-6, 2e-3)))
    w, R, n, z = gen.fl(rng, 0.01, 3), rng.choice((INF, gen.sign(rng) * gen.fl(rng, 10, 500))), rng.choice((1.0, 1.0, 1.5)), rng.choice((0, gen.fl(rng, 0, 90), -gen.fl(rng, 1, 90)))
    b = rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam, z=z)
    ctx.input("GaussianBeam(w=%r, R=%r, n=%r, wavelength=%r, z=%r)" % (w, R, n, lam, z))
    text = str(b)
    got = {k: float(v) for k, v in re.findall(r"(w\(z\)|R\(z\)|z|λ|zo|wo position|wo): " + NUMBER, text)}
    q = model.qOf(w, R, n, lam)
    want = {"w(z)": w, "R(z)": R, "z": z, "zo": q.imag, "wo": math.sqrt(q.imag * lam / n / math.pi), "wo position": -q.real}
    ctx.true(set(got) == set(want) | {"λ"}, "description", lambda: "beam described as %s" % text)
    for k, v in want.items():
        if k in got and abs(v) < 1e12:
            ctx.true(abs(v - got[k]) <= 0.00051 + 1e-9 * abs(v) or not math.isfinite(v) and got[k] == v, "description", lambda: "%s=%r of the beam, described as %s" % (k, v, text))
    ctx.true(abs(got.get("λ", 0) - lam * 1e6) <= 0.0501, "description", lambda: "wavelength of %r mm described as %s" % (lam, text))
    c = re.search(r"radius: \(?([^)\n]*)", text)
    ctx.true(c is not None and abs(complex(c.group(1).strip().rstrip(")")) - q) <= 0.006 * abs(q), "description", lambda: "q=%r described as %s" % (q, text))
    bad = rt.GaussianBeam(q=complex(gen.fl(rng, 1, 9), -rng.choice((0, gen.fl(rng, 1, 9)))))
    ctx.true("not finite" in str(bad) and not bad.isFinite and bad.w == INF, "description", lambda: "an infinite beam described as %s" % bad)
    ctx.observe("beams described")
    ctx.nontrivial((w, R, n, lam))


def copies(ctx, rng):
    """A copy (deep, or through pickle) is equal, traces alike, and is independent"""
    import raytracing as rt
    specs = gen.system(rng, gen.Options(minN=1, maxN=5, pDia=0.5, endInAir=True))
    g = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.LaserPath, rt.ImagingPath))(gen.buildAll(specs), label="g")
    ctx.input("copies of %s" % gen.show(specs))
    how = rng.choice(("deep", "deep", "pickle")) if type(g) is rt.MatrixGroup else "deep"
    if rng.random() < 0.5:
        g.trace(rt.Ray(0.3, 0.01))
    h = copy.deepcopy(g) if how == "deep" else pickle.loads(pickle.dumps(g))
    ls = oracle.leafObjects(g), oracle.leafObjects(h)
    ctx.true(type(h) is type(g) and h.label == "g" and len(ls[0]) == len(ls[1]) and all(a == b and a is not b for a, b in zip(*ls)), "copy", "the elements of a copy are not equal to those of the original")
    p = model.product(model.leaves(specs))
    oracle.matrixIs(ctx, h, p, "copy", "copy of %s" % gen.show(specs))
    before = [x[1] for x in oracle.snapSystem(g)]
    y, t = gen.ray(rng, 5, 0.1)
    first = [(r.z, r.y, r.theta, r.isBlocked) for r in g.trace(rt.Ray(y, t))]
    ctx.true(first == [(r.z, r.y, r.theta, r.isBlocked) for r in h.trace(rt.Ray(y, t))], "copy", "a copy does not trace like the original")
    h.flipOrientation()
    h.append(rt.Space(d=7, n=h.backIndex))
    h[0].apertureDiameter = 1e-3
    if len(h) > 1:
        h.pop(len(h) - 1)
    ctx.true([x[1] for x in oracle.snapSystem(g)] == before, "independent", "changes of a copy changed the original")
    ctx.true(first == [(r.z, r.y, r.theta, r.isBlocked) for r in g.trace(rt.Ray(y, t))], "independent", "changes of a copy changed the traces of the original")
    ctx.observe("copies")
    # rays
    r = rng.choice((rt.UniformRays, rt.LambertianRays))(yMax=2, M=3, N=3) if rng.random() < 0.5 else rt.RandomUniformRays(yMax=2, yMin=-2, maxCount=5)
    vals = list(r.yValues), list(r.thetaValues)
    s = copy.deepcopy(r)
    ctx.true((list(s.yValues), list(s.thetaValues)) == vals, "copy", "copied rays differ")
    s[0].y = 99.0
    if type(r).__name__ != "RandomUniformRays":
        s.append(rt.Ray(5, 5))
    ctx.true((list(r.yValues), list(r.thetaValues)) == vals and r[0].y != 99.0, "independent", "changes of copied rays changed the original")
    ctx.nontrivial((gen.show(specs), how))
