"""C26 impossible elements, rays and operations are refused, without side effects; possible ones are not"""
import math
import warnings

import numpy as np

from rtmon import gen, model
from rtmon.checks import c21

INF = gen.INF
NOT_LIGHT = (None, 3, 2.5, "ray", [1, 2], (1.0, 0.1), {"y": 1}, object())


def case(ctx):
    import raytracing as rt
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind = ctx.rng.choice((matrices, matrices, apertures, operands, operands, beams, paths, spaces, rays, lenses))
        kind(ctx, rt, ctx.rng)


def refused(ctx, f, errors, key, what):
    """f() raises one of these errors"""
    try:
        r = f()
    except errors:
        ctx.observe("refusals")
        ctx.observe("refused: " + key)
        ctx.true(True, key, "")
        return True
    except Exception as err:
        ctx.fail(key, "%s: %s(%s) instead of %s" % (what, type(err).__name__, err, " or ".join(e.__name__ for e in errors)))
        return False
    ctx.fail(key, "%s: not refused, gives %s" % (what, str(r)[:200]))
    return False


def accepted(ctx, f, key, what):
    try:
        r = f()
    except Exception as err:
        ctx.fail(key, "%s: refused by %s(%s)" % (what, type(err).__name__, str(err)[:200]))
        return None
    ctx.observe("accepted")
    ctx.true(True, key, "")
    return r


def matrices(ctx, rt, rng):
    """The determinant is the front index divided by the back index"""
    n1, n2 = rng.choice((1.0, 1.0, 1.33, 1.5, rng.uniform(1, 2.5))), rng.choice((1.0, 1.0, 1.33, 1.5, rng.uniform(1, 2.5)))
    det = n1 / n2
    A, D = gen.sign(rng) * gen.fl(rng, 0.05, 5), gen.sign(rng) * gen.fl(rng, 0.05, 5)
    C = 0.0 if rng.random() < 0.15 else gen.sign(rng) * rng.uniform(1e-3, 1)
    if C == 0:
        D, B = det / A, rng.choice((0.0, INF, gen.fl(rng, 0, 50)))
    else:
        B = (A * D - det) / C
    off = rng.choice((0, 0, 1, -1)) * 10 ** rng.uniform(-4.3, 1)
    vary = rng.choice("ABCDn")
    kw = {"A": A, "B": B, "C": C, "D": D, "frontIndex": n1, "backIndex": n2}
    if off:
        if vary == "n" or (C == 0 and vary in "BC") or math.isinf(B):
            kw["frontIndex"] = n2 * (det + off)
            if kw["frontIndex"] <= 0:
                kw["frontIndex"] = n2 * (det + abs(off))
        else:
            # moves the determinant by off
            part = {"A": D, "D": A, "B": -C, "C": -B}[vary]
            if abs(part) < 1e-2:
                return
            kw[vary] += off / part
    if rng.random() < 0.4:
        kw["physicalLength"] = rng.uniform(0, 20)
    if rng.random() < 0.3:
        kw["apertureDiameter"] = rng.uniform(0.1, 50)
    cls = rng.choice((rt.Matrix, rt.Matrix, Sub(rt)))
    ctx.input("%s(%s), determinant off by %r" % (cls.__name__, kw, off))
    make = lambda: cls(**kw)    # noqa
    if off:
        refused(ctx, make, (ValueError,), "determinant", "a determinant of %r instead of %r" % (kw["A"] * kw["D"] - (kw["B"] * kw["C"] if kw["C"] else 0), kw["frontIndex"] / n2))
    else:
        m = accepted(ctx, make, "determinant", "the right determinant")
        if m is not None:
            ctx.true(all(getattr(m, k if k != "physicalLength" else "L") == v for k, v in kw.items()), "values", "the matrix does not hold what it was given")
    ctx.nontrivial(("matrix", tuple(sorted(kw.items()))))


def Sub(rt):
    class Sub(rt.Matrix):
        pass
    return Sub


def makers(rt, rng):
    f = gen.sign(rng) * gen.fl(rng, 5, 80)
    n = rng.uniform(1.3, 1.9)
    R = gen.sign(rng) * gen.fl(rng, 20, 100)
    return {
        "Lens": lambda d: rt.Lens(f=f, diameter=d),
        "Aperture": lambda d: rt.Aperture(diameter=d),
        "Space": lambda d: rt.Space(d=abs(f), n=n, diameter=d),
        "CurvedMirror": lambda d: rt.CurvedMirror(R=R, diameter=d),
        "DielectricInterface": lambda d: rt.DielectricInterface(n1=1.0, n2=n, R=R, diameter=d),
        "ThickLens": lambda d: rt.ThickLens(n=n, R1=R, R2=-R, thickness=3, diameter=d),
        "DielectricSlab": lambda d: rt.DielectricSlab(n=n, thickness=3, diameter=d),
        "Axicon": lambda d: rt.Axicon(alpha=0.1, n=n, diameter=d),
        "Matrix": lambda d: rt.Matrix(1, 0, -1 / f, 1, apertureDiameter=d),
        "Matrix NA": lambda d: rt.Matrix(1, 0, -1 / f, 1, apertureNA=d),
        "Aperture NA": lambda d: rt.Aperture(diameter=5, NA=d),
        "System2f": lambda d: rt.System2f(f=abs(f), diameter=d),
        "System4f 1": lambda d: rt.System4f(f1=abs(f), f2=10, diameter1=d),
        "System4f 2": lambda d: rt.System4f(f1=abs(f), f2=10, diameter2=d),
    }


def apertures(ctx, rt, rng):
    m = makers(rt, rng)
    name = rng.choice(sorted(m))
    bad = rng.random() < 0.6
    d = rng.choice((0, 0.0, -1, -1e-9, -INF, -gen.fl(rng, 0.1, 50))) if bad else rng.choice((1, 1e-6, INF, gen.fl(rng, 0.1, 50)))
    ctx.input("%s of diameter %r" % (name, d))
    if bad:
        refused(ctx, lambda: m[name](d), (ValueError,), "aperture", "%s with an aperture of %r" % (name, d))
    else:
        e = accepted(ctx, lambda: m[name](d), "aperture", "%s with an aperture of %r" % (name, d))
        if e is not None:
            es = list(e) if name.startswith("System") else [e]
            got = [x.apertureNA if name.endswith("NA") else x.apertureDiameter for x in es]
            ctx.true(d in got, "values", lambda: "%s of diameter %r has %s" % (name, d, got))
    ctx.nontrivial(("aperture", name, d))


def anySystem(rng, **kw):
    o = gen.Options(minN=1, maxN=4, pDia=0.4, indices=False, groups=False, maxEntry=40.0, matrixL=True, dLo=2.0, dHi=80.0, **kw)
    return gen.system(rng, o)


def operands(ctx, rt, rng):
    """Only rays, beams and matrices go through elements and groups"""
    specs = anySystem(rng)
    x = rng.choice(NOT_LIGHT)
    how = rng.choice(("multiply", "multiply group", "trace", "traceThrough", "traceMany", "append", "insert", "group", "Rays", "Rays append", "number",
                      "media", "media", "range"))
    ctx.input("%s of %r in %s" % (how, x, gen.show(specs)))
    es = gen.buildAll(specs)
    cls = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
    g = cls(es)
    e = es[rng.randrange(len(es))]
    state = lambda: (c21.snap(g), list(map(id, g)), [getattr(g, k) for k in ("A", "B", "C", "D", "L", "frontIndex", "backIndex", "frontVertex", "backVertex")])
    before = state()
    errors = (TypeError, AttributeError)
    if how == "multiply":
        refused(ctx, lambda: e * x, (TypeError,), how, "an element times %r" % (x,))
    elif how == "multiply group":
        refused(ctx, lambda: g * x, (TypeError,), how, "a group times %r" % (x,))
    elif how == "trace":
        refused(ctx, lambda: g.trace(x), (TypeError,), how, "tracing %r" % (x,))
    elif how == "traceThrough":
        if isinstance(x, (list, tuple)) or x is None:
            x = 3
        refused(ctx, lambda: g.traceThrough(x), errors, how, "tracing %r through" % (x,))
    elif how == "traceMany":
        if isinstance(x, (str, dict)):
            x = 3
        if isinstance(x, (list, tuple)):
            refused(ctx, lambda: g.traceMany(x), errors, how, "tracing the rays %r" % (x,))
        else:
            refused(ctx, lambda: g.traceMany(x), (TypeError,), how, "tracing the rays %r" % (x,))
    elif how in ("append", "insert"):
        if how == "append":
            refused(ctx, lambda: g.append(x), (TypeError,), how, "appending %r" % (x,))
        else:
            if isinstance(x, (list, tuple)):
                x = 3
            refused(ctx, lambda: g.insert(rng.randrange(len(es) + 1), x), (TypeError,), how, "inserting %r" % (x,))
    elif how == "media":
        # an element that cannot follow: nothing but a space adapts
        bad = rng.choice((lambda: rt.DielectricInterface(n1=1.5, n2=1.0, R=30.0), lambda: rt.Matrix(1, 0, 0, 1, frontIndex=1.33, backIndex=1.33),
                          lambda: rt.DielectricInterface(n1=1.4, n2=1.4), lambda: rt.MatrixGroup([rt.DielectricInterface(n1=1.7, n2=1.0), rt.Space(d=3)])))()
        i = rng.randint(1, len(es))
        way = rng.choice(("append", "insert", "item", "slice", "first slice"))
        if way == "append":
            f = lambda: g.append(bad)
        elif way == "insert":
            f = lambda: g.insert(i, rng.choice((bad, [bad], [rt.Space(d=2), bad])))
        elif way == "item" and i < len(es):
            f = lambda: g.__setitem__(rng.choice((i, i - len(es))), bad)
        elif way == "first slice":
            f = lambda: g.__setitem__(slice(0, i), [rt.Space(d=1.5), rt.Lens(f=9), bad])
        else:
            f = lambda: g.__setitem__(slice(i, None), [bad, rt.Space(d=1)])
        refused(ctx, f, (ValueError,), how, "%s of an element in another medium" % way)
    elif how == "range":
        i = rng.choice((len(es), len(es) + 3, -len(es) - 1))
        f = rng.choice((lambda: g.pop(i), lambda: g[i], lambda: g.__setitem__(i, rt.Lens(f=8))))
        refused(ctx, f, (IndexError,), how, "element %d of %d" % (i, len(es)))
    elif how == "group":
        if x is None:
            x = 3
        refused(ctx, lambda: cls(x if not isinstance(x, (str, dict)) else [x]), (TypeError,), how, "a group of %r" % (x,))
        mixed = es[:1] + [x]
        refused(ctx, lambda: cls(mixed), (TypeError,), how, "a group with %r" % (x,))
    elif how == "number":
        refused(ctx, lambda: 3 * e, (TypeError,), how, "a number times an element")
    else:
        rr = [rt.Ray(1, 0), rt.Ray(0, 0.1)]
        if how == "Rays":
            refused(ctx, lambda: rt.Rays(rr + [x]), (TypeError,), how, "rays with %r" % (x,))
            if not isinstance(x, (list, tuple, str, dict)) and x is not None:
                refused(ctx, lambda: rt.Rays(x), (TypeError,), how, "the rays %r" % (x,))
        else:
            r = rt.Rays(list(rr))
            refused(ctx, lambda: r.append(x), (TypeError,), how, "appending %r to rays" % (x,))
            ctx.true(len(r) == 2 and [q.y for q in r] == [1, 0], "unchanged", "rays changed by a refused append")
    ctx.true(state() == before, "unchanged", "the refused operation (%s) changed the group" % how)
    # and what is possible still works afterwards
    ray = rt.Ray(0.5, 0.01)
    t = accepted(ctx, lambda: g.trace(ray), "after", "tracing a ray after a refused operation")
    if t is not None:
        ls = model.leaves(specs)
        pts, margin = model.trace(ls, 0.5, 0.01)
        if not pts[-1].blocked and margin > 1e-6:
            ctx.true(abs(t[-1].y - pts[-1].y) <= 1e-9 * (1 + max(abs(p.y) for p in pts)), "after", "the trace after a refused operation is wrong")
    ctx.nontrivial((how, repr(x) if not type(x) is object else "object", gen.kindsOf(specs)))


def beams(ctx, rt, rng):
    w, R, lam = gen.fl(rng, 0.05, 3), rng.choice((INF, gen.sign(rng) * gen.fl(rng, 10, 300))), 1e-3
    n = rng.choice((1.0, 1.33, 1.5, 1.001, 1.5002))
    how = rng.choice(("nothing", "contradiction", "index", "axicon", "axicon group", "fine"))
    ctx.input("beam w=%r R=%r n=%r: %s" % (w, R, n, how))
    if how == "nothing":
        refused(ctx, lambda: rt.GaussianBeam(), (ValueError,), how, "a beam without q nor w")
        refused(ctx, lambda: rt.GaussianBeam(R=30.0), (ValueError,), how, "a beam without q nor w")
    elif how == "contradiction":
        q = complex(0, gen.fl(rng, 1, 400))     # at its waist: the radius that goes with the size is infinite
        real = model.wOf(q, 1.0, lam)
        refused(ctx, lambda: rt.GaussianBeam(q=q, w=real * rng.choice((0.3, 0.5, 2, 3)), wavelength=lam), (ValueError,), how, "a beam whose size contradicts q")
        accepted(ctx, lambda: rt.GaussianBeam(q=q, w=real, wavelength=lam), how, "a beam with its own size")
    elif how == "index":
        e = rng.choice((rt.Space(d=10, n=1.5), rt.Lens(f=20), rt.DielectricInterface(n1=1.33, n2=1.0, R=50)))
        b = rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam)
        q0 = b.q
        if n != e.frontIndex:
            refused(ctx, lambda: e * b, (RuntimeError,), how, "a beam in n=%r that enters n=%r" % (n, e.frontIndex))
        else:
            accepted(ctx, lambda: e * b, how, "a beam in its medium")
        ctx.true(b.q == q0 and b.n == n, "unchanged", "the beam changed")
    elif how.startswith("axicon"):
        a = rt.Axicon(alpha=rng.uniform(0.01, 0.3), n=1.5)
        b = rt.GaussianBeam(w=w, R=R, wavelength=lam)
        q0 = b.q
        if how == "axicon":
            refused(ctx, lambda: a * b, (TypeError,), how, "a beam through an axicon")
        else:
            g = rng.choice((rt.MatrixGroup, rt.LaserPath))([rt.Space(d=10), a, rt.Space(d=5)])
            refused(ctx, lambda: g.trace(b), (TypeError,), how, "a beam through a group with an axicon")
        ctx.true(b.q == q0, "unchanged", "the beam changed")
    else:
        b = accepted(ctx, lambda: rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam), how, "a beam")
        if b is not None:
            ctx.true(abs(b.w - w) <= 1e-9 * w, "values", lambda: "a beam of size %r has %r" % (w, b.w))
    ctx.nontrivial(("beam", how, w, R, n))


def paths(ctx, rt, rng):
    specs = anySystem(rng)
    ctx.input("ImagingPath %s" % gen.show(specs))
    p = rt.ImagingPath(gen.buildAll(specs))
    z0 = p.objectHeight
    y = gen.fl(rng, 0.1, 30)
    refused(ctx, lambda: setattr(p, "objectHeight", -y), (ValueError,), "object height", "an object height of %r" % -y)
    ctx.true(p.objectHeight == z0, "unchanged", "the refused object height is kept")
    accepted(ctx, lambda: setattr(p, "objectHeight", y), "object height", "an object height of %r" % y)
    ctx.true(p.objectHeight == y, "values", "the object height is not kept")
    if p.apertureStop()[0] is not None and math.isinf(p.fieldOfView()):
        (z, d) = p.apertureStop()
        if not p.transferMatrix(upTo=z).isImaging:
            refused(ctx, lambda: p.chiefRay(), (ValueError,), "chief ray", "the chief ray at the edge of an infinite field")
            accepted(ctx, lambda: p.chiefRay(y=1.0), "chief ray", "the chief ray of a given point")
    refused(ctx, lambda: p.design(style=rng.choice(("", "none", "Default", "draft"))), (ValueError,), "style", "an unknown style")
    accepted(ctx, lambda: p.design(style=rng.choice(("default", "publication", "presentation"))), "style", "a known style")
    # inside of elements and beyond of the path
    zs, z = [], 0.0
    for s in specs:
        L = model.leaf(s).L
        if L > 0:
            zs.append((z, L, s["k"]))
        z += L
    for q in (-1.0, z + 1.0, 2 * z + 3):
        refused(ctx, lambda: p.subPath(zStart=q), (ValueError,), "subPath", "rays at z=%r, outside of the path" % q)
    for a, L, k in zs:
        q = a + L * rng.uniform(0.1, 0.9)
        if k == "space":
            s = accepted(ctx, lambda: p.subPath(zStart=q, backwards=rng.random() < 0.5), "subPath", "rays at z=%r, in a space" % q)
            ctx.true(s is None or len(s) > 0, "subPath", "an empty path")
        else:
            refused(ctx, lambda: p.subPath(zStart=q), (AssertionError, ValueError), "subPath", "rays inside of an element at z=%r" % q)
    ctx.nontrivial(("path", gen.show(specs), y))


def spaces(ctx, rt, rng):
    """No space to an infinite plane"""
    f = gen.sign(rng) * gen.fl(rng, 5, 80)
    how = rng.choice(("focal", "afocal", "finite"))
    if how != "finite":
        f = gen.sign(rng) * 2.0 ** rng.randint(0, 7)        # exact arithmetic: the conjugate is exactly at infinity
    ctx.input("%s f=%r" % (how, f))
    if how == "focal":
        # The object is in the focal plane: its image is at infinity
        g = rt.MatrixGroup([rt.Space(d=abs(f)), rt.Lens(f=abs(f))])
        refused(ctx, lambda: rt.ToConjugate(g), (ValueError,), "infinite plane", "a space to an image at infinity")
        accepted(ctx, lambda: rt.ToFocus(g), "infinite plane", "a space to the focus")
    elif how == "afocal":
        e = rng.choice((rt.Space(d=abs(f)), rt.MatrixGroup([rt.Lens(f=abs(f)), rt.Space(d=2 * abs(f)), rt.Lens(f=abs(f))]), rt.Aperture(diameter=5)))
        refused(ctx, lambda: rt.ToFocus(e), (ValueError,), "infinite plane", "a space to the focus of an afocal system")
    else:
        d = abs(f) * rng.choice((0.4, 1.7, 3.0))
        g = rt.MatrixGroup([rt.Space(d=d), rt.Lens(f=f)])
        s = accepted(ctx, lambda: rt.ToConjugate(g), "infinite plane", "a space to an image")
        if s is not None:
            want = 1 / (1 / f - 1 / d)
            ctx.true(abs(s.L - want) <= 1e-9 * (1 + abs(want)), "values", lambda: "image at %r, expected %r" % (s.L, want))
        s = accepted(ctx, lambda: rt.ToFocus(g), "infinite plane", "a space to the focus")
        if s is not None:
            ctx.true(abs(s.L - f) <= 1e-9 * (1 + abs(f)), "values", lambda: "focus at %r, expected %r" % (s.L, f))
    ctx.nontrivial(("space", how, f))


def rays(ctx, rt, rng):
    """Fans of rays need at least one ray, and random rays have a maximum"""
    N, M = rng.choice((-2, 0, 1, 2, 5)), rng.choice((-1, 0, 1, 3))
    y, a = gen.fl(rng, 0, 10), gen.fl(rng, 0.01, 0.5)
    ctx.input("fans N=%d M=%d y=%r angle=%r" % (N, M, y, a))
    if N < 1:
        refused(ctx, lambda: rt.Ray.fan(y, -a, a, N), (ValueError,), "fan", "a fan of %d rays" % N)
    else:
        r = accepted(ctx, lambda: rt.Ray.fan(y, -a, a, N), "fan", "a fan of %d rays" % N)
        if r is not None:
            want = [-a + i * 2 * a / (N - 1) for i in range(N)] if N > 1 else [-a]
            ctx.true(len(r) == N and all(abs(q.theta - t) <= 1e-9 and q.y == y for q, t in zip(r, want)), "values",
                     lambda: "a fan of %d rays from %r to %r: %s" % (N, -a, a, [(q.y, q.theta) for q in r]))
    if N < 1 or M < 1:
        refused(ctx, lambda: rt.Ray.fanGroup(-y, y, M, -a, a, N), (ValueError,), "fan", "%d fans of %d rays" % (M, N))
    else:
        r = accepted(ctx, lambda: rt.Ray.fanGroup(-y, y, M, -a, a, N), "fan", "%d fans of %d rays" % (M, N))
        if r is not None:
            ts = [-a + i * 2 * a / (N - 1) for i in range(N)] if N > 1 else [-a]
            ys = [-y + i * 2 * y / (M - 1) for i in range(M)] if M > 1 else [-y]
            want = sorted((h, t) for h in ys for t in ts)
            got = sorted((q.y, q.theta) for q in r)
            ctx.true(len(got) == len(want) and np.allclose(got, want, atol=1e-9), "values", lambda: "fans: %s, expected %s" % (got, want))
    c = rng.choice((rt.RandomUniformRays, rt.RandomLambertianRays))
    k = rng.randint(1, 6)
    s = c(yMax=y + 1, yMin=-y, maxCount=k)
    for _ in range(k):
        accepted(ctx, s.randomRay, "random", "one of %d random rays" % k)
    refused(ctx, s.randomRay, (AttributeError,), "random", "one random ray more than %d" % k)
    ctx.true(len(list(s)) == k, "random", "the refused ray changed the number of rays")
    for i in (k, k + 3):
        refused(ctx, lambda: c(yMax=1, yMin=-1, maxCount=k)[i], (IndexError,), "random", "ray %d of %d" % (i, k))
    ctx.nontrivial(("rays", N, M, y, a, k, c.__name__))


def lenses(ctx, rt, rng):
    """Lenses need glasses, materials are lenses' only glasses, wavelengths are micrometers"""
    from raytracing.specialtylenses import SingletLens, AchromatDoubletLens
    from raytracing import materials
    how = rng.choice(("singlet", "doublet", "material", "wavelength", "shifts", "invariant"))
    ctx.input(how)
    a = dict(f=100, fb=95, R1=60, R2=-60, tc=5, te=2, diameter=20, wavelengthRef=0.5876)
    d = dict(fa=50, fb=45, R1=33.3, R2=-22.28, R3=-291.07, tc1=9, tc2=2.5, te=8.7, diameter=25.4)
    if how == "singlet":
        b = dict(a)
        refused(ctx, lambda: SingletLens(n=None, mat=None, **b), (ValueError,), how, "a lens without index nor material")
    elif how == "doublet":
        k = rng.choice(((None, 1.7), (1.5, None), (None, None)))
        refused(ctx, lambda: AchromatDoubletLens(n1=k[0], n2=k[1], wavelengthRef=0.5876, **d), (ValueError,), how, "a doublet with the indices %s" % (k,))
    elif how == "material":
        refused(ctx, lambda: rng.choice((materials.Material, materials.Material())).n(0.5), (TypeError,), how, "the index of no particular material")
        refused(ctx, lambda: materials.Material.findByName(rng.choice(("nothing", "", "BK", "N-BK", "SF1234"))), (ValueError,), how, "an unknown glass")
    elif how == "wavelength":
        cls = rng.choice([c for c in vars(materials).values() if isinstance(c, type) and issubclass(c, materials.Material) and c.__name__ not in ("Material", "Air")])
        w = rng.choice((500, 632.8, 1064, rng.uniform(101, 5000), -0.5, 0))
        refused(ctx, lambda: cls().n(w), (ValueError,), how, "the index of %s at %r" % (cls.__name__, w)) if w > 100 else None
        accepted(ctx, lambda: cls().n(rng.uniform(0.45, 1.5)), how, "the index of %s" % cls.__name__)
    elif how == "shifts":
        from raytracing import thorlabs, eo
        lens = rng.choice((thorlabs.AC254_050_A, thorlabs.AC254_100_A, eo.PN_33_922, thorlabs.AC508_100_A))()
        accepted(ctx, lambda: lens.focalShifts(), how, "focal shifts")
        lens.designFocalLength = None
        refused(ctx, lambda: lens.focalShifts(), (ValueError,), how, "focal shifts without design focal length")
    else:
        f = gen.fl(rng, 3, 20)
        o = rt.Objective(f=f, NA=0.5, focusToFocusLength=60, backAperture=10, workingDistance=2, magnification=10, label="o")
        refused(ctx, lambda: o.maximumOpticalInvariant(), (AttributeError,), how, "the largest invariant without field number") if hasattr(o, "maximumOpticalInvariant") else None
    ctx.nontrivial(("lens", how, rng.random()))
