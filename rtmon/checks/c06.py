"""C06 aperture stop, entrance pupil, axial, marginal and chief rays, NA and f-number"""
import math

from rtmon import gen, model, oracle
from rtmon.core import Skip, isclose

INF = gen.INF
KINDS = ["space"] * 5 + ["lens"] * 4 + ["aperture", "aperture", "interface", "interface", "thick", "slab", "mirror", "matrix"]


def planes(ls):
    """Every plane where an aperture stands: (z, diameter, A, B, exit)"""
    out = []
    m = (1.0, 0.0, 0.0, 1.0)
    z = 0.0
    for l in ls:
        if not math.isinf(l.dia):
            out.append((z, l.dia, m[0], m[1], False))
        m = model.mul((l.A, l.B, l.C, l.D), m)
        z += l.L
        if l.L > 0 and not math.isinf(l.dia):
            out.append((z, l.dia, m[0], m[1], True))
    return out


def limiting(ls, tol=1e-9):
    """The planes with the largest ratio of the height of an axial ray to the diameter."""
    ps = [p for p in planes(ls) if abs(p[3]) > 1e-9]
    if not ps:
        return []
    best = max(abs(p[3]) / p[1] for p in ps)
    return [p for p in ps if abs(p[3]) / p[1] > best * (1 - tol)]


def thin(s):
    """Two planes at the same place are the same plane: an element without length only changes angles"""
    if s["k"] == "group":
        return {"k": "group", "e": [thin(e) for e in s["e"]]}
    if s["k"] == "matrix" and not s.get("L"):
        return dict(s, A=1.0, B=0.0, D=s["nf"] / s["nb"])
    return s


def generate(rng, pDia=0.6, kinds=None):
    o = gen.Options(kinds=kinds or KINDS, minN=2, maxN=rng.choice((4, 7, 11)), pDia=pDia, indices=rng.random() < 0.4, matrixL=rng.random() < 0.5)
    specs = [thin(s) for s in gen.system(rng, o)]
    if rng.random() < 0.8 and specs and specs[0]["k"] != "space":
        first = specs[0]
        while first["k"] == "group":
            first = first["e"][0]
        n = {"interface": lambda: first["n1"], "matrix": lambda: first["nf"], "space": lambda: first["n"]}.get(first["k"], lambda: 1.0)()
        specs.insert(0, {"k": "space", "d": gen.fl(rng, 2, 60), "n": n})
    return specs


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = generate(rng, rng.choice((0.0, 0.15, 0.5, 0.9)))
    ls = model.leaves(specs)
    p = model.product(ls)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    if rng.random() < 0.15:
        path = rt.ImagingPath(rt.MatrixGroup(elements).elements)
    else:
        path = rt.ImagingPath(elements)
    judge(ctx, path, ls, p)
    # change one aperture: the answers follow
    if rng.random() < 0.5:
        objs = oracle.leafObjects(path)
        i = rng.randrange(len(objs))
        d = rng.choice((INF, gen.fl(rng, 1, 20)))
        objs[i].apertureDiameter = d
        ls[i] = ls[i].copy(dia=d)
        ctx.input(gen.show(specs) + "; then diameter of leaf %d is %r" % (i, d))
        ctx.observe("diameters changed between questions")
        judge(ctx, path, ls, p)


def judge(ctx, path, ls, p):
    import raytracing as rt
    rng = ctx.rng
    snap = oracle.snapSystem(path)
    finite = [q for q in planes(ls)]
    stop = path.apertureStop()
    z, dia = stop
    ctx.true(path.hasFiniteApertureDiameter() == bool(finite), "finite", "hasFiniteApertureDiameter is not %r" % bool(finite))
    if not finite:
        ctx.observe("systems without aperture")
        ctx.true(z is None and dia == INF, "stop:none", "stop %r in a system without apertures" % (stop,))
        ctx.true(not path.hasApertureStop(), "stop:none", "hasApertureStop in a system without apertures")
        ctx.true(path.chiefRay(1.0) is None and path.axialRay() is None and tuple(path.marginalRays()) == (None, None)
                 and path.NA() is None and path.fNumber() is None and tuple(path.entrancePupil()) == (None, None), "stop:none", "rays, pupil, NA or f-number without aperture")
        return
    best = limiting(ls)
    if not best:
        ctx.observe("no aperture limits the cone")
        return
    zs = 1 + abs(p.L)
    same = [q for q in best if isclose(z, q[0], scale=zs) and isclose(dia, q[1])]
    if not ctx.true(bool(same), "stop", lambda: "stop %r, expected one of %r" % (stop, [(q[0], q[1]) for q in best])):
        return
    ctx.true(path.hasApertureStop(), "stop", "hasApertureStop is false, stop at %r" % (stop,))
    ctx.observe("aperture stops")
    zz, D, A, B, isExit = same[0]
    atExit = all(q[4] for q in best)
    if abs(B) < 1e-3 or abs(A) > 1e3:
        ctx.observe("stop close to an image of the object")
        return

    # marginal rays: they hit the edges of the stop
    y0 = rng.choice((0.0, gen.ray(rng, 5.0)[0]))
    up, down = path.marginalRays(y0)
    s = 1 + abs(A * y0) + D
    for r, name in ((up, "up"), (down, "down")):
        ctx.true(r.y == y0 and r.z == 0, "marginal", "marginal ray does not start at the object: %s" % oracle.points([r]))
        ctx.close(abs(A * r.y + B * r.theta), D / 2, "marginal", "height at the stop of marginal ray (%s) from y=%r" % (name, y0), scale=s)
    ctx.true(up.theta >= down.theta, "marginal", "marginal rays: up %r is below down %r" % (up.theta, down.theta))
    ctx.close((A * y0 + B * up.theta), -(A * y0 + B * down.theta), "marginal", "heights at the stop of the marginal rays", scale=s)
    ctx.observe("marginal rays", 2)
    axial = path.axialRay()
    ctx.close(axial.theta, abs(D / 2 / B), "axial", "angle of the axial ray", scale=1e-3)
    ctx.true(axial.y == 0, "axial", "the axial ray starts at %r" % axial.y)
    if rng.random() < 0.5:
        a, b = path.marginalRays()
        ctx.close(a.theta, -b.theta, "axial", "angles of the axial rays")
        ctx.close(a.theta, axial.theta, "axial", "angles of the axial rays")
    ctx.close(path.NA(), p.nf * math.sin(abs(D / 2 / B)), "NA", "object-side numerical aperture", scale=1e-3)

    # it limits the cone of the real rays
    t = axial.theta
    if not atExit and t < 1e3:
        inside = path.trace(rt.Ray(0, t * 0.9999))
        ctx.true(not inside[-1].isBlocked, "limits", "an on-axis ray inside the cone is blocked at z=%r (stop %r)" % (inside[-1].z, stop))
        outside = path.trace(rt.Ray(0, -t * 1.0001))
        ctx.true(bool(outside[-1].isBlocked), "limits", "an on-axis ray outside of the cone is not blocked (stop %r)" % (stop,))
        if len(limiting(ls, 3e-4)) == 1:
            ctx.close(outside[-1].z, z, "limits", "where the on-axis ray just outside of the cone is blocked", scale=zs)
        ctx.observe("cones checked with real rays")

    # the chief ray crosses the axis at the stop
    yc = rng.choice((1.0, -2.0, gen.ray(rng, 5.0)[0]))
    chief = path.chiefRay(yc)
    ctx.true(chief is not None and chief.y == yc, "chief", "chief ray %r" % (chief,))
    ctx.close(A * yc + B * chief.theta, 0.0, "chief", "height of the chief ray at the stop", scale=abs(A * yc) + 1, abs_=1e-9)
    ctx.observe("chief rays")

    # the entrance pupil is the image of the stop by what stands before
    pupil = path.entrancePupil()
    if abs(A) > 1e-4:
        ctx.close(pupil.z, B / A, "pupil", "position of the entrance pupil", scale=1 + abs(B / A))
        ctx.close(pupil.diameter, D / abs(A), "pupil", "diameter of the entrance pupil")
        ctx.observe("entrance pupils")
        if abs(p.C) > 1e-4:
            ctx.close(path.fNumber(), -(p.nf / p.nb) / p.C * abs(A) / D, "fNumber", "f-number", rel=1e-8)
            ctx.observe("f-numbers")
    ctx.true(oracle.snapSystem(path) == snap, "modified", "the questions modified the system")
    ctx.nontrivial((gen.kindsOf([l.spec for l in ls]), round(z, 6), dia))
    if len(finite) > 1:
        ctx.observe("stops among several apertures")
