"""C07 field stop, field of view, principal ray, Lagrange invariant"""
import math
import warnings

from rtmon import gen, model, oracle
from rtmon.checks import c06
from rtmon.core import isclose

INF = gen.INF
PRECISION = 1e-6
MAX = 1e4


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = c06.generate(rng, rng.choice((0.3, 0.6, 0.9)))
    ls = model.leaves(specs)
    ctx.input(gen.show(specs))
    path = rt.ImagingPath(gen.buildAll(specs))
    judge(ctx, path, ls)
    if rng.random() < 0.25:
        objs = oracle.leafObjects(path)
        i = rng.randrange(len(objs))
        d = rng.choice((INF, gen.fl(rng, 1, 20)))
        objs[i].apertureDiameter = d
        ls[i] = ls[i].copy(dia=d)
        ctx.input(gen.show(specs) + "; then diameter of leaf %d is %r" % (i, d))
        ctx.observe("diameters changed between questions")
        judge(ctx, path, ls)


def judge(ctx, path, ls):
    import raytracing as rt
    rng = ctx.rng
    p = model.product(ls)
    ps = c06.planes(ls)
    best = c06.limiting(ls)
    snap = oracle.snapSystem(path)
    if not best or len(set((round(q[0], 6), q[1]) for q in best)) > 1:
        none = not ps or not best
        if none:
            ctx.observe("no aperture stop")
            ctx.true(not path.hasFieldStop() and path.fieldStop().z is None, "none", "a field stop without an aperture stop: %r" % (path.fieldStop(),))
            ctx.true(path.fieldOfView() == INF and path.halfFieldOfView() == INF, "none", "finite field of view without an aperture stop")
            ctx.true(path.principalRay() is None, "none", "principal ray without field stop")
            ctx.true(path.lagrangeInvariant() == INF, "none", "Lagrange invariant without stops")
        else:
            ctx.observe("several possible aperture stops (not judged)")
        return
    zs, Ds, As, Bs, _ = best[0]
    if abs(Bs) < 1e-2 or abs(As) > 1e3 or abs(As / Bs) > 1e3:
        ctx.observe("stop close to an image of the object (not judged)")
        return
    entry, exits = [], []
    for z, D, A, B, isExit in ps:
        h = A - B * As / Bs
        if abs(h) < 1e-7:
            continue
        (exits if isExit else entry).append((D / 2 / abs(h), z, D))
    limit = min([e[0] for e in entry], default=INF)
    if limit < 1e-3 or 0.98 * MAX < limit < 1.02 * MAX:
        ctx.observe("limit out of the range of the search (not judged)")
        return
    if min([e[0] for e in exits], default=INF) < limit * (1 + 1e-6) + 1e-4:
        ctx.observe("field limited at the exit of a thick element (not judged)")
        return
    field = path.fieldStop()
    half = path.halfFieldOfView()
    fov = path.fieldOfView()
    principal = path.principalRay()
    tol = 8 * PRECISION
    if limit > MAX:
        ctx.observe("infinite fields of view")
        ctx.true(field.z is None and field.diameter == INF and not path.hasFieldStop(), "infinite", lambda: "field stop %r, the limit is at %r" % (field, limit))
        ctx.true(half == INF and fov == INF, "infinite", lambda: "field of view %r, the limit is at %r" % (fov, limit))
        ctx.true(principal is None, "infinite", "principal ray with an infinite field of view")
        ctx.true(path.lagrangeInvariant() == INF, "infinite", "finite Lagrange invariant")
        ctx.raises(ValueError, lambda: path.chiefRay(), "infinite", "chief ray of the edge of an infinite field")
        if abs(p.D) > 1e-3:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ctx.true(path.imageSize() == INF, "infinite", lambda: "image size %r" % path.imageSize())
        return
    ctx.observe("finite fields of view")
    zscale = 1 + abs(p.L)
    near = [e for e in entry if e[0] <= limit + 20 * PRECISION + 1e-9 * limit]
    ctx.true(any(isclose(field.z, e[1], scale=zscale) and isclose(field.diameter, e[2]) for e in near), "fieldStop",
             lambda: "field stop %r, expected one of %r" % (field, near))
    ctx.true(path.hasFieldStop(), "fieldStop", "hasFieldStop is false")
    ctx.close(half, limit, "half", "half field of view", abs_=tol)
    ctx.close(fov, 2 * limit, "fov", "field of view", abs_=2 * tol)
    # the principal ray is the chief ray of the edge of the field
    r = principal
    ctx.close(r.y, limit, "principal", "height of the principal ray", abs_=tol)
    ctx.close(As * r.y + Bs * r.theta, 0, "principal", "height of the principal ray at the aperture stop", scale=1 + abs(As * r.y), abs_=1e-9)
    c = path.chiefRay()
    ctx.close(c.y, r.y, "principal", "height of the chief ray of the edge", abs_=tol)
    ctx.close(c.theta, r.theta, "principal", "angle of the chief ray of the edge", abs_=2 * tol * abs(As / Bs))
    # real rays: inside of the field the chief rays go through, outside they do not
    i = limit * 0.999 - 1e-5
    o = limit * 1.001 + 1e-5
    for y, out in ((i * rng.random(), False), (i, False), (-i, False), (o, True), (-o, True)):
        tr = path.trace(path.chiefRay(y))
        ctx.true(bool(tr[-1].isBlocked) == out, "rays", lambda: "chief ray from %r (limit %r): blocked=%r" % (y, limit, tr[-1].isBlocked))
    ctx.observe("chief rays traced", 5)
    if len(near) == 1 and all(e[0] > limit * 1.0011 + 2e-5 for e in entry if e is not near[0]):
        tr = path.trace(path.chiefRay(o))
        ctx.close(tr[-1].z, near[0][1], "rays", "where the chief ray outside of the field is blocked", scale=zscale)
        ctx.observe("field stops shown by real rays")
    axial = path.axialRay()
    ctx.close(path.lagrangeInvariant(), p.nf * axial.theta * limit, "lagrange", "Lagrange invariant", rel=1e-6, abs_=2 * tol * p.nf * axial.theta + 1e-12)
    if abs(p.D) > 1e-3 and abs(p.A * p.D - p.B * p.C) > 1e-3:
        m = abs(p.A - p.B / p.D * p.C)
        ctx.close(path.imageSize(), 2 * limit * m, "imageSize", "image size", rel=1e-6, abs_=4 * tol * m + 1e-9)
        ctx.observe("image sizes")
    ctx.true(oracle.snapSystem(path) == snap, "modified", "the questions modified the system")
    ctx.nontrivial((gen.kindsOf([l.spec for l in ls]), round(limit, 5)))
