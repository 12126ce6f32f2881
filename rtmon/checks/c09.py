"""C09 focal lengths, principal planes, focal points"""
import math

from rtmon import gen, model, oracle
from rtmon.core import isclose

INF = gen.INF


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    kinds = None
    if rng.random() < 0.15:
        kinds = ["space", "space", "slab", "aperture", "interface0"]
    o = gen.Options(kinds=[k for k in (kinds or ["space"] * 3 + ["lens"] * 2 + ["interface", "thick", "slab", "aperture", "mirror", "matrix"]) if k != "interface0"],
                    minN=1, maxN=rng.choice((1, 2, 5, 9)), pDia=0.3, indices=rng.random() < 0.6, matrixL=True)
    specs = gen.system(rng, o)
    if rng.random() < 0.1:
        # afocal telescope
        f1, f2 = gen.fl(rng, 5, 100), gen.fl(rng, 5, 100)
        specs = [{"k": "lens", "f": f1}, {"k": "space", "d": f1 + f2, "n": 1.0}, {"k": "lens", "f": f2}]
    ls = model.leaves(specs)
    p = model.product(ls)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    how = rng.random()
    if len(elements) == 1 and how < 0.8:
        system = elements[0]
    elif how < 0.3 and len(elements) > 1:
        system = elements[0]
        for e in elements[1:]:
            system = e * system
    else:
        system = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))(elements)
    snap = oracle.snapSystem(system)
    z = rng.choice((0, 0.0, 10.0, -3.5, rng.uniform(-50, 50)))
    if abs(p.C) < 1e-8:
        ctx.observe("systems without power")
        ctx.true(not system.hasPower, "hasPower", "has power, C=%r" % p.C)
        ctx.true(tuple(system.effectiveFocalLengths()) == (INF, INF) and tuple(system.focalDistances()) == (INF, INF), "noPower", "finite focal lengths without power")
        ctx.true(tuple(system.principalPlanePositions(z)) == (None, None) and tuple(system.focusPositions(z)) == (None, None), "noPower", "principal planes or focal points without power")
        ctx.true(system.backFocalLength() is None and system.frontFocalLength() is None, "noPower", "back or front focal length without power")
        ctx.raises(ValueError, lambda: rt.ToFocus(system), "noPower", "space up to a focal point at infinity")
        return
    if abs(p.C) < 2e-5:
        ctx.observe("power close to the threshold (not judged)")
        return
    ctx.observe("systems with power")
    ctx.true(system.hasPower, "hasPower", "no power, C=%r" % p.C)
    s = max(1.0, abs(p.A), abs(p.B), abs(p.D))
    relC = s * 1e-12 / abs(p.C) + 1e-9    # relative error of C
    c = model.cardinal(p)
    big = (s + 1) / abs(p.C) + abs(p.L) + abs(z)
    tol = dict(rel=max(1e-9, relC), scale=big)
    for name, pair in (("effectiveFocalLengths", system.effectiveFocalLengths()), ("focalDistances", system.focalDistances())):
        ctx.close(pair[0], c["f1"], "focal", name + " (front)", **tol)
        ctx.close(pair[1], c["f2"], "focal", name + " (back)", **tol)
        ctx.close(pair[1] / pair[0], p.nb / p.nf, "focal", name + ": ratio of the focal lengths", rel=1e-8)
    h = system.principalPlanePositions(z)
    ctx.close(h[0], z + c["H1"], "principal", "front principal plane", **tol)
    ctx.close(h[1], z + c["H2"], "principal", "back principal plane", **tol)
    f = system.focusPositions(z)
    ctx.close(f[0], z + c["F1"], "focus", "front focal point", **tol)
    ctx.close(f[1], z + c["F2"], "focus", "back focal point", **tol)
    bfl, ffl = system.backFocalLength(), system.frontFocalLength()
    if getattr(system, "backVertex") is None:
        ctx.true(bfl is None, "bfl", "back focal length %r without a vertex" % (bfl,))
    else:
        if p.bv is not None or len(specs) == 1:
            ctx.close(bfl, c["F2"] - (p.bv if p.bv is not None else 0), "bfl", "back focal length", **tol)
    if getattr(system, "frontVertex") is None:
        ctx.true(ffl is None, "ffl", "front focal length %r without a vertex" % (ffl,))
    elif p.fv is not None:
        ctx.close(ffl, p.fv - c["F1"], "ffl", "front focal length", **tol)
    # real rays: parallel rays meet at the back focal point, rays from the front focal point leave parallel
    wide = [e for e in gen.buildAll(specs)]
    for e in oracle.leafObjects(rt.MatrixGroup(wide)):
        e.apertureDiameter = INF
        e.apertureNA = INF
    open_ = rt.MatrixGroup(wide)
    y = rng.uniform(0.1, 2.0)
    r = open_ * rt.Ray(y, 0)
    ctx.close(r.y + (c["F2"] - p.L) * r.theta, 0, "rays", "height at the back focal point of a parallel ray", rel=max(1e-8, relC), scale=s * y + abs(r.theta) * big)
    ctx.close(-y / r.theta, f[1] - h[1], "rays", "back focal length by a ray", **tol)
    t = 0.01
    r = open_ * rt.Ray(-c["F1"] * t, t)    # starts at the front focal point
    ctx.close(r.theta, 0, "rays", "angle after the system of a ray from the front focal point", rel=max(1e-8, relC), scale=s * t + abs(p.C * c["F1"] * t))
    ctx.observe("rays through focal points", 2)
    # up to the focal point
    if big < 1e5:
        sp = rt.ToFocus(system)
        ctx.close(sp.L, c["F2"] - p.L, "ToFocus", "space up to the focal point", **tol)
        ctx.close(sp.frontIndex, p.nb, "ToFocus", "index of the space up to the focal point")
        ctx.close((sp * system).A, 0, "ToFocus", "A up to the focal point", rel=max(1e-8, relC), scale=s + abs(p.C) * big)
        g = system.fromFocusToFocus()
        ctx.close(g.A, 0, "fromFocusToFocus", "A from focus to focus", rel=max(1e-8, relC), scale=s + abs(p.C) * big)
        ctx.close(g.D, 0, "fromFocusToFocus", "D from focus to focus", rel=max(1e-8, relC), scale=s + abs(p.C) * big)
        ctx.close(g.C, p.C, "fromFocusToFocus", "C from focus to focus", scale=s)
        ctx.close(g.L, c["F2"] - c["F1"], "fromFocusToFocus", "length from focus to focus", **tol)
        ctx.close(g.frontIndex, p.nf, "fromFocusToFocus", "front index")
        ctx.close(g.backIndex, p.nb, "fromFocusToFocus", "back index")
        ctx.observe("spaces up to the focal points")
    ctx.true(oracle.snapSystem(system) == snap, "modified", "the questions modified the system")
    ctx.nontrivial((gen.kindsOf(specs), round(p.C, 8)))
