"""C08 conjugate planes, magnification and images"""
import math
import warnings

from rtmon import gen, model, oracle
from rtmon.core import Skip, isclose

INF = gen.INF


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    if rng.random() < 0.05:
        return farImages(ctx, rt)
    o = gen.Options(minN=1, maxN=rng.choice((3, 6, 10)), pDia=0.4, indices=rng.random() < 0.6, matrixL=True)
    specs = gen.system(rng, o)
    # systems that image exactly, or are afocal, or have the object at the focus
    special = rng.random()
    if special < 0.35:
        f = gen.fl(rng, 5, 100)
        d = rng.choice((2.0, 1.5, 3.0, 0.5, rng.uniform(1.1, 4))) * f
        which = rng.choice(("image", "focus", "4f", "to focus"))
        if which == "image":
            specs = [{"k": "space", "d": d, "n": 1.0}, {"k": "lens", "f": f}, {"k": "space", "d": f * d / (d - f), "n": 1.0}] if d > f else specs
        elif which == "focus":
            specs = [{"k": "space", "d": f, "n": 1.0}, {"k": "lens", "f": f}]
        elif which == "to focus":
            specs = [{"k": "lens", "f": f}, {"k": "space", "d": f, "n": 1.0}]
        else:
            f2 = gen.fl(rng, 5, 100)
            specs = [{"k": "space", "d": f, "n": 1.0}, {"k": "lens", "f": f}, {"k": "space", "d": f + f2, "n": 1.0}, {"k": "lens", "f": f2},
                     {"k": "space", "d": f2, "n": 1.0}]
        ctx.observe("special systems")
    ls = model.leaves(specs)
    p = model.product(ls)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    single = len(elements) == 1 and rng.random() < 0.7
    system = elements[0] if single else rng.choice((rt.MatrixGroup, rt.ImagingPath))(elements)
    snap = oracle.snapSystem(system)
    n1, n2 = p.nf, p.nb
    s = max(1.0, abs(p.A), abs(p.B), abs(p.C), abs(p.D))
    det = n1 / n2

    # forward: after that distance, every ray from a point of the object is at the same height
    if abs(p.D) > 1e-4 * max(1.0, s / 100):
        d, m = system.forwardConjugate()
        want = -p.B / p.D
        tol = dict(rel=1e-7, scale=s / abs(p.D))
        ctx.close(d, want, "forward", "distance of the image", **tol)
        mag = det / p.D
        ctx.close(m.A, mag, "forward", "magnification of the image", rel=1e-7, scale=s * s / abs(p.D))
        ctx.close(m.B, 0.0, "forward", "B of the conjugate matrix", rel=1e-7, scale=s * (1 + abs(d)))
        ctx.close(m.C, p.C, "forward", "C of the conjugate matrix", scale=s)
        ctx.close(m.D, p.D, "forward", "D of the conjugate matrix", scale=s)
        ctx.close(m.L, p.L + want, "forward", "length of the conjugate matrix", rel=1e-7, scale=1 + abs(p.L) + s / abs(p.D))
        ctx.close(m.frontIndex, n1, "forward:index", "front index of the conjugate matrix")
        ctx.close(m.backIndex, n2, "forward:index", "back index of the conjugate matrix")
        ctx.observe("forward conjugates")
        # real rays
        if model.product([l.copy(dia=INF, NA=INF) for l in ls]) is not None:
            h = gen.ray(rng, 2.0)[0]
            ys = []
            for t in (-0.01, 0.0, 0.013):
                r = system * rt.Ray(h, t) if not hasattr(system, "elements") else rt.MatrixGroup([x for x in system.elements]) * rt.Ray(h, t)
                ys.append(r.y + d * r.theta)
            for y in ys:
                ctx.close(y, mag * h, "forward:rays", "height at the image of a ray from %r" % h, rel=1e-7, scale=s * (1 + abs(d)))
        # a space up to the image
        try:
            sp = rt.ToConjugate(system)
            ctx.close(sp.L, want, "ToConjugate", "space up to the image", **tol)
            ctx.close(sp.frontIndex, n2, "ToConjugate", "index of the space up to the image")
            both = rt.MatrixGroup([system, sp]) if abs(sp.B) < 1e7 else None
            if both is not None:
                ctx.close(both.B, 0, "ToConjugate", "B of the system with the space up to the image", rel=1e-7, scale=s * (1 + abs(d)))
                if s * (1 + abs(d)) < 1e5:
                    ctx.true(both.isImaging, "ToConjugate", lambda: "the system with the space up to the image is not imaging (B=%r)" % both.B)
            ctx.observe("spaces up to the image")
        except ValueError:
            ctx.fail("ToConjugate", "rejected, the image is at %r" % want)
        if hasattr(system, "imageSize"):
            hgt = gen.fl(rng, 0, 20)
            system.objectHeight = hgt
            ctx.close(system.imageSize(useObject=True), abs(hgt * mag), "imageSize", "image size of an object of %r" % hgt, rel=1e-7, scale=s * s / abs(p.D))
            ctx.observe("image sizes")
    elif p.D == 0.0 and system.D == 0:
        d, m = system.forwardConjugate()
        ctx.true(math.isinf(d) and m is None, "forward:infinity", "image %r of an object at the focus" % (d,))
        ctx.raises(ValueError, lambda: rt.ToConjugate(system), "ToConjugate:infinity", "space up to infinity")
        if hasattr(system, "imageSize"):
            ctx.true(system.imageSize(useObject=True) == INF, "imageSize", "finite size of an image at infinity")
        ctx.observe("images at infinity")

    # backward: from that distance before, all rays go to a point of the back edge
    if abs(p.A) > 1e-4 * max(1.0, s / 100):
        d, m = system.backwardConjugate()
        want = -p.B / p.A
        ctx.close(d, want, "backward", "distance of the object", rel=1e-7, scale=s / abs(p.A))
        ctx.close(m.A, p.A, "backward", "magnification", scale=s)
        ctx.close(m.B, 0.0, "backward", "B of the conjugate matrix", rel=1e-7, scale=s * (1 + abs(d)))
        ctx.close(m.C, p.C, "backward", "C of the conjugate matrix", scale=s)
        ctx.close(m.D, p.D + p.C * want, "backward", "D of the conjugate matrix", rel=1e-7, scale=s * (1 + abs(d)))
        ctx.close(m.L, p.L + want, "backward", "length of the conjugate matrix", rel=1e-7, scale=1 + abs(p.L) + s / abs(p.A))
        ctx.close(m.frontIndex, n1, "backward:index", "front index of the conjugate matrix")
        ctx.close(m.backIndex, n2, "backward:index", "back index of the conjugate matrix")
        mt, ma = m.magnification()
        ctx.close(mt, p.A, "backward", "transverse magnification", scale=s)
        ctx.observe("backward conjugates")

    # imaging
    if abs(p.B) < 1e-8:
        ctx.true(system.isImaging, "isImaging", "not imaging, B=%r" % p.B)
        mt, ma = system.magnification()
        ctx.close(mt, p.A, "magnification", "transverse magnification", scale=s)
        ctx.close(ma, p.D, "magnification", "angular magnification", scale=s)
        ctx.observe("imaging systems")
    elif abs(p.B) > 1e-3:
        ctx.true(not system.isImaging, "isImaging", "imaging, B=%r" % p.B)
        ctx.true(tuple(system.magnification()) == (None, None), "magnification", "magnification of a system that does not image")
        ctx.observe("systems that do not image")

    # every image of the front plane, seen after each element
    if hasattr(system, "intermediateConjugates"):
        planes = system.intermediateConjugates()
        expected = []
        run = model.Leaf(1, 0, 0, 1)
        doubtful = False
        for i, l in enumerate(ls):
            run = model.product(ls[:i + 1])
            big = max(1.0, abs(run.A), abs(run.B), abs(run.C), abs(run.D))
            if abs(run.D) < 1e-4 * max(1, big / 100):
                if not (run.D == 0):
                    doubtful = True
                continue
            z = run.L - run.B / run.D
            m = (run.nf / run.nb) / run.D
            if abs(z) < 1e-6:
                doubtful = doubtful or z != 0 or True    # the object itself: may be left out
                continue
            expected.append((z, m, big / abs(run.D)))
        for z, m, sc in expected:
            ctx.true(any(isclose(a, z, 1e-6, sc * 10 + abs(p.L), 2e-3) and isclose(b, m, 1e-6, sc * 10, 2e-3) for a, b in planes), "intermediate",
                     lambda: "no plane at %r with magnification %r in %s" % (z, m, planes))
        if not doubtful:
            for a, b in planes:
                ctx.true(any(isclose(a, z, 1e-6, sc * 10 + abs(p.L), 2e-3) and isclose(b, m, 1e-6, sc * 10, 2e-3) for z, m, sc in expected), "intermediate",
                         lambda: "plane at %r with magnification %r, expected %s" % (a, b, expected))
        ctx.observe("intermediate planes", len(planes))
        near = [(planes[i], planes[j]) for i in range(len(planes)) for j in range(i) if abs(planes[i][0] - planes[j][0]) < 1e-7 and abs(planes[i][1] - planes[j][1]) < 1e-7]
        ctx.true(not near, "intermediate", lambda: "the same plane is there twice: %s" % near)
    ctx.true(oracle.snapSystem(system) == snap, "modified", "the questions modified the system")
    if len(specs) > 1:
        ctx.nontrivial((gen.kindsOf(specs), round(p.B, 6)))


def farImages(ctx, rt):
    """Almost at the focus: the image is far away, but it is not at infinity"""
    rng = ctx.rng
    f = gen.sign(rng) * gen.fl(rng, 5, 100)
    off = gen.sign(rng) * 10 ** rng.uniform(-8, -4)
    d = abs(f) * (1 + off)
    ctx.input("object at %r of a lens of f=%r" % (d, f))
    if f < 0:
        # virtual: the lens is there first
        f = -f
        system = rng.choice((rt.MatrixGroup, rt.ImagingPath))([rt.Lens(f=f), rt.Space(d=d)])
        z, m = system.backwardConjugate()
        want = -d / (1 - d / f)
        ctx.close(z, want, "backward", "distance of an object far away", rel=1e-12 / abs(off) + 1e-9)
        ctx.close(m.A, 1 - d / f, "backward", "magnification of an object far away")
    else:
        system = rng.choice((rt.MatrixGroup, rt.ImagingPath))([rt.Space(d=d), rt.Lens(f=f)])
        z, m = system.forwardConjugate()
        want = -d / (1 - d / f)
        ctx.close(z, want, "forward", "distance of an image far away", rel=1e-12 / abs(off) + 1e-9)
        ctx.close(m.A, 1 / (1 - d / f), "forward", "magnification of an image far away", rel=1e-12 / abs(off) + 1e-9)
        sp = rt.ToConjugate(system)
        ctx.close(sp.L, want, "ToConjugate", "space up to an image far away", rel=1e-12 / abs(off) + 1e-9)
    ctx.observe("images far away")
    ctx.nontrivial(("far", f, d))
