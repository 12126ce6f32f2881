"""C04 blocking of rays by apertures"""
import math

from rtmon import gen, model, oracle


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    if rng.random() < 0.25:
        return edges(ctx, rt)
    kinds = ["space"] * 4 + ["lens"] * 3 + ["aperture"] * 2 + ["interface", "thick", "slab", "mirror", "matrix", "axicon"]
    o = gen.Options(long=0.02, kinds=kinds, minN=2, maxN=rng.choice((4, 9)), pDia=0.8, NA=True, matrixL=True, indices=rng.random() < 0.5)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    ctx.input(gen.show(specs))
    group = rng.choice((rt.MatrixGroup, rt.ImagingPath))(gen.buildAll(specs))
    before = oracle.snapSystem(group)
    kinds = set()
    rays, wants = [], []
    for _ in range(8):
        y, t = gen.ray(rng, 25.0, 0.4)
        want, closest = model.trace(ls, y, t, 0.0)
        if closest < 1e-9:
            continue
        cut = oracle.exitCut(ls, y, t)
        if cut is not None:
            # what follows is finding exit-aperture; up to there the trace is judged
            want, _ = model.trace(ls[:cut], y, t, 0.0)
            if want[-1].blocked:
                raise RuntimeError("model")
            tr = group.trace(rt.Ray(y, t))
            oracle.traceIs(ctx, tr, want, "blocking", "Ray(%r, %r)" % (y, t), prefix=True)
            ctx.observe("leave beyond the aperture of a thick element")
            continue
        r = rt.Ray(y, t)
        tr = group.trace(r)
        what = "Ray(%r, %r)" % (y, t)
        oracle.traceIs(ctx, tr, want, "blocking", what)
        blocked = want[-1].blocked
        ctx.true(bool(tr[-1].isBlocked) == blocked, "blocking:last", lambda: "%s: blocked=%r at the end, expected %r" % (what, tr[-1].isBlocked, blocked))
        last = group.traceThrough(r)
        ctx.true(bool(last.isBlocked) == blocked, "blocking:through", lambda: "%s: traceThrough blocked=%r, expected %r" % (what, last.isBlocked, blocked))
        ctx.true(not r.isBlocked, "blocking:input", what + ": the input ray was marked as blocked")
        flags = [bool(x.isBlocked) for x in tr]
        ctx.true(flags == sorted(flags), "blocking:stays", lambda: "%s: unblocked after being blocked: %s" % (what, flags))
        if blocked:
            ctx.observe("blocked rays")
            where = want[-1].z
            z = where + rng.uniform(1e-3, 5)
            ctx.true(rt.Ray.along(tr, z).isBlocked, "blocking:along", what + ": not blocked along z=%r, beyond the aperture at %r" % (z, where))
        else:
            ctx.observe("transmitted rays")
        kinds.add(blocked)
        rays.append((y, t))
        wants.append(want)
        # a ray that arrives blocked stays blocked, and where it was
        if rng.random() < 0.2:
            b = rt.Ray(y, t, z=1.5, isBlocked=True)
            out = group.trace(b)
            ctx.true(all(x.isBlocked for x in out) and (out[-1].y, out[-1].theta, out[-1].z) == (y, t, 1.5), "blocking:arrives-blocked",
                     lambda: "%s arriving blocked: %s" % (what, oracle.points(out)))
            ctx.observe("rays that arrive blocked")
    if rays:
        # what many-ray tracing keeps
        out = group.traceManyThrough([rt.Ray(y, t) for y, t in rays], progress=False)
        expected = [w[-1] for w in wants if not w[-1].blocked]
        ctx.true(len(out) == len(expected), "blocking:many", lambda: "%d of %d rays transmitted, expected %d" % (len(out), len(rays), len(expected)))
    ctx.true(oracle.snapSystem(group) == before, "blocking:system-modified", "tracing modified the elements")
    if len(kinds) == 2:
        ctx.nontrivial((gen.kindsOf(specs), rays))


def edges(ctx, rt):
    """Rays exactly at, and one float beyond, the edge of an aperture or the limit angle."""
    rng = ctx.rng
    dia = rng.choice((1.0, 2.5, 8.0, 25.0, 40.0))
    d = rng.choice((4.0, 8.0, 16.0, 32.0))
    na = rng.choice((0.125, 0.25, 0.5))
    kind = rng.choice(("lens", "aperture", "interface", "thick", "matrix", "NA", "space", "slab", "mirror", "axicon"))
    s = {"lens": {"k": "lens", "f": 16.0, "dia": dia}, "aperture": {"k": "aperture", "dia": dia},
         "interface": {"k": "interface", "n1": 1.0, "n2": 1.5, "R": 40.0, "dia": dia},
         "thick": {"k": "thick", "n": 1.5, "R1": 40.0, "R2": -40.0, "t": 1.0, "dia": dia},
         "matrix": {"k": "matrix", "A": 1.0, "B": 0.0, "C": -0.125, "D": 1.0, "nf": 1.0, "nb": 1.0, "dia": dia},
         "NA": {"k": "aperture", "dia": 1000.0, "NA": na},
         "space": {"k": "space", "d": 4.0, "n": 1.0, "dia": dia}, "slab": {"k": "slab", "n": 1.5, "t": 1.0, "dia": dia},
         "mirror": {"k": "mirror", "R": -64.0, "dia": dia}, "axicon": {"k": "axicon", "n": 1.5, "alpha": 0.0625, "dia": dia}}[kind]
    sgn = rng.choice((-1, 1))
    for beyond in (False, True):
        if kind == "NA":
            t = math.nextafter(na, 1) if beyond else na
            y = -d * t if rng.random() < 0.5 else 0.0
            y, t = sgn * y, sgn * t
        else:
            h = math.nextafter(dia / 2, 1e9) if beyond else dia / 2
            # a ray converging to the axis stays inside of a thick element
            y, t = sgn * h, 0.0
            if kind in ("thick", "slab", "space"):
                t = -sgn * 2.0 ** -4
        specs = [s]
        if t == 0.0 and rng.random() < 0.7:
            specs = [{"k": "space", "d": d, "n": 1.0}, s]
        after = [{"k": "space", "d": 4.0, "n": s.get("n2", 1.0)}]
        ctx.input("edge of %s, beyond=%r: %s Ray(%r, %r)" % (kind, beyond, gen.show(specs + after), y, t))
        group = rt.ImagingPath(gen.buildAll(specs + after))
        tr = group.trace(rt.Ray(y, t))
        ctx.true(bool(tr[-1].isBlocked) == beyond, "edge:" + kind, lambda: "ray at %r, %r: blocked=%r, expected %r" % (y, t, tr[-1].isBlocked, beyond))
        one = gen.build(s)
        if len(specs) == 1:
            ctx.true(bool((one * rt.Ray(y, t)).isBlocked) == beyond, "edge:" + kind, "element * ray: blocked is not %r" % beyond)
        ctx.observe("rays at the edge")
    ctx.nontrivial(("edge", kind, dia, d, na, sgn))


def known(ctx):
    import raytracing as rt
    s = rt.Space(2, diameter=5)
    ctx.input("Space(2, diameter=5).trace(Ray(2, 2))")
    tr = s.trace(rt.Ray(2, 2))
    if not tr[-1].isBlocked:
        ctx.fail("exit-aperture", "a ray leaves an element of finite length at y=6, beyond its aperture (2.5), unblocked")
