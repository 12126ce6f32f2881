"""C27 ready-made systems (2f, 4f, telescope), axicons and sizes do what their names say"""
import math
import warnings

from rtmon import gen, model, oracle

INF = gen.INF


def case(ctx):
    import raytracing as rt
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.rng.choice((fourF, fourF, twoF, axicon, axicon, axiconSystem, axiconSystem, sizes))(ctx, rt, ctx.rng)


def checkMatrix(ctx, g, want, L, what, scale):
    for k, v in zip("ABCD", want):
        ctx.close(getattr(g, k), v, "matrix", "%s of %s" % (k, what), scale=scale)
    ctx.close(g.L, L, "length", "length of %s" % what, scale=L)
    ctx.true(g.frontIndex == 1.0 and g.backIndex == 1.0, "index", "%s is in air" % what)


def fourF(ctx, rt, rng):
    f1, f2 = gen.fl(rng, 1, 300), gen.fl(rng, 1, 300)
    d1, d2 = gen.diameter(rng), gen.diameter(rng)
    cls = rng.choice((rt.System4f, rt.Telescope))
    if rng.random() < 0.3:
        g, d1, d2 = cls(f1, f2), INF, INF
    else:
        g = cls(f1=f1, f2=f2, diameter1=d1, diameter2=d2, label="s")
    flips = rng.choice((0, 0, 1, 2))
    what = "%s(%r, %r, %r, %r) flipped %d times" % (cls.__name__, f1, f2, d1, d2, flips)
    ctx.input(what)
    for _ in range(flips):
        g.flipOrientation()
    if flips % 2:
        f1, f2, d1, d2 = f2, f1, d2, d1
    L, scale = 2 * (f1 + f2), 1 + f2 / f1 + f1 / f2 + f1 + f2
    checkMatrix(ctx, g, (-f2 / f1, 0.0, 0.0, -f1 / f2), L, what, scale * scale)
    ctx.true(g.isImaging and not g.hasPower, "imaging", "%s images its front plane at its back without power" % what)
    m = g.magnification()
    ctx.close(m.transverse, -f2 / f1, "magnification", "magnification of %s" % what)
    ctx.close(m.angular, -f1 / f2, "magnification", "angular magnification of %s" % what)
    ctx.close(g.frontVertex, f1, "vertices", "first lens of %s" % what)
    ctx.close(g.backVertex, L - f2, "vertices", "last lens of %s" % what)
    # rays, with the lenses where they should be
    y, t = gen.ray(rng, 10, 0.2)
    y1 = y + f1 * t
    t1 = t - y1 / f1
    y2 = y1 + (f1 + f2) * t1
    first, second = abs(y1) > d1 / 2, abs(y2) > d2 / 2
    near = min(abs(abs(y1) - d1 / 2), abs(abs(y2) - d2 / 2)) < 1e-9
    if not near:
        system = g if rng.random() < 0.5 else rng.choice((rt.MatrixGroup, rt.ImagingPath))([g])
        tr = system.trace(rt.Ray(y, t))
        r = tr[-1]
        ctx.true(r.isBlocked == (first or second), "blocked", lambda: "Ray(%r, %r) in %s: blocked %s, it meets the lenses at %r and %r" % (y, t, what, r.isBlocked, y1, y2))
        if r.isBlocked:
            ctx.close(next(q for q in tr if q.isBlocked).z, f1 if first else L - f2, "blocked", "place where Ray(%r, %r) is blocked in %s" % (y, t, what), scale=L)
            ctx.observe("rays blocked")
        else:
            s = scale * (abs(y) + abs(t) * scale)
            ctx.close(r.y, -f2 / f1 * y, "ray", "height of Ray(%r, %r) after %s" % (y, t, what), scale=s)
            ctx.close(r.theta, -f1 / f2 * t, "ray", "angle of Ray(%r, %r) after %s" % (y, t, what), scale=s)
            ctx.close(r.z, L, "ray", "place of the image in %s" % what, scale=L)
            # in the Fourier plane, the height is the angle
            z = 2 * f1
            q = rt.Ray.along(tr, z) if tr[0].z <= z else None
            if q is not None:
                ctx.close(q.y, f1 * t, "fourier", "height of Ray(%r, %r) in the Fourier plane of %s" % (y, t, what), scale=s)
            ctx.observe("rays through")
    ctx.observe("4f systems")
    if math.isfinite(d1) or math.isfinite(d2):
        p = rt.ImagingPath([g])
        stop = p.apertureStop()
        # the cone of the axial point: f1·θ at the first lens, f2·(f1/f2)·θ at the second
        if abs(d1 - d2) > 1e-6:
            ctx.close(stop.z, f1 if d1 < d2 else L - f2, "stop", "aperture stop of %s" % what, scale=L)
            ctx.close(stop.diameter, min(d1, d2), "stop", "diameter of the aperture stop of %s" % what)
            ctx.observe("aperture stops")
    ctx.nontrivial((what, y, t))


def twoF(ctx, rt, rng):
    f, d = gen.fl(rng, 1, 300), gen.diameter(rng)
    g = rt.System2f(f) if d == INF else rt.System2f(f=f, diameter=d, label="s")
    what = "System2f(%r, %r)" % (f, d)
    ctx.input(what)
    if rng.random() < 0.4:
        g.flipOrientation()
    checkMatrix(ctx, g, (0.0, f, -1 / f, 0.0), 2 * f, what, 1 + f)
    ctx.close(g.effectiveFocalLengths().f2, f, "focal", "focal length of %s" % what)
    p = g.focusPositions(0)
    ctx.close(p[0], 0.0, "focal", "front focus of %s" % what, scale=f)
    ctx.close(p[1], 2 * f, "focal", "back focus of %s" % what, scale=f)
    y, t = gen.ray(rng, 10, 0.2)
    y1 = y + f * t
    if abs(abs(y1) - d / 2) > 1e-9:
        r = g.traceThrough(rt.Ray(y, t))
        ctx.true(r.isBlocked == (abs(y1) > d / 2), "blocked", lambda: "Ray(%r, %r) in %s: blocked %s, it meets the lens at %r" % (y, t, what, r.isBlocked, y1))
        if not r.isBlocked:
            ctx.close(r.y, f * t, "fourier", "height of Ray(%r, %r) after %s" % (y, t, what), scale=(1 + f) * (abs(y) + f * abs(t)))
            ctx.close(r.theta, -y / f, "fourier", "angle of Ray(%r, %r) after %s" % (y, t, what), scale=(1 + 1 / f) * (abs(y) + f * abs(t)))
            ctx.observe("rays through")
        else:
            ctx.observe("rays blocked")
    if rng.random() < 0.5:
        h = rt.MatrixGroup([g, rt.System2f(f)])
        checkMatrix(ctx, h, (-1.0, 0.0, 0.0, -1.0), 4 * f, "twice " + what, 1 + f)
    ctx.observe("2f systems")
    ctx.nontrivial((what, y, t))


def deviation(n, alpha):
    return (n - 1.0) * alpha


def axicon(ctx, rt, rng):
    """Rays are bent towards the axis by (n−1)α, and cross it along the focal line"""
    alpha, n, d = rng.uniform(0.005, 0.3), rng.uniform(1.1, 2.4), gen.diameter(rng, 0.7)
    a = rt.Axicon(alpha=alpha, n=n, diameter=d, label="a") if d != INF or rng.random() < 0.5 else rt.Axicon(alpha, n)
    flips = rng.choice((0, 0, 1, 2))
    for _ in range(flips):
        a.flipOrientation()
    what = "Axicon(alpha=%r, n=%r, diameter=%r)" % (alpha, n, d)
    ctx.input(what)
    delta = deviation(n, alpha)
    ctx.close(a.deviationAngle(), delta, "deviation", "deviation of %s" % what)
    ctx.true((a.frontIndex, a.backIndex, a.L) == (1.0, 1.0, 0), "axicon", "%s is thin and in air" % what)
    y, t = gen.ray(rng, 20, 0.1)
    if rng.random() < 0.1:
        y = 0.0
    r0 = rt.Ray(y, t)
    blocked = abs(y) > d / 2
    out = (a * r0) if rng.random() < 0.5 else a.trace(r0)[-1]
    if abs(abs(y) - d / 2) > 1e-12:
        ctx.true(out.isBlocked == blocked, "blocked", lambda: "Ray(%r, %r) in %s: blocked %s" % (y, t, what, out.isBlocked))
    if not out.isBlocked:
        want = t - (delta if y > 0 else -delta if y < 0 else 0)
        ctx.close(out.theta, want, "deviation", "angle of Ray(%r, %r) after %s" % (y, t, what), scale=abs(t) + delta)
        ctx.true(out.y == y and out.z == 0, "deviation", "the ray moves in an axicon")
        ctx.observe("rays through axicons")
    ctx.true((r0.y, r0.theta, r0.isBlocked) == (y, t, False), "unchanged", "the ray changed")
    # already blocked rays stay as they are
    b = rt.Ray(y, t, isBlocked=True)
    o = a * b
    ctx.true(o.isBlocked and o.y == y and o.theta == t, "blocked", "a blocked ray changes in %s" % what)
    # parallel rays cross the axis within the focal line, the outermost at its end
    h = gen.fl(rng, 0.01, 20)
    line = a.focalLineLength(h)
    ctx.close(line, h / delta, "focal line", "focal line of %s up to %r" % (what, h))
    ctx.close(a.focalLineLength(yMax=-h), h / delta, "focal line", "focal line of %s up to %r" % (what, -h))
    ctx.true(a.focalLineLength(0) == 0, "focal line", lambda: "focal line of a beam of no size: %r" % a.focalLineLength(0))
    if d != INF:
        ctx.close(a.focalLineLength(), d / 2 / delta, "focal line", "focal line of all of %s" % what)
    for k in (1.0, -1.0, rng.uniform(0, 1)):
        if abs(k * h) <= d / 2 and k != 0:
            s = line * abs(k)
            r = rt.MatrixGroup([a, rt.Space(d=s)]).traceThrough(rt.Ray(k * h, 0))
            ctx.close(r.y, 0.0, "focal line", "height of the ray of height %r at %r after %s" % (k * h, s, what), scale=h)
            ctx.observe("focal lines")
    ctx.nontrivial((what, y, t))


def axiconSystem(ctx, rt, rng):
    """Systems with axicons, elements and groups: point by point"""
    o = gen.Options(minN=1, maxN=3, pDia=0.5, indices=False, groups=True, maxEntry=40.0, dLo=2.0, dHi=80.0)
    parts, objs, flat = [], [], []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.5 or not flat:
            alpha, n, d = rng.uniform(0.01, 0.2), rng.uniform(1.1, 2), gen.diameter(rng, 0.5, 5, 60)
            flat.append(("axicon", alpha, n, d))
            a = rt.Axicon(alpha=alpha, n=n, diameter=d)
            if rng.random() < 0.3:
                a.flipOrientation()
            objs.append(rt.MatrixGroup([a]) if rng.random() < 0.3 else a)
            parts.append("axicon(%r, %r, %r)" % (alpha, n, d))
        else:
            s = gen.system(rng, o, n=1.0)
            # the next part is in air
            if gen.backIndex({"k": "group", "e": s}, 1.0) != 1.0:
                continue
            flat.append(("leaves", model.leaves(s)))
            es = gen.buildAll(s)
            if rng.random() < 0.3:
                es = [rt.MatrixGroup(es)]
            objs.extend(es)
            parts.append(gen.show(s))
    y, t = gen.ray(rng, 8, 0.1)
    what = "[%s]" % ", ".join(parts)
    ctx.input(what + " Ray(%r, %r)" % (y, t))
    cls = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
    g = cls(objs)
    z, y1, t1, margin, blocked, big = 0.0, y, t, INF, False, abs(y)
    for part in flat:
        if part[0] == "axicon":
            _, alpha, n, d = part
            margin = min(margin, abs(abs(y1) - d / 2), abs(y1) if y1 != 0 else INF)
            if abs(y1) > d / 2:
                blocked = True
                break
            t1 -= math.copysign(deviation(n, alpha), y1) if y1 != 0 else 0
        else:
            if oracle.exitCut(part[1], y1, t1) is not None:     # known finding of C04
                return
            pts, m = model.trace(part[1], y1, t1, z)
            margin = min(margin, m)
            if pts:
                z, y1, t1 = pts[-1].z, pts[-1].y, pts[-1].t
                big = max([big] + [abs(p.y) for p in pts])
                if pts[-1].blocked:
                    blocked = True
                    break
    if margin < 1e-7 or big > 1e4:
        return
    r0 = rt.Ray(y, t)
    how = rng.choice(("trace", "through", "many"))
    if how == "trace":
        r = g.trace(r0)[-1]
    elif how == "through":
        r = g.traceThrough(r0)
    else:
        r = g.traceMany([rt.Ray(1, 0), r0])[1][-1]
    ctx.true(r.isBlocked == blocked, "system", lambda: "blocked %s at z=%r, expected %s at %r" % (r.isBlocked, r.z, blocked, z))
    if not blocked and not r.isBlocked:
        s = 10 * (1 + big) * (1 + abs(t1))
        ctx.close(r.y, y1, "system", "height after %s" % what, scale=s)
        ctx.close(r.theta, t1, "system", "angle after %s" % what, scale=s)
        ctx.observe("rays through systems with axicons")
    ctx.nontrivial((what, y, t))


def finite(specs):
    for s in specs:
        if s["k"] == "group":
            yield from finite(s["e"])
        elif s.get("dia", INF) != INF:
            yield s["dia"]


def sizes(ctx, rt, rng):
    """The largest diameter is that of the largest finite element"""
    o = gen.Options(minN=1, maxN=5, pDia=rng.choice((0.0, 0.3, 0.9)), indices=False, groups=True)
    specs = gen.system(rng, o)
    ctx.input("sizes of %s" % gen.show(specs))
    es = gen.buildAll(specs)
    g = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))(es)
    want = list(finite(specs))
    for i in range(2):
        ctx.true(g.hasFiniteApertureDiameter() == bool(want), "sizes", lambda: "%s has finite apertures: %s, says %s" % (gen.show(specs), want, g.hasFiniteApertureDiameter()))
        if want:
            ctx.close(g.largestDiameter, max(want), "sizes", "largest diameter of %s%s" % (gen.show(specs), " flipped" * i))
            ctx.observe("largest diameters")
        for s, e in zip(specs, es):
            if s["k"] != "group":
                d = s.get("dia", INF)
                ctx.close(e.largestDiameter, d, "sizes", "diameter of %s" % gen.show([s]))
                h = e.displayHalfHeight()
                ctx.true(h == d / 2 if d != INF else h > 0 and math.isfinite(h), "sizes", lambda: "half height for display of %s: %r" % (gen.show([s]), h))
                ctx.true(e.hasFiniteApertureDiameter() == (d != INF), "sizes", "finite aperture of %s" % gen.show([s]))
        g.flipOrientation()
    ctx.observe("sizes")
    ctx.nontrivial(("sizes", gen.show(specs)))
