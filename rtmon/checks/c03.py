"""C03 tracing is the action of the matrices, whatever was traced before"""
import copy

from rtmon import gen, model, oracle


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    kinds = ["space"] * 4 + ["lens"] * 3 + ["interface", "thick", "slab", "aperture", "mirror", "matrix", "axicon"]
    o = gen.Options(long=0.02, kinds=kinds, minN=1, maxN=rng.choice((4, 9)), pDia=rng.choice((0, 0.3)), NA=True, matrixL=True,
                    indices=rng.random() < 0.6, back=rng.random() < 0.15)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    if rng.random() < 0.5:
        # equal elements are the same one, which stands several times in the system
        for i, a in enumerate(specs):
            for j in range(i):
                if specs[j] == a and elements[i] is not elements[j]:
                    elements[i] = elements[j]
                    ctx.observe("elements that stand several times")
                    break
    changed = False
    cls = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.ImagingPath))
    group = cls(elements)
    goesBack = any(l.L < 0 for l in ls)
    hasAxicon = any(l.kind == "axicon" for l in ls)

    rays = [gen.ray(rng) for _ in range(rng.randint(2, 5))]
    start = rng.choice((0, 0, 0.0, -3.5, 10.0))
    before = oracle.snapSystem(group)
    history = [rng.randrange(len(rays)) for _ in range(rng.randint(3, 7))]
    objects = {}
    interesting = False
    for step, j in enumerate(history):
        y, t = rays[j]
        if j not in objects or rng.random() < 0.3:
            objects[j] = rt.Ray(y, t, z=rng.choice((start, start, start + 7.5)))    # equal rays, here or elsewhere
        r = objects[j]
        z0 = r.z
        snap = oracle.snapRay(r)
        want, closest = model.trace(ls, y, t, z0)
        if closest < 1e-9:
            ctx.observe("at the edge of an aperture (not judged)")
            continue
        cut = oracle.exitCut(ls, y, t)
        if cut is not None:
            ctx.observe("leaves beyond the aperture of a thick element (not judged)")
            continue
        what = "trace %d of Ray(%r, %r, z=%r)" % (step, y, t, z0)
        tr = group.trace(r)
        ctx.observe("traces")
        oracle.traceIs(ctx, tr, want, "trace", what)
        ctx.true(tr[0].y == y and tr[0].theta == t and tr[0].z == z0, "trace:first", what + ": does not start with the input ray")
        ctx.true(oracle.snapRay(r) == snap, "trace:input-modified", lambda: "%s modified the input ray: %s -> %s" % (what, snap, oracle.snapRay(r)))
        last = group.traceThrough(r)
        w = model.dedup(want)[-1]
        s = oracle.scaleOf(want)
        if not w.blocked:
            interesting = interesting or len(want) > 2
            ctx.close(last.y, w.y, "traceThrough", what + " (y after)", scale=s)
            ctx.close(last.theta, w.t, "traceThrough", what + " (theta after)", scale=s / 10)
            ctx.close(last.z, w.z, "traceThrough", what + " (z after)", scale=1 + abs(w.z))
            ctx.true(last.isNotBlocked and not last.isBlocked, "traceThrough", what + " (blocked)")
            ctx.observe("unblocked traces")
            if not hasAxicon and not changed:
                # the matrix of the whole system gives the same ray
                direct = group * r
                p = model.product(ls)
                s2 = s + abs(p.A * y) + abs(p.B * t)
                ctx.close(direct.y, w.y, "group*ray", what + " (matrix times ray, y)", scale=s2)
                ctx.close(direct.theta, w.t, "group*ray", what + " (matrix times ray, theta)", scale=abs(p.C * y) + abs(p.D * t) + 1)
                ctx.close(direct.z, w.z, "group*ray", what + " (matrix times ray, z)", scale=1 + abs(w.z))
        else:
            ctx.true(last.isBlocked and not last.isNotBlocked, "traceThrough", what + " (not blocked)")
            ctx.observe("blocked traces")

        # positions along the trace, inside the spaces
        pts = model.dedup(want)
        for a, b in zip(pts[:-1], pts[1:]):
            if b.z > a.z and not b.blocked and not goesBack:
                i = rng.random()
                z = a.z + i * (b.z - a.z)
                straight = abs(b.y - (a.y + a.t * (b.z - a.z))) < 1e-9 * s and a.t == b.t
                if not straight or not (a.z < z < b.z):
                    continue
                q = rt.Ray.along(tr, z)
                ctx.observe("positions along a trace")
                ctx.close(q.z, z, "along", what + " along z=%r (z)" % z, scale=1)
                ctx.close(q.y, a.y + (z - a.z) * a.t, "along", what + " along z=%r (y)" % z, scale=s)
                ctx.close(q.theta, a.t, "along", what + " along z=%r (theta)" % z, scale=1)
                ctx.true(q.isNotBlocked, "along", what + " along z=%r: blocked" % z)
        # each plane of the trace: the ray has the height found there
        if goesBack:
            ctx.observe("traces back to virtual images")
        for a in pts if not goesBack else []:
            q = rt.Ray.along(tr, a.z)
            ys = [p.y for p in want if abs(p.z - a.z) < 1e-9 * (1 + abs(a.z))]
            ctx.true(any(abs(q.y - v) <= 1e-9 * s for v in ys), "along", lambda: "%s along z=%r: y=%r, expected one of %r" % (what, a.z, q.y, ys))
        if rng.random() < 0.3:
            d = rng.uniform(-20, 20)
            q = r.at(z0 + d)
            ctx.close(q.y, y + d * t, "at", "Ray.at (y)", scale=1 + abs(y))
            ctx.close(q.theta, t, "at", "Ray.at (theta)")
            ctx.close(q.z, z0 + d, "at", "Ray.at (z)", scale=1)
            ctx.true(oracle.snapRay(r) == snap, "at", "Ray.at modified the ray")
        # an element by itself, in between
        if rng.random() < 0.3:
            i = rng.randrange(len(ls))
            l, obj = ls[i], oracle.leafObjects(group)[i]
            if oracle.exitCut([l], y, t) is None and model.trace([l], y, t)[1] > 1e-9:
                oracle.traceIs(ctx, [r] + obj.trace(r), model.trace([l], y, t, z0)[0], "element.trace", "%s by element %d (%s)" % (what, i, l.kind))
                ctx.observe("single elements")
        # several rays at once: equal rays, from elsewhere or blocked already
        if rng.random() < 0.15:
            others = [rt.Ray(y, t, z=z0 + 3), rt.Ray(y, t, z=z0), rt.Ray(y, t, z=z0, isBlocked=True), rt.Ray(y, t, z=z0), rt.Ray(y, t, z=z0 - 2)]
            for o, tr2 in zip(others, group.traceMany(others)):
                oracle.traceIs(ctx, tr2, model.trace(ls, y, t, o.z, blocked=o.isBlocked)[0], "traceMany", "%s among equal rays, from z=%r (blocked: %s)" % (what, o.z, o.isBlocked))
            ctx.observe("equal rays traced together")
        # a change of the system between two traces is seen by the next one
        if rng.random() < 0.25:
            i = rng.randrange(len(ls))
            obj = oracle.leafObjects(group)[i]
            there = [j for j, x in enumerate(oracle.leafObjects(group)) if x is obj]
            if type(obj) in (rt.Space, rt.Lens) and rng.random() < 0.4:
                d = gen.fl(rng, 1, 40)
                if type(obj) is rt.Space:
                    obj.B = obj.L = d
                    new = dict(B=d, L=d)
                else:
                    obj.C = -1 / d
                    new = dict(C=-1 / d)
                changed = True      # the matrix of the group is that of its elements when they were put in
                ctx.observe("changes of length or power between traces")
            else:
                d = rng.choice((gen.fl(rng, 1, 40), gen.INF))
                obj.apertureDiameter = d
                new = dict(dia=d)
            for j in there:
                ls[j] = ls[j].copy(**new)
            before = oracle.snapSystem(group)
            ctx.observe("changes between traces")
    ctx.true(oracle.snapSystem(group) == before, "trace:system-modified", "tracing modified the elements")
    if interesting:
        ctx.nontrivial((gen.kindsOf(specs), rays, history))
