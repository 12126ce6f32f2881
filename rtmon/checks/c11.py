"""C11 the optical invariant"""
import math

from rtmon import gen, model, oracle

INF = gen.INF


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(minN=1, maxN=rng.choice((2, 5, 10)), pDia=0.4, indices=rng.random() < 0.75, matrixL=True)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    p = model.product(ls)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    wide = [l.copy(dia=INF, NA=INF) for l in ls]
    single = len(elements) == 1 and rng.random() < 0.5 and specs[0]["k"] != "group"
    system = elements[0] if single else rng.choice((rt.MatrixGroup, rt.ImagingPath))(elements)
    snap = oracle.snapSystem(system)
    for _ in range(3):
        y1, t1 = gen.ray(rng, 8.0, 0.2)
        y2, t2 = gen.ray(rng, 8.0, 0.2)
        if single and (max(abs(y1), abs(y2)) >= ls[0].dia / 2):
            ctx.observe("rays that the only element blocks (not judged)")
            continue
        want = p.nf * (t1 * y2 - t2 * y1)
        r1, r2 = rt.Ray(y1, t1), rt.Ray(y2, t2)
        s1 = oracle.scaleOf(model.trace(wide, y1, t1)[0])
        s2 = oracle.scaleOf(model.trace(wide, y2, t2)[0])
        s = s1 * s2 * 3
        edges = [0.0]
        for l in ls:
            edges.append(edges[-1] + l.L)
        zs = [None, p.L, p.L + 10, rng.choice(edges), rng.uniform(0, p.L) if p.L else 0.0]
        if any(l.kind == "matrix" and l.L for l in ls):
            # no partial matrix inside of a generic element
            inside = lambda z: z is not None and any(a + 1e-6 < z < b - 1e-6 for a, b, l in zip(edges, edges[1:], ls) if l.kind == "matrix")  # noqa
            zs = [z for z in zs[1 if single else 0:] if not inside(z) and not (single and z is not None and z < p.L)]
            ctx.observe("systems with an opaque element")
        for z in zs:
            got = system.opticalInvariant(r1, r2) if z is None else system.opticalInvariant(r1, r2, z=z)
            ctx.close(got, want, "conserved", "invariant of Ray(%r, %r) and Ray(%r, %r) at z=%r" % (y1, t1, y2, t2, z), scale=s)
            ctx.observe("invariants")
            if z is not None and 0 < z < p.L:
                ctx.observe("invariants inside of the system")
        ctx.close(system.opticalInvariant(r2, r1, z=p.L), -want, "antisymmetric", "invariant of the exchanged rays", scale=s)
        ctx.close(system.opticalInvariant(r1, r1, z=p.L), 0, "antisymmetric", "invariant of a ray with itself", scale=s)
        # from the points of the traces of real rays
        open_ = rt.MatrixGroup(gen.buildAll(specs))
        for e in oracle.leafObjects(open_):
            e.apertureDiameter = INF
            e.apertureNA = INF
        tr1, tr2 = model.dedup(oracle.points(open_.trace(r1))), model.dedup(oracle.points(open_.trace(r2)))
        a, b = tr1[-1], tr2[-1]
        ctx.close(p.nb * (a.t * b.y - b.t * a.y), want, "trace", "invariant at the end of the traces", scale=s)
        if y1 * t2 != y2 * t1 and len(ls) > 1:
            ctx.nontrivial((gen.kindsOf(specs), y1, t2))
        ctx.true((r1.y, r1.theta, r2.y, r2.theta) == (y1, t1, y2, t2), "modified", "the rays were modified")
    ctx.true(oracle.snapSystem(system) == snap, "modified", "the questions modified the system")
