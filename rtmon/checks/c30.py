"""C30 the transfer matrix up to a distance"""
from rtmon import gen, model, oracle

INF = gen.INF


def inside(l, d):
    """The leaf for the first part (of length d) of this one; None where there is no such part (opaque)"""
    if l.kind == "space":
        return l.copy(B=d, L=d)
    if l.kind in ("thick", "slab"):
        R1 = l.spec["R1"] if l.kind == "thick" else INF
        m = model.mul(model.space(d), model.interface(1.0, l.spec["n"], R1))
        return model.Leaf(*m, L=d, nf=1.0, nb=l.spec["n"])
    return None


def partial(ls, edges, z):
    """The leaves up to z, the edges and zero-length elements at z included; None inside of an opaque element"""
    out = []
    for l, a, b in zip(ls, edges, edges[1:]):
        if b <= z + 1e-9:
            out.append(l)
        elif a < z - 1e-9:
            part = inside(l, z - a)
            if part is None:
                return None
            out.append(part)
            break
        else:
            break
    return out


def ask(ctx, system, ls, z, what):
    edges = [0.0]
    for l in ls:
        edges.append(edges[-1] + l.L)
    parts = partial(ls, edges, z)
    if parts is None:
        try:
            got = system.transferMatrix(upTo=z)
        except TypeError:
            ctx.observe("refused inside of an opaque element")
            ctx.true(True, "opaque", "")
            return None
        ctx.fail("opaque", "%s: the matrix up to %r, inside of an element without inside, is %r" % (what, z, got))
        return None
    got = system.transferMatrix(upTo=z)
    want = model.product(parts)
    if not parts:
        want.nf = want.nb = ls[0].nf
    oracle.matrixIs(ctx, got, want, "upTo", "%s up to %r" % (what, z), vertices=False)
    ctx.observe("matrices up to a distance")
    if parts and parts[-1].L and parts[-1] not in ls:
        kind = [l for l, b in zip(ls, edges[1:]) if b > z + 1e-9][0].kind
        ctx.observe("matrices that end inside of a " + kind)
    elif 0 < len(parts) < len(ls):
        ctx.observe("matrices that end between elements")
    return got, want, parts


def rest(ctx, rt, rng, specs, what):
    """The rest of a path, after a place inside of a space, or before it and backwards"""
    path = rt.ImagingPath(gen.buildAll(specs))
    z, spaces = 0.0, []
    for i, s in enumerate(specs):
        L = model.product(model.leaves([s])).L
        if s["k"] == "space" and L > 1e-2:
            spaces.append((i, z, L))
        z += L
    if not spaces:
        return
    i, a, L = rng.choice(spaces)
    d = L * rng.choice((0.5, rng.uniform(0.05, 0.95)))
    snap = oracle.snapSystem(path)
    n = specs[i]["n"]
    mirrors = any(l.kind == "mirror" for l in model.leaves(specs))

    def piece(d):
        return model.leaf({"k": "space", "d": d, "n": n})
    after = [piece(a + L - (a + d))] + model.leaves(specs[i + 1:])
    before = [piece(a + d - a)] + [l if l.kind == "mirror" else model.flipLeaf(l) for l in reversed(model.leaves(specs[:i]))]
    for backwards, ls in ((False, after), (True, before)):
        got = path.subPath(zStart=a + d, backwards=True) if backwards else path.subPath(zStart=a + d)
        oracle.matrixIs(ctx, got, model.product(ls), "rest", "%s from %r%s" % (what, a + d, ", backwards" if backwards else ""), vertices=False)
        y, t = gen.ray(rng, 5.0, 0.1)
        if oracle.exitCut(ls, y, t) is None and model.trace(ls, y, t)[1] > 1e-9 and not any(l.kind == "axicon" for l in ls):
            oracle.traceIs(ctx, got.trace(rt.Ray(y, t)), model.trace(ls, y, t)[0], "rest:trace", "Ray(%r, %r) in %s from %r%s" % (y, t, what, a + d, ", backwards" if backwards else ""))
        ctx.observe("rests of a path, backwards" if backwards else "rests of a path")
        if backwards and mirrors:
            ctx.observe("rests of a path with mirrors")
    ctx.true(oracle.snapSystem(path) == snap, "modified", "asking for a part of the path modified it")


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(long=0.02, minN=1, maxN=rng.choice((1, 3, 6, 12)), indices=rng.random() < 0.7, matrixL=rng.random() < 0.5)
    if rng.random() < 0.4:
        o.kinds = o.kinds + ["thick", "slab"] * 4
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    ctx.input(gen.show(specs))
    elements = gen.buildAll(specs)
    single = len(elements) == 1 and rng.random() < 0.5
    cls = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
    system = elements[0] if single else cls(elements)
    what = "%s of %s" % (cls.__name__ if not single else "element", gen.show(specs))
    if not single and rng.random() < 0.3:
        # a later history: the positions are those of the elements now there
        system.transferMatrix(upTo=0)
        k = rng.randrange(len(elements) + 1)
        n = model.leaves(specs[:k])[-1].nb if k else ls[0].nf
        extra = {"k": "space", "d": gen.fl(rng, 0.5, 30), "n": n}
        new = gen.build(extra)
        system.insert(k, new)
        specs = specs[:k] + [extra] + specs[k:]
        ls = model.leaves(specs)
        what += " after insert(%d, %s)" % (k, gen.show([extra]))
        ctx.observe("questions after an insertion")
    if rng.random() < 0.3:
        rest(ctx, rt, rng, specs, gen.show(specs))
    snap = oracle.snapSystem(system)

    edges = [0.0]
    for l in ls:
        edges.append(edges[-1] + l.L)
    total = edges[-1]
    for _ in range(5):
        z = rng.choice((0.0, total, total * 2 + 1, INF, rng.choice(edges), rng.choice(edges), None, None, None, None, None))
        if z is None:
            long = [i for i, l in enumerate(ls) if l.L > 1e-3]
            if not long:
                continue
            i = rng.choice(long)
            z = edges[i] + ls[i].L * rng.choice((rng.uniform(0.01, 0.99), 0.5, rng.uniform(0.01, 0.1)))
        if single and ls[0].L and ls[0].kind == "matrix" and z < ls[0].L:
            z = max(z, ls[0].L / 3)     # the front edge of an opaque element alone: TypeError, as documented
        if single and z == 0 and ls[0].L:
            z = ls[0].L / 7
        r = ask(ctx, system, ls, z, what)
        if r is None:
            continue
        got, want, parts = r
        # rays, at this place, are those of the trace
        y, t = gen.ray(rng, 5.0, 0.1)
        z0 = rng.choice((0.0, rng.uniform(-50, 50)))
        ray = rt.Ray(y, t, z0)
        out = got * ray
        if not parts or not any(l.kind == "axicon" for l in parts):
            y2, t2 = want.A * y + want.B * t, want.C * y + want.D * t
            s = 1 + max(abs(want.A), abs(want.B), abs(want.C), abs(want.D)) * max(abs(y), abs(t), 1e-3)
            wide = got.apertureDiameter == INF or abs(y) < got.apertureDiameter / 2
            if wide:
                ctx.close(out.y, y2, "ray:y", "height at %r of Ray(%r, %r) in %s" % (z, y, t, what), scale=s)
                ctx.close(out.theta, t2, "ray:theta", "angle at %r of Ray(%r, %r) in %s" % (z, y, t, what), scale=s)
                ctx.close(out.z, z0 + want.L, "ray:z", "z of Ray(%r, %r, %r) taken up to %r in %s" % (y, t, z0, z, what), scale=1 + abs(z0) + want.L)
                ctx.observe("rays up to a distance")
        if len(ls) > 1 and 0 < z < total:
            ctx.nontrivial((gen.kindsOf(specs), round(z, 9)))
    ctx.true(oracle.snapSystem(system) == snap, "modified", "the questions modified the system")
