"""C01 composition of elements"""
from rtmon import gen, model, oracle


def bracket(rng, items):
    """Product of the items (in the order light meets them) with random parentheses."""
    items = list(items)
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        items[i:i + 2] = [items[i + 1] * items[i]]
    return items[0]


def nest(rt, rng, items, depth=0):
    """The same elements, in randomly nested groups."""
    items = list(items)
    if depth > 3 or len(items) < 2:
        return items
    out = []
    i = 0
    while i < len(items):
        k = rng.randint(1, max(1, len(items) - i))
        if rng.random() < 0.4 and k < len(items):
            cls = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.ImagingPath))
            out.append(cls(nest(rt, rng, items[i:i + k], depth + 1)))
            ok = True
        else:
            out.extend(items[i:i + k])
        i += k
    return out


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(long=0.02, minN=1, maxN=rng.choice((3, 6, 12)), indices=rng.random() < 0.7, matrixL=rng.random() < 0.5, back=rng.random() < 0.3)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    want = model.product(ls)
    ctx.input(gen.show(specs))

    elements = gen.buildAll(specs)
    for s, e in zip(specs, elements):
        if s["k"] != "group":
            oracle.matrixIs(ctx, e, model.leaf(s), "element:" + s["k"], "%s" % gen.show([s]))
            ctx.close(e.apertureDiameter, s.get("dia", gen.INF), "element:diameter", "diameter of %s" % gen.show([s]))
            ctx.close(e.determinant, e.frontIndex / e.backIndex, "element:determinant", "determinant of " + gen.show([s]), scale=max(abs(e.A * e.D), 1))
            ctx.observe("elements of kind " + s["k"])
            l = model.leaf(s)
            ctx.true(bool(e.isIdentity) == ((l.A, l.B, l.C, l.D) == (1, 0, 0, 1)), "element:isIdentity", "isIdentity of %s" % gen.show([s]))

    cls = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
    way = rng.choice(("list", "tuple", "append", "generator"))
    if way == "append":
        group = cls()
        for e in elements:
            r = group.append(e)
    elif way == "generator":
        group = cls(e for e in elements)
    else:
        group = cls(list(elements) if way == "list" else tuple(elements))
    ctx.observe("groups built by " + way)
    oracle.matrixIs(ctx, group, want, "group", "%s(%s)" % (cls.__name__, way))
    ctx.true(len(group) == len(elements) and all(a is b for a, b in zip(group.elements, elements)), "group:elements",
             "the elements of the group are not the given ones, in order")
    scale = max(abs(want.A * want.D), abs(want.B * want.C), 1)
    ctx.close(group.determinant, want.nf / want.nb, "group:determinant", "determinant", scale=scale)
    oracle.matrixIs(ctx, group.transferMatrix(), want, "transferMatrix", "transferMatrix()")

    # an element that does nothing: an aperture, or Matrix(). Its index is not a medium.
    e = rng.choice(elements + [group])
    if not e.isIdentity:
        w = want if e is group else model.product(model.leaves([specs[[a is e for a in elements].index(True)]]))
        nothing = rng.choice((rt.Aperture(diameter=5), rt.Matrix()))
        oracle.matrixIs(ctx, nothing * e, w, "identity", "%s then an identity" % gen.show(specs))
        oracle.matrixIs(ctx, e * nothing, w, "identity", "an identity then %s" % gen.show(specs))
        ctx.observe("products with an identity")

    if len(elements) > 1:
        m = bracket(rng, elements)
        oracle.matrixIs(ctx, m, want, "product", "bracketed product")
        ctx.close(m.determinant, want.nf / want.nb, "product:determinant", "determinant of the product", scale=scale)
        m = bracket(rng, elements)
        oracle.matrixIs(ctx, m, want, "product", "other bracketed product")
        ctx.observe("bracketed products", 2)
        nested = rt.MatrixGroup(nest(rt, rng, gen.buildAll(specs)))
        oracle.matrixIs(ctx, nested, want, "nested", "nested group")
        ctx.observe("nested groups")
        parts = nested.transferMatrices()
        ctx.true(len(parts) == len(ls), "transferMatrices", lambda: "%d matrices for %d elements" % (len(parts), len(ls)))
        oracle.matrixIs(ctx, bracket(rng, parts), want, "transferMatrices", "product of transferMatrices()")
        # two groups, one after the other
        k = rng.randint(1, len(elements) - 1)
        g1, g2 = rt.MatrixGroup(elements[:k]), rt.MatrixGroup(elements[k:])
        oracle.matrixIs(ctx, g2 * g1, want, "product", "product of two groups")
        ctx.observe("group products")
    ctx.nontrivial((gen.kindsOf(specs), round(want.A, 6), round(want.C, 9))) if len(specs) > 1 else None
    # the elements were not changed by being grouped or multiplied
    for s, e in zip(specs, elements):
        if s["k"] != "group":
            oracle.matrixIs(ctx, e, model.leaf(s), "element:changed", "(after grouping) %s" % gen.show([s]))
