"""C16 what is saved is what is loaded"""
import os
import pathlib
import pickle
import time

from rtmon import gen, model, oracle
from rtmon.core import isclose


def setup(ctx):
    time.sleep = lambda s: None
    import raytracing.thorlabs    # noqa
    import raytracing.eo          # noqa
    import raytracing.olympus     # noqa


def fname(ctx):
    p = os.path.join(ctx.scratch, "file-%s.%s" % (ctx.index, ctx.rng.choice(("pkl", "dat", "raytracing"))))
    return p if ctx.rng.random() < 0.6 else pathlib.Path(p)


def remove(p):
    if os.path.exists(p):
        os.unlink(p)


def snaps(g):
    """values of all elements, without the identities"""
    return [x[1] for x in oracle.snapSystem(g)]


def case(ctx):
    if ctx.rng.random() < 0.55:
        groups(ctx)
    else:
        raysCase(ctx)


def real(ctx, rt, specs):
    """Generated elements, with catalogue lenses and objectives here and there"""
    rng = ctx.rng
    from raytracing import thorlabs, eo, olympus
    out = gen.buildAll(specs)
    n = 0
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            c = rng.choice((thorlabs.AC254_100_A, thorlabs.ACN254_100_A, thorlabs.LA1509_A if hasattr(thorlabs, "LA1509_A") else thorlabs.AC254_050_A,
                            eo.PN_33_921, olympus.LUMPlanFL40X, rt.System4f if hasattr(rt, "System4f") else thorlabs.AC254_030_B))
            e = c(10, 20) if c.__name__ in ("System4f", "Telescope") else c()
            if e.frontIndex != 1.0 or e.backIndex != 1.0:
                continue
            # only where the medium is air
            if not out or out[-1].backIndex == 1.0:
                out.append(e)
                out.append(rt.Space(gen.fl(rng, 1, 50)))
                n += 1
    return out, n


def groups(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(minN=0 if rng.random() < 0.1 else 1, maxN=7, pDia=0.5, NA=True, indices=rng.random() < 0.5, matrixL=True,
                    kinds=["space"] * 3 + ["lens"] * 2 + ["interface", "thick", "slab", "aperture", "mirror", "matrix", "axicon"])
    specs = gen.system(rng, o)
    ctx.input("group " + gen.show(specs))
    elements, special = real(ctx, rt, specs)
    cls = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath, rt.LaserCavity))
    g = cls(elements)
    for i, e in enumerate(g.elements):
        if rng.random() < 0.5:
            e.label = "element %d" % i
    rays = [gen.ray(rng) for _ in range(3)]
    if rng.random() < 0.6:
        g.trace(rt.Ray(*rays[0]))        # used before it is saved
    if rng.random() < 0.2 and len(g):
        g.flipOrientation()
    traces = [oracle.points(g.trace(rt.Ray(*r))) for r in rays]
    want = snaps(g)
    path = fname(ctx)
    try:
        if rng.random() < 0.3:
            # over another file
            rt.MatrixGroup([rt.Space(1.5), rt.Lens(f=7, label="before")] * rng.choice((1, 30))).save(path)
            ctx.observe("saved over another file")
        g.save(path)
        ctx.observe("groups saved")
        ctx.true(snaps(g) == want, "group:save-modified", "save() modified the group")
        cls2 = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
        h = cls2()
        before = []
        append = rng.random() < 0.4
        n1 = g.frontIndex
        if append and rng.random() < 0.8:
            before = [rt.Lens(f=30)] if n1 == 1 else [rt.DielectricInterface(1.0, n1, 50.0)]
            if rng.random() < 0.5:
                before = [rt.Space(5)] + before
            h = cls2(before)
        old = [e for e in h.elements]
        if not append and rng.random() < 0.5:
            h.append(rt.Lens(f=12.0))
            h.append(rt.Space(d=3.0))
            if rng.random() < 0.5:
                h.trace(rt.Ray(1, 0))
        h.load(path, append=append) if append or rng.random() < 0.5 else h.load(path)
        ctx.observe("groups appended from a file" if append else "groups loaded")
        if append:
            ctx.true(all(a is b for a, b in zip(h.elements, old)) and len(h) == len(old) + len(g), "group:append", lambda: "%d elements after appending %d to %d" % (len(h), len(g), len(old)))
            got = [s for e in h.elements[len(old):] for s in snaps(e)]
        else:
            got = [s for e in h.elements for s in snaps(e)]
        ctx.true(got == want[1:], "group:elements", lambda: "loaded elements %s, saved %s" % (got, want[1:]))
        ref = rt.MatrixGroup(old + list(g.elements)) if append else g
        whole = model.product([model.Leaf(e.A, e.B, e.C, e.D, e.L, e.frontIndex, e.backIndex, e.frontVertex, e.backVertex) for e in oracle.leafObjects(ref)]) if len(ref) else None
        if whole is not None and not any(isinstance(e, rt.MatrixGroup) and not len(e) for e in ref.elements):
            oracle.matrixIs(ctx, h, whole, "group:matrix", "loaded group", vertices=False)
        if not append:
            for r, t in zip(rays, traces):
                u = oracle.points(h.trace(rt.Ray(*r)))
                ctx.true(len(u) == len(t) and all((a.y, a.t, a.z, a.blocked) == (b.y, b.t, b.z, b.blocked) for a, b in zip(u, t)), "group:trace", "Ray%r goes elsewhere in the loaded group" % (r,))
            # another element type and its own behaviour survive
            ctx.true([type(e) for e in oracle.leafObjects(h)] == [type(e) for e in oracle.leafObjects(g)], "group:types", "the types of the elements changed")
            ctx.true([x is y for x, y in zip(h.elements, g.elements)] == [False] * len(h), "group:copy", "the loaded elements are those that were saved")
            if len(g):
                a = g.flipOrientation()
                ctx.true(got == [s for e in h.elements for s in snaps(e)], "group:copy", "flipping the saved group changed the loaded one")
        if rng.random() < 0.5:
            bad(ctx, rt, h, path, append, group=True)
    finally:
        remove(path)
    if len(specs) > 1 or special:
        ctx.nontrivial((gen.kindsOf(specs), special, append, cls.__name__, rays[0]))


def bad(ctx, rt, h, path, append, group):
    """Files that do not hold the right objects are refused, and nothing changes"""
    rng = ctx.rng
    what = rng.choice(("number", "wrong elements", "mixed", "torn", "empty file", "missing", "text"))
    with open(path, "rb") as f:
        data = f.read()
    with open(path, "wb") as f:
        if what == "number":
            pickle.dump(rng.choice((3.5, None, object)), f)
        elif what == "wrong elements":
            pickle.dump(["a", 2] if rng.random() < 0.5 else ([rt.Ray(1, 2)] if group else [rt.Lens(f=5)]), f)
        elif what == "mixed":
            pickle.dump(([rt.Lens(f=5), rt.Ray()] if group else [rt.Ray(1, 2), rt.Lens(f=5)]), f)
        elif what == "torn":
            f.write(data[:rng.randint(0, max(0, len(data) - 2))])
        elif what == "text":
            f.write(b"this is not a pickle")
    if what == "missing":
        os.unlink(path)
    before = snaps(h) if group else [(r.y, r.theta) for r in h.rays]
    ctx.raises((IOError, pickle.UnpicklingError, EOFError, ValueError, TypeError, AttributeError, IndexError, KeyError, UnicodeDecodeError, ImportError, OverflowError, MemoryError),
               lambda: h.load(path, append=rng.random() < 0.5), "bad:" + what, "a file with %s" % what)
    if what in ("number", "wrong elements", "mixed", "missing"):
        ctx.raises(IOError, lambda: h.load(path), "bad:" + what, "a file with %s" % what)
    after = snaps(h) if group else [(r.y, r.theta) for r in h.rays]
    ctx.true(before == after, "bad:modified", lambda: "a file with %s was refused, but the object changed" % what)
    ctx.observe("bad files: " + what)


def raysCase(ctx):
    import raytracing as rt
    rng = ctx.rng
    kind = rng.choice(("list", "list", "uniform", "random", "object", "traced", "empty"))
    data = [gen.ray(rng) for _ in range(rng.choice((1, 3, 20)))]
    if kind == "list":
        rays = rt.Rays([rt.Ray(y, t, z=rng.choice((0, 1.5)), isBlocked=rng.random() < 0.1, wavelength=rng.choice((None, None, 0.5, 632.8))) for y, t in data])
    elif kind == "empty":
        rays = rt.Rays()
    elif kind == "uniform":
        rays = rt.UniformRays(yMax=data[0][0], M=3, N=4)
    elif kind == "object":
        rays = rt.ObjectRays(abs(data[0][0]) + 1, H=3, T=3)
    elif kind == "random":
        rays = rng.choice((rt.RandomUniformRays, rt.RandomLambertianRays))(yMax=3.0, maxCount=rng.choice((1, 10, 60)))
        if rng.random() < 0.5:
            rays[0]
    else:
        rays = rt.MatrixGroup([rt.Space(10), rt.Lens(f=5, diameter=8)]).traceManyThrough([rt.Ray(y, t) for y, t in data], progress=False)
    ctx.input("rays %s %s" % (kind, data))
    n = len(rays)
    if rng.random() < 0.5 and n:
        rays.yValues
        rays.rayCountHistogram()
    path = fname(ctx)
    try:
        if rng.random() < 0.3:
            rt.Rays([rt.Ray(0.5, 0.25)] * rng.choice((1, 50))).save(path)
            ctx.observe("saved over another file")
        rays.save(path)
        ctx.observe("rays saved")
        full = lambda rr: [(r.y, r.theta, r.z, bool(r.isBlocked), r.wavelength) for r in rr]
        want = full(rays)
        ctx.true(len(want) == n and len(rays) == n, "rays:save-modified", "save() changed the number of rays")
        other = rt.Rays([rt.Ray(9, 0.9), rt.Ray(-9, 0.1)] if rng.random() < 0.6 else None)
        old = full(other)
        if old and rng.random() < 0.5:
            other.yValues, other.thetaValues
        if n and rng.random() < 0.2:
            # the same heights and angles, somewhere else
            other = rt.Rays([rt.Ray(w[0], w[1], z=w[2] + 1.5, wavelength=rng.choice((w[4], 0.25))) for w in want])
            old = full(other)
            ctx.observe("loaded over rays of the same heights and angles")
        append = rng.random() < 0.4
        other.load(path, append=append) if append else other.load(path)
        expected = (old if append else []) + want
        ctx.true(full(other) == expected, "rays:loaded", lambda: "%d rays loaded %s..., expected %d: %s..." % (len(other), full(other)[:4], len(expected), expected[:4]))
        ctx.true(len(other) == len(expected), "rays:loaded", lambda: "length %d, expected %d" % (len(other), len(expected)))
        ctx.true(list(other.yValues) == [e[0] for e in expected] and list(other.thetaValues) == [e[1] for e in expected], "rays:values", "yValues or thetaValues are not those of the loaded rays")
        other.append(rt.Ray(1.25, 0.5))
        ctx.true(full(other) == expected + [(1.25, 0.5, 0, False, None)] and full(rays) == want, "rays:copy", "append after load")
        ctx.observe("rays appended from a file" if append else "rays loaded")
        if rng.random() < 0.5:
            bad(ctx, rt, other, path, append, group=False)
    finally:
        remove(path)
    if n:
        ctx.nontrivial((kind, n, append, data[0]))
