"""C15 heights, angles and histograms of a list of rays, whatever happened before"""
import math
import os

from rtmon import gen, model, oracle
from rtmon.core import isclose


def histogram(values, bins, lo, hi):
    """Counts, centers, and whether a value is too close to an inner edge to tell its bin"""
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    w = (hi - lo) / bins
    counts, doubtful = [0] * bins, False
    n = 0
    for v in values:
        x = (v - lo) / w
        if abs(x - round(x)) < 1e-6 and not (v == lo or v == hi):
            doubtful = True
        if lo <= v <= hi:
            counts[min(bins - 1, int(x))] += 1
            n += 1
    return counts, [lo + (i + 0.5) * w for i in range(bins)], doubtful, n


def judge(ctx, rays, ref):
    rng = ctx.rng
    questions = ["y", "t", "hy", "ht", "len"]
    asked = None
    for q in rng.choices(questions, k=rng.randint(1, 7)):
        if q == "len":
            ctx.true(len(rays) == len(ref) and rays.count == len(ref), "count", lambda: "%d rays, expected %d" % (len(rays), len(ref)))
            ctx.true([(r.y, r.theta) for r in rays.rays] == ref, "rays", "the rays are not the expected ones")
        elif q in ("y", "t"):
            i = 0 if q == "y" else 1
            got = rays.yValues if q == "y" else rays.thetaValues
            ctx.true(list(got) == [r[i] for r in ref], "values:" + q, lambda: "%s values %s..., expected %s..." % (q, list(got)[:8], [r[i] for r in ref][:8]))
            ctx.observe("values read")
            if rng.random() < 0.3 and isinstance(got, list):
                # what is done with the answer does not change the rays
                got.sort()
                got.reverse()
                got.append(1e9)
                again = rays.yValues if q == "y" else rays.thetaValues
                ctx.true(list(again) == [r[i] for r in ref], "values:aliased", "the values changed because the returned list did")
                ctx.observe("answers changed by the caller")
        else:
            if not ref:
                continue
            i = 0 if q == "hy" else 1
            values = [r[i] for r in ref]
            kw = {}
            if rng.random() < 0.6:
                kw["binCount"] = rng.choice((1, 2, 10, 40, rng.randint(1, 60)))
            if rng.random() < 0.4:
                kw["minValue"] = rng.choice((min(values), -3.3, 0.0, min(values) + 0.1))
            if rng.random() < 0.4:
                kw["maxValue"] = rng.choice((max(values), 4.7, max(values) + 2))
            if asked is not None and rng.random() < 0.5:
                kw = asked      # the same bins for heights and angles
                ctx.observe("same bins asked again")
            elif asked is not None and rng.random() < 0.4 and ("minValue" in asked or "maxValue" in asked):
                # almost the same bins: a ray less, or more
                kw = dict(asked)
                for k in ("minValue", "maxValue"):
                    if k in kw:
                        kw[k] += rng.choice((-1, 1)) * rng.choice((1e-7, 1e-9)) * (1 + abs(kw[k]))
                ctx.observe("almost the same bins asked")
            asked = kw
            f = rays.rayCountHistogram if q == "hy" else rays.rayAnglesHistogram
            lo, hi = kw.get("minValue", min(values)), kw.get("maxValue", max(values))
            bins = kw.get("binCount", 40)
            narrow = lo < hi and hi - lo < 1e-10 * (abs(lo) + abs(hi))
            if narrow and (hi - lo > 2e-13 * (abs(lo) + abs(hi)) or "minValue" in kw or "maxValue" in kw):
                continue    # neither the same nor different
            if narrow:
                lo = hi = (lo + hi) / 2
                ctx.observe("histograms of values that differ by rounding errors")
            if lo > hi:
                for _ in range(2):
                    try:
                        r = f(**kw)
                    except ValueError:
                        ctx.true(True, "histogram:refused", "")
                    else:
                        ctx.fail("histogram:refused", "histogram %r of %d rays, the minimum above the maximum: %s" % (kw, len(ref), r))
                ctx.observe("histograms refused twice")
                continue
            counts, centers, doubtful, n = histogram(values, bins, lo, hi)
            x, c = f(**kw)
            what = "%s histogram %r of %d rays" % ("height" if i == 0 else "angle", kw, len(ref))
            ctx.true(len(x) == bins and len(c) == bins, "histogram:size", lambda: "%s: %d centers, %d counts, expected %d" % (what, len(x), len(c), bins))
            for a, b in zip(x, centers):
                if not ctx.close(a, b, "histogram:centers", what + ": center of a bin", scale=abs(lo) + abs(hi) + 1):
                    break
            ctx.true(sum(c) == n, "histogram:total", lambda: "%s: %d rays counted, %d are in the range" % (what, sum(c), n))
            if not doubtful:
                ctx.true([int(v) for v in c] == counts, "histogram:counts", lambda: "%s: %s, expected %s" % (what, [int(v) for v in c], counts))
                ctx.observe("histograms judged bin by bin")
            else:
                diff = sum(abs(int(a) - b) for a, b in zip(c, counts))
                ctx.true(diff <= 2 * sum(1 for _ in values), "histogram:counts", what)
            ctx.observe("histograms")
            if rng.random() < 0.3 and isinstance(c, list):
                c[0] = 10 ** 6
                x2, c2 = f(**kw)
                ctx.true(sum(c2) == n, "histogram:aliased", "the histogram changed because the returned list did")


def value(rng, style):
    if style == "grid":
        return rng.randint(-5, 5) * 0.5
    if isinstance(style, tuple):
        return style[0] * (1 + style[1] * rng.gauss(0, 1))  # almost at the image of a point
    if isinstance(style, float):
        return style * (1 + rng.randint(-3, 3) * 2.3e-16)    # rays at the image of a point
    return rng.gauss(0, 2)


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    style = rng.choice(("grid", "any", "any", "any", "image"))
    if style == "image":
        style = rng.choice((0.3, 5.0, 1.1, 17.77, 1e-3)) * rng.choice((1, -1))
        if rng.random() < 0.4:
            style = (style, 10 ** rng.uniform(-8, -4))
    new = lambda: (value(rng, style), value(rng, style) * 0.1)
    ref = [new() for _ in range(rng.choice((0, 0, 1, 5, 30, 200)))]
    start = rng.choice(("list", "tuple", "iterator", "append", "none"))
    mk = lambda: [rt.Ray(y, t) for y, t in ref]
    if start == "append" or (start == "none" and not ref):
        rays = rt.Rays()
        for r in mk():
            rays.append(r)
    elif start == "iterator":
        rays = rt.Rays(r for r in mk())
    elif start == "tuple":
        rays = rt.Rays(rays=tuple(mk())) if False else rt.Rays(rays=list(tuple(mk())))
    else:
        rays = rt.Rays(mk())
    ops = []
    path = os.path.join(ctx.scratch, "rays-%d.pkl" % os.getpid())
    changed = 0
    for step in range(rng.randint(2, 7)):
        op = rng.choice(("append", "append", "load", "load-append", "save", "question", "bad", "traced"))
        ops.append(op)
        ctx.input("%d rays (%s), %s" % (len(ref), start, ops))
        if op == "append":
            for _ in range(rng.choice((1, 1, 5))):
                v = new()
                rays.append(rt.Ray(*v))
                ref = ref + [v]
            changed += 1
        elif op in ("load", "load-append"):
            other = [new() for _ in range(rng.choice((0, 1, 20)))]
            rt.Rays([rt.Ray(*v) for v in other]).save(path)
            if op == "load":
                rays.load(path)
                ref = other
            else:
                rays.load(path, append=True)
                ref = ref + other
            os.unlink(path)
            changed += 1
            ctx.observe("loads")
        elif op == "save":
            rays.save(path)
            back = rt.Rays()
            back.load(path)
            os.unlink(path)
            ctx.true([(r.y, r.theta) for r in back] == ref, "save", "the saved rays are not these ones")
        elif op == "bad":
            ctx.raises(TypeError, lambda: rays.append(rng.choice((None, 3.0, "ray", [rt.Ray()]))), "append:bad", "append of something that is not a ray")
        elif op == "traced":
            # tracing makes new rays
            g = rt.MatrixGroup([rt.Space(10), rt.Lens(5, diameter=6), rt.Space(3)])
            out = g.traceManyThrough(rays, progress=False)
            want = []
            for y, t in ref:
                h = y + 10 * t
                if abs(abs(h) - 3) < 1e-9:
                    want = None
                    break
                if abs(h) < 3:
                    want.append((h + 3 * (t - h / 5), t - h / 5))
            if want is not None:
                got = list(zip(out.yValues, out.thetaValues))
                ctx.true(len(got) == len(want) and all(isclose(a[0], b[0], scale=10) and isclose(a[1], b[1], scale=1) for a, b in zip(got, want)), "traced",
                         "heights and angles of traced rays")
        judge(ctx, rays, ref)
    if changed and len(ref) > 1:
        ctx.nontrivial((start, tuple(ops), len(ref), ref[0]))


def setup(ctx):
    import time
    time.sleep = lambda s: None
