"""C14 ray sources"""
import math

import numpy as np

from rtmon import gen
from rtmon.core import isclose

PI = math.pi


def lin(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def pairs(rays):
    return [(r.y, r.theta) for r in rays]


def samePairs(ctx, got, want, key, what):
    ok = len(got) == len(want) and all(isclose(a, c, scale=1) and isclose(b, d, scale=1) for (a, b), (c, d) in zip(got, want))
    ctx.true(ok, key, lambda: "%s: %d rays %s..., expected %d: %s..." % (what, len(got), got[:6], len(want), want[:6]))


def multisetPairs(ctx, got, want, key, what):
    k = lambda p: (round(p[0], 7) + 0.0, round(p[1], 7) + 0.0)
    samePairs(ctx, sorted(got, key=k), sorted(want, key=k), key, what)


def common(ctx, rt, rays, n, key):
    """What all sources share: length, order, positions, repeated loops"""
    rng = ctx.rng
    ctx.true(len(rays) == n and rays.count == n, key + ":count", lambda: "%d rays, expected %d" % (len(rays), n))
    taken = None
    if n <= 60 and rng.random() < 0.2 and rays.iteration == 0:      # not read yet
        taken = [next(rays) for _ in range(n)]
        taken = [(r.y, r.theta) for r in taken]
        ctx.raises(StopIteration, lambda: next(rays), key + ":next", "next() after the last of %d rays" % n)
        ctx.observe("rays taken one at a time", n)
    early = {}
    if n and taken is None and rng.random() < 0.4:
        # some of them first, from either end
        for i in rng.choices((0, n - 1, n // 2, n // 3, rng.randrange(n), min(n - 1, 6)), k=rng.randint(1, 4)):
            j = rng.choice((i, i - n))
            r = rays[j]
            ctx.true(early.setdefault(i, (r.y, r.theta)) == (r.y, r.theta), key + ":index", lambda: "ray %d of %d is not the one it was" % (j, n))
        ctx.observe("rays read by index before the others", len(early))
    order = rng.choice(("loop", "index", "both"))
    first = pairs(rays) if order != "index" else [(rays[i].y, rays[i].theta) for i in range(n)]
    again = pairs(rays) if order != "loop" else [(rays[i].y, rays[i].theta) for i in range(n)]
    ctx.true(taken is None or taken == first, key + ":next", "the rays taken one at a time with next() are not those of a loop")
    ctx.true(first == again, key + ":repeat", "the rays change from one reading to the next")
    ctx.true(all(first[i:i + 1] == [v] for i, v in early.items()), key + ":index", lambda: "rays %s, read before, are not those of a loop" % sorted(early))
    ctx.true(len(first) == n, key + ":count", lambda: "%d rays read, expected %d" % (len(first), n))
    ctx.true(all(r.z == 0 or r.z == rays.z for r in rays), key + ":z", "rays not at the start")
    ctx.true(all(r.isNotBlocked for r in rays), key + ":blocked", "blocked rays in the source")
    for bad in (n, n + 3, -n - 1):
        ctx.raises(IndexError, lambda: rays[bad], key + ":index", "ray %d of %d" % (bad, n))
    if n:
        ctx.true((rays[-1].y, rays[-1].theta) == first[-1], key + ":index", "the last ray is not the last one")
        i = rng.randrange(n)
        ctx.true((rays[i - n].y, rays[i - n].theta) == first[i], key + ":index", "index %d" % (i - n))
    ctx.true(list(rays.yValues) == [a for a, b in first] and list(rays.thetaValues) == [b for a, b in first], key + ":values", "yValues or thetaValues are not those of the rays")
    # a loop inside of a loop
    if 0 < n < 40 and rng.random() < 0.3:
        seen = []
        for r in rays:
            seen.append((r.y, r.theta))
            if rng.random() < 0.3:
                sum(1 for s in rays)
            if rng.random() < 0.2:
                rays.yValues
        ctx.true(seen == first, key + ":nested", lambda: "a loop over %d rays with another one inside saw %d" % (n, len(seen)))
        ctx.observe("nested loops")
    return first


def bounds(ctx, rt, rng):
    yMax = rng.choice((1.0, 5.0, 0.0, rng.uniform(0.1, 20)))
    yMin = rng.choice((None, None, 0.0, -yMax / 2, yMax - rng.uniform(0, 10)))
    tMax = rng.choice((0.1, PI / 2, rng.uniform(0.01, 1)))
    tMin = rng.choice((None, None, 0.0, -tMax / 3, tMax - rng.uniform(0, 1)))
    return yMax, yMin, tMax, tMin


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    kind = rng.choice(("Uniform", "Uniform", "Object", "Lamp", "Lambertian", "RandomUniform", "RandomLambertian", "Gaussian", "RandomLamp", "fan", "fanGroup", "fanGroup", "defaults"))
    ctx.observe("source " + kind)
    yMax, yMin, tMax, tMin = bounds(ctx, rt, rng)
    a, b = (-yMax if yMin is None else yMin), yMax
    c, d = (-tMax if tMin is None else tMin), tMax
    M, N = rng.choice((1, 2, 3, 7, rng.randint(2, 30))), rng.choice((2, 3, 5, rng.randint(2, 30)))
    if rng.random() < 0.02:
        M, N = rng.choice(((2, rng.randint(100, 2000)), (rng.randint(100, 2000), 2)))
        ctx.observe("large sources")
    sig = (kind, M, N, yMax, yMin, tMax, tMin)
    ctx.input("%s yMax=%r yMin=%r thetaMax=%r thetaMin=%r M=%d N=%d" % (kind, yMax, yMin, tMax, tMin, M, N))
    if kind == "Uniform":
        rays = rt.UniformRays(yMax=yMax, yMin=yMin, thetaMax=tMax, thetaMin=tMin, M=M, N=N)
        got = common(ctx, rt, rays, M * N, kind)
        ys = lin(a, b, M) if M > 1 else [(a + b) / 2]
        multisetPairs(ctx, got, [(y, t) for y in ys for t in lin(c, d, N)], kind, "uniform rays")
        if rng.random() < 0.2:
            dflt = rt.UniformRays(yMax=yMax, yMin=yMin)
            ctx.true(len(dflt) == 10000, kind, "default number of rays")
            ctx.close(max(dflt.thetaValues), PI / 2, kind, "default largest angle")
    elif kind == "Object":
        h = abs(yMax) + 0.1
        z = rng.choice((0, 10.0))
        rays = rt.ObjectRays(h, halfAngle=tMax, H=M, T=N, z=z, rayColors="r", label="L")
        got = common(ctx, rt, rays, M * N, kind)
        ys = lin(-h / 2, h / 2, M) if M > 1 else [0.0]
        multisetPairs(ctx, got, [(y, t) for y in ys for t in lin(-tMax, tMax, N)], kind, "rays of an object")
        ctx.true(rays.z == z and rays.label == "L", kind, "position or label")
    elif kind == "Lamp":
        h = abs(yMax) + 0.1
        M = max(M, 2)
        H = rng.choice((None, None, rng.randint(2, 9)))
        rays = rt.LampRays(h, NA=tMax, N=M, T=N, H=H, z=3.0)
        m = H or M
        got = common(ctx, rt, rays, m * N, kind)
        multisetPairs(ctx, got, [(y, t) for y in lin(-h / 2, h / 2, m) for t in lin(-tMax, tMax, N)], kind, "rays of a lamp")
        ctx.true(rays.z == 3.0, kind, "position")
    elif kind == "Lambertian":
        M, N, I = rng.randint(2, 6), rng.choice((2, 3, 5, 11, rng.randint(2, 20))), rng.choice((1, 10, 100, rng.randint(2, 40)))
        ctx.input("Lambertian yMax=%r yMin=%r M=%d N=%d I=%d" % (yMax, yMin, M, N, I))
        rays = rt.LambertianRays(yMax=yMax, yMin=yMin, M=M, N=N, I=I)
        want, doubt = [], False
        for t in lin(-PI / 2, PI / 2, N):
            x = I * math.cos(t)
            doubt = doubt or abs(x - round(x)) < 1e-9 and abs(x) > 0.5 and t != 0
            for y in lin(a, b, M):
                want += [(y, t)] * int(x)
        got = pairs(rays)
        if not doubt:
            common(ctx, rt, rays, len(want), kind)
            multisetPairs(ctx, got, want, kind, "Lambertian rays")
        ctx.true(all(a - 1e-9 <= y <= b + 1e-9 and abs(t) <= PI / 2 + 1e-9 for y, t in got) if a <= b else True, kind, "rays out of bounds")
    elif kind == "defaults":
        defaults(ctx, rt, rng)
    elif kind in ("fan", "fanGroup"):
        M = max(M, 1)
        if kind == "fan":
            got = pairs(rt.Ray.fan(yMax, c, d, N))
            samePairs(ctx, got, [(yMax, t) for t in lin(c, d, N)], kind, "fan of rays")
        else:
            got = pairs(rt.Ray.fanGroup(a, b, M, c, d, N))
            ys = lin(a, b, M) if M > 1 else [a]
            multisetPairs(ctx, got, [(y, t) for y in ys for t in lin(c, d, N)], kind, "fans of rays")
        ctx.raises(ValueError, lambda: rt.Ray.fan(yMax, c, d, 0), kind, "a fan of no ray")
        ctx.raises(ValueError, lambda: rt.Ray.fanGroup(a, b, 0, c, d, 3), kind, "no fan")
    else:
        count = rng.choice((0, 1, 5, 20, 100)) if rng.random() < 0.7 else 2500
        ctx.input("%s yMax=%r yMin=%r thetaMax=%r thetaMin=%r maxCount=%d" % (kind, yMax, yMin, tMax, tMin, count))
        width = rng.uniform(0.2, 5)
        if kind == "RandomUniform":
            rays = rt.RandomUniformRays(yMax=yMax, yMin=yMin, thetaMax=tMax, thetaMin=tMin, maxCount=count)
            lims = (a, b, c, d)
        elif kind == "RandomLambertian":
            rays = rt.RandomLambertianRays(yMax=yMax, yMin=yMin, maxCount=count)
            lims = (a, b, -PI / 2, PI / 2)
        elif kind == "Gaussian":
            rays = rt.GaussianProfileUniformRays(intensityWidth=width, maxCount=count)
            lims = (-4 * width, 4 * width, -PI / 2, PI / 2)
        else:
            h = abs(yMax) + 0.1
            rays = rt.LampRays(h, NA=tMax, N=count, random=True)
            lims = (-h / 2, h / 2, -tMax, tMax)
        if count and rng.random() < 0.4:
            # generated on demand, in any order
            i = rng.randrange(count)
            r = rays[i]
            v = (r.y, r.theta)
            got = common(ctx, rt, rays, count, kind)
            ctx.true(got[i] == v, kind + ":repeat", "ray %d changed" % i)
        else:
            got = common(ctx, rt, rays, count, kind)
        lo, hi = sorted(lims[:2])
        ctx.true(all(lo - 1e-9 <= y <= hi + 1e-9 for y, t in got), kind + ":bounds", lambda: "heights out of [%r, %r]" % (lo, hi))
        lo2, hi2 = sorted(lims[2:])
        ctx.true(all(lo2 - 1e-9 <= t <= hi2 + 1e-9 for y, t in got), kind + ":bounds", lambda: "angles out of [%r, %r]" % (lo2, hi2))
        if count:
            ctx.raises(AttributeError, rays.randomRay, kind + ":max", "one more random ray than the maximum")
        if count == 2500:
            statistics(ctx, kind, got, lims, width)
    ctx.nontrivial(sig)


def defaults(ctx, rt, rng):
    """What is not said is as documented"""
    h = gen.fl(rng, 0.5, 20)
    k = rng.randrange(9)
    if k == 0:
        ctx.input("UniformRays()")
        got, want = pairs(rt.UniformRays()), [(y, t) for y in lin(-1, 1, 100) for t in lin(-PI / 2, PI / 2, 100)]
    elif k == 1:
        ctx.input("LambertianRays(M=2, N=3)")
        got, want = pairs(rt.LambertianRays(M=2, N=3)), [(y, 0.0) for y in (-1, 1)] * 100
    elif k == 2:
        ctx.input("LambertianRays(I=2)")
        got, want = pairs(rt.LambertianRays(I=2)), [(y, t) for t in lin(-PI / 2, PI / 2, 100) for y in lin(-1, 1, 100) if math.cos(t) >= 0.5]
    elif k == 3:
        ctx.input("ObjectRays(%r)" % h)
        got, want = pairs(rt.ObjectRays(h)), [(y, t) for y in (-h / 2, 0, h / 2) for t in (-1, 0, 1)]
    elif k == 4:
        ctx.input("LampRays(%r)" % h)
        got, want = pairs(rt.LampRays(h)), [(y, t) for y in lin(-h / 2, h / 2, 100) for t in lin(-1, 1, 10)]
    else:
        rays, count, b = [(lambda: rt.RandomUniformRays(), 100000, 1.0), (lambda: rt.RandomLambertianRays(), 10000, 1.0),
                          (lambda: rt.GaussianProfileUniformRays(h), 10000, 4 * h), (lambda: rt.LampRays(h, random=True), 100, h / 2)][k - 5]
        rays = rays()
        ctx.input("%s by default" % type(rays).__name__)
        ctx.true(len(rays) == count, "defaults", lambda: "%d rays, expected %d" % (len(rays), count))
        got = [(rays[i].y, rays[i].theta) for i in range(50)]
        limit = 1.0 if k == 8 else PI / 2
        ctx.true(all(abs(y) <= b + 1e-9 and abs(t) <= limit + 1e-9 for y, t in got), "defaults", lambda: "rays out of bounds: %s" % got[:4])
        want = None
    if want is not None:
        multisetPairs(ctx, got, want, "defaults", "rays by default")
    ctx.observe("defaults", 1)


def ks(values, cdf):
    """Largest distance between the distribution of the values and cdf, times sqrt(n)"""
    v = sorted(values)
    n = len(v)
    return max(max(abs((i + 1) / n - cdf(x)), abs(i / n - cdf(x))) for i, x in enumerate(v)) * math.sqrt(n)


def statistics(ctx, kind, got, lims, width):
    a, b, c, d = lims
    uniform = lambda lo, hi: (lambda x: min(1.0, max(0.0, (x - lo) / (hi - lo))))
    ys, ts = [y for y, t in got], [t for y, t in got]
    limit = 3.2    # the probability to be beyond is 2.6e-9
    cy = uniform(min(a, b), max(a, b)) if a != b else None
    ct = uniform(min(c, d), max(c, d)) if c != d else None
    if kind == "RandomLambertian":
        ct = lambda t: (math.sin(t) + 1) / 2
    if kind == "Gaussian":
        cy = lambda y: 0.5 * (1 + math.erf(y / width))
    for name, v, cdf in (("heights", ys, cy), ("angles", ts, ct)):
        if cdf is not None:
            k = ks(v, cdf)
            ctx.true(k < limit, kind + ":distribution", lambda: "distribution of the %s (Kolmogorov-Smirnov: %.2f)" % (name, k))
    my, mt = sum(ys) / len(ys), sum(ts) / len(ts)
    sy = math.sqrt(sum((y - my) ** 2 for y in ys)) or 1
    st = math.sqrt(sum((t - mt) ** 2 for t in ts)) or 1
    corr = sum((y - my) * (t - mt) for y, t in got) / sy / st * math.sqrt(len(got))
    ctx.true(abs(corr) < 6, kind + ":correlation", lambda: "heights and angles are correlated (%.1f sigma)" % corr)
    ctx.observe("distributions judged")
