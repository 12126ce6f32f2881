"""C25 efficiency report: each ray is counted once, as it is traced"""
import contextlib
import io
import math
import re
import warnings

import numpy as np

from rtmon import gen, model
from rtmon.checks import c21

INF = gen.INF
NUMBER = r"(-?[0-9.]+|-?inf|nan)"


def system(rng):
    """A system that has a field stop, mostly"""
    n = rng.choice((1.0, 1.0, 1.33, 1.5))
    if rng.random() < 0.3:
        specs = c21.makeSystem(rng)
        return specs
    specs = [{"k": "space", "d": gen.fl(rng, 5, 80), "n": n}]
    if n != 1.0:
        specs.append({"k": "interface", "n1": n, "n2": 1.0, "R": INF if rng.random() < 0.5 else gen.sign(rng) * gen.fl(rng, 30, 200)})
        specs.append({"k": "space", "d": gen.fl(rng, 1, 30), "n": 1.0})
    for _ in range(rng.choice((1, 2, 2, 3))):
        if rng.random() < 0.3:
            specs.append({"k": "aperture", "dia": gen.fl(rng, 2, 30)})
        else:
            s = {"k": "lens", "f": gen.fl(rng, 15, 100)}
            if rng.random() < 0.85:
                s["dia"] = gen.fl(rng, 5, 40)
            specs.append(s)
        specs.append({"k": "space", "d": gen.fl(rng, 5, 120), "n": 1.0})
    if rng.random() < 0.6:
        specs.append({"k": "aperture", "dia": gen.fl(rng, 1, 30)})
    return specs


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = system(rng)
    ls = model.leaves(specs)
    n = ls[0].nf
    count = rng.choice((1, 2, 60, 150, 150, 300))
    kw = {"nRays": count}
    if rng.random() < 0.5:
        kw["objectDiameter"] = gen.fl(rng, 0.5, 30)
    if rng.random() < 0.7:
        kw["emissionHalfAngle"] = gen.fl(rng, 0.01, 1.5)
    ctx.input("%s; reportEfficiency(%s)" % (gen.show(specs), kw))
    fresh = rt.ImagingPath(gen.buildAll(specs))
    principal, axial = fresh.principalRay(), fresh.axialRay()
    path = rt.ImagingPath(gen.buildAll(specs), label="the path")
    before = c21.snap(path)
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            with contextlib.redirect_stdout(out):
                path.reportEfficiency(**kw)
            points = {}
            for num in shot.plt.get_fignums():
                for ax in shot.plt.figure(num).axes:
                    for c in ax.collections:
                        points.setdefault(c.get_label(), []).extend(np.asarray(c.get_offsets(), float).tolist())
            shown = shot.shown
    text = out.getvalue()
    ctx.true(c21.snap(path) == before, "unchanged", "the report changed the system")
    if principal is None:
        ctx.true(shown == 0 and not points, "none", "a figure without field stop")
        ctx.true("no Field Stop" in text, "none", lambda: "no field stop, but printed %r" % text[:200])
        ctx.observe("systems without field stop")
        return
    ctx.true(shown == 1, "shown", "shown %d times" % shown)
    ctx.true("the path" in text, "text", "the label of the path is not in the report")
    Iap = abs(n * axial.theta * principal.y)
    h = kw["objectDiameter"] / 2 if "objectDiameter" in kw else principal.y
    angle = kw.get("emissionHalfAngle", math.pi / 2)
    if Iap < 1e-6 or abs(h) < 1e-6 or Iap / (n * h * angle) > 1e4:
        ctx.observe("degenerate")
        return

    def values(pattern, key):
        m = re.search(pattern, text)
        if not ctx.true(m is not None, "text", lambda: "no %s in %r" % (key, text[:1500])):
            return None
        return [float(x) for x in m.groups()]

    def printed(pattern, want, key, half):
        got = values(pattern, key)
        if got is not None:
            ok = len(got) == len(want) and all(w is None or g == w or abs(g - w) <= half * 1.01 + 1e-7 * abs(w) for g, w in zip(got, want))
            ctx.true(ok, "text:" + key, lambda: "%s: printed %s, expected %s" % (key, got, want))
            ctx.observe("values read", len(want))
    printed(r"Lagrange invariant: %s mm = %s mm ⨉ %s" % (NUMBER, NUMBER, NUMBER), [Iap, principal.y, n * axial.theta], "invariant", 0.005)
    printed(r"NA is %s" % NUMBER, [fresh.NA()], "NA", 0.005)
    printed(r"f/# is %s" % NUMBER, [fresh.fNumber()], "f-number", 0.005)
    printed(r"Field of view is %s mm" % NUMBER, [fresh.fieldOfView()], "field of view", 0.005)
    printed(r"equivalent invariant: %s mm = %s mm ⨉ %s" % (NUMBER, NUMBER, NUMBER), [n * h * angle, h, n * angle], "source", 0.005)
    printed(r"system to source invariants: %s%%" % NUMBER, [100 * Iap / (n * h * angle)], "ratio", 0.05)
    stop = fresh.apertureStop()
    printed(r"limited by %s mm diameter of AS at z=%s" % (NUMBER, NUMBER), [stop[1], stop[0]], "stop", 0.05)
    ctx.observe("reports read")

    # --- the rays, read back from their invariants
    total = sum(len(v) for v in points.values())
    ctx.true(total == count, "count", lambda: "%d points for %d rays: %s" % (total, count, {k: len(v) for k, v in points.items()}))
    ctx.true(set(points) <= {"Transmitted", "Vignetted", "Blocked"}, "count", lambda: "points %s" % list(points))
    s = 1 if n * (axial.theta * principal.y) > 0 else -1
    places, ys, ts = set(), [], []
    sure = True
    for label, pp in points.items():
        for b, a in pp:
            # b = I(ray, principal) / Iap, a = I(axial, ray) / Iap
            y = a * Iap / (n * axial.theta)
            t = (b * Iap / n + principal.theta * y) / principal.y
            ys.append(y)
            ts.append(t)
            inside = abs(a) <= 1 and abs(b) <= 1
            if min(abs(abs(a) - 1), abs(abs(b) - 1)) > 1e-7:
                ctx.true(inside == (label != "Blocked"), "classes", lambda: "the ray y=%r theta=%r has coefficients %r, %r and is %s" % (y, t, a, b, label))
            if not inside:
                continue
            pts, margin = model.trace(ls, y, t)
            if margin <= 1e-6:
                sure = False
                ctx.observe("rays at an edge")
                continue
            blocked = pts[-1].blocked
            ctx.true(blocked == (label == "Vignetted"), "classes", lambda: "the ray y=%r theta=%r is %sblocked and is counted as %s" % (y, t, "" if blocked else "not ", label))
            ctx.observe("rays traced again")
            if blocked:
                places.add(round(pts[-1].z, 6))
                ctx.observe("vignetted rays")
    ctx.true(max(map(abs, ys)) <= abs(h) * (1 + 1e-9), "source", lambda: "a ray starts at %r, the object has a half diameter of %r" % (max(map(abs, ys)), h))
    ctx.true(max(map(abs, ts)) <= angle * (1 + 1e-6) + 1e-6 * abs(principal.theta * h / principal.y), "source", lambda: "a ray leaves at %r, the half angle is %r" % (max(map(abs, ts)), angle))
    if count >= 60:
        for name, v, top in (("heights", np.array(ys), abs(h)), ("angles", np.array(ts), angle)):
            share = [float(np.mean(v < -top / 2)), float(np.mean((v >= -top / 2) & (v < 0))), float(np.mean((v >= 0) & (v < top / 2))), float(np.mean(v >= top / 2))]
            slack = 6 * math.sqrt(0.25 * 0.75 / count)
            ctx.true(all(abs(x - 0.25) <= slack for x in share), "source", lambda: "the %s are not uniform: %s in each quarter" % (name, share))
        if len(set(ys)) < count:
            ctx.fail("source", "%d different rays of %d" % (len(set(ys)), count))
    passed, vignetted = len(points.get("Transmitted", [])), len(points.get("Vignetted", []))
    printed(r"Monte Carlo: %s%%" % NUMBER, [100.0 * passed / count], "efficiency", 0.05)
    printed(r"Monte Carlo: [0-9.]+%% of ±%s radian, over field diameter of %s mm" % (NUMBER, NUMBER), [angle, 2 * h], "source", 0.05)
    if passed + vignetted:
        printed(r"Relative efficiency: %s%%" % NUMBER, [100.0 * passed / (passed + vignetted)], "relative", 0.05)
    if vignetted:
        printed(r"Loss to vignetting: %s%%" % NUMBER, [100.0 * vignetted / (passed + vignetted)], "vignetting", 0.05)
        m = re.search(r"blockers at positions: \{(.*)\}", text)
        if ctx.true(m is not None, "text", "no position of the blockers") and sure:
            got = sorted(float(re.search(r"-?[0-9.]+(e[-+]?\d+)?", x.replace("np.float64(", "")).group()) for x in m.group(1).split(","))
            want = sorted(places)
            got = sorted(set(round(x, 6) for x in got))
            ctx.true(len(got) == len(want) and all(abs(g - w) <= 2e-6 * (1 + abs(w)) for g, w in zip(got, want)), "text:blockers",
                     lambda: "blockers at %s, expected %s" % (got, want))
            ctx.observe("positions of blockers")
        ctx.observe("reports with vignetting")
    else:
        ctx.true("No losses to vignetting" in text, "text", "no word about vignetting")
    ctx.nontrivial((gen.kindsOf(specs), tuple(sorted(kw)), count, passed, vignetted))
