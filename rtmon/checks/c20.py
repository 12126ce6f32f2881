"""C20 catalogue lenses and objectives"""
import math
import warnings

import numpy as np

from rtmon import gen, model, oracle, published

INF = float("inf")


def setup(ctx):
    import raytracing.thorlabs    # noqa
    import raytracing.eo          # noqa
    import raytracing.olympus     # noqa
    import raytracing.nikon       # noqa


def find(name, d):
    import raytracing
    return getattr(getattr(raytracing, d["module"], None) or __import__("raytracing." + d["module"], fromlist=["x"]), name, None)


def prescription(d, w):
    """Elements of the lens at this wavelength"""
    w = w or d["ref"]
    ns = [published.index(m, w) if m else n for m, n in zip(d["mat"], d["n"])]
    return list(zip(d["R"], [1.0] + ns, ns + [1.0])), d["t"]


def abcd(d, w):
    faces, t = prescription(d, w)
    m, mag = (1.0, 0.0, 0.0, 1.0), (1.0, 1.0, 1.0, 1.0)
    for i, (R, n1, n2) in enumerate(faces):
        e = (1.0, 0.0, -(n2 - n1) / n2 / R, n1 / n2)
        m, mag = model.mul(e, m), model.mul(tuple(map(abs, e)), mag)
        if i < len(t):
            e = (1.0, t[i], 0.0, 1.0)
            m, mag = model.mul(e, m), model.mul(e, mag)
    return m, mag


def generic(rng):
    """A lens of one or two glasses, and how to build it"""
    from raytracing.specialtylenses import AchromatDoubletLens, SingletLens
    from raytracing import materials
    n = rng.choice((1, 2, 2))
    dia = rng.choice((12.7, 25.4, rng.uniform(5, 60)))
    R = [INF if rng.random() < 0.15 else rng.choice((-1, 1)) * rng.uniform(0.7, 10) * dia for _ in range(n + 1)]
    t = [rng.uniform(0.5, 12) for _ in range(n)]
    glasses = [rng.choice(sorted(published.ND)) for _ in range(n)]
    ref = rng.choice((0.5876, 0.855, rng.uniform(0.4, 1.6)))
    w = rng.choice((None, None, rng.uniform(0.4, 1.6)))
    fixed = rng.random() < 0.3
    ns = [rng.choice((1.5168, 1.7, rng.uniform(1.3, 2.0))) for _ in range(n)]
    d = {"module": "specialtylenses", "diameter": dia, "ref": None if fixed else ref, "R": R, "t": t, "mat": [None if fixed else g for g in glasses],
         "n": ns, "te": rng.uniform(0.5, 10), "wavelength": False}
    sag = lambda r: r - math.copysign(math.sqrt(r * r - dia * dia / 4), r) if math.isfinite(r) else 0.0     # noqa
    edge = sum(t) + sag(R[-1]) - sag(R[0])
    d["edge"] = edge
    if abs(edge) > 0.1:
        d["te"] = edge * rng.choice((1.0, 1.02, 0.97, 1.2, 0.8))
    m, mag = abcd(d, None if fixed else w)
    if abs(m[2]) < 1e-3 or abs(m[0]) < 1e-3:
        return generic(rng)
    # the maker's figures may be for another wavelength: about the same
    d["f"] = -1 / m[2] * rng.choice((1.0, 1.004, 1.03) * 5 + (-1.0,))
    d["fb"] = -m[0] / m[2] * rng.choice((1.0, 1.004, 1.03) * 5 + (-1.0,))
    if rng.random() < 0.3 and abs(d["f"]) > 30:
        d["f"] = int(round(d["f"]))
    # the notes to be expected, of figures that are not those of the lens
    d["notes"] = []
    for value, real, limit in ((d["f"], -1 / m[2], 0.01), (d["fb"], -m[0] / m[2], 0.01), (d["te"], edge, None)):
        off = abs(real / value - 1) / (limit or 0.05)
        d["notes"].append((0, 1) if abs(off - 1) < 1e-6 else ((1, 1) if off > 1 else (0, 0)))
    kw = {"fb": d["fb"], "R1": R[0], "R2": R[1], "te": d["te"], "diameter": dia, "label": "generic", "url": "u"}
    if not fixed:
        kw["wavelengthRef"] = ref
        if w is not None:
            kw["wavelength"] = w
    if n == 2:
        kw.update(fa=d["f"], R3=R[2], tc1=t[0], tc2=t[1])
        if fixed:
            kw.update(n1=ns[0], n2=ns[1])
        else:
            kw.update(mat1=getattr(materials, glasses[0]), mat2=getattr(materials, glasses[1]))
        return d, w, lambda: AchromatDoubletLens(**kw), "doublet %s" % kw
    kw.update(f=d["f"], tc=t[0], n=ns[0] if fixed else None)
    if not fixed:
        kw.update(mat=getattr(materials, glasses[0]))
    return d, w, lambda: SingletLens(**kw), "singlet %s" % kw


def lists(ctx):
    """The lenses that are listed are those that are there"""
    from raytracing.specialtylenses import AchromatDoubletLens, CompoundLens, SingletLens
    cls = ctx.rng.choice((AchromatDoubletLens, SingletLens, CompoundLens))
    ctx.input("%s.all()" % cls.__name__)

    def kinds(c):
        subs = c.__subclasses__()
        return [x for s in subs for x in kinds(s)] if subs else [c.__name__]
    got, want = sorted(cls.all()), sorted(x for s in cls.__subclasses__() for x in kinds(s))
    ctx.true(got == want, "all", lambda: "%s.all() has %d names, %d are expected: %s" % (cls.__name__, len(got), len(want), sorted(set(got) ^ set(want))[:5]))
    known = [n for n in published.LENSES if n not in got]
    if cls is CompoundLens:
        ctx.true(not known, "all", lambda: "%s are not listed" % known[:5])
    ctx.observe("lists of lenses")


def case(ctx):
    if ctx.rng.random() < 0.01:
        return lists(ctx)
    if ctx.rng.random() < 0.85:
        lens(ctx)
    else:
        objective(ctx)


def lens(ctx):
    import raytracing as rt
    rng = ctx.rng
    if rng.random() < 0.3:
        d, w, build, text = generic(rng)
        ctx.input(text)
        if d["mat"][0] is None:
            w = None
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            e = build()
        notes = [str(x.message) for x in seen if issubclass(x.category, rt.ExpertNote)]
        lo, hi = (sum(x[k] for x in d["notes"]) for k in (0, 1))
        ctx.true(lo <= len(notes) <= hi, "notes", lambda: "%s: notes %s, expected from %d to %d (focal length, back focal length, edge %s)" % (text, notes, lo, hi, d["notes"]))
        ctx.observe("lenses that are not what is said" if lo else "lenses that are what is said")
        return follow(ctx, rt, rng, e, d, w, d["mat"][0] is None, "the lens", text)
    names = sorted(published.LENSES)
    name = names[(ctx.index * 7) % len(names)] if isinstance(ctx.index, int) else rng.choice(names)
    d = published.LENSES[name]
    cls = find(name, d)
    ctx.input(name)
    if cls is None:
        ctx.fail("missing", "%s is not in the catalogue any more" % name)
        return
    w = None
    if d["wavelength"] and rng.random() < 0.5:
        w = rng.uniform(0.4, 1.6)
    e = cls() if w is None else (cls(wavelength=w) if rng.random() < 0.7 else cls(w))
    ctx.input("%s at %s µm" % (name, w or d["ref"]))
    follow(ctx, rt, rng, e, d, w, False, name, name)


def follow(ctx, rt, rng, e, d, w, fixed, name, signature):
    m, mag = abcd(d, w)
    L = sum(d["t"])
    for x, a, b, c in zip("ABCD", (e.A, e.B, e.C, e.D), m, mag):
        ctx.close(a, b, "matrix", "%s of %s" % (x, name), rel=1e-10, scale=c)
    ctx.close(e.L, L, "thickness", "thickness of %s" % name)
    ctx.close(e.frontIndex, 1.0, "index", "index in front of %s" % name)
    ctx.close(e.backIndex, 1.0, "index", "index behind %s" % name)
    ctx.close(e.frontVertex, 0.0, "vertex", "first vertex of %s" % name)
    ctx.close(e.backVertex, L, "vertex", "last vertex of %s" % name)
    ctx.close(e.apertureDiameter, d["diameter"], "diameter", "diameter of %s" % name)
    ctx.close(e.largestDiameter, d["diameter"], "diameter", "largest diameter of %s" % name)
    ctx.close(e.designFocalLength, d["f"], "design", "focal length given by the maker of %s" % name)
    ctx.close(e.fb, d["fb"], "design", "back focal length given by the maker of %s" % name)
    f, bfl, ffl = -1 / m[2], -m[0] / m[2], -m[3] / m[2]
    rel = 1e-9 * max(1.0, mag[2] / abs(m[2]))
    ctx.close(e.effectiveFocalLengths().f1, f, "focal", "focal length of %s" % name, rel=rel)
    ctx.close(e.effectiveFocalLengths().f2, f, "focal", "focal length of %s" % name, rel=rel)
    ctx.close(e.backFocalLength(), bfl, "focal", "back focal length of %s" % name, rel=rel, scale=abs(f))
    ctx.close(e.frontFocalLength(), ffl, "focal", "front focal length of %s" % name, rel=rel, scale=abs(f))
    if w is None and name != "the lens":
        # what the maker says
        ok = abs(e.effectiveFocalLengths().f1 / d["f"] - 1) < 0.05
        ctx.true(ok, "design-focal:%s" % name.replace("_ML", ""), lambda: "%s: the focal length is %s, it should be %s" % (name, e.effectiveFocalLengths().f1, d["f"]))
        ok = abs(e.backFocalLength() - d["fb"]) < 0.05 * abs(d["f"])
        ctx.true(ok, "design-focal:%s" % name.replace("_ML", ""), lambda: "%s: the back focal length is %s, it should be %s" % (name, e.backFocalLength(), d["fb"]))
        ctx.observe("lenses against the figures of the maker")
    # the surfaces, in the order light meets them
    flipped = rng.random() < 0.4
    if flipped:
        e.flipOrientation()
        if rng.random() < 0.3:
            e.flipOrientation()
            flipped = False
    faces, t = prescription(d, w)
    if flipped:
        faces, t = [(-R, n2, n1) for R, n1, n2 in faces[::-1]], t[::-1]
        ctx.close(e.backFocalLength(), ffl, "flip", "back focal length of the flipped %s" % name, rel=rel, scale=abs(f))
        ctx.close(e.frontFocalLength(), bfl, "flip", "front focal length of the flipped %s" % name, rel=rel, scale=abs(f))
        ctx.close(e.effectiveFocalLengths().f1, f, "flip", "focal length of the flipped %s" % name, rel=rel)
        ctx.observe("flipped lenses")
    s = e.surfaces
    ctx.true(len(s) == len(faces), "surfaces", lambda: "%d surfaces on %s, expected %d" % (len(s), name, len(faces)))
    for i, (a, (R, n1, n2)) in enumerate(zip(s, faces)):
        ctx.close(a.R, R, "surfaces", "radius %d of %s%s" % (i + 1, name, " flipped" * flipped))
        if i < len(t):
            ctx.close(a.L, t[i], "surfaces", "thickness %d of %s%s" % (i + 1, name, " flipped" * flipped))
            ctx.close(a.n, n2, "surfaces", "index %d of %s%s" % (i + 1, name, " flipped" * flipped))
    # a ray
    y, theta = rng.uniform(-0.6, 0.6) * d["diameter"], rng.uniform(-0.1, 0.1)
    if rng.random() < 0.5:
        # near the edge: out through the side of the lens
        y, theta = math.copysign(d["diameter"] / 2 * (1 - rng.choice((1e-3, 0.02, rng.uniform(0, 0.3)))), y), math.copysign(rng.uniform(0, 1.2), y) * rng.choice((1, 1, 1, -1))
    trace = e.trace(rt.Ray(y, theta))
    r = trace[-1]
    yy, tt, blocked, margin, where = y, theta, False, INF, None
    for i, (R, n1, n2) in enumerate(faces):
        margin = min(margin, abs(abs(yy) - d["diameter"] / 2))
        if abs(yy) > d["diameter"] / 2:
            blocked, where = True, sum(t[:i])
            break
        tt = -(n2 - n1) / n2 / R * yy + n1 / n2 * tt
        if i < len(t):
            yy += t[i] * tt
    if margin > 1e-9:
        ctx.true(r.isBlocked == blocked, "ray", lambda: "ray %s through %s: blocked %s, expected %s" % ((y, theta), name, r.isBlocked, blocked))
        if not blocked:
            ctx.close(r.y, yy, "ray", "height of the ray %s after %s" % ((y, theta), name), scale=d["diameter"] * 10)
            ctx.close(r.theta, tt, "ray", "angle of the ray %s after %s" % ((y, theta), name), scale=10)
            ctx.observe("rays through")
        else:
            ctx.observe("rays blocked")
            # at the surface it meets outside of the glass
            z = [x.z for x in trace if x.isBlocked]
            ctx.true(bool(z) and abs(min(z) - where) < 1e-9 * (1 + L), "ray-blocked", lambda: "ray %s is blocked in %s at %s, it leaves it at %s" % ((y, theta), name, z[:1], where))
            if where:
                ctx.observe("rays blocked inside of a lens")
    # chromatic aberrations
    if d["wavelength"] and rng.random() < 0.5:
        ws = sorted(rng.uniform(0.4, 1.6) for _ in range(rng.randint(1, 5)))
        arg = rng.choice((list, tuple, np.array))(ws)
        nm, shifts = e.focalShifts(wavelengths=arg)
        ctx.true(len(nm) == len(ws) and len(shifts) == len(ws), "shifts", "as many focal shifts as wavelengths")
        for i, x in enumerate(ws):
            mm, gg = abcd(d, x)
            ctx.close(nm[i], x * 1000, "shifts", "wavelength in nm")
            ctx.close(shifts[i], -1 / mm[2] - d["f"], "shifts", "focal shift of %s at %s µm" % (name, x), rel=1e-9 * max(1.0, gg[2] / abs(mm[2])), scale=abs(1 / mm[2]))
        ctx.observe("focal shifts", len(ws))
    ctx.nontrivial((signature, w, flipped))


def objective(ctx):
    import raytracing as rt
    from raytracing.specialtylenses import Objective
    rng = ctx.rng
    generic = rng.random() < 0.5
    if generic:
        f = rng.uniform(1, 50)
        wd = rng.uniform(0.1, 0.9) * f
        d = {"f": f, "NA": rng.uniform(0.05, 1.2), "focusToFocusLength": 2 * f + rng.uniform(0, 100) - rng.choice((0, 0, f * 0.4)), "backAperture": rng.uniform(2, 40),
             "workingDistance": wd, "magnification": rng.choice((None, 180 / f)), "fieldNumber": rng.choice((22, 26.5))}
        e = Objective(url="u", label="objective", **d)
        name = "Objective(%s)" % d
    else:
        name = rng.choice(sorted(published.OBJECTIVES))
        d = published.OBJECTIVES[name]
        cls = find(name, d)
        if cls is None:
            ctx.input(name)
            ctx.fail("missing", "%s is not in the catalogue any more" % name)
            return
        e = cls()
    ctx.input(name)
    f, NA, total, back, wd = (d[k] for k in ("f", "NA", "focusToFocusLength", "backAperture", "workingDistance"))
    flipped = rng.random() < 0.5
    if flipped:
        e.flipOrientation()
        if rng.random() < 0.2:
            e.flipOrientation()
            flipped = False
    ctx.close(e.L, total, "objective-length", "distance between the focal points of %s" % name)
    # from a focal plane to the other
    for x, a, b in zip("ABCD", (e.A, e.B, e.C, e.D), (0.0, f, -1 / f, 0.0)):
        ctx.close(a, b, "objective-matrix", "%s of %s" % (x, name), scale=(total + f) / f)
    if 1 / f > 1e-4:
        ctx.close(e.effectiveFocalLengths().f1, f, "objective-focal", "focal length of %s" % name)
    v = (0.0, total - wd) if not flipped else (wd, total)
    ctx.close(e.frontVertex, v[0], "objective-vertex", "first vertex of %s%s" % (name, " flipped" * flipped), scale=total)
    ctx.close(e.backVertex, v[1], "objective-vertex", "last vertex of %s%s" % (name, " flipped" * flipped), scale=total)
    # rays of a point on the axis of the object: through, up to the numerical aperture and the back aperture
    theta = rng.uniform(-1.3, 1.3) * NA
    limit = min(NA, back / 2 / f)
    if rng.random() < 0.4:
        theta = math.copysign(limit * (1 + rng.choice((-1, 1)) * rng.uniform(1e-6, 0.05)), theta)
    if not flipped:
        e2 = e
        g = type(e)() if not generic else Objective(url="u", label="objective", **d)
        g.flipOrientation()
        r = g.traceThrough(rt.Ray(0, theta))
    else:
        r = e.traceThrough(rt.Ray(0, theta))
    if abs(abs(theta) - limit) > 1e-9 * limit:
        ctx.true(r.isBlocked == (abs(theta) > limit), "objective-NA", lambda: "%s: a ray of the focal point at %s is %sblocked, the limit is %s" % (name, theta, "" if r.isBlocked else "not ", limit))
    if r.isNotBlocked:
        ctx.close(abs(r.y), abs(f * theta), "objective-ray", "height in the back focal plane of %s" % name, scale=f * abs(theta) * (total + f) / f)
        ctx.close(r.theta, 0.0, "objective-ray", "angle in the back focal plane of %s" % name, scale=abs(theta) * (total + f) / f)
        ctx.observe("rays through objectives")
    # a collimated beam enters the back, and is focused
    y = rng.uniform(-0.7, 0.7) * back
    h = Objective(url="u", label="o", **d) if generic else type(e)()
    r = h.traceThrough(rt.Ray(y, 0))
    lim = min(back / 2, NA * f)
    if abs(abs(y) - lim) > 1e-9 * lim:
        ctx.true(r.isBlocked == (abs(y) > lim), "objective-back", lambda: "%s: a ray at %s in the back aperture is %sblocked, the limit is %s" % (name, y, "" if r.isBlocked else "not ", lim))
    # any ray of the object, on the axis or not
    y, theta = rng.uniform(-1.2, 1.2) * NA * wd, rng.uniform(-1.1, 1.1) * NA
    if rng.random() < 0.5:
        # towards the edge of the first aperture
        theta = (math.copysign(NA * wd * rng.uniform(0.8, 1.1), theta) - y) / wd
    h = Objective(url="u", label="o", **d) if generic else type(e)()
    h.flipOrientation()
    r = h.traceThrough(rt.Ray(y, theta))
    ins = ((y + wd * theta, NA * wd), (f * theta, back / 2))
    if all(abs(abs(a) - b) > 1e-9 * (b + total + f) for a, b in ins) and abs(abs(theta) - NA) > 1e-9:
        want = any(abs(a) > b for a, b in ins)
        ctx.true(r.isBlocked == want, "objective-field", lambda: "%s: the ray %s of the focal plane is %sblocked, it is at %s in front of the objective and %s at its back" % (
            name, (y, theta), "" if r.isBlocked else "not ", ins[0], ins[1]))
        ctx.observe("rays of objects through objectives", int(not want))
    if d.get("magnification") and d.get("fieldNumber"):
        ctx.close(e.maximumOpticalInvariant(), d["fieldNumber"] / 2 / d["magnification"] * NA, "objective-invariant", "largest optical invariant of %s" % name)
    poi = {p["label"]: p["z"] for p in e.pointsOfInterest(z=10.0)}
    want = {"$F_b$": 10.0 + (total if flipped else 0), "$F_f$": 10.0 + (0 if flipped else total)}
    ctx.true(set(poi) == set(want) and all(abs(poi[k] - want[k]) < 1e-9 * total for k in want), "objective-points", lambda: "focal points of %s at %s, expected %s" % (name, poi, want))
    ctx.observe("objectives")
    ctx.nontrivial((name, flipped, theta))


def known(ctx):
    for name in ("ACT508_400_B", "ACT508_500_B", "ACT508_1000_B"):
        d = published.LENSES[name]
        ctx.input(name)
        e = find(name, d)()
        f = e.effectiveFocalLengths().f1
        if abs(f / d["f"] - 1) >= 0.05:
            ctx.failures.append({"property": ctx.prop, "key": "design-focal:" + name, "message": "focal length %r, expected %r" % (f, d["f"]),
                                 "index": "known", "seed": ctx.seed, "tier": ctx.tier, "input": name})
