"""C18 Zemax files"""
import math
import os

from rtmon import model
from rtmon.core import Skip

INF = float("inf")
FACTOR = {"MM": 1.0, "mm": 1.0, "IN": 25.4, "CM": 10.0, "METER": 1000.0, None: 1.0}
HEADER = ["VERS 120928 0 30221", "MODE SEQ", "NAME TEST TEST POSITIVE: Infinite 100", "NOTE 0 FOR INFORMATION ONLY", "PFIL 0 0 0",
          "ENPD 2.286E+1", "GFAC 0 0", "GCAT SCHOTT INFRARED MISC", "RAIM 0 0 1 1 0 0 0 0 0", "FTYP 0 0 1 3 0 0 0", "XFLN 0 0 0 0"]


def num(rng, x):
    if math.isinf(x):
        return "INFINITY"
    return rng.choice(("%.17g" % x, "%.17E" % x, repr(float(x))))


def glassName(rng, className):
    name = className.replace("_", "-")
    c = rng.random()
    if c < 0.1:
        return name.lower()
    if c < 0.2:
        return name.replace("-", "")
    return name


def write(ctx, rng, surfaces, unit, waves, path):
    f = FACTOR[unit]
    lines = list(HEADER)
    if unit is not None:
        lines.insert(rng.randrange(1, len(lines)), "UNIT %s X W X CM MR CPMM" % unit)
    for i, w in enumerate(waves):
        lines.append("WAVM %d %s 1" % (i + 1, num(rng, w)))
    lines.append("PWAV 2")
    lines.append("GSTD 0 100.000 100.000 0 1 1")
    for i, s in enumerate(surfaces):
        lines.append("SURF %d" % i)
        pre = rng.choice(("  ", "  ", "", "\t"))
        body = ["TYPE STANDARD", "CURV %s 0 0 0 0 \"\"" % num(rng, 0.0 if math.isinf(s["R"]) else f / s["R"]),
                "HIDE 0 0 0 0 0 0 0 0 0 0", "MIRR 2 0", "SLAB %d" % i, "DISZ %s" % num(rng, s["d"] / f)]
        if s["glass"]:
            body.append("GLAS %s 0 0 1.5168E+0 6.4E+1 0 0 0 0 0 0" % (s["glass"] if s.get("raw") else glassName(rng, s["glass"])))
        if not math.isinf(s["dia"]):
            body.append("DIAM %s 1 0 0 1 \"\"" % num(rng, s["dia"] / 2 / f))
        if s.get("stop"):
            body.insert(1, "STOP")
        if rng.random() < 0.3:
            body.insert(1, "COMM some text")
        if rng.random() < 0.3:
            body.append("COAT THORA")
        if rng.random() < 0.5:
            head, tail = body[0], body[1:]
            rng.shuffle(tail)
            body = [head] + tail
        if rng.random() < 0.1:
            body = [b.replace(" ", rng.choice(("  ", "\t", "   "))) for b in body]
        lines += [pre + b for b in body]
    lines += ["TOL TOFF   0   0  0 0", "MNUM 1 1", "MOFF   0   1"]
    if rng.random() < 0.2:
        lines.insert(rng.randrange(len(lines)), "")
    text = rng.choice(("\n", "\r\n")).join(lines) + "\n"
    enc = rng.choice(("utf-8", "utf-8", "utf-16", "utf-16-be+bom"))
    data = b"\xfe\xff" + text.encode("utf-16-be") if enc == "utf-16-be+bom" else text.encode(enc)
    with open(path, "wb") as out:
        out.write(data)
    return enc


def case(ctx):
    import raytracing as rt
    from raytracing.materials import Material
    from raytracing.zemax import ZMXReader
    rng = ctx.rng
    if rng.random() < 0.005:
        return shipped(ctx)
    names = [n for n in sorted(set(Material.all())) if n != "Air"]
    classes = {c.__name__: c for c in Material.__subclasses__()}
    if len(names) < 10:
        ctx.fail("materials", "only %d materials" % len(names))
        return
    unit = rng.choice(("MM", "MM", "mm", "IN", "CM", "METER", None))
    # the prescription, in mm
    n = rng.randint(1, 4) if rng.random() < 0.93 else rng.randint(5, 14)
    glasses = [rng.choice(names) for _ in range(n)]
    surfaces = []
    for i in range(rng.randint(1, 3) if rng.random() < 0.95 else rng.randint(4, 15)):
        surfaces.append({"R": INF, "d": INF if i == 0 else rng.uniform(0, 20), "glass": None, "dia": rng.choice((INF, 0.0 if i == 0 else 30.0, 25.4)), "stop": i == 1})
    first = len(surfaces)
    dia = rng.choice((INF, 12.7, 25.4, rng.uniform(5, 60)))
    for i in range(n + 1):
        R = INF if rng.random() < 0.2 else rng.choice((-1, 1)) * (rng.uniform(10, 400) if rng.random() < 0.93 else 10 ** rng.uniform(2.5, 6))
        d = dia if rng.random() < 0.7 else rng.uniform(5, 60)
        surfaces.append({"R": R, "d": (rng.uniform(0.5, 15) if rng.random() < 0.95 else 10 ** rng.uniform(-3, 0)) if i < n else rng.uniform(10, 200), "glass": glasses[i] if i < n else None, "dia": d})
    if rng.random() < 0.8:
        surfaces.append({"R": INF, "d": 0.0, "glass": None, "dia": rng.choice((INF, 1.0))})
    if rng.random() < 0.2:
        surfaces.insert(-1, {"R": INF, "d": 3.0, "glass": None, "dia": 20.0})

    # wavelengths, with the useless 0.55 at the end
    k = rng.randint(1, 5)
    waves = [rng.choice((0.4861, 0.5876, 0.6563, 0.55, 0.55, 0.7065, round(rng.uniform(0.42, 1.6), 4))) for _ in range(k)]
    pad = rng.choice((0, 0, 1, 24 - k))
    waves += [0.55] * pad
    real = list(waves)
    while len(real) > 1 and real[-1] == 0.55:
        real.pop()
    design = real[len(real) // 2]

    path = os.path.join(ctx.scratch, rng.choice(("lens%s.zmx", "l-%s-Zemax(ZMX).zmx", "le ns%s.ZMX")) % ctx.index)
    enc = write(ctx, rng, surfaces, unit, waves, path)
    ctx.input("unit %s, %s, wavelengths %s, surfaces %s" % (unit, enc, real, surfaces))
    try:
        z = ZMXReader(path)
    finally:
        os.unlink(path)

    # surfaces
    got = z.surfaces()
    ctx.true(len(got) == len(surfaces), "surfaces", lambda: "%d surfaces, the file has %d" % (len(got), len(surfaces)))
    for i, (g, s) in enumerate(zip(got, surfaces)):
        ctx.close(g.R, s["R"], "surfaces", "radius of surface %d" % i)
        ctx.close(g.diameter, s["dia"], "surfaces", "diameter of surface %d" % i)
        ctx.close(g.spacing, s["d"], "surfaces", "distance after surface %d" % i)
        want = s["glass"] or "Air"
        ctx.true(type(g.mat).__name__ == want, "surfaces", lambda: "material %s after surface %d, expected %s" % (type(g.mat).__name__, i, want))
        ctx.true(g.number == i, "surfaces", "number of surface %d" % i)
    ctx.true(z.surfaceInfo(len(surfaces)) is None, "surfaces", "a surface after the last one")
    got = z.designWavelengths()
    ctx.true(len(got) == len(real) and all(abs(a - b) < 1e-9 for a, b in zip(got, real)), "wavelengths", lambda: "wavelengths %s, the file has %s" % (got, real))
    ctx.close(z.designWavelength, design, "wavelengths", "design wavelength")

    # the lens
    lens = surfaces[first:first + n + 1]
    g = z.matrixGroup()
    m = (1.0, 0.0, 0.0, 1.0)
    mag = (1.0, 1.0, 1.0, 1.0)
    L, n1 = 0.0, 1.0
    for s in lens:
        n2 = classes[s["glass"]].n(design) if s["glass"] else 1.0
        t = (1.0, 0.0, -(n2 - n1) / n2 / s["R"], n1 / n2)
        m = model.mul(t, m)
        mag = model.mul(tuple(map(abs, t)), mag)
        if s["glass"]:
            t = (1.0, s["d"], 0.0, 1.0)
            m = model.mul(t, m)
            mag = model.mul(t, mag)
            L += s["d"]
        n1 = n2
    for name, a, b, c in zip("ABCD", (g.A, g.B, g.C, g.D), m, mag):
        ctx.close(a, b, "matrix", "%s of the lens" % name, rel=1e-11, scale=c)
    ctx.close(g.L, L, "length", "thickness of the lens")
    ctx.close(g.frontIndex, 1.0, "index", "index in front of the lens")
    ctx.close(g.backIndex, 1.0, "index", "index behind the lens")
    if abs(m[2]) > 1e-4 and abs(m[2]) > 1e-5 * mag[2]:
        f = g.effectiveFocalLengths()
        ctx.close(f.f1, -1 / m[2], "focal", "focal length", rel=1e-6)
        ctx.close(f.f2, -1 / m[2], "focal", "focal length", rel=1e-6)
    # what a ray meets, surface after surface
    from rtmon import oracle
    elements = oracle.leafObjects(g)
    faces = [e for e in elements if not e.L]
    gaps = [e for e in elements if e.L]
    ctx.true(len(faces) == len(lens) and len(gaps) == n, "elements", lambda: "%d surfaces and %d distances, the lens has %d and %d" % (len(faces), len(gaps), len(lens), n))
    for e, s in zip(faces, lens):
        ctx.close(e.apertureDiameter, s["dia"], "aperture", "diameter of a surface of the lens")
    for e, s in zip(gaps, lens):
        ctx.close(e.L, s["d"], "elements", "thickness of the lens between two surfaces")
    # rays are blocked by the surface they are blocked by
    y = rng.uniform(-30, 30)
    theta = rng.uniform(-0.05, 0.05)
    ray = g.traceThrough(rt.Ray(y, theta))
    blocked, n1 = False, 1.0
    yy, tt, margin = y, theta, INF
    for s in lens:
        if abs(yy) > s["dia"] / 2:
            blocked = True
            margin = min(margin, abs(abs(yy) - s["dia"] / 2))
            break
        margin = min(margin, abs(abs(yy) - s["dia"] / 2))
        n2 = classes[s["glass"]].n(design) if s["glass"] else 1.0
        tt = -(n2 - n1) / n2 / s["R"] * yy + n1 / n2 * tt
        if s["glass"]:
            yy += s["d"] * tt
        n1 = n2
    if margin > 1e-9:
        ctx.true(ray.isBlocked == blocked, "blocked", lambda: "a ray %s is %sblocked by the lens" % ((y, theta), "" if ray.isBlocked else "not "))
        if not blocked:
            ctx.close(ray.y, yy, "ray", "ray after the lens", scale=100)
            ctx.close(ray.theta, tt, "ray", "angle after the lens", scale=10)
            ctx.observe("rays through")
        else:
            ctx.observe("rays blocked")
    text = z.prescription()
    rows = [r for r in text.split("\n") if r.strip()]
    ctx.true(len(rows) == len(lens) + 1, "prescription", lambda: "%d lines in the prescription of %d surfaces" % (len(rows) - 1, len(lens)))
    for r, s in zip(rows[1:], lens):
        v = r.split()
        ok = len(v) == 4 and abs(float(v[0]) - s["R"]) < 0.0051 if not math.isinf(s["R"]) else len(v) == 4 and math.isinf(float(v[0]))
        ok = ok and v[1] == (s["glass"] or "Air").replace("_", "-") and abs(float(v[2]) - s["d"]) < 0.0051
        ok = ok and (abs(float(v[3]) - s["dia"]) < 0.0051 if not math.isinf(s["dia"]) else math.isinf(float(v[3])))
        ctx.true(ok, "prescription", lambda: "prescription %r for %s" % (r, s))
    if len(surfaces) > 10:
        ctx.observe("files of more than 10 surfaces")
    ctx.observe("unit %s" % unit)
    ctx.observe("encoding %s" % enc)
    ctx.observe("files")
    # a glass that is not known: not another glass, nor air
    if rng.random() < 0.1:
        other = rng.choice(("MIRROR", "___BLANK", "N-FK99", "BK77", "AIRY", "N", "F", "S-TIH6X", "1", "GLAS", "N-", "XN-BK7", glasses[0] + "X", glasses[0] + "1", glasses[0].replace("_", "-") + "_MOLD", glasses[0].replace("_", "-") + "-HT"))
        if other.replace("-", "").replace("_", "").lower() not in [x.replace("_", "").lower() for x in Material.all()]:
            i = rng.randrange(first, first + n)
            write(ctx, rng, [dict(s, glass=other if j == i else s["glass"], raw=j == i) for j, s in enumerate(surfaces)], unit, waves, path)
            try:
                ctx.raises(ValueError, lambda: ZMXReader(path).matrixGroup(), "unknown glass", "a lens of glass %r" % other)
            finally:
                os.unlink(path)
            ctx.observe("unknown glasses refused")
    ctx.nontrivial((unit, enc, tuple(real), str(surfaces)))


SHIPPED = {"AC254-100-A-Zemax(ZMX).zmx": ("AC254_100_A", 100.1, 25.4), "AC254-125-A-Zemax(ZMX).zmx": ("AC254_125_A", 125.0, 25.4)}


def shipped(ctx):
    """The files that come with the module, against the catalogue"""
    import raytracing
    from raytracing import thorlabs
    from raytracing.zemax import ZMXReader
    folder = os.path.join(os.path.dirname(raytracing.__file__), "specifications")
    for name, (cls, f, dia) in SHIPPED.items():
        p = os.path.join(folder, name)
        if not os.path.exists(p):
            continue
        ctx.input(name)
        g = ZMXReader(p).matrixGroup()
        lens = getattr(thorlabs, cls)()
        ctx.true(abs(g.effectiveFocalLengths().f1 - f) < 0.01 * f, "shipped", lambda: "%s: f = %s, expected %s" % (name, g.effectiveFocalLengths().f1, f))
        ctx.true(abs(g.effectiveFocalLengths().f1 - lens.effectiveFocalLengths().f1) < 0.01 * f, "shipped", lambda: "%s is not the catalogue lens" % name)
        ctx.observe("shipped files")
    p = os.path.join(folder, "zmax_49270.zmx")
    if os.path.exists(p):
        g = ZMXReader(p).matrixGroup()
        ctx.true(g.L > 0 and not math.isinf(g.effectiveFocalLengths().f1), "shipped", "zmax_49270.zmx")
        ctx.observe("shipped files")
