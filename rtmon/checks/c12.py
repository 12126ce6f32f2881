"""C12 Gaussian beams"""
import math

from rtmon import gen, model, oracle
from rtmon.core import isclose

INF = gen.INF
PI = math.pi


def beamIs(ctx, b, q, n, lam, z, key, what, tol):
    """tol: absolute error that rounding explains in q"""
    ctx.true(abs(b.q - q) <= tol, key + ":q", lambda: "%s: q=%r, expected %r" % (what, b.q, q))
    ctx.close(b.z, z, key + ":z", what + ": z", scale=1 + abs(z))
    ctx.close(b.n, n, key + ":n", what + ": index")
    ctx.close(b.wavelength, lam, key + ":wavelength", what + ": wavelength")
    if tol < 1e-7 * q.imag and tol < 1e-7 * abs(q):
        zo = q.imag
        rel = 4 * tol / zo + 4 * tol / abs(q) + 1e-9
        wo = math.sqrt(zo * lam / (n * PI))
        ctx.true(b.isFinite, key + ":finite", what + ": not finite")
        ctx.close(b.zo, zo, key + ":zo", what + ": Rayleigh range", rel=rel)
        ctx.close(b.rayleighRange, zo, key + ":zo", what + ": Rayleigh range", rel=rel)
        ctx.close(b.wo, wo, key + ":wo", what + ": size of the waist", rel=rel)
        ctx.close(b.waist, wo, key + ":wo", what + ": size of the waist", rel=rel)
        ctx.close(b.waistPosition, -q.real, key + ":waistPosition", what + ": position of the waist", abs_=tol * 2 + 1e-12)
        x = q.real
        ctx.close(b.w, wo * math.sqrt(1 + (x / zo) ** 2), key + ":w", what + ": size of the beam", rel=rel)
        if abs(x) > 1e6 * tol and abs(x) > 1e-6 * zo:
            R = x * (1 + (zo / x) ** 2)
            ctx.close(b.R, R, key + ":R", what + ": radius of curvature", rel=rel + 10 * tol / abs(x) + 1e-9 * zo / abs(x))
        ctx.observe("beams judged")
    else:
        ctx.observe("beams too ill-conditioned for their size (only q judged)")


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(minN=1, maxN=rng.choice((1, 3, 6, 10)), pDia=rng.choice((0, 0.5)), indices=rng.random() < 0.6, matrixL=True,
                    groups=rng.random() < 0.4)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    p = model.product(ls)
    lam = rng.choice((632.8e-6, 1e-3, rng.uniform(4e-4, 1.6e-3)))
    w = rng.choice((0.1, 1.0, rng.uniform(0.005, 0.1), rng.uniform(0.1, 8), rng.uniform(1, 30)))
    R = rng.choice((INF, INF, gen.sign(rng) * gen.fl(rng, 5, 500)))
    n = p.nf
    z0 = rng.choice((0, 0.0, 12.5))
    q = model.qOf(w, R, n, lam)
    how = rng.choice(("w", "w", "q", "both"))
    ctx.input("%s; beam w=%r R=%r n=%r lambda=%r (from %s)" % (gen.show(specs), w, R, n, lam, how))
    if how == "w":
        beam = rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam, z=z0)
    elif how == "q":
        beam = rt.GaussianBeam(q=q, n=n, wavelength=lam, z=z0)
    else:
        beam = rt.GaussianBeam(q=q, w=w, R=R, n=n, wavelength=lam, z=z0)
    beamIs(ctx, beam, q, n, lam, z0, "beam", "the beam", 1e-12 * abs(q))
    ctx.close(beam.w, w, "beam:w", "size of the beam", rel=1e-8)
    if abs(q.real) > 1e-6 * abs(q):
        ctx.close(beam.R, R, "beam:R", "radius of curvature", rel=1e-6)
    ctx.true(not beam.isClipped, "beam:clipped", "clipped before any element")

    # a mismatch of q and w, or of the index, is not accepted
    r = rng.random()
    if r < 0.15:
        ctx.raises(ValueError, lambda: rt.GaussianBeam(q=q * rng.choice((1.02, 0.97, 2.0)), w=w, R=R, n=n, wavelength=lam), "mismatch", "q that does not match w")
        ctx.raises(ValueError, lambda: rt.GaussianBeam(wavelength=lam), "mismatch", "a beam without q nor w")
    elif r < 0.35:
        wrong = rng.choice([x for x in gen.NS if x != n])
        bad = rt.GaussianBeam(w=w, R=R, n=wrong, wavelength=lam)
        e = gen.buildAll(specs)
        ctx.raises(RuntimeError, lambda: rt.MatrixGroup(e) * bad, "index", "beam in index %r before a system in index %r" % (wrong, n))
        if not (specs[0]["k"] == "group"):
            ctx.raises(RuntimeError, lambda: e[0] * bad, "index", "beam in index %r before an element in index %r" % (wrong, n))

    elements = gen.buildAll(specs)
    system = rng.choice((rt.LaserPath, rt.MatrixGroup, rt.LaserPath))(elements)
    snap = oracle.snapSystem(system)

    def err(m, q):
        A, B, C, D = m
        den = abs(C * q + D)
        q2 = abs(model.qThrough(m, q))
        return ((abs(A * q) + abs(B)) / den + q2 * (abs(C * q) + abs(D)) / den)

    # element by element, with the flag of the apertures
    trace = system.trace(beam)
    ctx.observe("traces of beams")
    if any(x["k"] == "group" for x in specs):
        # the beam in front of a group inside of the system is there twice
        trace = flatten(specs, trace)
    ctx.true(len(trace) == len(ls) + 1, "trace:points", lambda: "%d beams for %d elements" % (len(trace), len(ls)))
    m = (1.0, 0.0, 0.0, 1.0)
    z = z0
    clipped, sure = False, True
    tol = 1e-12 * abs(q)
    qi = q
    for i, l in enumerate(ls):
        step = (l.A, l.B, l.C, l.D)
        den = abs(l.C * qi + l.D)
        tol = tol * (l.nf / l.nb) / den ** 2 * 1.01 + 1e-13 * err(step, qi)
        qPrevious = qi
        qi = model.qThrough(step, qi)
        m = model.mul(step, m)
        z += l.L
        if i + 1 >= len(trace) or not (tol < 1e-4 * qi.imag) or qi.imag <= 0:
            sure = False
            break
        wi = model.wOf(qi, l.nb, lam)
        wPrevious = model.wOf(qPrevious, l.nf, lam)
        beamIs(ctx, trace[i + 1], qi, l.nb, lam, z, "trace", "beam after element %d (%s)" % (i, l.kind), tol * 100)
        if not math.isinf(l.dia):
            over = wi > l.dia / 2
            if abs(wi - l.dia / 2) < 1e-5 * l.dia or (l.L > 0 and over != (wPrevious > l.dia / 2)):
                clipped = None if not clipped else clipped
            elif over:
                clipped = True
        if clipped is not None:
            ctx.true(bool(trace[i + 1].isClipped) == clipped, "clipped", lambda: "after element %d (%s): clipped=%r, w=%r, diameter %r" % (
                i, l.kind, trace[i + 1].isClipped, wi, l.dia))
            ctx.observe("clipped beams" if clipped else "beams not clipped")
        else:
            break
    ctx.true(beam.q == q if how == "q" else abs(beam.q - q) < 1e-9 * abs(q), "modified", "the input beam was modified")
    ctx.true(beam.z == z0 and beam.n == n and not beam.isClipped, "modified", "the input beam was modified")

    # the whole system at once, any way to group it
    A, B, C, D = p.A, p.B, p.C, p.D
    e = err((A, B, C, D), q) * 1e-10
    qEnd = model.qThrough((A, B, C, D), q)
    for name, f in (("group * beam", lambda: system * beam), ("product * beam", lambda: reduce(elements) * beam),
                    ("one after the other", lambda: chain(elements, beam))):
        b = f()
        beamIs(ctx, b, qEnd, p.nb, lam, z0 + p.L, "group", name, e)
        ctx.observe("beams through whole systems")
    if len(elements) > 1:
        k = rng.randint(1, len(elements) - 1)
        b = rt.MatrixGroup(elements[k:]) * (rt.MatrixGroup(elements[:k]) * beam)
        beamIs(ctx, b, qEnd, p.nb, lam, z0 + p.L, "group", "through two halves", e)
        ctx.nontrivial((gen.kindsOf(specs), round(w, 6), R))
    # free space: the waist stays where it is
    d = gen.fl(rng, 0.1, 500)
    far = rt.Space(d=d, n=n) * beam
    ctx.close(far.wo, beam.wo, "space", "waist after a space", rel=1e-9)
    ctx.close(far.waistPosition + d, beam.waistPosition, "space", "position of the waist after a space", scale=abs(q) + d)
    zR = PI * beam.wo ** 2 * n / lam
    ctx.close(far.w, beam.wo * math.sqrt(1 + ((d - beam.waistPosition) / zR) ** 2), "space", "size after a space", rel=1e-8)
    ctx.true(oracle.snapSystem(system) == snap, "modified", "beams modified the system")


def flatten(specs, trace):
    """The trace without the beams that are repeated at the start of the inner groups"""
    keep = [0]
    at = [1]

    def walk(ss):
        for x in ss:
            if x["k"] == "group":
                i = at[0]
                if i < len(trace) and trace[i].q == trace[i - 1].q and trace[i].z == trace[i - 1].z and len(trace) > len(model.leaves(specs)) + 1:
                    at[0] += 1
                walk(x["e"])
            else:
                keep.append(at[0])
                at[0] += 1
    walk(specs)
    return [trace[i] for i in keep if i < len(trace)]


def reduce(elements):
    m = elements[0]
    for e in elements[1:]:
        m = e * m
    return m


def chain(elements, beam):
    for e in elements:
        beam = e * beam
    return beam
