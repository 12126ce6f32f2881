"""Independent reference model of paraxial optics: what the real code is compared with.

Nothing here imports raytracing. Elements are described by specs (plain dicts); a spec is
turned into Leaf records (textbook matrices) here, and into real objects in gen.build().
"""
import math

INF = float("inf")


class Leaf:
    __slots__ = ("A", "B", "C", "D", "L", "nf", "nb", "fv", "bv", "dia", "NA", "kind", "spec")

    def __init__(self, A, B, C, D, L=0.0, nf=1.0, nb=1.0, fv=None, bv=None, dia=INF, NA=INF, kind="matrix", spec=None):
        self.A, self.B, self.C, self.D, self.L = A, B, C, D, L
        self.nf, self.nb, self.fv, self.bv, self.dia, self.NA = nf, nb, fv, bv, dia, NA
        self.kind, self.spec = kind, spec

    def copy(self, **kw):
        new = Leaf(self.A, self.B, self.C, self.D, self.L, self.nf, self.nb, self.fv, self.bv, self.dia, self.NA,
                   self.kind, self.spec)
        for k, v in kw.items():
            setattr(new, k, v)
        return new


def mul(m2, m1):
    """m2 after m1, as (A,B,C,D)"""
    a2, b2, c2, d2 = m2
    a1, b1, c1, d1 = m1
    return (a2 * a1 + b2 * c1, a2 * b1 + b2 * d1, c2 * a1 + d2 * c1, c2 * b1 + d2 * d1)


def interface(n1, n2, R):
    return (1.0, 0.0, 0.0 if math.isinf(R) else -(n2 - n1) / (n2 * R), n1 / n2)


def space(d):
    return (1.0, d, 0.0, 1.0)


def leaf(s):
    """The Leaf of a (non-group) spec: textbook definitions."""
    k = s["k"]
    dia = s.get("dia", INF)
    if k == "space":
        return Leaf(1.0, s["d"], 0.0, 1.0, s["d"], s["n"], s["n"], dia=dia, kind=k, spec=s)
    if k == "lens":
        return Leaf(1.0, 0.0, -1.0 / s["f"], 1.0, 0.0, fv=0, bv=0, dia=dia, kind=k, spec=s)
    if k == "mirror":
        return Leaf(1.0, 0.0, 2.0 / s["R"], 1.0, 0.0, fv=0, bv=0, dia=dia, kind=k, spec=s)
    if k == "interface":
        return Leaf(*interface(s["n1"], s["n2"], s["R"]), L=0.0, nf=s["n1"], nb=s["n2"], fv=0, bv=0, dia=dia, kind=k, spec=s)
    if k == "thick":
        m = mul(interface(s["n"], 1.0, s["R2"]), mul(space(s["t"]), interface(1.0, s["n"], s["R1"])))
        return Leaf(*m, L=s["t"], fv=0, bv=s["t"], dia=dia, kind=k, spec=s)
    if k == "slab":
        m = mul(interface(s["n"], 1.0, INF), mul(space(s["t"]), interface(1.0, s["n"], INF)))
        return Leaf(*m, L=s["t"], fv=0, bv=s["t"], dia=dia, kind=k, spec=s)
    if k == "aperture":
        return Leaf(1.0, 0.0, 0.0, 1.0, 0.0, dia=dia, NA=s.get("NA", INF), kind=k, spec=s)
    if k == "matrix":
        return Leaf(s["A"], s["B"], s["C"], s["D"], s.get("L", 0.0), s["nf"], s["nb"], s.get("fv"), s.get("bv"),
                    dia=dia, NA=s.get("NA", INF), kind=k, spec=s)
    if k == "axicon":
        return Leaf(1.0, 0.0, 0.0, 1.0, 0.0, dia=dia, kind=k, spec=s)
    raise KeyError(k)


def leaves(specs):
    out = []
    for s in specs:
        if s["k"] == "group":
            out.extend(leaves(s["e"]))
        else:
            out.append(leaf(s))
    return out


def flipLeaf(l):
    """The same element turned around (a mirror shows its other face)."""
    if l.kind == "mirror":
        return l.copy(C=-l.C)
    det = l.nf / l.nb
    fv = None if l.bv is None else l.L - l.bv
    bv = None if l.fv is None else l.L - l.fv
    return l.copy(A=l.D / det, B=l.B / det, C=l.C / det, D=l.A / det, nf=l.nb, nb=l.nf, fv=fv, bv=bv)


def product(ls):
    """Properties of the ordered product of the leaves."""
    m = (1.0, 0.0, 0.0, 1.0)
    L = 0.0
    fv = bv = None
    for l in ls:
        m = mul((l.A, l.B, l.C, l.D), m)
        if fv is None and l.fv is not None:
            fv = L + l.fv
        if l.bv is not None:
            bv = L + l.bv
        L += l.L
    nf = ls[0].nf if ls else 1.0
    nb = ls[-1].nb if ls else 1.0
    return Leaf(*m, L=L, nf=nf, nb=nb, fv=fv, bv=bv, kind="product")


class P:
    """A point of a ray trace"""
    __slots__ = ("z", "y", "t", "blocked")

    def __init__(self, z, y, t, blocked):
        self.z, self.y, self.t, self.blocked = z, y, t, blocked

    def __repr__(self):
        return "(z=%r y=%r t=%r%s)" % (self.z, self.y, self.t, " blocked" if self.blocked else "")


def apply(l, y, t):
    y2, t2 = l.A * y + l.B * t, l.C * y + l.D * t
    if l.kind == "axicon":
        dev = (l.spec["n"] - 1.0) * l.spec["alpha"]
        t2 += -dev if y > 0 else (dev if y < 0 else 0.0)
    return y2, t2


def trace(ls, y, t, z=0.0, blocked=False, margin=None):
    """The points of the trace, and the smallest relative distance to the edge of an aperture
    (so that a case may stay away from rounding at the edges). A blocked ray goes no further."""
    pts = [P(z, y, t, blocked)]
    closest = INF
    for l in ls:
        if blocked:
            break
        if not math.isinf(l.dia):
            closest = min(closest, abs(abs(y) - l.dia / 2) / (l.dia / 2))
        if not math.isinf(l.NA):
            closest = min(closest, abs(abs(t) - l.NA) / l.NA)
        if l.L > 0:
            if abs(y) > l.dia / 2:
                blocked = True
                pts.append(P(z, y, t, True))
                break
            pts.append(P(z, y, t, False))
        hit = abs(y) > l.dia / 2 or abs(t) > l.NA
        y, t = apply(l, y, t)
        z = z + l.L
        blocked = hit
        pts.append(P(z, y, t, blocked))
    return pts, closest


def dedup(points, tol=1e-9):
    """The distinct points: of those that are the same up to rounding errors, the last one"""
    out = []
    q = None
    for p in points:
        if q is not None:
            s = 1 + abs(p.z) + abs(p.y) + abs(p.t)
            if abs(p.z - q.z) <= tol * s and abs(p.y - q.y) <= tol * s and abs(p.t - q.t) <= tol * s and p.blocked == q.blocked:
                out[-1] = p
                continue
        out.append(p)
        q = p
    return out


# ------------------------------------------------------ Gaussian beams
def qOf(w, R, n, lam):
    return 1 / ((0.0 if math.isinf(R) else 1.0 / R) - 1j * lam / (math.pi * n * w * w))


def qThrough(m, q):
    A, B, C, D = m
    return (A * q + B) / (C * q + D)


def wOf(q, n, lam):
    return math.sqrt(lam / (math.pi * n * (-1 / q).imag))


def cardinal(p):
    """Focal lengths, principal planes, BFL, FFL of a product with power, from its definition by
    rays: a ray parallel in object space, and one parallel in image space."""
    A, B, C, D = p.A, p.B, p.C, p.D
    r = {}
    # parallel ray (y=1, t=0) -> (A, C): crosses the axis at -A/C after the back edge
    r["F2"] = p.L - A / C            # from the front edge
    r["f2"] = -1.0 / C               # height 1 / angle
    # ray leaving parallel: C y + D t = 0 -> starts from the axis at distance x before the front
    # y = x t -> x = -D/C
    r["F1"] = D / C                  # position, from the front edge
    r["f1"] = -(p.nf / p.nb) / C
    r["H2"] = r["F2"] - r["f2"]
    r["H1"] = r["F1"] + r["f1"]
    return r
