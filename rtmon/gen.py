"""Generators of optical systems, as specs, and the construction of the real objects."""
import copy
import math

import numpy as np

from . import model

INF = float("inf")
NS = [1.0, 1.33, 1.4, 1.515, 1.5168, 1.7, 2.0]


def fl(rng, lo, hi):
    """A length: round numbers, or any float."""
    c = rng.random()
    if c < 0.3:
        if math.floor(hi) < math.ceil(lo):
            return rng.uniform(lo, hi)
        v = rng.randint(math.ceil(lo), math.floor(hi))
        return v if c < 0.15 else float(v)
    if c < 0.6:
        return round(rng.uniform(lo, hi), 1) or lo
    return rng.uniform(lo, hi)


def wide(rng, lo, hi, low, high, p=0.08):
    """A length between lo and hi, now and then anything from low to high"""
    if rng.random() < p:
        return math.exp(rng.uniform(math.log(low), math.log(high)))
    return fl(rng, lo, hi)


def index(rng, n=None):
    """An index other than n: a usual one, any one, or nearly n"""
    c = rng.random()
    if c < 0.1:
        return rng.uniform(1.0001, 2.2)
    if c < 0.2 and n is not None:
        return n + rng.choice((1e-3, 2e-3, 5e-3, 1e-2, -1e-3, -5e-3)) if n > 1.1 else n + rng.choice((3e-4, 1e-3, 1e-2))
    return rng.choice([x for x in NS if x != n])


def sign(rng):
    return rng.choice((-1, 1))


def diameter(rng, p=0.6, lo=2.0, hi=60.0):
    return wide(rng, lo, hi, lo / 20, hi * 20, 0.05) if rng.random() < p else INF


def matrixSpec(rng, nf, withL=False):
    """A generic element with the right determinant."""
    nb = index(rng, nf) if rng.random() < 0.3 else nf
    A = rng.choice((1.0, 1.0, rng.uniform(-2, 2)))
    if abs(A) < 0.2:
        A = 0.7
    B = rng.choice((0.0, rng.uniform(-20, 20)))
    C = rng.choice((0.0, rng.uniform(-0.05, 0.05)))
    if rng.random() < 0.06:
        C = sign(rng) * 10 ** rng.uniform(-9, -2)    # as good as nothing, but not nothing
    D = (nf / nb + B * C) / A
    if rng.random() < 0.06:
        # a focal point exactly at an edge
        C = sign(rng) * rng.uniform(0.01, 0.05)
        A, B, D = rng.choice(((A, -nf / nb / C, 0.0), (0.0, -nf / nb / C, D), (0.0, -nf / nb / C, 0.0)))
    s = {"k": "matrix", "A": A, "B": B, "C": C, "D": D, "nf": nf, "nb": nb}
    if withL and rng.random() < 0.4:
        s["L"] = wide(rng, 1, 30, 1e-4, 300)
    if not s.get("L"):
        v = rng.random()
        if v < 0.4:
            s["fv"] = 0.0
            s["bv"] = 0.0
    else:
        if rng.random() < 0.5:
            s["fv"] = 0.0
            s["bv"] = s["L"]
    return s


class Options:
    """What a generated system may contain."""

    def __init__(self, kinds=None, pDia=0.5, minN=1, maxN=8, indices=True, groups=True, endInAir=False,
                 maxEntry=300.0, startAir=False, NA=False, spacing=True, dLo=0.5, dHi=60.0, matrixL=False, back=False, long=0.0):
        self.kinds = kinds or ["space", "space", "space", "lens", "lens", "interface", "thick", "slab", "aperture",
                               "mirror", "matrix"]
        self.pDia, self.minN, self.maxN, self.indices, self.groups = pDia, minN, maxN, indices, groups
        self.endInAir, self.maxEntry, self.startAir, self.NA, self.spacing = endInAir, maxEntry, startAir, NA, spacing
        self.dLo, self.dHi, self.matrixL, self.back, self.long = dLo, dHi, matrixL, back, long


def element(rng, n, o):
    """A spec that may follow a medium of index n."""
    for _ in range(50):
        k = rng.choice(o.kinds)
        if k == "space":
            s = {"k": "space", "d": wide(rng, o.dLo, o.dHi, 1e-3, 1e3, 0.05), "n": n}
            if rng.random() < 0.15 * (o.pDia > 0):
                s["dia"] = fl(rng, 5, 60)
            if o.back and rng.random() < 0.1:
                s["d"] = -s["d"]    # to a virtual image
            if rng.random() < 0.05:
                s["focus"] = True   # made as the space to a focus
            return s
        if k == "interface":
            if not o.indices:
                continue
            n2 = index(rng, n)
            R = INF if rng.random() < 0.25 else sign(rng) * wide(rng, 8, 200, 1, 1e6)
            return {"k": k, "n1": n, "n2": n2, "R": R, "dia": diameter(rng, o.pDia)}
        if k == "matrix":
            s = matrixSpec(rng, n, o.matrixL) if o.indices else matrixSpec(rng, n, o.matrixL)
            if not o.indices and s["nb"] != n:
                continue
            if rng.random() < o.pDia * 0.5:
                s["dia"] = fl(rng, 3, 60)
            return s
        if n != 1.0:
            continue    # these elements are in air
        if k == "lens":
            return {"k": k, "f": sign(rng) * wide(rng, 5, 150, 0.5, 1e6), "dia": diameter(rng, o.pDia)}
        if k == "mirror":
            return {"k": k, "R": INF if rng.random() < 0.08 else sign(rng) * wide(rng, 10, 200, 1, 1e6), "dia": diameter(rng, o.pDia)}
        if k == "aperture":
            s = {"k": k, "dia": fl(rng, 1, 50)}
            if o.NA and rng.random() < 0.4:
                s["NA"] = rng.uniform(0.02, 0.6)
            return s
        if k == "thick":
            R1 = INF if rng.random() < 0.2 else sign(rng) * fl(rng, 15, 200)
            R2 = INF if rng.random() < 0.2 else sign(rng) * fl(rng, 15, 200)
            return {"k": k, "n": index(rng, 1.0), "R1": R1, "R2": R2, "t": wide(rng, 0.5, 12, 1e-4, 60), "dia": diameter(rng, o.pDia)}
        if k == "slab":
            return {"k": k, "n": index(rng, 1.0), "t": wide(rng, 0.5, 30, 1e-4, 200), "dia": diameter(rng, o.pDia)}
        if k == "axicon":
            return {"k": k, "n": index(rng, 1.0), "alpha": rng.uniform(0.005, 0.1), "dia": diameter(rng, o.pDia)}
        raise KeyError(k)
    return {"k": "space", "d": fl(rng, o.dLo, o.dHi), "n": n}


def backIndex(s, n):
    k = s["k"]
    if k == "interface":
        return s["n2"]
    if k == "matrix":
        return s["nb"]
    if k == "group":
        for e in s["e"]:
            n = backIndex(e, n)
    return n


def frontIndex(s):
    k = s["k"]
    if k == "group":
        return frontIndex(s["e"][0])
    return s["n1"] if k == "interface" else s["nf"] if k == "matrix" else s["n"] if k == "space" else 1.0


def system(rng, o, n=None, depth=0):
    """A list of specs that follow one another, with moderate matrix entries."""
    if n is None:
        n = 1.0 if (o.startAir or not o.indices or rng.random() < 0.6) else index(rng)
    target = rng.randint(o.minN, o.maxN)
    if not depth and o.long and rng.random() < o.long:
        target = rng.randint(20, 60)
    specs = []
    total = (1.0, 0.0, 0.0, 1.0)
    tries = 0
    while len(specs) < target and tries < 60 + 2 * target:
        tries += 1
        s = rng.choice(specs) if specs and rng.random() < 0.06 else None
        if s and frontIndex(s) == n and not s.get("turned"):
            s = copy.deepcopy(s)        # once more
        elif o.groups and depth < 2 and rng.random() < 0.08:
            sub = Options(**{**o.__dict__, "minN": 1, "maxN": 4})
            s = {"k": "group", "e": system(rng, sub, n, depth + 1)}
            if not s["e"]:
                continue
        else:
            s = element(rng, n, o)
        p = model.product(model.leaves([s]))
        m = model.mul((p.A, p.B, p.C, p.D), total)
        if max(abs(m[0]), abs(m[1]) / 10, abs(m[2]) * 10, abs(m[3])) > o.maxEntry:
            continue
        if rng.random() < 0.05 and mayTurn(s):
            s["turned"] = True      # the same optics, built the other way around and flipped
        specs.append(s)
        total = m
        n = backIndex(s, n)
    if o.endInAir and n != 1.0:
        specs.append({"k": "interface", "n1": n, "n2": 1.0, "R": INF, "dia": INF})
    return specs


# -------------------------------------------------------------- real objects
def turn(s):
    """What to build and flip to get this element"""
    s = {k: v for k, v in s.items() if k != "turned"}
    k = s["k"]
    if k == "mirror":
        s["R"] = -s["R"]
    elif k == "interface":
        s.update(n1=s["n2"], n2=s["n1"], R=-s["R"])
    elif k == "thick":
        s.update(R1=-s["R2"], R2=-s["R1"])
    elif k == "matrix":
        det = s["A"] * s["D"] - s["B"] * s["C"]
        s.update(A=s["D"] / det, B=s["B"] / det, C=s["C"] / det, D=s["A"] / det, nf=s["nb"], nb=s["nf"])
    elif k == "group":
        s["e"] = [turn(e) for e in reversed(s["e"])]
    return s


def mayTurn(s):
    """Axicons are not turned, and explicit vertices are a known finding of C10"""
    if s["k"] == "group":
        return all(mayTurn(e) for e in s["e"])
    return s["k"] != "axicon" and not s.get("turned") and not (s["k"] == "matrix" and s.get("L") and s.get("fv") is not None)


def build(s):
    import raytracing as rt
    if s.get("turned"):
        return build(turn(s)).flipOrientation()
    from raytracing.axicon import Axicon
    k = s["k"]
    dia = s.get("dia", INF)
    named = {"label": s["label"]} if "label" in s else {}
    if k == "space" and s.get("focus") and abs(s["d"]) < 1e4:
        e = rt.ToFocus(rt.Matrix(1, 0, -1 / s["d"], 1, frontIndex=s["n"], backIndex=s["n"]))
        if e.L == s["d"]:
            e.apertureDiameter, e.label = dia, s.get("label", "")
            return e
    if k == "space":
        return rt.Space(d=s["d"], n=s["n"], diameter=dia, **named)
    if k == "lens":
        return rt.Lens(f=s["f"], diameter=dia, **named)
    if k == "mirror":
        return rt.CurvedMirror(R=s["R"], diameter=dia, **named)
    if k == "interface":
        return rt.DielectricInterface(n1=s["n1"], n2=s["n2"], R=s["R"], diameter=dia, **named)
    if k == "thick":
        return rt.ThickLens(n=s["n"], R1=s["R1"], R2=s["R2"], thickness=s["t"], diameter=dia, **named)
    if k == "slab":
        return rt.DielectricSlab(n=s["n"], thickness=s["t"], diameter=dia, **named)
    if k == "aperture":
        return rt.Aperture(diameter=dia, NA=s.get("NA", INF), **named)
    if k == "matrix":
        return rt.Matrix(A=s["A"], B=s["B"], C=s["C"], D=s["D"], physicalLength=s.get("L", 0.0),
                         frontVertex=s.get("fv"), backVertex=s.get("bv"), frontIndex=s["nf"], backIndex=s["nb"],
                         apertureDiameter=dia, apertureNA=s.get("NA", INF), **named)
    if k == "axicon":
        return Axicon(alpha=s["alpha"], n=s["n"], diameter=dia, **named)
    if k == "group":
        return rt.MatrixGroup(buildAll(s["e"]), **named)
    raise KeyError(k)


def buildAll(specs):
    return [build(s) for s in specs]


def show(specs):
    def one(s):
        if s["k"] == "group":
            return "Group[" + ", ".join(one(e) for e in s["e"]) + "]"
        return s["k"] + "(" + ", ".join("%s=%s" % (k, ("%.17g" % v) if isinstance(v, float) else v)
                                        for k, v in s.items() if k != "k" and v != INF) + ")"
    return "[" + ", ".join(one(s) for s in specs) + "]"


def kindsOf(specs):
    out = []
    for s in specs:
        out.append(s["k"] if s["k"] != "group" else ("group", tuple(kindsOf(s["e"]))))
    return tuple(out)


def ray(rng, yMax=20.0, tMax=0.3):
    c = rng.random()
    if c < 0.02:
        return 0, 0
    if c < 0.04:
        return np.float64(rng.uniform(-yMax, yMax)), np.float64(rng.uniform(-tMax, tMax))
    if c < 0.08:
        return 0.0, rng.uniform(-tMax, tMax)
    if c < 0.16:
        return rng.uniform(-yMax, yMax), 0.0
    if c < 0.3:
        return float(rng.randint(-int(yMax), int(yMax))), round(rng.uniform(-tMax, tMax), 2)
    return rng.uniform(-yMax, yMax), rng.uniform(-tMax, tMax)
