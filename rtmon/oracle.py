"""Monitors shared by several checks: compare what the real code shows with the model."""
import math

from . import model
from .core import isclose


def matrixIs(ctx, got, want, key, what, vertices=True, rel=1e-9):
    """got (a real Matrix) has the properties of want (a model product)."""
    s = max(abs(want.A), abs(want.B), abs(want.C), abs(want.D), 1.0)
    ok = True
    for name in "ABCD":
        ok &= ctx.close(getattr(got, name), getattr(want, name), key + ":" + name, "%s of %s" % (name, what), rel=rel, scale=s)
    ok &= ctx.close(got.L, want.L, key + ":L", "length of %s" % what, scale=1 + abs(want.L))
    ok &= ctx.close(got.frontIndex, want.nf, key + ":index", "front index of %s" % what)
    ok &= ctx.close(got.backIndex, want.nb, key + ":index", "back index of %s" % what)
    if vertices:
        ok &= ctx.close(got.frontVertex, want.fv, key + ":vertex", "front vertex of %s" % what, scale=1 + abs(want.L))
        ok &= ctx.close(got.backVertex, want.bv, key + ":vertex", "back vertex of %s" % what, scale=1 + abs(want.L))
    return ok


def snapElement(e):
    return (e.A, e.B, e.C, e.D, e.L, e.apertureDiameter, e.apertureNA, e.frontIndex, e.backIndex, e.frontVertex,
            e.backVertex, e.isFlipped, e.label)


def leafObjects(e):
    """The innermost elements of a (nested) group."""
    try:
        n = len(e)
    except TypeError:
        return [e]
    out = []
    for i in range(n):
        out.extend(leafObjects(e[i]))
    return out


def snapSystem(group):
    try:
        n = len(group)
    except TypeError:
        return [(id(group), snapElement(group))]
    out = [(id(group), snapElement(group))]
    for i in range(n):
        out.extend(snapSystem(group[i]))
    return out


def snapRay(r):
    return (r.y, r.theta, r.z, r.isBlocked, r.apertureDiameter)


def points(rayTrace):
    return [model.P(r.z, r.y, r.theta, bool(r.isBlocked)) for r in rayTrace]


def scaleOf(pts):
    return 1.0 + max([abs(p.y) for p in pts] + [10 * abs(p.t) for p in pts])


def exitCut(ls, y, t):
    """Index of the first element of finite length that the ray leaves beyond its aperture (None if
    there is none): whether it is then blocked is finding C04 exit-aperture."""
    z = 0.0
    for i, l in enumerate(ls):
        if abs(y) > l.dia / 2 or abs(t) > l.NA:
            return None
        y, t = model.apply(l, y, t)
        if l.L > 0 and abs(y) > l.dia / 2 * (1 - 1e-9):
            return i
    return None


def traceIs(ctx, rayTrace, want, key, what, blockedToo=True, prefix=False):
    """The points of a real trace are those of the model, repeated points aside."""
    got = model.dedup(points(rayTrace))
    want = model.dedup(want)
    if prefix:
        got = got[:len(want)]
    s = scaleOf(want)
    zs = 1.0 + max(abs(p.z) for p in want)
    ok = True
    if blockedToo:
        if len(got) != len(want):
            ctx.true(False, key + ":points", lambda: "%s: points %s, expected %s" % (what, got, want))
            return False
    n = min(len(got), len(want))
    for g, w in zip(got[:n], want[:n]):
        if not (isclose(g.z, w.z, scale=zs) and isclose(g.y, w.y, scale=s) and isclose(g.t, w.t, scale=s / 10)):
            ok = False
            ctx.true(False, key + ":point", lambda: "%s: point %r, expected %r (trace %s, expected %s)" % (what, g, w, got, want))
            break
        if blockedToo and g.blocked != w.blocked:
            ok = False
            ctx.true(False, key + ":blocked", lambda: "%s: point %r, expected %r (trace %s, expected %s)" % (what, g, w, got, want))
            break
    ctx.counts["oracle checks"] += n
    return ok
