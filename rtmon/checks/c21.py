"""C21 figures: what is drawn, read back from the artists of matplotlib"""
import math
import os
import warnings

import numpy as np

from rtmon import gen, model, oracle

INF = gen.INF
OBJECT, IMAGE, FOV1, FOV2 = "#010253", "#530102", "#0a5301", "#53530b"
RAYS = ["#112233", "#332211", "#113322"]
LAMP = ["#441111", "#114411"]
OWN = ["#771122", "#227711", "#112277", "#777711", "#117777"]


class Shot:
    """Opens no window: records the figures that are shown or saved"""

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt = plt
        plt.close("all")
        self.shown, self.saved = 0, []
        self.show, self.savefig = plt.show, plt.Figure.savefig
        shot = self

        def show(*a, **k):
            shot.shown += 1
            if getattr(shot, "onShow", None):
                shot.onShow()

        def savefig(figure, fname, *a, **k):
            shot.saved.append(fname)
            if getattr(shot, "write", False):
                k["dpi"] = 72
                return shot.savefig(figure, fname, *a, **k)
        plt.show = show
        plt.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.plt.show = self.show
        self.plt.Figure.savefig = self.savefig
        self.plt.close("all")

    def axes(self):
        return self.plt.figure(self.plt.get_fignums()[-1]).axes[0]


def polylines(ax, visible=True):
    """Ray lines: [(z, y), ...] each, repeated points aside"""
    out = []
    for l in ax.lines:
        if l.get_label() == "ray" and (visible is None or l.get_visible() == visible):
            out.append(clean(zip(l.get_xdata(), l.get_ydata())))
    return [x for x in out if len(x) > 1]


def colours(ax):
    """The same lines, with their colours"""
    from matplotlib.colors import to_hex
    out = []
    for l in ax.lines:
        if l.get_label() == "ray" and l.get_visible():
            pts = clean(zip(l.get_xdata(), l.get_ydata()))
            if len(pts) > 1:
                out.append((pts, to_hex(l.get_color())))
    return out


def coloured(traces, colours):
    """The colour of a ray tells the height it starts from: from the first to the last one. Two are
    possible half way between them."""
    traces = [t for t in traces if t]
    top = max([abs(t[0][1]) for t in traces] + [0.0])
    out = []
    for t in traces:
        x = (t[0][1] + top) / (2 * top) * (len(colours) - 1) if top else 1 % len(colours)
        out.append((t, {c for i, c in enumerate(colours) if abs(i - x) <= 0.5 + 1e-6}))
    return out


def clean(pts):
    out = []
    for z, y in pts:
        z, y = float(z), float(y)
        if out and abs(out[-1][0] - z) <= 1e-9 * (1 + abs(z)) and abs(out[-1][1] - y) <= 1e-9 * (1 + abs(y)):
            continue
        out.append((z, y))
    return out


def drawnTrace(trace, dz=0.0, sign=1, removeBlocked=True):
    """What is drawn of a trace"""
    pts = []
    for r in trace:
        if r.isBlocked:
            if removeBlocked:
                return []
            continue
        pts.append((sign * abs(r.z) + dz if sign < 0 else r.z + dz, r.y))
    pts = clean(pts)
    return pts if len(pts) > 1 else []


def same(a, b):
    if len(a) != len(b):
        return False
    s = 1 + max(abs(v) for p in b for v in p)
    return all(abs(p[0] - q[0]) <= 1e-7 * s and abs(p[1] - q[1]) <= 1e-7 * s for p, q in zip(a, b))


def match(ctx, got, want, equal, key, what):
    """got and want are the same, in any order"""
    left = list(got)
    missing = []
    for w in want:
        for i, g in enumerate(left):
            if equal(g, w):
                del left[i]
                break
        else:
            missing.append(w)
    if missing and left:
        # the first that is equal may be another's only one
        owner = {}

        def assign(i, tried):
            for j, g in enumerate(got):
                if j not in tried and equal(g, want[i]):
                    tried.add(j)
                    if j not in owner or assign(owner[j], tried):
                        owner[j] = i
                        return True
            return False
        missing = [w for i, w in enumerate(want) if not assign(i, set())]
        left = [g for j, g in enumerate(got) if j not in owner]
    ctx.true(not missing and not left, key,
             lambda: "%s: %d drawn, %d expected; missing %s; unexpected %s" % (what, len(got), len(want), missing[:3], left[:3]))
    return not missing and not left


def patchData(ax, p):
    return (p.get_transform() - ax.transData).transform(p.get_path().vertices)


def rgb(c):
    from matplotlib.colors import to_hex
    return to_hex(c[:3])


def arrows(ax, colour):
    """Visible arrows of this colour, as (z, tip)"""
    out = []
    for p in ax.patches:
        if type(p).__name__ != "PathPatch" or not p.get_visible() or rgb(p.get_edgecolor()) != colour:
            continue
        v = patchData(ax, p)
        z = (v[:, 0].max() + v[:, 0].min()) / 2
        i = int(np.argmin(np.abs(v[:, 0] - z)))
        out.append((float(z), float(v[i, 1]), float(v[:, 1].min()), float(v[:, 1].max())))
    return out


def sameArrow(g, w):
    z, h = w
    s = 1e-6 * (1 + abs(z) + abs(h))
    return abs(g[0] - z) <= s and abs(g[1] - h) <= s and abs(g[2] + abs(h)) <= s and abs(g[3] - abs(h)) <= s


def allPatches(ax):
    out = []
    for p in ax.patches:
        if type(p).__name__ == "PathPatch" and p.get_visible():
            out.append(patchData(ax, p))
    return out


def sag(R, h):
    if math.isinf(R):
        return 0.0
    return math.copysign(abs(R) - math.sqrt(max(0.0, R * R - h * h)), R) if h <= abs(R) else R


def has(v, z, y, s):
    return bool(np.any((np.abs(v[:, 0] - z) <= s) & (np.abs(v[:, 1] - y) <= s)))


def elementsDrawn(ctx, ax, specs, flat):
    """Apertures, surfaces and boxes are where the elements are"""
    patches = allPatches(ax)
    z = 0.0
    for s in flat:
        l = model.leaf(s)
        tol = 1e-6 * (1 + z + l.L + (0 if math.isinf(l.dia) else l.dia))
        h = l.dia / 2 if not math.isinf(l.dia) else None
        if s["k"] != "space":
            if h is not None and s["k"] in ("lens", "aperture", "matrix", "thick", "slab"):
                def bar(v):
                    if np.max(np.abs(np.abs(v[:, 1]) - h)) > tol or v[:, 1].max() < 0 or v[:, 1].min() > 0:
                        return False
                    lo, hi = v[:, 0].min(), v[:, 0].max()
                    if l.L == 0:
                        return abs((lo + hi) / 2 - z) <= tol and hi > lo
                    if s["k"] == "matrix":
                        thin = 0.006 if l.L <= 0.01 else 0      # would not be seen: it is drawn wider
                        return abs(lo - z) <= tol + thin and abs(hi - z - l.L) <= tol + thin
                    return True
                ctx.true(any(len(v) <= 6 and bar(v) for v in patches), "elements:aperture",
                         lambda: "no bars at y=+-%r, z=%r for %s" % (h, z, s))
                ctx.observe("apertures drawn")
            if s["k"] in ("thick", "slab", "interface", "mirror"):
                H = h if h is not None else 4.0
                Rs = {"thick": (s.get("R1"), s.get("R2")), "slab": (INF, INF), "interface": (s.get("R"),), "mirror": (s.get("R"),)}[s["k"]]
                zs = (z, z + l.L)
                want = []
                for zz, R in zip(zs, Rs):
                    if not math.isinf(R):
                        want += [(zz, 0.0)]
                    want += [(zz + sag(R, H), H), (zz + sag(R, H), -H)]
                ctx.true(any(all(has(v, a, b, tol) for a, b in want) for v in patches), "elements:surface",
                         lambda: "no drawing through %s for %s at z=%r" % (want, s, z))
                ctx.observe("surfaces drawn")
            if s["k"] == "matrix":
                H = h if h is not None else 4.0
                want = [(z, H), (z + l.L, H), (z, -H), (z + l.L, -H)]
                ctx.true(any(len(v) > 4 and all(has(v, a, b, tol) for a, b in want) and abs(np.ptp(v[:, 0]) - l.L) <= tol for v in patches), "elements:box",
                         lambda: "no box through %s for %s" % (want, s))
                ctx.observe("boxes drawn")
            if s["k"] == "lens":
                H = h
                ok = any(abs((v[:, 0].max() + v[:, 0].min()) / 2 - z) <= tol and len(v) >= 8 and abs(v[:, 1].max() + v[:, 1].min()) <= tol
                         and (H is None or abs(v[:, 1].max() - H) <= tol) for v in patches)
                ctx.true(ok, "elements:lens", lambda: "no lens at z=%r of half height %r" % (z, H))
                ctx.observe("lenses drawn")
        z += l.L


def markers(ax):
    return sorted(float(x) for l in ax.lines if l.get_marker() == "o" and l.get_visible() for x in l.get_xdata())


def focalPoints(specs):
    """Focal points of the elements the path consists of"""
    out = []
    z = 0.0
    for s in specs:
        if s["k"] in ("lens", "thick", "mirror"):
            l = model.leaf(s)
            if abs(l.C) > 1e-4:
                c = model.cardinal(l)
                out += [z + c["F1"], z + c["F2"]] if s["k"] != "thick" else [z - c_front(l), z + l.L + c_back(l)]
        z += model.product(model.leaves([s])).L
    return out


def c_front(l):
    return -l.D / l.C


def c_back(l):
    return -l.A / l.C


def place(rng, specs):
    """A position strictly inside of a Space of the path, and the systems on both sides"""
    spaces = []
    z = 0.0
    for i, s in enumerate(specs):
        L = model.product(model.leaves([s])).L
        if s["k"] == "space" and L > 0.2 and "dia" not in s:
            spaces.append((i, z, L))
        z += L
    if not spaces:
        return None
    i, z, L = rng.choice(spaces)
    d = rng.choice((0.5, rng.uniform(0.05, 0.95))) * L
    s = specs[i]
    return z + d, [dict(s, d=L - d)] + specs[i + 1:], [dict(s, d=d)] + list(reversed(specs[:i])), i


def snap(path):
    return [x[1] for x in oracle.snapSystem(path)]


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    k = rng.random()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Shot() as shot:
            if k < 0.7:
                imaging(ctx, rt, rng, shot)
            elif k < 0.88:
                laser(ctx, rt, rng, shot)
            elif k < 0.94:
                objective(ctx, rt, rng, shot)
            else:
                histogram(ctx, rt, rng, shot)


def makeSystem(rng, **kw):
    o = gen.Options(minN=1, maxN=rng.choice((2, 4, 7)), pDia=rng.choice((0.3, 0.9)), indices=False, groups=False, maxEntry=40.0, matrixL=True,
                    dLo=2.0, dHi=80.0, **kw)
    specs = [{"k": "space", "d": gen.fl(rng, 5, 100), "n": 1.0}] + gen.system(rng, o)
    if rng.random() < 0.15 and len(specs) > 1 and specs[1]["k"] == "lens" and specs[1]["f"] > 0:
        specs[0]["d"] = specs[1]["f"]      # a focal point exactly at the beginning
    if rng.random() < 0.5:
        specs.append({"k": "space", "d": gen.fl(rng, 5, 100), "n": 1.0})
    if rng.random() < 0.2:
        i = rng.randrange(len(specs))
        j = rng.randint(i + 1, len(specs))
        specs[i:j] = [{"k": "group", "e": specs[i:j]}]
    return specs


def imaging(ctx, rt, rng, shot):
    specs = makeSystem(rng)
    telecentric = rng.random() < 0.06
    if telecentric:
        # the aperture stop is in the focal plane of a lens: the entrance pupil is at infinity
        f = gen.fl(rng, 10, 60)
        specs = [{"k": "space", "d": gen.fl(rng, 5, 100), "n": 1.0}, {"k": "lens", "f": f}, {"k": "space", "d": f * rng.choice((1, 1, 1.02, 0.97, 0.998)), "n": 1.0}, {"k": "aperture", "dia": gen.fl(rng, 0.5, 3)},
                 {"k": "space", "d": gen.fl(rng, 1, 50), "n": 1.0}]
    flat = [e for s in specs for e in (s["e"] if s["k"] == "group" else [s])]
    mirrors = any(s["k"] == "mirror" for s in flat)
    p = model.product(model.leaves(specs))
    if max(abs(p.A), abs(p.D), abs(p.C) * 10, abs(p.B) / 10) > 60:
        from rtmon.core import Skip
        raise Skip("strong system")
    # --- what to show
    sources = []     # (rays object maker, rays, z, yMax, is object)
    n = rng.choice((0, 0, 1, 1, 1, 2, 2, 3))
    for _ in range(n):
        kind = rng.choice(("object", "object", "object", "uniform", "lamp", "list"))
        y, a = gen.fl(rng, 1, 12), rng.choice((0.0, rng.uniform(0.005, 0.3)))
        H, T = rng.choice((1, 2, 3, 4)), rng.choice((1, 2, 3, 5))
        if rng.random() < 0.02:
            H, T = rng.choice(((40, 9), (21, 17)))
            ctx.observe("large bundles")
            if rng.random() < 0.5:
                kind = rng.choice(("uniform", "list"))
                sources.append((kind, y + 1, 0.0, a, (H, T), None, None))
        z = 0.0
        parts = None
        if kind in ("object", "lamp") and rng.random() < 0.5 and not mirrors:
            parts = place(rng, specs)
            if parts:
                z = parts[0]
                if sources and sources[-1][1] and rng.random() < 0.3 and sources[-1][0] == "object":
                    z, parts = sources[-1][2], sources[-1][5]    # two objects in a plane
        own = rng.sample(OWN, rng.randint(1, 4)) if kind in ("object", "lamp", "uniform") and rng.random() < 0.25 else None
        sources.append((kind, y, z, a, (H, T), parts, own))
    if any(s[0] == "lamp" for s in sources) and any(s[0] == "object" for s in sources):
        sources = [s for s in sources if s[0] != "lamp"]
    removeBlocked = rng.random() < 0.6
    opts = {"removeBlocked": removeBlocked}
    flags = {}
    if rng.random() < 0.3:
        opts["onlyPrincipalAndAxialRays"] = rng.random() < 0.5
    if rng.random() < 0.2:
        opts["limitObjectToFieldOfView"] = rng.random() < 0.5
    if rng.random() < 0.4:
        opts["interactive"] = rng.random() < 0.7
    for f in ("showObject", "showImages", "showPointsOfInterest", "showPointsOfInterestLabels", "showElementLabels"):
        if rng.random() < 0.12:
            flags[f] = False
    if rng.random() < (0.2 if not telecentric else 0.7):
        flags["showEntrancePupil"] = True
    height = gen.fl(rng, 1, 15) if rng.random() < 0.5 else None
    fan = (gen.fl(rng, 0.01, 0.2), rng.choice((1, 2, 3, 5)), rng.choice((1, 2, 3, 5))) if rng.random() < 0.4 else None
    ctx.input("%s; %s; rays %s; %s; height %r fan %r" % (gen.show(specs), opts, [s[:5] for s in sources], flags, height, fan))

    path = rt.ImagingPath(gen.buildAll(specs))
    if height is not None:
        path.objectHeight = height
    for f, v in flags.items():
        setattr(path, f, v)
    if fan:
        path.fanAngle, path.fanNumber, path.rayNumber = fan
    path.design(objectColor=OBJECT, imageColor=IMAGE, FOVColors=[FOV1, FOV2], rayColors=list(RAYS), lampRayColors=list(LAMP), fontScale=0.1)
    before, z0 = snap(path), path.objectHeight

    def make():
        out = []
        for kind, y, z, a, (H, T), parts, own in sources:
            if kind in ("object",):
                out.append(rt.ObjectRays(y, a, H=H, T=T, z=z, rayColors=own))
            elif kind == "uniform":
                out.append(rt.UniformRays(yMax=y, yMin=-y / 2, thetaMax=a, thetaMin=-a / 3, M=H, N=T))
                out[-1].rayColors = own
            elif kind == "lamp":
                out.append(rt.LampRays(y, NA=math.sin(a) if a else 0.1, N=7, random=False, T=3, z=z, rayColors=own) if rng.random() < 0.5
                           else rt.LampRays(y, NA=0.1, N=6, z=z, rayColors=own))
            else:
                out.append(rt.Rays([rt.Ray(y, a), rt.Ray(-y, a / 2), rt.Ray(0, -a)]))
        return out
    group = make()
    rays = [[(r.y, r.theta) for r in g] for g in group]
    rounds = rng.choice((1, 1, 2))
    for attempt in range(rounds):
        if attempt:
            # the design is kept: nothing is set again
            shot.plt.close("all")
            for g, r in zip(group, rays):
                ctx.true([(x.y, x.theta) for x in g] == r, "unchanged:rays", "the rays changed when they were displayed")
            ctx.observe("displayed again")
            if not path.design:
                pass
        n0 = shot.shown
        how = rng.random()
        saved, withObject = None, False
        if how < 0.12:
            saved = "/tmp/never-written-%d.png" % ctx.index
            n1 = len(shot.saved)
            real = rng.random() < 0.3
            shot.write = real
            saved = os.path.join(ctx.scratch, "c21-%d.png" % ctx.index)
            o2 = {k: v for k, v in opts.items() if k != "interactive"}
            path.saveFigure(saved, raysList=list(group), **o2)
            ctx.true(len(shot.saved) == n1 + 1 and str(shot.saved[-1]) == saved, "save", lambda: "saved %s instead of %s" % (shot.saved[n1:], saved))
            ctx.true(shot.shown == n0, "save", "saveFigure also opens the figure")
            if real:
                ctx.true(os.path.exists(saved) and open(saved, "rb").read(4) == b"\x89PNG", "save", "no PNG file after saveFigure")
                os.remove(saved)
            shot.write = False
            ctx.observe("figures saved")
        elif len(group) == 1 and sources[0][0] == "object" and sources[0][5] is None and sources[0][6] is None and how < 0.5:
            kind, y, z, a, (H, T) = sources[0][:5]
            path.displayWithObject(y, fanAngle=a, fanNumber=H, rayNumber=T, removeBlocked=removeBlocked)
            ctx.true(path.objectHeight == y, "withObject:height", lambda: "object height %r after displayWithObject(%r)" % (path.objectHeight, y))
            z0 = y
            withObject = True
            ctx.observe("displays with an object")
        elif len(group) == 1 and how < 0.7:
            path.display(rays=group[0], **opts)
        elif len(group) > 1 and how < 0.3:
            path.display(rays=group[-1], raysList=list(group[:-1]), **opts)
        else:
            path.display(raysList=list(group) if group or rng.random() < 0.5 else None, **opts)
        if saved is None:
            ctx.true(shot.shown == n0 + 1, "shown", "shown %d times" % (shot.shown - n0))
        ax = shot.axes()
        ctx.observe("figures read")
        judge(ctx, rt, rng, ax, specs, flat, sources, rays, removeBlocked, opts if not withObject else {}, flags, path, fan, z0, attempt)
        ctx.true(snap(path) == before, "unchanged", "displaying the path changed its elements")
        limited = opts.get("limitObjectToFieldOfView")
        if limited is False or (limited is None and height is not None):
            ctx.true(path.objectHeight == z0, "unchanged:height", lambda: "displaying the path changed its object height from %r to %r" % (z0, path.objectHeight))
            ctx.observe("object heights kept")
    try:
        path.design(rayColors=list(RAYS))
        ctx.observe("designs after a display")
    except Exception as err:
        ctx.fail("design", "design() after a display: %s(%s)" % (type(err).__name__, err))
    ctx.nontrivial((gen.kindsOf(specs), tuple(s[:5] for s in sources), tuple(sorted(opts.items())), tuple(sorted(flags))))


def judge(ctx, rt, rng, ax, specs, flat, sources, rays, removeBlocked, opts, flags, path, fan, z0, attempt):
    fresh = rt.ImagingPath(gen.buildAll(specs))
    stop = fresh.apertureStop()[0]
    principal, axial = fresh.principalRay(), fresh.axialRay()
    only = opts.get("onlyPrincipalAndAxialRays", True) and stop is not None and principal is not None
    objects = [s for s in sources if s[0] == "object"]
    lamps = [s for s in sources if s[0] == "lamp"]
    got = polylines(ax)
    if not sources and only:
        # the principal and axial rays
        want = [drawnTrace(fresh.trace(r), removeBlocked=removeBlocked) for r in (principal, axial) if r is not None]
        if nearEdge(specs, [(principal.y, principal.theta)]) or (axial is not None and nearEdge(specs, [(axial.y, axial.theta)])):
            ctx.observe("principal or axial rays at an edge")
        match(ctx, got, [w for w in want if w], same, "lines:principal", "principal and axial rays")
        match(ctx, colours(ax), coloured(want, RAYS), lambda g, w: g[1] in w[1] and same(g[0], w[0]), "lines:colour", "colours of the principal and axial rays")
        ctx.observe("principal and axial rays drawn")
        if ctx.true(True, "x", ""):
            match(ctx, arrows(ax, FOV1), [(0.0, principal.y)], sameArrow, "arrows:fov", "field of view")
            imgs = [(z, m * principal.y) for z, m in fresh.intermediateConjugates()]
            match(ctx, arrows(ax, FOV2), imgs, sameArrow, "arrows:fov-image", "images of the field of view")
            match(ctx, arrows(ax, OBJECT) + arrows(ax, IMAGE), [], sameArrow, "arrows:hidden", "object and images while the field of view is displayed")
            ctx.observe("images drawn", len(imgs))
    else:
        want = []
        hues = []
        for (kind, y, z, a, hn, parts, own), rr in zip(sources, rays):
            first = len(want)
            if parts is None:
                for r in rr:
                    want.append(drawnTrace(fresh.trace(rt.Ray(*r)), removeBlocked=removeBlocked))
            else:
                fwd = rt.ImagingPath(gen.buildAll(parts[1]))
                bwd = rt.ImagingPath([flipped(e) for e in gen.buildAll(parts[2])])
                for r in rr:
                    want.append(drawnTrace(fwd.trace(rt.Ray(*r)), z, removeBlocked=removeBlocked))
                    want.append(drawnTrace(bwd.trace(rt.Ray(*r)), z, -1, removeBlocked=removeBlocked))
                ctx.observe("objects inside of the path" if kind == "object" else "lamps inside of the path")
            hues += coloured(want[first:], own or (LAMP if kind == "lamp" else RAYS))
            ctx.observe("rays with their own colours", len(want) - first if own else 0)
        default = None
        if not objects and not lamps:
            default = path.objectHeight
            limited = opts.get("limitObjectToFieldOfView")
            H, T = (fan[1], fan[2]) if fan else (3, 3)
            if fan:
                for r in rt.ObjectRays(default, halfAngle=fan[0], H=H, T=T):
                    want.append(drawnTrace(fresh.trace(r), removeBlocked=removeBlocked))
        want = [w for w in want if w]
        if default is not None and not fan:
            # rays from the default object, at angles that were chosen
            rest = list(got)
            for w in want:
                for i, g in enumerate(rest):
                    if same(g, w):
                        del rest[i]
                        break
                else:
                    ctx.true(False, "lines", lambda: "ray %s is not drawn" % w)
            hs = sorted(set(np.linspace(-default / 2, default / 2, H).tolist()) if H > 1 else [0.0])
            ctx.true(len(rest) <= H * T, "lines:default", lambda: "%d lines from the default object" % len(rest))
            for g in rest:
                ctx.true(any(abs(g[0][1] - h) <= 1e-9 * (1 + abs(h)) for h in hs) or not removeBlocked, "lines:default",
                         lambda: "a ray of the default object starts at %r, not in %s" % (g[0][1], hs))
            ctx.observe("default objects")
        else:
            match(ctx, got, want, same, "lines", "rays")
            ctx.observe("rays drawn", len(want))
            if default is None:
                match(ctx, colours(ax), hues, lambda g, w: g[1] in w[1] and same(g[0], w[0]), "lines:colour", "colours of the rays")
                ctx.observe("colours of rays", len(hues))
            if len(want) < sum(map(len, rays)):
                ctx.observe("figures with blocked rays")
        obj, img = [], []
        for kind, y, z, a, hn, parts, own in objects:
            obj.append((z, y / 2 if hn[0] > 1 else y / 2))
            if parts is None:
                img += [(zz, m * y / 2) for zz, m in fresh.intermediateConjugates()]
            else:
                fwd = rt.ImagingPath(gen.buildAll(parts[1]))
                bwd = rt.ImagingPath([flipped(e) for e in gen.buildAll(parts[2])])
                img += [(z + zz, m * y / 2) for zz, m in fwd.intermediateConjugates()]
                img += [(z - zz, m * y / 2) for zz, m in bwd.intermediateConjugates()]
        if default is not None:
            obj.append((0.0, default / 2))
            img += [(zz, m * default / 2) for zz, m in fresh.intermediateConjugates()]
        if flags.get("showObject") is False:
            obj = []
        if flags.get("showImages") is False:
            img = []
        match(ctx, arrows(ax, OBJECT), obj, sameArrow, "arrows:object", "objects")
        match(ctx, arrows(ax, IMAGE), img, sameArrow, "arrows:image", "images")
        match(ctx, arrows(ax, FOV1) + arrows(ax, FOV2), [], sameArrow, "arrows:hidden", "field of view while rays are displayed")
        ctx.observe("objects drawn", len(obj))
        ctx.observe("images drawn", len(img))
        if lamps:
            ctx.observe("lamps")
    elementsDrawn(ctx, ax, specs, flat)
    # points of interest
    pts = markers(ax)
    want = [] if flags.get("showPointsOfInterest") is False else focalPoints(specs)
    missing = [w for w in want if not any(abs(w - x) <= 6e-4 + 1e-9 * abs(w) for x in pts)]
    extra = [x for x in pts if not any(abs(w - x) <= 6e-4 + 1e-9 * abs(w) for w in want) and abs(x) < 5e3]
    ctx.true(not missing and not extra, "points", lambda: "focal points at %s, expected %s" % (pts, want))
    ctx.observe("focal points drawn", len(want))
    texts = {}
    for t in ax.texts + [a for a in ax.artists]:
        if hasattr(t, "get_text"):
            texts.setdefault(t.get_text(), []).append(t.get_position()[0])
    span = ax.get_xlim()[1] - ax.get_xlim()[0]
    for name, z in (("AS", stop), ("FS", fresh.fieldStop()[0])):
        if flags.get("showPointsOfInterest") is False or z is None:
            ctx.true(name not in texts, "stops", lambda: "%s at %s, expected none" % (name, texts[name]))
        else:
            ctx.true(name in texts and len(texts[name]) == 1 and abs(texts[name][0] - z) <= 0.03 * span, "stops",
                     lambda: "%s at %s, expected %r" % (name, texts.get(name), z))
            ctx.observe("stops labelled")
    if opts.get("limitObjectToFieldOfView"):
        fov, size = fresh.fieldOfView(), fresh.imageSize()
        note = " ".join(texts)
        if math.isfinite(fov):
            ctx.true("FOV: %.2f" % fov in note or "FOV: %.2f" % (fov * (1 + 1e-12)) in note, "note", lambda: "the field of view %r is not in %s" % (fov, sorted(texts)))
            ctx.observe("fields of view noted")
            if math.isfinite(size):
                ctx.true("Image size: %.2f" % size in note or "Image size: %.2f" % (size * (1 + 1e-12)) in note, "note", lambda: "the image size %r is not in %s" % (size, sorted(texts)))
                ctx.observe("image sizes noted")
            else:
                ctx.true("Image size" not in note, "note", lambda: "an image size in %s, which is infinite" % sorted(texts))
    if flags.get("showEntrancePupil"):
        z, d = fresh.entrancePupil()
        if z is not None and math.isfinite(z) and abs(z) < 1e6 and math.isfinite(d):
            tol = 1e-6 * (1 + abs(z) + abs(d))
            ok = any(len(v) <= 6 and np.max(np.abs(np.abs(v[:, 1]) - abs(d) / 2)) <= tol and abs((v[:, 0].max() + v[:, 0].min()) / 2 - z) <= tol
                     for v in allPatches(ax))
            ctx.true(ok, "pupil", lambda: "no entrance pupil of diameter %r at %r" % (d, z))
            ctx.observe("entrance pupils drawn")
        elif z is not None:
            ctx.observe("entrance pupils at infinity")


def nearEdge(specs, rr):
    ls = model.leaves(specs)
    return any(model.trace(ls, y, t)[1] < 1e-6 for y, t in rr)


def flipped(e):
    return e.flipOrientation()


def laser(ctx, rt, rng, shot):
    specs = makeSystem(rng)
    if rng.random() < 0.5:
        specs = [s for s in specs if s["k"] != "group"] or [{"k": "space", "d": 33.0, "n": 1.0}]
    inside = 1.0
    if rng.random() < 0.25:
        # the beam starts in glass
        inside = rng.choice((1.33, 1.5, 1.8))
        specs = [{"k": "space", "d": gen.fl(rng, 5, rng.choice((60, 250))), "n": inside}, {"k": "interface", "n1": inside, "n2": 1.0, "R": rng.choice((INF, 30.0, -30.0)), "dia": 40.0}] + specs
        ctx.observe("beams that start in glass")
    if rng.random() < 0.3:
        specs = [dict(s, focus=True) if s["k"] == "space" and s["d"] > 0 and rng.random() < 0.5 else s for s in specs]
    ls = model.leaves(specs)
    L = sum(l.L for l in ls)
    n = rng.choice((1, 1, 2))
    lam = rng.choice((632.8e-6, 1e-3))
    rounds = [[(rng.choice((0.05, 0.2, 1.0, rng.uniform(0.05, 3))), rng.choice((INF, INF, gen.sign(rng) * gen.fl(rng, 20, 400)))) for _ in range(n)]
              for _ in range(rng.choice((1, 2, 2)))]
    ctx.input("LaserPath %s; beams w, R %s in n=%r; wavelength %r" % (gen.show(specs), rounds, inside, lam))
    path = rt.LaserPath(gen.buildAll(specs))
    before = snap(path)
    for i, beams in enumerate(rounds):
        shot.plt.close("all")
        bs = [rt.GaussianBeam(w=w, R=R, n=inside, wavelength=lam) for w, R in beams]
        n0 = shot.shown
        if len(bs) == 1 and rng.random() < 0.3:
            path.inputBeam = bs[0]
            path.display()
        else:
            path.display(bs)
        ctx.true(shot.shown == n0 + 1, "laser:shown", "shown %d times" % (shot.shown - n0))
        ax = shot.axes()
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines
                 if l.get_visible() and l.get_marker() != "o" and len(l.get_xdata()) > 1]
        ctx.true(len(lines) == 2 * len(bs), "laser:lines", lambda: "%d lines for %d beams" % (len(lines), len(bs)))
        if len(lines) != 2 * len(bs):
            continue
        waists = []
        left = list(lines)
        for w, R in beams:
            q = model.qOf(w, R, inside, lam)
            zs, qs, ns = sections(ls, q, inside)
            spaces = [l.kind == "space" for l in ls]
            for sgn in (1, -1):
                best = None
                for k, (x, y) in enumerate(left):
                    if curve(x, sgn * y, zs, qs, ns, lam, L, spaces):
                        best = k
                        break
                ctx.true(best is not None, "laser:size", lambda: "no line shows the %s edge of the beam w=%r R=%r" % ("upper" if sgn > 0 else "lower", w, R))
                if best is not None:
                    del left[best]
                    ctx.observe("beam outlines")
            for z, qq, nn in zip(zs, qs, ns):
                pos = z - qq.real
                if -1e-9 * L <= pos <= L * (1 + 1e-9):
                    waists.append((pos, math.sqrt(qq.imag * lam / (nn * math.pi)), min(abs(pos), abs(L - pos)) <= 1e-9 * (1 + L)))
        tips = []
        for p in ax.patches:
            if type(p).__name__ == "FancyArrowPatch" and p.get_visible():
                a, b = p._posA_posB
                tips.append((float(b[0]), float(b[1]), float(a[1])))
        for pos, size, edge in waists:
            for sgn in (1, -1):
                ok = any(abs(t[0] - pos) <= 1e-5 * (1 + abs(pos)) + 1e-6 * L and abs(t[1] - sgn * size) <= 1e-6 * (1 + size) and sgn * (t[2] - t[1]) > 0 for t in tips)
                ctx.true(ok or edge, "laser:waist", lambda: "the waist of size %r at %r has no arrow (%s)" % (size, pos, tips))
        for t in tips:
            ok = any(abs(t[0] - pos) <= 1e-5 * (1 + abs(pos)) + 1e-6 * L and abs(abs(t[1]) - size) <= 1e-6 * (1 + size) for pos, size, edge in waists)
            ctx.true(ok, "laser:waist", lambda: "arrow at %s, waists at %s" % (t, waists))
        ctx.observe("waists", len(waists))
        flat = [e for s in specs for e in (s["e"] if s["k"] == "group" else [s])]
        elementsDrawn(ctx, ax, specs, flat)
        ctx.observe("laser figures")
        if i:
            ctx.observe("laser figures after another")
        ctx.true(snap(path) == before, "unchanged", "displaying the laser path changed its elements")
    ctx.nontrivial((gen.kindsOf(specs), tuple(map(tuple, rounds))))


def sections(ls, q, n=1.0):
    """q after each element: (z, q, n)"""
    zs, qs, ns = [0.0], [q], [n]
    z = 0.0
    for l in ls:
        q = model.qThrough((l.A, l.B, l.C, l.D), q)
        z, n = z + l.L, l.nb
        zs.append(z)
        qs.append(q)
        ns.append(n)
    return zs, qs, ns


def curve(x, y, zs, qs, ns, lam, L, spaces):
    """y(x) is the size of the beam at x, all along the path"""
    if abs(x[0]) > 1e-9 or abs(x[-1] - L) > 1e-9 * (1 + L) or np.any(np.diff(x) < -1e-9):
        return False
    if np.max(np.diff(x)) > max(np.diff(zs)) + 1e-9:
        return False
    for X, Y in zip(x, y):
        ok = False
        for i in range(len(zs)):
            lo, hi = zs[i], zs[i + 1] if i + 1 < len(zs) else zs[i]
            if lo - 1e-9 * (1 + L) <= X <= hi + 1e-9 * (1 + L):
                q = qs[i] + (X - zs[i])     # spaces; the ends of the other elements are sections too
                w = model.wOf(q, ns[i], lam)
                if abs(w - Y) <= 1e-6 * (w + abs(Y)) + 1e-9:
                    ok = True
                    break
        if not ok:
            return False
    # a beam that changes in a space is seen to change there: between its size there and the sizes a little further
    for i in range(len(zs) - 1):
        d = zs[i + 1] - zs[i]
        if d <= 0.5 or not spaces[i]:
            continue
        w = lambda s: model.wOf(qs[i] + min(max(s, 0.0), d), ns[i], lam)     # noqa
        for s in (0.13, 0.3, 0.52, 0.77, 0.91):
            inside = (x >= zs[i] - 1e-9 * (1 + L)) & (x <= zs[i + 1] + 1e-9 * (1 + L))
            Y = np.interp(zs[i] + s * d, x[inside], y[inside])
            if not w(s * d) * (1 - 1e-6) <= abs(Y) <= max(w((s - 0.05) * d), w((s + 0.05) * d)) * (1 + 1e-6):
                return False
    return True


def objective(ctx, rt, rng, shot):
    f, NA = gen.fl(rng, 2, 20), rng.uniform(0.1, 0.9)
    ftf = f * rng.uniform(2.2, 8)
    wd = rng.uniform(0.05, 0.9) * f
    back = gen.fl(rng, 2, 15)
    d0 = gen.fl(rng, 5, 60)
    flip = rng.random() < 0.5
    ctx.input("Objective f=%r NA=%r focusToFocus=%r backAperture=%r wd=%r, after %r, flipped %r" % (f, NA, ftf, back, wd, d0, flip))
    o = rt.Objective(f=f, NA=NA, focusToFocusLength=ftf, backAperture=back, workingDistance=wd, label="o")
    if flip:
        o.flipOrientation()
    path = rt.ImagingPath([rt.Space(d0), o, rt.Space(20.0)])
    before = snap(path)
    path.display(rays=rt.ObjectRays(1.0, 0.01, H=2, T=2))
    ax = shot.axes()
    front = 2 * NA * wd
    zb, zf = (d0 + ftf, d0 + wd) if flip else (d0, d0 + ftf - wd)
    for z, d, what in ((zb, back, "back"), (zf, front, "front")):
        tol = 1e-6 * (1 + z + d)
        ok = any(len(v) <= 6 and np.max(np.abs(np.abs(v[:, 1]) - d / 2)) <= tol and abs((v[:, 0].max() + v[:, 0].min()) / 2 - z) <= tol for v in allPatches(ax))
        ctx.true(ok, "objective:aperture", lambda: "no %s aperture of diameter %r at %r" % (what, d, z))
    want = [(zb, back / 2), (zb, -back / 2), (zf, front / 2), (zf, -front / 2)]
    ctx.true(any(len(v) > 6 and all(has(v, a, b, 1e-6 * (1 + d0 + ftf)) for a, b in want) for v in allPatches(ax)), "objective:outline",
             lambda: "no outline through %s" % want)
    pts = markers(ax)
    for z in (d0, d0 + ftf):
        ctx.true(any(abs(x - z) <= 6e-4 for x in pts), "objective:focus", lambda: "no focal point at %r: %s" % (z, pts))
    ctx.true(all(min(abs(x - d0), abs(x - d0 - ftf)) <= 6e-4 for x in pts), "objective:focus", lambda: "focal points at %s" % pts)
    ctx.true(snap(path) == before, "unchanged", "displaying the path changed its elements")
    ctx.observe("objectives drawn")
    ctx.nontrivial((f, NA, flip))


def histogram(ctx, rt, rng, shot):
    kind = rng.choice(("uniform", "random", "list"))
    ym, tm, n = gen.fl(rng, 1, 20), rng.uniform(0.05, 1.2), rng.randint(20, 200)
    if kind == "uniform":
        r = rt.UniformRays(yMax=ym, thetaMax=tm, M=rng.randint(2, 9), N=rng.randint(2, 9))
    elif kind == "random":
        r = rt.RandomUniformRays(yMax=ym, yMin=-ym, thetaMax=tm, thetaMin=-tm, maxCount=n)
    else:
        r = rt.Rays([rt.Ray(rng.uniform(-ym, ym), rng.uniform(-tm, tm)) for _ in range(n)])
    theta = rng.random() < 0.7
    ctx.input("%s rays displayed, yMax=%r thetaMax=%r, showTheta=%r" % (kind, ym, tm, theta))
    n0 = shot.shown
    r.display(showTheta=theta)
    ctx.true(shot.shown == n0 + 1, "histogram:shown", "shown %d times" % (shot.shown - n0))
    fig = shot.plt.figure(shot.plt.get_fignums()[-1])
    ctx.true(len(fig.axes) == (2 if theta else 1), "histogram:plots", lambda: "%d plots" % len(fig.axes))
    ys, ts = [x.y for x in r], [x.theta for x in r]
    for ax, values, what in zip(fig.axes, (ys, ts), ("heights", "angles")):
        l = ax.lines[0]
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        ctx.close(float(y.sum()), float(len(values)), "histogram:count", "rays counted by %s" % what)
        lo, hi = min(values), max(values)
        step = x[1] - x[0]
        ctx.true(x[0] >= lo - step and x[-1] <= hi + step, "histogram:range", lambda: "%s from %r to %r, of rays from %r to %r" % (what, x[0], x[-1], lo, hi))
        mean = float((x * y).sum() / y.sum())
        ctx.true(abs(mean - sum(values) / len(values)) <= 0.51 * step + 1e-9, "histogram:mean", lambda: "mean of the %s %r, of the rays %r" % (what, mean, sum(values) / len(values)))
    ctx.observe("histograms drawn")
    ctx.nontrivial((kind, ym, tm))
