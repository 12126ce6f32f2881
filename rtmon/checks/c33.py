"""C33 the style of figures: colours, fills and sizes of texts as they were asked for, until they are changed"""
import math
import warnings

import numpy as np

from rtmon import gen, model
from rtmon.checks import c21

INF = gen.INF
COLOURS = ("rayColors", "lampRayColors", "imageColor", "objectColor", "FOVColors")
FLAGS = ("fillImage", "fillObject", "showObjectImage", "onlyAxialRay")
# what the documentation tells
DEFAULT = {"rayColors": ["b", "r", "g"], "imageColor": "r", "objectColor": "b", "fillImage": True, "fillObject": True,
           "FOVColors": ["blue", "red"], "onlyAxialRay": False, "showObjectImage": True}


def hexes(c):
    from matplotlib.colors import to_hex
    return [to_hex(x) for x in c] if isinstance(c, list) else to_hex(c)


def grey(h):
    return h[1:3] == h[3:5] == h[5:7]


def colour(rng):
    return "#%02x%02x%02x" % (rng.randint(1, 250), rng.randint(1, 250), rng.randint(1, 250))


def spelled(rng, h):
    """The same colour, as a text or as numbers"""
    if rng.random() < 0.3:
        return tuple(int(h[i:i + 2], 16) / 255 for i in (1, 3, 5))
    return h


class Wish:
    """What the figures should look like: the values each parameter may have"""

    def __init__(self):
        self.style, self.own, self.before = "default", {}, {}

    def choose(self, style):
        # what was changed while the style was in use may have become a part of it
        for k, v in self.own.items():
            self.before.setdefault((self.style, k), []).append(v)
        self.style, self.own = style, {}

    def set(self, **k):
        self.own.update(k)

    def sure(self, key):
        return key in self.own or (self.style, key) not in self.before

    def of(self, key):
        """The value; None if it is not known"""
        if key in self.own:
            return self.own[key]
        if (self.style, key) in self.before or key in ("lampRayColors", "fontScale"):
            return None
        if key in COLOURS and key != "FOVColors" and self.style == "publication":
            return "grey"
        if key in ("rayColors", "imageColor", "objectColor") and self.style == "presentation":
            return "colourful"
        return DEFAULT[key]


def isColour(h, want):
    if want is None:
        return True
    if want == "grey":
        return grey(h)
    if want == "colourful":
        return not grey(h)
    return h == hexes(want)


def tell(steps):
    return "; ".join("%s(%s)" % (s[0], ", ".join("%s=%r" % x for x in sorted(s[1].items()))) for s in steps)


def wishes(rng):
    k = {}
    for key in rng.sample(COLOURS + FLAGS + ("fontScale",), rng.choice((1, 1, 2, 3, 6))):
        if key in ("rayColors", "lampRayColors"):
            k[key] = [spelled(rng, colour(rng)) for _ in range(rng.choice((1, 2, 3, 3, 5)))]
        elif key == "FOVColors":
            k[key] = [colour(rng), colour(rng)]
        elif key in COLOURS:
            k[key] = spelled(rng, colour(rng))
        elif key == "fontScale":
            k[key] = rng.choice((0.5, 0.8, 1.0, 1.7, 2.5, 4.0, 3.4))
        else:
            k[key] = rng.random() < 0.4
    return k


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = c21.makeSystem(rng)
    specs = [s for s in specs if s["k"] != "group"]
    if rng.random() < 0.5:
        # imaging: an image in the path
        f = gen.fl(rng, 5, 30)
        a = f * rng.uniform(1.3, 4)
        b = 1 / (1 / f - 1 / a)
        specs = [{"k": "space", "d": a, "n": 1.0}, {"k": "lens", "f": f, "dia": f * 0.8}, {"k": "space", "d": b * rng.uniform(1.05, 1.5), "n": 1.0}]
        if rng.random() < 0.5:
            specs.append({"k": "aperture", "dia": f * 0.4})
    p = model.product(model.leaves(specs))
    if not specs or p.L < 1 or max(abs(p.A), abs(p.D), abs(p.C) * 10, abs(p.B) / 10) > 60:
        from rtmon.core import Skip
        raise Skip("strong system")
    laser = rng.random() < 0.1
    steps = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.15:
            steps.append(("design", {"style": rng.choice(("default", "publication", "publication", "presentation"))}))
        elif r < 0.6:
            steps.append(("design", wishes(rng)))
            if rng.random() < 0.15:
                steps[-1][1]["style"] = rng.choice(("default", "publication", "presentation"))
        elif r < 0.65:
            steps.append(("design", {"style": rng.choice(("poster", "Publication", ""))}))
        else:
            steps.append(("display", {}))
    if steps[-1][0] != "display":
        steps.append(("display", {}))
    for s in steps:
        if s[0] == "display":
            s[1]["source"] = rng.choice(("object", "object", "objects", "lamp", "uniform", "none", "fov")) if not laser else "beam"
            s[1]["comments"] = rng.choice((None, "some comments"))
            if rng.random() < 0.2 and not laser:
                s[1]["save"] = True
    fan = (gen.fl(rng, 0.01, 0.1), rng.choice((1, 2, 3)), rng.choice((1, 2, 3)))
    y = gen.fl(rng, 1, 5)
    ctx.input("%s %s, fan %s: %s" % ("LaserPath" if laser else "ImagingPath", gen.show(specs), fan, tell(steps)))
    wish = Wish()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            path = make(rt, specs, laser, fan)
            other = make(rt, specs, laser, fan)      # another path has its own style
            for i, (op, args) in enumerate(steps):
                what = "after %s" % tell(steps[:i + 1])
                if op == "design":
                    style = args.get("style")
                    if style is not None and style not in ("default", "publication", "presentation"):
                        try:
                            path.design(**args)
                        except ValueError:
                            ctx.observe("unknown styles refused")
                        else:
                            ctx.fail("unknown", "%s: the style %r is accepted" % (what, style))
                        continue
                    path.design(**args)
                    if style:
                        wish.choose(style)
                        ctx.observe("styles chosen")
                    wish.set(**{k: v for k, v in args.items() if k != "style"})
                    ctx.observe("designs")
                    continue
                seen = look(ctx, rt, shot, path, specs, args, fan, y, laser)
                if seen is None:
                    return
                judge(ctx, rt, seen, wish, specs, args, fan, y, what)
                if wish.own.get("fontScale") is not None or not wish.own and not wish.before:
                    scale = wish.own.get("fontScale")
                    ref = make(rt, specs, laser, fan)
                    if scale:
                        ref.design(fontScale=1.0)
                    want = look(ctx, rt, shot, ref, specs, args, fan, y, laser)
                    fonts(ctx, seen, want, scale or 1.0, what)
                if wish.own:
                    ctx.observe("figures in an own style")
            if wish.own or wish.before:
                args = {"source": "beam" if laser else "object", "comments": None}
                judge(ctx, rt, look(ctx, rt, shot, other, specs, args, fan, y, laser), Wish(), specs, args, fan, y, "another path, after " + tell(steps))
                ctx.observe("other paths")
    ctx.nontrivial((gen.kindsOf(specs), str(steps)))


def make(rt, specs, laser, fan):
    elements = gen.buildAll(specs)
    for i, e in enumerate(elements):
        if i % 2 and specs[i]["k"] != "space":
            e.label = "Element %d" % i
    path = (rt.LaserPath if laser else rt.ImagingPath)(elements)
    path.label = "the title"
    if not laser:
        path.fanAngle, path.fanNumber, path.rayNumber = fan
        path.objectHeight = 10.0
    return path


def look(ctx, rt, shot, path, specs, args, fan, y, laser):
    """Displays the path; what there is to see"""
    shot.plt.close("all")
    source = args["source"]
    n0 = shot.shown, len(shot.saved)
    if laser:
        path.display([rt.GaussianBeam(w=0.5)], comments=args["comments"])
    else:
        rays = {"object": lambda: [rt.ObjectRays(y, 0.05, H=3, T=3, label="object")],
                "objects": lambda: [rt.ObjectRays(y, 0.05, H=2, T=2, label="object"), rt.ObjectRays(y / 2, 0.02, H=3, T=1)],
                "lamp": lambda: [rt.LampRays(y, NA=0.05, N=5, T=2, label="lamp")],
                "uniform": lambda: [rt.UniformRays(yMax=y, thetaMax=0.05, M=3, N=3)],
                "none": lambda: [], "fov": lambda: []}[source]()
        opts = {"onlyPrincipalAndAxialRays": source == "fov", "limitObjectToFieldOfView": False}
        if args.get("save"):
            path.saveFigure("nowhere.pdf", raysList=rays, comments=args["comments"], **opts)
        else:
            path.display(raysList=rays, comments=args["comments"], **opts)
    ctx.true((shot.shown + len(shot.saved)) == n0[0] + n0[1] + 1, "shown", lambda: "%d figures shown and %d saved" % (shot.shown - n0[0], len(shot.saved) - n0[1]))
    fig = shot.plt.figure(shot.plt.get_fignums()[-1])
    axes = fig.axes[:2 if args["comments"] else 1]
    ax = axes[0]
    ctx.observe("figures saved" if args.get("save") else "figures displayed")
    patches = []
    for q in ax.patches:
        if type(q).__name__ == "PathPatch" and q.get_visible():
            v = c21.patchData(ax, q)
            z = (v[:, 0].max() + v[:, 0].min()) / 2
            i = int(np.argmin(np.abs(v[:, 0] - z)))
            patches.append(((float(z), float(v[i, 1]), float(v[:, 1].min()), float(v[:, 1].max())), c21.rgb(q.get_edgecolor()),
                            c21.rgb(q.get_facecolor()) if q.get_fill() else None))
    texts = {}
    for a in axes:
        for name, t in [("title", a.title), ("x", a.xaxis.label), ("y", a.yaxis.label)] + [("ticks", t) for t in (a.get_xticklabels()[:1] + a.get_yticklabels()[:1] if a is ax else [])]:
            if t.get_text() or name == "ticks":
                texts.setdefault("%s of axes %d" % (name, axes.index(a)), set()).add(round(t.get_fontsize(), 6))
        for t in a.texts:
            if t.get_text():
                texts.setdefault(t.get_text(), set()).add(round(t.get_fontsize(), 6))
    return {"rays": c21.colours(ax), "patches": patches, "texts": texts, "laser": laser}


def fonts(ctx, seen, want, scale, what):
    """Every text is scale times as large as in the reference"""
    a, b = seen["texts"], want["texts"]
    a, b = dict(a), dict(b)
    # the ticks may be others
    ctx.true(set(a) == set(b), "fonts", lambda: "%s: the texts are %s, with another size they are %s" % (what, sorted(a), sorted(b)))
    for k in set(a) & set(b):
        ok = len(a[k]) == len(b[k]) and all(abs(x - scale * y) <= 1e-3 * y for x, y in zip(sorted(a[k]), sorted(b[k])))
        ctx.true(ok, "fonts", lambda: "%s: the text %r has the size %s, at the scale 1 it is %s" % (what, k, a[k], b[k]))
        ctx.observe("sizes of texts")
    ctx.observe("scales of texts", scale != 1)


def judge(ctx, rt, seen, wish, specs, args, fan, y, what):
    if seen["laser"]:
        ctx.observe("laser figures")
        return
    fresh = rt.ImagingPath(gen.buildAll(specs))
    source = args["source"]
    principal, axial = fresh.principalRay(), fresh.axialRay()
    fov = source == "fov" and fresh.apertureStop()[0] is not None and principal is not None
    if source == "fov" and not fov:
        source = "none"
    # --- rays
    key = "lampRayColors" if source == "lamp" else "rayColors"
    colours = wish.of(key)
    default = source in ("none", "uniform") and wish.of("showObjectImage") is True
    unsure = source in ("none", "uniform") and wish.of("showObjectImage") is None
    axialOnly = wish.of("onlyAxialRay")
    rays, objects = [], []
    if source == "object":
        rays, objects = [rt.ObjectRays(y, 0.05, H=3, T=3)], [y]
    elif source == "objects":
        rays, objects = [rt.ObjectRays(y, 0.05, H=2, T=2), rt.ObjectRays(y / 2, 0.02, H=3, T=1)], [y, y / 2]
    elif source == "lamp":
        rays = [rt.LampRays(y, NA=0.05, N=5, T=2)]
    elif source == "uniform":
        rays = [rt.UniformRays(yMax=y, thetaMax=0.05, M=3, N=3)]
    if unsure or axialOnly is None and source in ("none", "uniform"):
        return
    if default:
        rays.append(rt.ObjectRays(10.0, halfAngle=fan[0], H=1 if axialOnly else fan[1], T=fan[2]))
        objects.append(10.0)
        ctx.observe("default objects")
        ctx.observe("only axial rays", bool(axialOnly))
    elif source in ("none", "uniform"):
        ctx.observe("default objects hidden")
    want = []
    for rr in rays:
        traces = [c21.drawnTrace(fresh.trace(rt.Ray(r.y, r.theta))) for r in rr]
        if isinstance(colours, list):
            want += c21.coloured(traces, hexes(colours))
        else:
            want += [(t, colours) for t in traces if t]
    if fov:
        traces = [c21.drawnTrace(fresh.trace(r)) for r in (principal, axial) if r is not None]
        want = [(t, set(hexes(colours)) if isinstance(colours, list) else colours) for t in traces if t]
        ctx.observe("fields of view")
    same = lambda g, w: c21.same(g[0], w[0]) and (g[1] in w[1] if isinstance(w[1], set) else isColour(g[1], w[1]))
    c21.match(ctx, seen["rays"], want, same, "rays", "%s: rays in %r" % (what, colours))
    ctx.observe("rays", len(want))
    if wish.style == "publication" and colours == "grey" and source == "object" and len({w[0][0][1] for w in want}) == 3:
        ctx.true(len({g[1] for g in seen["rays"]}) == 3, "rays", lambda: "%s: three heights in the shades %s" % (what, {g[1] for g in seen["rays"]}))
        ctx.observe("shades of grey")
    # --- arrows
    arrows = []
    places = fresh.intermediateConjugates()
    if fov:
        arrows.append(("the field of view", 0.0, principal.y, wish.of("FOVColors")[0] if wish.of("FOVColors") else None, False))
        arrows += [("an image of the field of view", z, m * principal.y, wish.of("FOVColors")[1] if wish.of("FOVColors") else None, False) for z, m in places]
    else:
        for d in objects:
            arrows.append(("the object", 0.0, d / 2, wish.of("objectColor"), wish.of("fillObject")))
            arrows += [("an image", z, m * d / 2, wish.of("imageColor"), wish.of("fillImage")) for z, m in places]
    for name, z, h, c, fill in arrows:
        if abs(h) < 1e-6 or abs(h) > 1e4:
            continue
        at = [q for q in seen["patches"] if c21.sameArrow(q[0], (z, h))]
        ok = any(isColour(q[1], c) and (fill is None or (q[2] is not None) == fill) and (not fill or isColour(q[2], c)) for q in at)
        ctx.true(ok, "arrows", lambda: "%s: %s of height %r at %r should have the colour %r and %s; it has %s"
                 % (what, name, h, z, c, {True: "be filled", False: "be empty", None: "any filling"}[fill], [q[1:] for q in at]))
        ctx.observe("arrows")
        if fill is not None:
            ctx.observe("filled arrows" if fill else "empty arrows")
    # colours that are not used any more
    gone = [hexes(v) for (style, key), vs in wish.before.items() if key in ("objectColor", "imageColor") for v in vs]
    used = set()
    for k in COLOURS:
        v = wish.own.get(k)
        if v is not None:
            used |= set(hexes(v)) if isinstance(v, list) else {hexes(v)}
    if wish.sure("objectColor") and wish.sure("imageColor"):
        left = [q for q in seen["patches"] if q[1] in gone and q[1] not in used]
        ctx.true(not left, "arrows", lambda: "%s: arrows in colours that were replaced: %s" % (what, left))
    ctx.observe("figures read")
    ctx.observe("figures in " + wish.style + " style")
