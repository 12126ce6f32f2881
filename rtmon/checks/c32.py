"""C32 the labels of a figure: what they name, where they are, and how they make way for each other"""
import itertools
import re
import warnings

from rtmon import gen, model
from rtmon.checks import c21

INF = gen.INF
ROUND = 1.2e-3      # positions are told with three digits
THIN = ("lens", "aperture", "matrix")


def expected(specs, names):
    """Focal points: [(label, z)], and labels of elements: [(text, zMin, zMax)]"""
    physical = sum(s["k"] != "space" for s in specs)
    focal, labels = [], []
    z, k = 0.0, 0
    for s, name in zip(specs, names):
        L = model.product(model.leaves([s])).L
        if s["k"] in ("lens", "thick", "mirror"):
            l = model.leaf(s)
            if abs(l.C) > 1e-4:
                k += 1
                c = model.cardinal(l)
                f1, f2 = (c["F1"], c["F2"]) if s["k"] != "thick" else (-c21.c_front(l), l.L + c21.c_back(l))
                for text, p in (("F_f", f1), ("F_b", f2)):
                    focal.append(("${%s}_%d$" % (text, k) if physical > 1 else "$%s$" % text, z + p))
        if name and s["k"] != "space":
            labels.append((name, z, z + L))
        z += L
    return focal, labels


def stretched(t, renderer, inv):
    """The box of a text in the units of the axes, with the space it is given; None out of sight"""
    b = t.get_tightbbox(renderer)
    if b is None or b.width <= 0 or b.height <= 0:
        return None
    b = b.transformed(inv)
    return [b.x0, b.y0, b.x1, b.y1]


def wide(b, k=1.2):
    c, w = (b[0] + b[2]) / 2, (b[2] - b[0]) * k / 2
    return [c - w, b[1], c + w, b[3]]


def overlap(a, b):
    """How much two boxes overlap, in x and y: negative if they are apart"""
    return min(a[2], b[2]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[1], b[1])


class Text:
    """A label of the figure, and the place it names"""

    def __init__(self, artist, lo, hi, exact):
        self.artist, self.lo, self.hi, self.exact = artist, lo, hi, exact

    def __repr__(self):
        return "%r for %s" % (self.artist.get_text(), self.lo if self.lo == self.hi else (self.lo, self.hi))


def dataX(ax, t):
    """Where the label is, in the units of the axes"""
    p = t.get_transform().transform(t.get_position())
    return tuple(ax.transData.inverted().transform(p))


def named(ctx, ax, specs, names, stops, laser):
    """Each label there should be, with its place; and no other"""
    focal, labels = expected(specs, names)
    focal = [] if laser else focal
    left = [t for t in ax.texts if t.get_text() and t.get_visible()
            and not re.fullmatch(r"(FOV: \S+)?( ?Image size: \S+)?", t.get_text())]      # the note at the bottom
    out = []
    # stops
    for name, z in stops:
        ts = [t for t in left if t.get_text() == name]
        ctx.true(len(ts) == (z is not None), "stops", lambda: "%d labels %r, the stop is at %r" % (len(ts), name, z))
        for t in ts:
            left.remove(t)
            if z is not None:
                out.append(Text(t, z, z, True))
                ctx.observe("labels of stops")
    # focal points, those of one place together
    rest = list(focal)
    for t in list(left):
        parts = t.get_text().split(", ")
        if not all(re.fullmatch(r"\$(\{F_[fb]\}_\d+|F_[fb])\$", p) for p in parts):
            continue
        left.remove(t)
        zs = []
        for p in parts:
            found = [f for f in rest if f[0] == p]
            if ctx.true(len(found) == 1, "focal", lambda: "the label %r names %d focal points that are not named yet" % (t.get_text(), len(found))):
                rest.remove(found[0])
                zs.append(found[0][1])
        if zs:
            ctx.true(max(zs) - min(zs) <= ROUND + 1e-9 * abs(zs[0]), "focal", lambda: "the label %r names focal points at %s" % (t.get_text(), zs))
            out.append(Text(t, min(zs), max(zs), True))
            ctx.observe("labels of focal points", len(zs))
            if len(zs) > 1:
                ctx.observe("labels of several focal points")
    ctx.true(not rest, "focal", lambda: "focal points without label: %s" % rest)
    for a, b in itertools.combinations([x for x in out if x.artist.get_text().startswith("$")], 2):
        if "%.3f" % a.lo == "%.3f" % b.lo and abs(a.lo - b.lo) < 1e-9:
            ctx.fail("focal", "two labels %r and %r for one place" % (a, b))
    # elements
    for name, lo, hi in labels:
        ts = [t for t in left if t.get_text() == name]
        if ctx.true(len(ts) == 1, "element", lambda: "%d labels %r" % (len(ts), name)):
            left.remove(ts[0])
            thin = [s["k"] for s, n in zip(specs, names) if n == name][0] in THIN and lo == hi
            out.append(Text(ts[0], lo, hi, thin))
            ctx.observe("labels of elements")
    others = [t.get_text() for t in left]
    ctx.true(not others, "others", lambda: "labels of nothing: %s" % others)
    return out


def judge(ctx, ax, texts, what):
    """The labels in this view. Returns where they are, and whether few make way"""
    fig = ax.figure
    fig.canvas.draw()
    renderer = fig.canvas.get_renderer()
    inv = ax.transData.inverted()
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    w, h = x1 - x0, y1 - y0
    now = {id(t): dataX(ax, t.artist) for t in texts}
    if not all(t.exact for t in texts):
        ctx.observe("views with labels of long elements")
    boxes, anchored = {}, {}
    known = True
    clear = False
    for t in texts:
        boxes[id(t)] = stretched(t.artist, renderer, inv)
        # the box it would have at the place it names
        if t.exact:
            # (in sight or not, it depends on the place)
            pos = t.artist.get_position()
            t.artist.set_position((pos[0] + (t.lo + t.hi) / 2 - now[id(t)][0], pos[1]))
            anchored[id(t)] = stretched(t.artist, renderer, inv)
            t.artist.set_position(pos)
        else:
            known = False
    eps = 2e-3 * w
    if known:
        seen = [t for t in texts if anchored[id(t)] is not None]
        ov = []
        near = False
        for a, b in itertools.combinations(seen, 2):
            dx, dy = overlap(wide(anchored[id(a)]), wide(anchored[id(b)]))
            if dx > -eps and dy > -2e-3 * h:
                if dx < eps or dy < 2e-3 * h:
                    near = True
                ov.append((a, b))
        if not ov:
            for t in texts:
                x = now[id(t)][0]
                ctx.true(t.lo - ROUND - 1e-6 * w <= x <= t.hi + ROUND + 1e-6 * w, "place", lambda: "%s: the label %r is at %r, and overlaps no other" % (what, t, x))
            ctx.observe("views without overlaps")
            clear = True
        else:
            ctx.observe("views with overlaps")
        count = {}
        for a, b in ov:
            for t in (a, b):
                count[id(t)] = count.get(id(t), 0) + 1
        if len(ov) == 1 and not near:
            a, b = ov[0]
            A, B = wide(anchored[id(a)]), wide(anchored[id(b)])
            need = overlap(A, B)[0]
            # where they go, nobody else is
            reach = A[2] - A[0] + B[2] - B[0]
            lo, hi = min(A[0], B[0]) - reach, max(A[2], B[2]) + reach
            free = all(overlap(wide(anchored[id(t)]), [lo, min(A[1], B[1]), hi, max(A[3], B[3])])[0] < -eps or
                       overlap(wide(anchored[id(t)]), [lo, min(A[1], B[1]), hi, max(A[3], B[3])])[1] < 0 for t in seen if t is not a and t is not b)
            nested = (A[0] <= B[0] and B[2] <= A[2]) or (B[0] <= A[0] and A[2] <= B[2])
            if free and lo > x0 and hi < x1:
                P, Q = boxes[id(a)], boxes[id(b)]
                apart = P is not None and Q is not None and overlap(wide(P), wide(Q))[0] <= eps
                ctx.true(apart, "apart", lambda: "%s: the labels %r and %r, moved to %r and %r, overlap" % (what, a, b, now[id(a)][0], now[id(b)][0]))
                moved = [now[id(t)][0] - (t.lo + t.hi) / 2 for t in (a, b)]
                ctx.true(abs(moved[0] + moved[1]) <= 4 * ROUND + 2 * eps, "apart", lambda: "%s: %r and %r moved by %s" % (what, a, b, moved))
                if not nested:
                    ctx.true(abs(moved[0]) <= need / 2 + 3 * eps + 2 * ROUND, "apart", lambda: "%s: %r and %r, which overlap by %r, moved by %s" % (what, a, b, need, moved))
                for t in texts:
                    if t is not a and t is not b:
                        ctx.true(abs(now[id(t)][0] - t.lo) <= 2 * ROUND + 1e-6 * w, "place", lambda: "%s: the label %r is at %r, and overlaps no other" % (what, t, now[id(t)][0]))
                ctx.observe("pairs of labels moved apart")
                clear = True
        # none is pushed out of sight
        for t in seen:
            b = wide(anchored[id(t)])
            if b[0] > x0 + eps and b[2] < x1 - eps:
                got = boxes[id(t)]
                ctx.true(got is not None and wide(got)[0] >= x0 - eps and wide(got)[2] <= x1 + eps, "inside",
                         lambda: "%s: the label %r is pushed out of the view %s to %s" % (what, t, (x0, x1), got))
                if id(t) in count:
                    ctx.observe("labels kept in view")
                    if b[0] - (b[2] - b[0]) < x0 or b[2] + (b[2] - b[0]) > x1:
                        ctx.observe("labels kept in view close to an edge")
    ctx.observe("views judged")
    # in a crowd, the rounding of one pixel may decide who goes left
    return now, clear


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = c21.makeSystem(rng)
    specs = [s for s in specs if s["k"] != "group"]
    if rng.random() < 0.5:
        specs = [s for s in specs if s["k"] in ("space", "lens", "aperture")]
    if rng.random() < 0.5 and 1 <= len(specs) < 8:
        # crowded
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(1, len(specs))
            d = rng.choice((0.5, 2.0, 5.0, 10.0))
            f = rng.choice((20.0, 30.0, 50.0, 100.0))
            specs[i:i] = [{"k": "lens", "f": f, "dia": rng.choice((10.0, 20.0, 25.0))}, {"k": "space", "d": d, "n": 1.0}]
    p = model.product(model.leaves(specs))
    if p.L < 1 or max(abs(p.A), abs(p.D), abs(p.C) * 10, abs(p.B) / 10) > 1e3:
        from rtmon.core import Skip
        raise Skip("strong system")
    if any(0 < abs(l.C) < 1e-3 for l in model.leaves(specs)):
        from rtmon.core import Skip
        raise Skip("weak element")      # focal points far away
    names = []
    for i, s in enumerate(specs):
        name = rng.choice(("", "", "L%d" % i, "Element number %d" % i)) if s["k"] != "space" else ""
        names.append(name)
    scale = rng.choice((0.3, 0.7, 1.0, 1.0, 1.0, 1.6))
    flags = {f: False for f in ("showPointsOfInterestLabels", "showElementLabels", "showPointsOfInterest") if rng.random() < 0.08}
    what = "%s named %s, font scale %s %s" % (gen.show(specs), names, scale, flags or "")
    views = [(rng.random(), rng.random()) for _ in range(rng.randint(1, 4))]
    interactive = rng.random() < 0.4
    ctx.input("%s; views %s" % (what, views))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            elements = gen.buildAll(specs)
            for e, s, n in zip(elements, specs, names):
                e.label = n
            laser = rng.random() < 0.15
            path = rt.LaserPath(elements) if laser else rt.ImagingPath(elements)
            path.design(fontScale=scale)
            for k, v in flags.items():
                setattr(path, k, v)
            fresh = rt.ImagingPath(gen.buildAll(specs))
            stops = [("AS", fresh.apertureStop()[0]), ("FS", fresh.fieldStop()[0])]
            if "showPointsOfInterest" in flags or laser:
                stops = [(n, None) for n, z in stops]
            done = []
            shot.onShow = lambda: done.append(session(ctx, rng, shot, specs, names, stops, flags, views, what, laser))
            rays = rt.ObjectRays(rng.choice((2.0, 5.0)), halfAngle=0.05, H=3, T=3)
            if laser:
                path.display([rt.GaussianBeam(w=rng.choice((0.5, 2.0)))])
                ctx.observe("laser paths")
            else:
                path.display(rays, interactive=interactive)
            shot.onShow = None
            ctx.true(len(done) == 1, "shown", lambda: "shown %d times" % len(done))
    ctx.nontrivial((gen.kindsOf(specs), tuple(names), scale, tuple(views)))


def session(ctx, rng, shot, specs, names, stops, flags, views, what, laser):
    ax = shot.axes()
    fig = ax.figure
    if flags.get("showElementLabels") is False:
        names = [""] * len(names)
    if flags.get("showPointsOfInterest") is False or flags.get("showPointsOfInterestLabels") is False:
        # no focal points to be named
        focal = [t.get_text() for t in ax.texts if t.get_text().startswith("$") and t.get_visible()]
        ctx.true(not focal, "focal", lambda: "labels %s while they are not asked for" % focal)
        ctx.observe("figures without labels of focal points")
        return
    texts = named(ctx, ax, specs, names, stops, laser)
    home = ax.get_xlim(), ax.get_ylim()
    # what happens to the labels of unknown place is judged by the histories only
    first, clear0 = judge(ctx, ax, texts, what + " when it is opened")
    heights = {k: v[1] for k, v in first.items()}
    if not views:
        return
    seen = []
    for a, b in views:
        c = home[0][0] + a * (home[0][1] - home[0][0])
        k = 0.05 + 1.2 * b
        half = (home[0][1] - home[0][0]) * k / 2
        view = ((c - half, c + half), (home[1][0] * (0.7 + 0.6 * a), home[1][1] * (0.7 + 0.6 * a)))
        show(ax, view)
        now, clear = judge(ctx, ax, texts, "%s, seen from %r to %r" % (what, view[0][0], view[0][1]))
        for t in texts:
            ctx.true(abs(now[id(t)][1] - heights[id(t)]) <= 1e-9 * (1 + abs(heights[id(t)])), "height", lambda: "%s: the label %r moved from height %r to %r" % (what, t, heights[id(t)], now[id(t)][1]))
        seen.append((view, now, clear))
        ctx.observe("zooms")
    # the labels depend on the view, not on what was seen before
    for view, then, clear in seen[:2] + [(home, first, clear0)]:
        show(ax, view)
        fig.canvas.draw()
        span = view[0][1] - view[0][0]
        if not clear:
            judge(ctx, ax, texts, "%s, back to %r to %r" % (what, view[0][0], view[0][1]))
            ctx.observe("crowded views restored")
            continue
        for t in texts:
            x = dataX(ax, t.artist)[0]
            ctx.true(abs(x - then[id(t)][0]) <= 4e-3 * span, "history", lambda: "%s: back to the view %s, the label %r is at %r instead of %r" % (what, view[0], t, x, then[id(t)][0]))
        ctx.observe("views restored")


def show(ax, view):
    ax.set_xlim(*view[0])
    ax.set_ylim(*view[1])
