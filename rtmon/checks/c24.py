"""C24 interactive figures: the check boxes hide and show exactly their group, zooming and resizing keep everything in place"""
import math
import warnings

import numpy as np

from rtmon import gen, model
from rtmon.checks import c21

INF = gen.INF
BULB = "#bfbf00"    # 'y'


def setup(ctx):
    """Records the check boxes that figures create"""
    import matplotlib.widgets as widgets
    ctx.boxes = []
    init = widgets.CheckButtons.__init__

    def record(self, *a, **k):
        init(self, *a, **k)
        ctx.boxes.append(self)
    widgets.CheckButtons.__init__ = record


def artists(ax):
    out = {}
    for l in ax.lines:
        if l.get_label() == "ray":
            out[id(l)] = ("ray", l)
        elif l.get_marker() == "o":
            out[id(l)] = ("point", l)
        else:
            out[id(l)] = ("line", l)
    for p in ax.patches:
        out[id(p)] = (c21.rgb(p.get_edgecolor()) if type(p).__name__ == "PathPatch" else "patch", p)
    return out


def visible(arts):
    return {k for k, (_, a) in arts.items() if a.get_visible()}


def where(arts, ax):
    """Where everything is, in the units of the axes"""
    out = {}
    for k, (kind, a) in arts.items():
        if kind in ("ray", "point", "line"):
            out[k] = np.c_[np.asarray(a.get_xdata(), float), np.asarray(a.get_ydata(), float)]
        elif type(a).__name__ == "PathPatch":
            out[k] = c21.patchData(ax, a)
    return out


def heads(arts, ax):
    """Width of the heads of arrows of objects and images, in fractions of the axes"""
    x0, x1 = ax.get_xlim()
    out = {}
    for k, (kind, a) in arts.items():
        if kind in (c21.OBJECT, c21.IMAGE, c21.FOV1, c21.FOV2):
            v = c21.patchData(ax, a)
            w = float(v[:, 0].max() - v[:, 0].min()) / (x1 - x0)
            if w > 0:
                out[k] = w
    return out


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    specs = c21.makeSystem(rng)
    p = model.product(model.leaves(specs))
    if max(abs(p.A), abs(p.D), abs(p.C) * 10, abs(p.B) / 10) > 60:
        from rtmon.core import Skip
        raise Skip("strong system")
    mirrors = any(e["k"] == "mirror" for s in specs for e in (s["e"] if s["k"] == "group" else [s]))
    sources = []
    lampsOnly = rng.random() < 0.2
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3))):
        kind = "lamp" if lampsOnly else rng.choice(("object", "object", "object", "uniform", "list"))
        z, parts = 0.0, None
        if kind in ("object", "lamp") and not mirrors and rng.random() < 0.6:
            parts = c21.place(rng, specs)
            z = parts[0] if parts else 0.0
        sources.append((kind, gen.fl(rng, 1, 12), z, rng.uniform(0.005, 0.2), parts))
    opts = {"removeBlocked": rng.random() < 0.6}
    if rng.random() < 0.4:
        opts["onlyPrincipalAndAxialRays"] = rng.random() < 0.5
    if rng.random() < 0.3:
        opts["limitObjectToFieldOfView"] = rng.random() < 0.5
    steps = [rng.random() for _ in range(rng.choice((2, 4, 8)))]
    mouse = rng.random() < 0.5
    ctx.input("%s; %s; sources %s; %s; steps %s" % (gen.show(specs), opts, [s[:4] for s in sources], "mouse" if mouse else "direct", steps))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            path = rt.ImagingPath(gen.buildAll(specs))
            path.design(objectColor=c21.OBJECT, imageColor=c21.IMAGE, FOVColors=[c21.FOV1, c21.FOV2], fontScale=0.1)
            rays = []
            for kind, y, z, a, parts in sources:
                if kind == "object":
                    rays.append(rt.ObjectRays(y, a, H=rng.choice((1, 2, 3)), T=rng.choice((1, 2, 3)), z=z))
                elif kind == "uniform":
                    rays.append(rt.UniformRays(yMax=y, yMin=-y / 2, thetaMax=a, thetaMin=-a / 3, M=2, N=3))
                elif kind == "lamp":
                    rays.append(rt.LampRays(y, NA=0.1, N=7, random=False, T=3, z=z))
                else:
                    rays.append(rt.Rays([rt.Ray(y, a), rt.Ray(-y, a / 2), rt.Ray(0, -a)]))
            done = []
            shot.onShow = lambda: done.append(session(ctx, rt, rng, shot, specs, sources, rays, opts, steps, mouse, path))
            del ctx.boxes[:]
            path.display(raysList=list(rays), **opts)
            shot.onShow = None
            ctx.true(len(done) == 1, "shown", "shown %d times" % len(done))
            del ctx.boxes[:]
    ctx.nontrivial((gen.kindsOf(specs), tuple(s[:4] for s in sources), tuple(sorted(opts.items())), tuple(steps)))


def session(ctx, rt, rng, shot, specs, sources, rays, opts, steps, mouse, path):
    """What the user does while the figure is open"""
    ax = shot.axes()
    fig = ax.figure
    ctx.observe("figures opened")
    arts = artists(ax)
    start = visible(arts)
    place0 = where(arts, ax)
    lims = ax.get_xlim(), ax.get_ylim()
    if not ctx.true(len(ctx.boxes) == 1, "boxes", lambda: "%d sets of check boxes" % len(ctx.boxes)):
        return
    box = ctx.boxes[0]
    labels = [t.get_text() for t in box.labels]
    ctx.true(len(set(labels)) == len(labels), "boxes", lambda: "labels %s" % labels)

    def click(i):
        if not mouse:
            box.set_active(i)
            return
        from matplotlib.backend_bases import MouseEvent
        fig.canvas.draw()
        offsets = box._frames.get_offset_transform().transform(box._frames.get_offsets())
        x, y = offsets[i]
        MouseEvent("button_press_event", fig.canvas, x, y, button=1)._process()
        ctx.observe("clicks of the mouse")

    # --- what each box commands, measured by clicking it once and again
    status = list(box.get_status())
    groups = {}
    for i, name in enumerate(labels):
        click(i)
        after = visible(arts)
        changed = start ^ after
        groups[name] = changed
        if status[i]:
            ctx.true(changed <= start, "toggle", lambda: "unchecking %r shows %d hidden things" % (name, len(changed - start)))
        else:
            ctx.true(not (changed & start), "toggle", lambda: "checking %r hides %d things" % (name, len(changed & start)))
        ctx.true(changed or name == "Elements", "toggle", lambda: "the box %r changes nothing" % name)
        ctx.true(box.get_status()[i] != status[i], "toggle", lambda: "the box %r did not change" % name)
        click(i)
        ctx.true(visible(arts) == start, "toggle:twice", lambda: "%r clicked twice does not restore the figure" % name)
        ctx.observe("boxes")
    names = list(groups)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ctx.true(not (groups[a] & groups[b]), "groups", lambda: "%r and %r both command %d things" % (a, b, len(groups[a] & groups[b])))
    every = set().union(*groups.values()) if groups else set()
    loose = [k for k, (kind, _) in arts.items() if kind in ("ray", c21.OBJECT, c21.IMAGE, c21.FOV1, c21.FOV2) and k not in every]
    ctx.true(not loose, "groups", lambda: "%d rays, objects or images belong to no box of %s" % (len(loose), labels))
    always = [k for k in every if arts[k][0] in ("point", "#000000") and arts[k][0] == "point"]
    ctx.true(not always, "groups", "a box hides focal points")
    contents(ctx, rt, ax, arts, groups, specs, sources, rays, opts, path)

    # --- random clicks, zooms and sizes
    state = dict(zip(labels, status))
    for s in steps:
        if s < 0.6 and labels:
            i = int(s * 1e6) % len(labels)
            click(i)
            state[labels[i]] = not state[labels[i]]
            ctx.observe("clicks")
        elif s < 0.8:
            x0, x1 = ax.get_xlim()
            y0, y1 = ax.get_ylim()
            f = 0.2 + 4 * (s - 0.6)
            heads0 = heads(arts, ax)
            ax.set_xlim(x0, x0 + (x1 - x0) * f)
            if int(s * 1e6) % 3:
                ax.set_ylim(y0 * f, y1 * f)
            else:
                # the same heights: the heads of arrows are as wide as before on the screen
                ax.set_ylim(y0, y1)
                for k, w in heads(arts, ax).items():
                    ctx.true(abs(w - heads0[k]) <= 1e-6 * w, "heads", lambda: "the head of an arrow covers %s of the width of the axes, it was %s before the zoom" % (w, heads0[k]))
                    ctx.observe("heads of arrows after a zoom")
            ctx.observe("zooms")
        elif s < 0.9:
            ax.set_xlim(*lims[0])
            ax.set_ylim(*lims[1])
        else:
            from matplotlib.backend_bases import ResizeEvent
            fig.set_size_inches(5 + 10 * s, 4 + 5 * s)
            ResizeEvent("resize_event", fig.canvas)._process()
            ctx.observe("resizes")
        want = set(start)
        for name, on in state.items():
            if on != status[labels.index(name)]:
                want ^= groups[name]
        ctx.true(visible(arts) == want, "state", lambda: "after clicks, %d things are shown instead of %d (boxes %s)" % (len(visible(arts)), len(want), state))
        ctx.true([bool(x) for x in box.get_status()] == [bool(state[n]) for n in labels], "state", lambda: "the boxes show %s instead of %s" % (box.get_status(), state))
    if list(ax.get_xlim()) != list(lims[0]) or list(ax.get_ylim()) != list(lims[1]):
        ax.set_xlim(*lims[0])
        ax.set_ylim(*lims[1])
    arts2 = artists(ax)
    ctx.true(set(arts2) == set(arts), "kept", "the figure gained or lost lines or shapes")
    now = where(arts, ax)
    for k, v in place0.items():
        kind = arts[k][0]
        ok = np.allclose(now[k][:, 1], v[:, 1], atol=1e-9, rtol=1e-9)
        lo, hi = v[:, 0].min(), v[:, 0].max()
        a, b = now[k][:, 0].min(), now[k][:, 0].max()
        # arrow heads are scaled in width, around their place
        ok = ok and abs((lo + hi) - (a + b)) <= 1e-6 * (1 + abs(lo) + abs(hi))
        if kind in ("ray", "point", "line"):
            ok = ok and np.array_equal(now[k], v)
        ctx.true(ok, "kept", lambda: "a %s moved from %s to %s" % (kind, v.tolist()[:4], now[k].tolist()[:4]))
    ctx.observe("figures used")


def contents(ctx, rt, ax, arts, groups, specs, sources, rays, opts, path):
    """Each box commands the rays, objects and images it is named after"""
    def rayLines(keys):
        return [x for x in (c21.clean(zip(arts[k][1].get_xdata(), arts[k][1].get_ydata())) for k in keys if arts[k][0] == "ray") if len(x) > 1]

    def tips(keys, colour):
        out = []
        for k in keys:
            if arts[k][0] == colour:
                v = c21.patchData(ax, arts[k][1])
                z = (v[:, 0].max() + v[:, 0].min()) / 2
                out.append((float(z), float(v[int(np.argmin(np.abs(v[:, 0] - z))), 1]), float(v[:, 1].min()), float(v[:, 1].max())))
        return out
    fresh = rt.ImagingPath(gen.buildAll(specs))
    want = {}
    for (kind, y, z, a, parts), rr in zip(sources, rays):
        if kind == "object":
            name = "Object/Image (z=%.1f)" % z if z != 0 else "Object/Image"
        elif kind == "lamp":
            name = "Lamp (z=%.2f)" % z if z != 0 else "Lamp"
        else:
            name = {"uniform": "UniformRays", "list": "Rays"}[kind]
        w = want.setdefault(name, [[], [], [], []])
        for r in rr:
            r = rt.Ray(r.y, r.theta)
            if parts is None:
                w[0].append(c21.drawnTrace(fresh.trace(r), removeBlocked=opts["removeBlocked"]))
            else:
                fwd = rt.ImagingPath(gen.buildAll(parts[1]))
                bwd = rt.ImagingPath([e.flipOrientation() for e in gen.buildAll(parts[2])])
                w[0].append(c21.drawnTrace(fwd.trace(r), z, removeBlocked=opts["removeBlocked"]))
                w[0].append(c21.drawnTrace(bwd.trace(r), z, -1, removeBlocked=opts["removeBlocked"]))
        if kind == "lamp":
            w[3].append((z, y / 2))
        if kind == "object":
            w[1].append((z, y / 2))
            if parts is None:
                w[2] += [(zz, m * y / 2) for zz, m in fresh.intermediateConjugates()]
            else:
                w[2] += [(z + zz, m * y / 2) for zz, m in fwd.intermediateConjugates()]
                w[2] += [(z - zz, m * y / 2) for zz, m in bwd.intermediateConjugates()]
    for name, (lines, objects, images, lamps) in want.items():
        lines = [x for x in lines if x]
        if not lines and not objects and not lamps:
            continue
        keys = None
        for label in groups:
            if label.replace("\n", " ") == name:
                keys = groups[label]
        if not ctx.true(keys is not None, "names", lambda: "no box %r among %s" % (name, list(groups))):
            continue
        c21.match(ctx, rayLines(keys), lines, c21.same, "contents:lines", "rays of %r" % name)
        c21.match(ctx, tips(keys, c21.OBJECT), objects, c21.sameArrow, "contents:objects", "objects of %r" % name)
        c21.match(ctx, tips(keys, c21.IMAGE), images, c21.sameArrow, "contents:images", "images of %r" % name)
        c21.match(ctx, [(t[0], t[3]) for t in tips(keys, BULB)], lamps, lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1]) <= 1e-6 * (1 + abs(b[0]) + b[1]), "contents:lamps", "lamps of %r" % name)
        ctx.observe("lamps in the groups", len(lamps))
        ctx.observe("lamps inside of the path in the groups", sum(z != 0 for z, h in lamps))
        ctx.observe("groups judged")
    principal, axial = fresh.principalRay(), fresh.axialRay()
    if fresh.apertureStop()[0] is not None and principal is not None:
        keys = None
        for label in groups:
            if label.replace("\n", " ") == "Principal/axial rays":
                keys = groups[label]
        if ctx.true(keys is not None, "names", lambda: "no box for the principal and axial rays among %s" % list(groups)):
            lines = [c21.drawnTrace(fresh.trace(r), removeBlocked=opts["removeBlocked"]) for r in (principal, axial) if r is not None]
            c21.match(ctx, rayLines(keys), [x for x in lines if x], c21.same, "contents:lines", "principal and axial rays")
            c21.match(ctx, tips(keys, c21.FOV1), [(0.0, principal.y)], c21.sameArrow, "contents:objects", "field of view")
            ctx.observe("groups judged")
