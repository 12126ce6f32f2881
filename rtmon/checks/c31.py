"""C31 figures of cavities, compound lenses, axicons and chromatic aberrations, comments and titles"""
import inspect
import math
import warnings

import numpy as np

from rtmon import gen, model, oracle
from rtmon.checks import c13, c21, c23

INF = gen.INF


def setup(ctx):
    c23.setup(ctx)
    ctx.chromatic = [c for c in ctx.lenses if "wavelength" in inspect.signature(c.__init__).parameters]


def case(ctx):
    import raytracing as rt
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            ctx.rng.choice((cavity, cavity, compound, compound, axicon, path, chromatic))(ctx, rt, ctx.rng, shot)


def note(rng):
    """Comments: none, a text, or an image"""
    k = rng.random()
    if k < 0.4:
        return None
    if k < 0.8:
        return rng.choice(("A comment", "Two\nlines of comments", "x" * rng.randint(1, 60), "the value is %d" % rng.randint(0, 10 ** 6)))
    width = rng.choice((2, 5))
    return np.array([[[rng.random() for _ in range(3)] for _ in range(width)] for _ in range(rng.choice((3, 4)))])


def named(rng):
    return rng.choice(("", "", "My system", "Design %d" % rng.randint(0, 999)))


def commented(ctx, shot, comments, title):
    """The title is the label, the comments are below, and nothing else"""
    fig = shot.plt.figure(shot.plt.get_fignums()[-1])
    ax = fig.axes[0]
    ctx.true(ax.get_title() == title, "title", lambda: "title %r, expected %r" % (ax.get_title(), title))
    below = [a for a in fig.axes[1:] if a.texts or a.images]
    if comments is None:
        tt = [t.get_text() for a in below for t in a.texts if not a.patches and not a.lines]
        ctx.true(not any(a.images for a in below), "comments", "an image is shown, without comments")
        ctx.observe("figures without comments")
        return ax, tt
    if isinstance(comments, str):
        ok = [a for a in fig.axes if [t.get_text() for t in a.texts if t.get_visible()].count(comments) == 1]
        ctx.observe("comments shown")
    else:
        ok = [a for a in fig.axes if any(np.array_equal(np.asarray(i.get_array(), float), comments) and i.get_visible() for i in a.images)]
        ctx.observe("images shown as comments")
    ctx.true(len(ok) == 1 and ok[0] is not ax, "comments", lambda: "comments %r are shown in %d axes" % (str(comments)[:80], len(ok)))
    if len(ok) == 1:
        for im in [] if isinstance(comments, str) else ok[0].images:
            # the first row is at the top, the first column at the left
            im.figure.canvas.draw()
            l, r, b, t = im.get_extent()
            upper = im.origin == "upper"
            rows, cols = comments.shape[:2]
            x, y = [], []
            for i, j in ((0, 0), (rows - 1, cols - 1)):
                u = l + (r - l) * (j + 0.5) / cols
                v = (t + (b - t) * (i + 0.5) / rows) if upper else (b + (t - b) * (i + 0.5) / rows)
                p = ok[0].transData.transform((u, v))
                x.append(p[0])
                y.append(p[1])
            ctx.true(x[0] < x[1] and y[0] > y[1], "comments", lambda: "the image of the comments is turned: its first pixel is at %s and its last at %s" % ((x[0], y[0]), (x[1], y[1])))
        ctx.true(ok[0].get_position().y1 <= ax.get_position().y0 + 1e-9, "comments", "the comments are not below the figure")
    return ax, None


# ----------------------------------------------------------------- cavities
def cavity(ctx, rt, rng, shot):
    specs = c13.cavitySpecs(rng)
    elements = gen.buildAll(specs)
    c = rt.LaserCavity(elements, label=named(rng)) if rng.random() < 0.5 else rt.LaserCavity(elements)
    ls = model.leaves(specs)
    back = rng.random() < 0.7
    if back:
        c.appendElementsInReverse()
        ls = ls + c13.reverse(ls)
        specs = specs + list(reversed(specs))
    p = model.product(ls)
    ctx.input("LaserCavity %s%s" % (gen.show(specs), " and back" if back else ""))
    half = (p.A + p.D) / 2
    if max(abs(p.A), abs(p.D), abs(p.B) / 10, abs(p.C) * 100) > 1e4 or p.L < 1 or abs(abs(half) - 1) < 1e-4 or 0 < abs(p.C) < 2e-5:
        ctx.observe("cavities not judged")
        return
    stable = abs(half) < 1 and p.C != 0
    lam = None
    L = p.L
    before = c21.snap(c)
    for again in range(rng.choice((1, 1, 2))):
        shot.plt.close("all")
        n0 = shot.shown
        comments = note(rng)
        if comments is None and rng.random() < 0.5:
            c.display()
        else:
            c.display(comments=comments)
        ctx.true(shot.shown == n0 + 1, "cavity:shown", "shown %d times" % (shot.shown - n0))
        ax, _ = commented(ctx, shot, comments, c.label)
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines
                 if l.get_visible() and l.get_marker() != "o" and len(l.get_xdata()) > 1]
        tips = [tuple(map(float, q._posA_posB[1])) for q in ax.patches if type(q).__name__ == "FancyArrowPatch" and q.get_visible()]
        if not stable:
            ctx.true(not lines and not tips, "cavity:unstable", lambda: "%d lines and %d arrows for a cavity that is not stable" % (len(lines), len(tips)))
            ctx.observe("cavities without mode drawn")
        else:
            im = math.sqrt(1 - half * half) / abs(p.C)
            q0 = complex((p.A - p.D) / (2 * p.C), im)
            lam = c.laserModes()[0].wavelength
            n1 = p.nf
            zs, qs, ns = c21.sections(ls, q0)
            ns[0] = n1
            spaces = [l.kind == "space" for l in ls]
            ok = len(lines) == 2
            ctx.true(ok, "cavity:lines", lambda: "%d lines for a mode" % len(lines))
            for sgn in (1, -1):
                ctx.true(any(c21.curve(x, sgn * y, zs, qs, ns, lam, L, spaces) for x, y in lines), "cavity:size", lambda: "no line shows the %s edge of the mode q=%r" % ("upper" if sgn > 0 else "lower", q0))
            waists = []
            for z, qq, nn in zip(zs, qs, ns):
                pos = z - qq.real
                if -1e-9 * L <= pos <= L * (1 + 1e-9):
                    waists.append((pos, math.sqrt(qq.imag * lam / (nn * math.pi)), min(abs(pos), abs(L - pos)) <= 1e-6 * (1 + L)))
            near = lambda t, w: abs(t[0] - w[0]) <= 1e-5 * (1 + abs(w[0])) + 1e-6 * L and abs(abs(t[1]) - w[1]) <= 1e-5 * (1 + w[1])     # noqa
            for w in waists:
                ctx.true(w[2] or any(near(t, w) for t in tips), "cavity:waist", lambda: "the waist of size %r at %r has no arrow (%s)" % (w[1], w[0], tips))
            for t in tips:
                ctx.true(any(near(t, w) for w in waists), "cavity:waist", lambda: "arrow at %s, waists at %s" % (t, waists))
            ctx.observe("modes drawn")
            ctx.observe("waists of modes", len(waists))
        if again:
            ctx.observe("cavities displayed again")
        flat = [e for s in specs for e in (s["e"] if s["k"] == "group" else [s])]
        if not back:
            c21.elementsDrawn(ctx, ax, specs, flat)
        ctx.true(c21.snap(c) == before, "unchanged", "displaying the cavity changed its elements")
    ctx.nontrivial((gen.kindsOf(specs), back, round(half, 6)))


# ----------------------------------------------------------- compound lenses
def glasses(rng):
    """A cemented lens: radii, thicknesses, indices"""
    k = rng.randint(1, 4)
    h = gen.fl(rng, 4, 15)
    flat = rng.random() < 0.1
    Rs = [INF if flat or rng.random() < 0.15 else gen.sign(rng) * gen.fl(rng, max(20, 2.2 * h), 300) for _ in range(k + 1)]
    ts = [gen.fl(rng, 1, 12) for _ in range(k)]
    ns = [rng.choice(gen.NS[1:]) + 0.001 * i for i in range(k)]
    return Rs, ts, ns, h


def surfacesDrawn(ctx, ax, z, Rs, ts, h, what):
    """Each glass is drawn between its two surfaces"""
    patches = c21.allPatches(ax)
    tol = 1e-6 * (1 + abs(z) + sum(ts) + h)
    for i, t in enumerate(ts):
        want = []
        for zz, R in ((z, Rs[i]), (z + t, Rs[i + 1])):
            if not math.isinf(R):
                want.append((zz, 0.0))
            want += [(zz + c21.sag(R, h), h), (zz + c21.sag(R, h), -h)]
        ctx.true(any(all(c21.has(v, a, b, tol) for a, b in want) for v in patches), "compound:surface",
                 lambda: "%s: no glass drawn through %s (glass %d)" % (what, want, i + 1))
        ctx.observe("glasses drawn")
        z += t


def compound(ctx, rt, rng, shot):
    from raytracing.specialtylenses import CompoundLens
    Rs, ts, ns, h = glasses(rng)
    media = [1.0] + ns + [1.0]
    specs = []
    for i, R in enumerate(Rs):
        specs.append({"k": "interface", "n1": media[i], "n2": media[i + 1], "R": R, "dia": 2 * h})
        if i < len(ts):
            specs.append({"k": "space", "d": ts[i], "n": ns[i]})
    way = rng.choice(("compound", "compound", "singlet" if len(ts) == 1 else "doublet" if len(ts) == 2 else "compound"))
    if abs(model.product(model.leaves(specs)).C) < 1e-6:
        way = "compound"     # a window
    e = None
    if way == "singlet":
        e = rt.SingletLens(f=100, fb=90, R1=Rs[0], R2=Rs[1], tc=ts[0], te=5, n=ns[0], diameter=2 * h)
    elif way == "doublet":
        e = rt.AchromatDoubletLens(fa=100, fb=90, R1=Rs[0], R2=Rs[1], R3=Rs[2], tc1=ts[0], tc2=ts[1], te=5, n1=ns[0], n2=ns[1], diameter=2 * h)
    else:
        e = CompoundLens(gen.buildAll(specs), designFocalLength=rng.choice((None, 50.0)), diameter=2 * h, label=named(rng))
    flips = rng.choice((0, 0, 1, 1, 2, 3))
    alone = rng.random() < 0.5
    for _ in range(flips):
        e = e.flipOrientation()
    what = "%s of %s turned around %d times" % (way, gen.show(specs), flips)
    ctx.input(what + (", alone" if alone else ", in a path"))
    ls = model.leaves(specs)
    if flips % 2:
        ls = [model.flipLeaf(l) for l in reversed(ls)]
        Rs, ts, ns = [-R for R in reversed(Rs)], ts[::-1], ns[::-1]
    p = model.product(ls)
    oracle.matrixIs(ctx, e, p, "compound:matrix", what)
    surf = e.surfaces
    ctx.true(len(surf) == len(Rs), "compound:surfaces", lambda: "%s: %d surfaces" % (what, len(surf)))
    for i, (s, R) in enumerate(zip(surf, Rs)):
        ctx.true(s.R == R or (math.isinf(s.R) and math.isinf(R)), "compound:surfaces", lambda: "%s: surface %d of radius %r, expected %r" % (what, i, s.R, R))
        ctx.close(s.n, (ns + [1.0])[i], "compound:surfaces", "index after surface %d of %s" % (i, what))
        ctx.close(s.L, (ts + [0.0])[i], "compound:surfaces", "distance after surface %d of %s" % (i, what))
    ctx.observe("surfaces read", len(surf))
    ctx.observe("lenses without power", p.C == 0)
    snap = oracle.snapSystem(e)
    times = rng.choice((1, 1, 2))
    for _ in range(times):
        shot.plt.close("all")
        if alone:
            e.display()
            ax = shot.axes()
            leaf = p.copy()
            c23.cardinals(ctx, ax, e, leaf, rt)
            surfacesDrawn(ctx, ax, 0.0, Rs, ts, h, what)
        else:
            d1, d2 = gen.fl(rng, 5, 60), gen.fl(rng, 5, 60)
            pth = rt.ImagingPath([rt.Space(d1), e, rt.Space(d2)], label=named(rng))
            comments = note(rng)
            pth.display(comments=comments)
            ax, _ = commented(ctx, shot, comments, pth.label)
            surfacesDrawn(ctx, ax, d1, Rs, ts, h, what)
        ctx.observe("compound lenses drawn, turned around" if flips % 2 else "compound lenses drawn")
    ctx.true(oracle.snapSystem(e) == snap, "unchanged", "displaying the lens changed it")
    ctx.nontrivial((tuple(Rs), flips, alone))


# ------------------------------------------------------------------- axicons
def axicon(ctx, rt, rng, shot):
    from raytracing.axicon import Axicon
    alpha, n = rng.uniform(0.01, 0.5), rng.uniform(1.3, 2.0)
    dia = rng.choice((INF, gen.fl(rng, 5, 60)))
    e = Axicon(alpha=alpha, n=n, diameter=dia)
    flips = rng.choice((0, 0, 1, 2))
    for _ in range(flips):
        e = e.flipOrientation()
    alone = rng.random() < 0.5
    d = 0.0 if alone else gen.fl(rng, 5, 80)
    ctx.input("Axicon alpha=%r n=%r diameter=%r turned around %d times at %r" % (alpha, n, dia, flips, d))
    if alone:
        e.display()
        ax = shot.axes()
    else:
        pth = rt.ImagingPath([rt.Space(d), e, rt.Space(gen.fl(rng, 5, 80))], label=named(rng))
        comments = note(rng)
        pth.display(comments=comments)
        ax, _ = commented(ctx, shot, comments, pth.label)
    h = dia / 2 if not math.isinf(dia) else None
    tol = 1e-6 * (1 + d + (h or 100))
    ok = []
    for v in c21.allPatches(ax):
        top, bottom = v[:, 1].max(), v[:, 1].min()
        if top <= tol or abs(top + bottom) > tol or (h is not None and abs(top - h) > tol):
            continue
        t = math.tan(alpha) * top
        lo, hi = v[:, 0].min(), v[:, 0].max()
        if abs(hi - lo - t) > tol or abs(hi - d) > tol:
            continue
        tip, base = (hi, lo) if flips % 2 else (lo, hi)
        # the tip is on the axis, the edges are on the flat face
        onTip = v[np.abs(v[:, 0] - tip) <= tol]
        if np.all(np.abs(onTip[:, 1]) <= tol) and c21.has(v, tip, 0.0, tol) and c21.has(v, base, top, tol) and c21.has(v, base, -top, tol):
            ok.append(v)
    ctx.true(len(ok) == 1, "axicon:drawn", lambda: "%d cones at z=%r, half height %r, angle %r: %s" % (len(ok), d, h, alpha, [v.tolist() for v in c21.allPatches(ax)][:3]))
    ctx.observe("axicons drawn")
    ctx.observe("axicons turned around", flips % 2)
    ctx.nontrivial((alpha, dia, flips))


# --------------------------------------------------------------------- paths
def path(ctx, rt, rng, shot):
    """Comments and titles of imaging and laser paths"""
    specs = c21.makeSystem(rng)
    label = named(rng)
    comments = note(rng)
    laser = rng.random() < 0.5
    elements = gen.buildAll(specs)
    ctx.input("%s %s label %r comments %r" % ("LaserPath" if laser else "ImagingPath", gen.show(specs), label, str(comments)[:100]))
    late = rng.random() < 0.3
    cls = rt.LaserPath if laser else rt.ImagingPath
    system = cls(elements) if late else cls(elements, label=label)
    if late:
        system.label = label
    if system.L == 0:
        return
    for _ in range(rng.choice((1, 2))):
        shot.plt.close("all")
        if laser:
            system.display([rt.GaussianBeam(w=1.0)], comments=comments)
        elif rng.random() < 0.5:
            system.display(comments=comments)
        else:
            system.display(rt.ObjectRays(diameter=2.0, H=3, T=3), comments=comments)
        commented(ctx, shot, comments, label)
        ctx.observe("titles read")
        comments = note(rng)
    ctx.nontrivial((gen.kindsOf(specs), label, str(comments)[:20]))


# ------------------------------------------------------ chromatic aberrations
def chromatic(ctx, rt, rng, shot):
    cls = rng.choice(ctx.chromatic)
    e = cls(wavelength=rng.uniform(0.45, 0.9)) if rng.random() < 0.5 else cls()
    if rng.random() < 0.3:
        e.designFocalLength = e.designFocalLength * rng.uniform(0.9, 1.1)     # set by the user
        ctx.observe("design focal lengths set by the user")
    given = None if rng.random() < 0.3 else sorted(rng.uniform(0.45, 1.0) for _ in range(rng.randint(1, 12)))
    ctx.input("%s, design %r, wavelengths %s" % (cls.__name__, e.designFocalLength, given))
    before = oracle.snapSystem(e)
    x, y = e.focalShifts(given) if given is not None or rng.random() < 0.5 else e.focalShifts()
    n0 = shot.shown
    e.showChromaticAberrations(given) if given is not None else e.showChromaticAberrations()
    ctx.true(shot.shown == n0 + 1, "chromatic:shown", "shown %d times" % (shot.shown - n0))
    ax = shot.axes()
    lines = [l for l in ax.lines if l.get_visible()]
    ctx.true(len(lines) == 1, "chromatic:lines", lambda: "%d lines" % len(lines))
    waves = given if given is not None else [0.4 + 0.4 * i / 99 for i in range(100)]
    want = []
    for w in waves:
        l = cls(wavelength=w)
        p = model.product(leavesOf(l))
        want.append(-1.0 / p.C - e.designFocalLength)
    for name, a, b in (("focalShifts", x, y), ("the graph", lines[0].get_xdata(), lines[0].get_ydata())) if lines else ():
        ctx.true(len(a) == len(waves) and len(b) == len(waves), "chromatic:size", lambda: "%s: %d wavelengths and %d shifts, expected %d" % (name, len(a), len(b), len(waves)))
        for u, v, w, s in zip(a, b, waves, want):
            ctx.close(float(u), w * 1000, "chromatic:wavelength", "wavelength of %s of %s" % (name, cls.__name__))
            if not ctx.close(float(v), s, "chromatic:shift", "shift of the focal length of %s at %r, in %s" % (cls.__name__, w, name), scale=abs(e.designFocalLength)):
                break
    title = ax.get_title()
    ctx.true(str(e.designFocalLength) in title, "chromatic:title", lambda: "the title %r does not tell the design focal length %r" % (title, e.designFocalLength))
    ctx.true(e.label in title, "chromatic:title", lambda: "the title %r does not name %r" % (title, e.label))
    ctx.true(oracle.snapSystem(e) == before, "unchanged", "showing the aberrations changed the lens")
    ctx.observe("chromatic aberrations drawn")
    ctx.observe("focal shifts", len(waves))
    ctx.nontrivial((cls.__name__, str(given)))


def leavesOf(lens):
    """The surfaces and glasses of a real lens, in the textbook model"""
    out = []
    for e in lens.elements:
        if e.L:
            out.append(model.Leaf(*model.space(e.L), L=e.L, nf=e.frontIndex, nb=e.backIndex))
        else:
            out.append(model.Leaf(*model.interface(e.n1, e.n2, e.R), nf=e.n1, nb=e.n2))
    return out
