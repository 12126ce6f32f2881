"""C19 materials"""
import math

import numpy as np

from rtmon import published

D, F, C = 0.5875618, 0.4861327, 0.6562725


def setup(ctx):
    from raytracing.materials import Material

    class My_Glass(Material):
        """What the package tells to do for a glass that it does not know"""
        @classmethod
        def n(cls, wavelength):
            return 1.61 + 0.005 / wavelength ** 2

        @classmethod
        def abbeNumber(cls):
            return 41.5
    ctx.mine = My_Glass


def case(ctx):
    from raytracing.materials import Material
    import raytracing.materials as materials
    rng = ctx.rng
    names = sorted(published.GLASSES)
    name = names[ctx.index % len(names)] if isinstance(ctx.index, int) else rng.choice(names)
    cls = getattr(materials, name, None)
    ctx.input(name)
    if cls is None:
        ctx.fail("missing", "there is no %s any more" % name)
        return
    obj = cls()
    g = published.GLASSES[name]
    # the dispersion
    for _ in range(6):
        c = rng.random()
        w = rng.uniform(0.36, 2.0) if c < 0.8 else rng.choice((0.4047, 0.4358, F, 0.5461, D, 0.6328, C, 0.8521, 1.0140, 1.0640, 1.5296))
        if rng.random() < 0.2:
            w = np.float64(w)
        n = rng.choice((cls.n, obj.n))(w)
        ctx.close(n, published.index(name, w), "index", "index of %s at %s µm" % (name, w), rel=1e-10)
    ctx.close(cls.abbeNumber(), g["Vd"], "abbe", "Abbe number of %s" % name, rel=1e-9)
    ctx.close(obj.Vd(), g["Vd"], "abbe", "Vd of %s" % name, rel=1e-9)
    if name in published.ND:
        nd, vd = published.ND[name]
        got = cls.n(D)
        ctx.true(abs(got - nd) < 3e-4, "nd", lambda: "nd of %s: %s, the catalogue has %s" % (name, got, nd))
        got = (cls.n(D) - 1) / (cls.n(F) - cls.n(C))
        ctx.true(abs(got - vd) < 0.2, "vd", lambda: "Abbe number of %s from its indices: %s, the catalogue has %s" % (name, got, vd))
        ctx.true(abs(cls.Vd() - vd) < 0.05, "vd", lambda: "Abbe number of %s: %s, the catalogue has %s" % (name, cls.Vd(), vd))
        # normal dispersion
        a, b = sorted((rng.uniform(0.4, 1.6), rng.uniform(0.4, 1.6)))
        if b - a > 1e-3:
            ctx.true(cls.n(a) > cls.n(b), "dispersion", lambda: "%s: the index goes up with the wavelength" % name)
    # wavelengths that are not in microns
    for bad in (rng.uniform(10.0001, 2000), 587.6, rng.uniform(-5, 0.00999), 0, -1.0, 587.6e-9):
        ctx.raises(ValueError, lambda: cls.n(bad), "wavelength", "a wavelength of %r µm with %s" % (bad, name))
    for bad in (None, "0.5876"):
        ctx.raises((TypeError, ValueError), lambda: cls.n(bad), "wavelength", "a wavelength of %r with %s" % (bad, name))
    # found by its name
    everything = Material.all()
    ctx.true(name in everything, "all", lambda: "%s is not in the list of materials" % name)
    commercial = name.replace("_", "-")
    spelled = rng.choice((commercial, commercial.lower(), commercial.upper(), name.replace("_", ""), name.replace("_", "").lower()))
    if rng.random() < 0.3:
        spelled = "".join(x + "-" * (rng.random() < 0.4) for x in "-" * (rng.random() < 0.2) + spelled)
    m = Material.findByName(spelled)
    ctx.true(type(m) is cls or m is cls, "byName", lambda: "%s found %s" % (spelled, m))
    if name not in ("Air",):
        ctx.true(str(obj) == commercial, "name", lambda: "%s is called %s" % (name, obj))
    for bad in (commercial + "X", "X" + commercial, "UNOBTAINIUM", ""):
        if bad.replace("-", "").lower() in [x.replace("_", "").lower() for x in everything]:
            continue
        ctx.raises(ValueError, lambda: Material.findByName(bad), "byName", "a material called %r" % bad)
    # found by its index
    w = rng.uniform(0.4, 1.6)
    n, tol = published.index(name, w) + rng.uniform(-0.02, 0.02), rng.choice((0.05, 0.001, 0.01, 0.2))
    got = Material.findByIndex(n, w, tol) if rng.random() < 0.8 or tol != 0.05 else Material.findByIndex(n, w)
    found = {}
    for other in names:
        k = published.index(other, w)
        if abs(abs(k - n) - tol) < 1e-9:
            continue
        found[other] = abs(k - n) < tol
    gotNames = [x[0] for x in got]
    k = ctx.mine.n(w)
    if abs(abs(k - n) - tol) > 1e-9:
        mine = [x for x in got if x[0] == "My_Glass"]
        ctx.true(len(mine) == (abs(k - n) < tol) and (not mine or tuple(mine[0][1:]) == (k, 41.5)), "own",
                 lambda: "n=%s ± %s at %s µm: the glass of the user (%s) is found as %s" % (n, tol, w, k, mine))
    m = Material.findByName(rng.choice(("My-Glass", "MYGLASS", "my-glass"))) if rng.random() < 0.3 else None
    if m is not None:
        ctx.true(type(m) is ctx.mine, "own", lambda: "My-Glass found %s" % m)
        ctx.observe("glasses of the user")
    for other, want in found.items():
        ctx.true((other in gotNames) == want, "byIndex", lambda: "n=%s ± %s at %s µm: %s is %sfound" % (n, tol, w, other, "" if other in gotNames else "not "))
    ctx.true(len(set(gotNames)) == len(gotNames), "byIndex", "a material is found twice")
    for x in got:
        if x[0] in published.GLASSES:
            ctx.close(x[1], published.index(x[0], w), "byIndex", "index found for %s" % x[0])
            ctx.close(x[2], published.GLASSES[x[0]]["Vd"], "byIndex", "Abbe number found for %s" % x[0])
    ctx.observe("materials found by index", len(got))
    ctx.observe("wavelengths", 6)
    ctx.nontrivial((name, w, tol))
