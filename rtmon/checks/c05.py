"""C05 many rays at a time, serially or in parallel"""
import multiprocessing
import warnings

from rtmon import gen, model, oracle
from rtmon.core import isclose

CASE_WALL = 150.0


def same(a, b, s):
    return (isclose(a[0], b[0], scale=s) and isclose(a[1], b[1], scale=s / 10) and isclose(a[2], b[2], scale=1 + abs(b[2])))


def multiset(got, want, s):
    """The values of want that are not in got, and the other way around."""
    left = list(got)
    missing = []
    for w in want:
        for i, g in enumerate(left):
            if same(g, w, s):
                del left[i]
                break
        else:
            missing.append(w)
    return missing, left


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    o = gen.Options(minN=1, maxN=7, pDia=rng.choice((0.2, 0.6, 0.9)), NA=True, indices=rng.random() < 0.5)
    specs = gen.system(rng, o)
    ls = model.leaves(specs)
    elements = gen.buildAll(specs)
    if len(elements) == 1 and rng.random() < 0.7 and specs[0]["k"] != "group":
        system = elements[0]
    else:
        system = rng.choice((rt.MatrixGroup, rt.ImagingPath, rt.OpticalPath if hasattr(rt, "OpticalPath") else rt.MatrixGroup))(elements)

    n = rng.choice((0, 1, 2, 3, 7, 8, 9, 16, 25, 40))
    source = rng.choice(("list", "list", "tuple", "Rays", "generator", "UniformRays", "ObjectRays", "random"))
    z0 = rng.choice((0, 0.0, 2.5))
    yt = []
    while len(yt) < n:
        y, t = gen.ray(rng, rng.choice((3.0, 15.0)), rng.choice((0.05, 0.3)))
        yt += [(y, t)] * rng.choice((1, 1, 1, 2))    # the same ray may be there twice, blocked or not, here or elsewhere
    yt = yt[:n]
    blockedIn = [rng.random() < 0.08 for _ in range(n)]
    if source in ("UniformRays", "ObjectRays", "random"):
        if source == "UniformRays":
            rays = rt.UniformRays(yMax=rng.uniform(1, 12), thetaMax=rng.uniform(0.02, 0.3), M=rng.randint(1, 6), N=rng.randint(1, 6))
        elif source == "ObjectRays":
            rays = rt.ObjectRays(rng.uniform(1, 12), halfAngle=rng.uniform(0.02, 0.3), H=rng.randint(1, 6), T=rng.randint(1, 6))
        else:
            rays = rt.RandomUniformRays(yMax=rng.uniform(1, 12), thetaMax=0.3, maxCount=rng.randint(1, 40))
        objects = [r for r in rays]
        yt = [(r.y, r.theta) for r in objects]
        blockedIn = [False] * len(yt)
        z0 = 0.0
        zs = [z0] * len(yt)
    else:
        zs = [rng.choice((z0, z0, z0, rng.uniform(-5, 5))) for _ in yt] if rng.random() < 0.3 else [z0] * len(yt)
        objects = [rt.Ray(y, t, z=z, isBlocked=b) for (y, t), b, z in zip(yt, blockedIn, zs)]
        rays = None
    ctx.input("%s; %s of %d rays" % (gen.show(specs), source, len(yt)))

    def supply():
        if rays is not None:
            return rays
        return {"list": lambda: list(objects), "tuple": lambda: tuple(objects), "Rays": lambda: rt.Rays(list(objects)),
                "generator": lambda: (r for r in objects)}[source]()

    judged, wants = True, []
    for (y, t), b, z in zip(yt, blockedIn, zs):
        want, closest = model.trace(ls, y, t, z, blocked=b)
        if not b and (closest < 1e-9 or oracle.exitCut(ls, y, t) is not None):
            judged = False
        wants.append(want)
    if not judged and rng.random() < 0.9:
        # take the rays away that the model does not judge
        keep = [i for i in range(len(yt)) if blockedIn[i] or (model.trace(ls, *yt[i])[1] >= 1e-9 and oracle.exitCut(ls, *yt[i]) is None)]
        if rays is not None:
            source, rays = "list", None
        objects, wants = [objects[i] for i in keep], [wants[i] for i in keep]
        yt, zs = [yt[i] for i in keep], [zs[i] for i in keep]
        judged = True
    s = max([1.0] + [oracle.scaleOf(w) for w in wants])
    before, snaps = oracle.snapSystem(system), [oracle.snapRay(r) for r in objects]

    # one trace per ray, in order
    traces = system.traceMany(supply())
    ctx.observe("traceMany")
    ctx.true(len(traces) == len(yt), "traceMany:count", lambda: "%d traces for %d rays" % (len(traces), len(yt)))
    for i, (tr, w) in enumerate(zip(traces, wants)):
        if judged:
            if isinstance(system, rt.MatrixGroup):
                oracle.traceIs(ctx, tr, w, "traceMany", "ray %d" % i)
            else:
                oracle.traceIs(ctx, [objects[i]] + list(tr), w, "traceMany", "ray %d" % i)
        else:
            one = system.trace(objects[i])
            ctx.true([oracle.snapRay(a) for a in tr] == [oracle.snapRay(a) for a in one], "traceMany", "ray %d: trace differs from the one alone" % i)

    if judged:
        ends = [model.dedup(w)[-1] for w in wants]
        want = [(p.y, p.t, p.z) for p in ends if not p.blocked]
        lost = len(wants) - len(want)
    else:
        ends = [system.traceThrough(r) for r in objects]
        want = [(r.y, r.theta, r.z) for r in ends if r.isNotBlocked]
        lost = len(ends) - len(want)
    progress = rng.random() < 0.3
    out = system.traceManyThrough(supply(), progress=progress)
    ctx.observe("traceManyThrough")
    ctx.true(isinstance(out, rt.Rays), "traceManyThrough", "not Rays")
    got = [(r.y, r.theta, r.z) for r in out]
    ctx.true(len(got) == len(want), "traceManyThrough:count", lambda: "%d rays transmitted out of %d, expected %d" % (len(got), len(yt), len(want)))
    ctx.true(all(same(a, b, s) for a, b in zip(got, want)), "traceManyThrough:rays", lambda: "transmitted %s, expected %s" % (got, want))
    ctx.true(all(r.isNotBlocked for r in out), "traceManyThrough:blocked", "blocked rays are returned")
    ctx.observe("rays traced", len(yt))
    ctx.observe("rays blocked", lost)

    # in parallel: the same rays
    if rng.random() < (0.12 if ctx.tier == "quick" else 0.25):
        processes = rng.choice((1, 2, 3, 5, max(1, len(yt)), len(yt) + 1, None))
        p = system.traceManyThroughInParallel(supply(), progress=progress, processes=processes)
        parallel(ctx, p, want, s, "parallel", "processes=%r" % processes)
        ctx.observe("parallel runs")
        ctx.nontrivial((gen.kindsOf(specs), yt[:3], processes))
    # faults of the pool of processes: the fallback gives the same rays
    faulty(ctx, system, supply, want, s, progress)

    # from several threads at a time, on the same system and rays
    if judged and len(objects) > 1 and rng.random() < 0.06:
        threads(ctx, system, objects, wants, s)

    # the profile at a position: the rays that are not blocked there
    if traces and judged and isinstance(system, rt.MatrixGroup) and len(set(zs)) == 1:
        zEnd = z0 + sum(l.L for l in ls)
        z = rng.choice((float("inf"), z0 + rng.random() * (zEnd - z0)))
        planes = []
        zz = z0
        for l in ls:
            planes.append((zz, zz + l.L, l.kind))
            zz += l.L
        inSpace = z == float("inf") or any(a + 1e-6 < z < b - 1e-6 and k == "space" for a, b, k in planes)
        if inSpace:
            prof = system.profileFromRayTraces(traces, z=z) if z != float("inf") else system.profileFromRayTraces(traces)
            ctx.observe("profiles")
            wantP = []
            for w in wants:
                d = model.dedup(w)
                if z == float("inf"):
                    if not d[-1].blocked:
                        wantP.append((d[-1].y, d[-1].t, d[-1].z))
                    continue
                here = [q for q in d if q.z <= z]
                if not here or any(q.blocked for q in here):
                    continue
                a = here[-1]
                nxt = [q for q in d if q.z > z]
                wantP.append((a.y + (z - a.z) * a.t, a.t, z))
                if not nxt or nxt[0].blocked:
                    wantP = None    # blocked later on inside of the space
                    break
            if wantP is not None:
                gotP = [(r.y, r.theta, r.z) for r in prof]
                ctx.true(len(gotP) == len(wantP) and all(same(a, b, s) for a, b in zip(gotP, wantP)), "profile",
                         lambda: "profile at z=%r: %s, expected %s" % (z, gotP, wantP))
    ctx.true(oracle.snapSystem(system) == before, "many:system-modified", "tracing modified the elements")
    ctx.true([oracle.snapRay(r) for r in objects] == snaps, "many:input-modified", "tracing modified the input rays")
    if lost and len(want) > 1:
        ctx.nontrivial((gen.kindsOf(specs), yt[:5], source))


def parallel(ctx, p, want, s, key, what):
    got = [(r.y, r.theta, r.z) for r in p]
    missing, extra = multiset(got, want, s)
    ctx.true(not missing and not extra, key, lambda: "%s: %d rays instead of %d; lost %s, not expected %s" % (
        what, len(got), len(want), missing[:5], extra[:5]))


def threads(ctx, system, objects, wants, s):
    import sys
    import threading
    import raytracing as rt
    rng = ctx.rng
    shared = rt.Rays(list(objects))
    ends = [model.dedup(w)[-1] for w in wants]
    through = [(p.y, p.t, p.z) for p in ends if not p.blocked]
    n = 4
    problems, finished, switches = [], [], [0]
    last = [None]

    def work(k, order):
        try:
            for i in order:
                if last[0] != k:
                    last[0] = k
                    switches[0] += 1
                r = system.traceThrough(objects[i])
                w = ends[i]
                if bool(r.isBlocked) != w.blocked or not w.blocked and not same((r.y, r.theta, r.z), (w.y, w.t, w.z), s):
                    problems.append("thread %d: ray %d ends at %r, expected %r" % (k, i, (r.y, r.theta, r.z, r.isBlocked), w))
            got = [(r.y, r.theta, r.z) for r in system.traceManyThrough(shared, progress=False)]
            if len(got) != len(through) or not all(same(a, b, s) for a, b in zip(got, through)):
                problems.append("thread %d: %d rays through, expected %d" % (k, len(got), len(through)))
            finished.append(k)
        except Exception as err:    # noqa
            problems.append("thread %d: %s: %s" % (k, type(err).__name__, err))
    orders = [[rng.randrange(len(objects)) for _ in range(25)] for _ in range(n)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        workers = [threading.Thread(target=work, args=(k, orders[k])) for k in range(n)]
        for w in workers:
            w.start()
        for w in workers:
            w.join(60)
    finally:
        sys.setswitchinterval(interval)
    ctx.true(not problems, "threads", lambda: "%d problems; %s" % (len(problems), problems[:3]))
    ctx.true(len(finished) == n or bool(problems), "threads", "%d threads of %d finished" % (len(finished), n))
    ctx.observe("runs in several threads")
    ctx.observe("changes of thread between traces", switches[0])


class Broken:
    """A pool of processes that fails at a given point."""

    def __init__(self, where):
        self.where = where
        if where == "create":
            raise OSError("cannot fork")

    def __enter__(self):
        if self.where == "enter":
            raise OSError("cannot start")
        return self

    def __exit__(self, *a):
        if self.where == "exit":
            raise OSError("cannot stop")
        return False

    def starmap(self, f, args, *a, **k):
        if self.where == "map":
            raise RuntimeError("a worker died")
        if self.where == "half":
            for x in list(args)[:1]:
                f(*x)
            raise RuntimeError("a worker died after the first part")
        return [f(*x) for x in args]

    def map(self, f, args, *a, **k):
        return self.starmap(f, [(x,) for x in args])

    imap = map

    def close(self):
        pass

    join = terminate = close


def faulty(ctx, system, supply, want, s, progress):
    rng = ctx.rng
    where = rng.choice(("create", "enter", "map", "half", "exit", "never"))
    saved = multiprocessing.Pool
    multiprocessing.Pool = lambda *a, **k: Broken(where)
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            p = system.traceManyThroughInParallel(supply(), progress=progress, processes=rng.choice((1, 2, 4, 9)))
    finally:
        multiprocessing.Pool = saved
    if where != "never":
        ctx.observe("pool faults injected")
        ctx.true(len(seen) >= 1, "fault:silent", "the pool failed at %r without a warning" % where)
    parallel(ctx, p, want, s, "fault", "pool failing at %r" % where)
