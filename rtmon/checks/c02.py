"""C02 histories of edits of a group: the group is always the ordered list of its elements"""
import os

from rtmon import gen, model, oracle


class Item:
    """Model of an element of the group: its leaves, and whether its index may be adapted."""

    def __init__(self, obj, ls, space):
        self.obj, self.ls, self.space = obj, ls, space

    @property
    def nf(self):
        return self.ls[0].nf if self.ls else 1.0

    @property
    def nb(self):
        return self.ls[-1].nb if self.ls else 1.0


def adapt(items):
    """What happens to the indices of a sequence: spaces take the index before them, any other
    mismatch is refused (None)."""
    out = []
    n = None
    for it in items:
        ls = it.ls
        if n is not None and it.nf != n:
            if not it.space:
                return None
            ls = [ls[0].copy(nf=n, nb=n)]
        new = Item(it.obj, ls, it.space)
        out.append(new)
        n = new.nb
    return out


OPT = dict(kinds=["space", "space", "lens", "lens", "interface", "thick", "slab", "aperture", "mirror", "matrix"],
           minN=1, maxN=1, pDia=0.3, maxEntry=40)


def newItem(rng, n=1.0):
    s = gen.system(rng, gen.Options(groups=False, **OPT), n)[0]
    if rng.random() < 0.12:
        s = {"k": "group", "e": gen.system(rng, gen.Options(groups=False, **{**OPT, "maxN": 3, "minN": 2}), n)}
    return Item(gen.build(s), model.leaves([s]), s["k"] == "space"), s


def newItems(rng, count, n=1.0):
    out, specs = [], []
    for _ in range(count):
        it, s = newItem(rng, n)
        n = it.nb
        out.append(it)
        specs.append(s)
    return out, specs


def flat(ls):
    return max([abs(v) for v in (ls.A, ls.B, ls.C * 10, ls.D)])


def check(ctx, group, items, what):
    rng = ctx.rng
    ls = [l for it in items for l in it.ls]
    ok = ctx.true(len(group) == len(items), "edit:length", lambda: "%s: %d elements, expected %d" % (what, len(group), len(items)))
    objs = list(group)
    ok = ok and ctx.true(len(objs) == len(items) and all(a is it.obj for a, it in zip(objs, items)), "edit:elements",
                         lambda: "%s: the elements are %s, expected %s" % (what, [type(e).__name__ for e in objs], [type(it.obj).__name__ for it in items]))
    if not ok:
        return
    for i, it in enumerate(items):
        ok = ctx.true(group[i] is it.obj and group[i - len(items)] is it.obj, "edit:getitem", "%s: element %d" % (what, i)) and ok
        oracle.matrixIs(ctx, it.obj, model.product(it.ls) if it.ls else model.product([]), "edit:element", "%s: element %d" % (what, i), vertices=False)
    want = model.product(ls)
    if rng.random() < 0.2:
        seen = []
        for a in group:
            seen.append((a, [b for b in group]))
        ctx.true([a for a, b in seen] == objs and all(b == objs for a, b in seen), "edit:loops", "%s: loops inside of a loop" % what)
        fresh = type(group)(objs) if not any(hasattr(e, "elements") for e in objs) else None
        if fresh is not None:
            got = [next(fresh) for _ in objs]
            ctx.true(len(got) == len(objs) and all(a is b for a, b in zip(got, objs)), "edit:next", "%s: the elements taken one at a time with next()" % what)
            ctx.raises(StopIteration, lambda: next(fresh), "edit:next", "%s: next() after the last element" % what)
            ctx.observe("elements taken one at a time", len(got))
    oracle.matrixIs(ctx, group, want, "edit:matrix", what)
    y, t = gen.ray(rng)
    pts, closest = model.trace(ls, y, t)
    if closest > 1e-9 and oracle.exitCut(ls, y, t) is None:
        oracle.traceIs(ctx, group.trace(__import__("raytracing").Ray(y, t)), pts, "edit:trace", what)
        ctx.observe("traces")
    oracle.matrixIs(ctx, group.transferMatrix(), want, "edit:transferMatrix", what)
    lo, hi = sorted((rng.randint(0, len(items)), rng.randint(0, len(items))))
    part = group[lo:hi]
    sub = [l for it in items[lo:hi] for l in it.ls]
    ctx.true(len(part) == hi - lo and all(a is it.obj for a, it in zip(part.elements, items[lo:hi])), "edit:slice", "%s: slice %d:%d" % (what, lo, hi))
    oracle.matrixIs(ctx, part, model.product(sub), "edit:slice", "%s: slice %d:%d" % (what, lo, hi))
    key = slice(*(rng.choice((None, rng.randint(-len(items) - 1, len(items) + 1))) for _ in range(2)), rng.choice((None, 1, 2, 3, -1, -2)))
    chosen = items[key]
    if adapt(chosen) is not None and all(a.nf == b.nf for a, b in zip(adapt(chosen), chosen)):   # they follow one another
        part = group[key]
        ctx.true(len(part) == len(chosen) and all(a is it.obj for a, it in zip(part.elements, chosen)), "edit:slice",
                 lambda: "%s: %s has the elements %s" % (what, key, [type(e).__name__ for e in part.elements]))
        oracle.matrixIs(ctx, part, model.product([l for it in chosen for l in it.ls]), "edit:slice", "%s: %s" % (what, key))
        ctx.observe("slices with any step")


def case(ctx):
    import raytracing as rt
    rng = ctx.rng
    cls = rng.choice((rt.MatrixGroup, rt.MatrixGroup, rt.ImagingPath, rt.LaserPath))
    media = rng.random() < 0.5
    if not media:
        global OPT
    items, specs = newItems(rng, rng.randint(0, 5))
    log = ["%s%s" % (cls.__name__, gen.show(specs))]
    group = cls([it.obj for it in items])
    items = adapt(items)
    check(ctx, group, items, "created")
    kinds = []
    for step in range(rng.randint(3, 10)):
        n = len(items)
        op = rng.choice(("append", "insert", "insert", "insertMany", "pop", "setint", "setint", "setslice", "setslice",
                         "flip", "load", "bad", "insertGroup", "mismatch"))
        new = None
        act = None
        expected = None    # exceptions
        added = []
        if op == "append":
            it, s = newItem(rng, rng.choice((items[-1].nb if items else 1.0, 1.0, 1.33)))
            new, act, d = items + [it], (lambda: group.append(it.obj)), "append(%s)" % gen.show([s])
        elif op == "insert":
            i = rng.choice((rng.randint(0, n), rng.randint(-n - 2, n + 2)))
            at = len(range(n)[:i])
            it, s = newItem(rng, rng.choice((items[at - 1].nb if at else 1.0, 1.0)))
            new = items[:]
            new.insert(i, it)
            act, d = (lambda: group.insert(i, it.obj)), "insert(%d, %s)" % (i, gen.show([s]))
        elif op in ("insertMany", "insertGroup"):
            i = rng.choice((rng.randint(0, n), rng.randint(-n - 2, n + 2)))
            at = len(range(n)[:i])
            its, s = newItems(rng, rng.randint(0 if op == "insertMany" else 1, 3), items[at - 1].nb if at else 1.0)
            new = items[:]
            new[i:i] = its
            objs = [x.obj for x in its]
            if op == "insertGroup":
                arg = rt.MatrixGroup(objs)
                adapted = adapt(its)
                new[at:at + len(its)] = adapted
            else:
                arg = rng.choice((list, tuple))(objs)
            act, d = (lambda: group.insert(i, arg)), "%s(%d, %s)" % (op, i, gen.show(s))
        elif op == "pop":
            if n == 0:
                expected, act, d = IndexError, (lambda: group.pop(0)), "pop(0) of an empty group"
            else:
                i = rng.randint(-n, n - 1)
                new = items[:]
                popped = new.pop(i)

                def act(i=i, popped=popped):
                    r = group.pop(i)
                    ctx.true(r is popped.obj, "edit:popped", "pop(%d) did not return the element" % i)
                d = "pop(%d)" % i
        elif op == "setint":
            if n == 0:
                continue
            i = rng.randint(-n, n - 1)
            at = i % n
            many = rng.random() < 0.25
            its, s = newItems(rng, rng.randint(1, 3) if many else 1, rng.choice((items[at - 1].nb if at else 1.0, 1.0)))
            new = items[:at] + its + items[at + 1:]
            arg = [x.obj for x in its] if many else its[0].obj
            if not many and len(its[0].ls) and not isinstance(its[0].obj, rt.MatrixGroup):
                pass
            act, d = (lambda: group.__setitem__(i, arg)), "group[%d] = %s" % (i, gen.show(s))
        elif op == "setslice":
            lo = rng.choice((None, rng.randint(-n - 1, n + 1)))
            hi = rng.choice((None, rng.randint(-n - 1, n + 1)))
            start, stop, _ = slice(lo, hi).indices(n)
            stop = max(start, stop)
            its, s = newItems(rng, rng.randint(0, 3), items[start - 1].nb if start else 1.0)
            new = items[:start] + its + items[stop:]
            single = len(its) == 1 and not isinstance(its[0].obj, rt.MatrixGroup) and rng.random() < 0.5
            arg = its[0].obj if single else [x.obj for x in its]

            def act(lo=lo, hi=hi, arg=arg):
                group[lo:hi] = arg
            d = "group[%s:%s] = %s" % (lo, hi, gen.show(s))
        elif op == "flip":
            new = [Item(it.obj, [model.flipLeaf(l) for l in reversed(it.ls)], it.space) for it in reversed(items)]
            act, d = (lambda: group.flipOrientation()), "flipOrientation()"
        elif op == "load":
            its, s = newItems(rng, rng.randint(0, 3), rng.choice((1.0, items[-1].nb if items else 1.0)))
            app = rng.random() < 0.5
            other = rt.MatrixGroup([x.obj for x in its])
            its = adapt(its)
            path = os.path.join(ctx.scratch, "g%s.pkl" % step)
            other.save(path)
            oldIds = {id(it.obj) for it in items}

            def act(app=app, path=path):
                group.load(path, append=app)
            new = (items if app else []) + its
            d = "load(%s, append=%s)" % (gen.show(s), app)
        elif op == "mismatch":
            # an element of another medium, anywhere
            i = rng.randint(0, n)
            near = items[i - 1].nb if i else items[0].nf if items else 1.4
            it, s = newItem(rng, rng.choice((1.4, near + rng.choice((0.001, 0.004, 0.02, 1e-6)))))
            new = items[:]
            new.insert(i, it)
            act, d = (lambda: group.insert(i, it.obj)), "insert(%d, %s)" % (i, gen.show([s]))
        else:
            kind = rng.choice(("append", "insert", "pop", "set", "list"))
            bad = rng.choice(("text", 3, None, object(), rt.Ray(1, 1)))
            if kind == "append":
                expected, act = TypeError, (lambda: group.append(bad))
            elif kind == "insert":
                expected, act = TypeError, (lambda: group.insert(rng.randint(0, n), bad))
            elif kind == "pop":
                i = rng.choice((n, n + 3, -n - 1))
                expected, act = IndexError, (lambda: group.pop(i))
            elif kind == "set":
                i = rng.choice((n, n + 3, -n - 1))
                expected, act = IndexError, (lambda: group.__setitem__(i, rt.Lens(f=10)))
            else:
                i = rng.randint(0, n)
                expected, act = TypeError, (lambda: group.insert(i, [rt.Lens(f=10), bad]))
            d = "bad %s (%r)" % (kind, type(bad).__name__)

        if expected is None:
            if isinstance(new, list) and op in ("setint", "setslice", "insert", "mismatch"):
                # an element that is a group is spliced in by insert() and [] =, and nested by append()
                exploded = []
                for x in new:
                    if isinstance(x.obj, rt.MatrixGroup) and x not in items and op in ("insert", "mismatch", "setint") \
                            and not (op == "setint" and isinstance(arg, list)):
                        inner = adapt([Item(o, [l], isinstance(o, rt.Space)) for o, l in zip(x.obj.elements, x.ls)])
                        exploded.extend(inner)
                    else:
                        exploded.append(x)
                new = exploded
            after = adapt(new)
            if after is None:
                expected = ValueError
        log.append(d)
        ctx.input("; ".join(log))
        what = "after %d edits, last %s" % (len(log) - 1, d)
        if expected is not None:
            before = oracle.snapSystem(group)
            objs = list(group)
            if ctx.raises(expected, act, "edit:accepted", what):
                ctx.observe("refused edits")
                now = list(group)
                ctx.true(len(now) == len(objs) and all(a is b for a, b in zip(now, objs)), "edit:refused", what + ": the refused edit changed the elements")
                ctx.true(oracle.snapSystem(group) == before, "edit:refused", lambda: what + ": the refused edit changed the group")
            else:
                return
        else:
            act()
            if op == "load":
                got = list(group)
                k = len(items) if app else 0
                if not ctx.true(len(got) == k + len(its), "edit:load", "%s: %d elements" % (what, len(got))):
                    return
                for o, x in zip(got[k:], after[k:]):
                    x.obj = o
            items = after
            kinds.append(op)
            ctx.observe("edits: " + op)
        check(ctx, group, items, what)
        total = model.product([l for it in items for l in it.ls])
        if flat(total) > 1e4 or len(items) > 14:
            break
    if len(kinds) >= 2:
        ctx.nontrivial(tuple(kinds) + tuple(type(it.obj).__name__ for it in items))


def setup(ctx):
    import time
    time.sleep = lambda s: None     # save() waits for the disk
