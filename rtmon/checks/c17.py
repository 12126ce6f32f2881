"""C17 preferences: several objects and processes, crashes and full disks"""
import json
import os
import resource
import shutil
import signal
import sys
import time

NAME = "ca.dcclab.python.raytracing.json"
CASE_WALL = 120.0
WATCHED = ("open", "os.rename", "os.remove", "os.truncate", "os.chmod", "os.link", "os.symlink", "shutil.move")


def value(rng, depth=0):
    c = rng.randrange(10 if depth < 2 else 7)
    if c == 0:
        return rng.choice(("beginner", "expert", "silent", "", "é—π", "a\nb\"c\\", "2024-01-01T00:00:00.000000"))
    if c == 1:
        return rng.randint(-10 ** 6, 10 ** 6)
    if c == 2:
        return rng.uniform(-1e3, 1e3)
    if c == 3:
        return rng.choice((True, False, None))
    if c == 4:
        return "x" * rng.choice((1, 50, 3000, 20000))
    if c < 7:
        return "v%d" % rng.randrange(100)
    if c < 9:
        return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {"k%d" % i: value(rng, depth + 1) for i in range(rng.randrange(4))}


def key(rng):
    return rng.choice(("mode", "lastVersionCheck", "a", "b", "c", "key with spaces", "é", ""))


def onDisk(path):
    """The preferences in the file, or None when it is not complete"""
    if not os.path.exists(path):
        return {}
    with open(path, encoding="utf-8") as f:
        text = f.read()
    try:
        d = json.loads(text)
    except ValueError:
        return None
    return d if isinstance(d, dict) else None


def newHome(ctx):
    home = os.path.join(ctx.scratch, "h%s" % ctx.index)
    os.makedirs(home)
    os.environ["HOME"] = home
    return home


def case(ctx):
    home = newHome(ctx)
    try:
        c = ctx.rng.random()
        if c < 0.72:
            history(ctx, home)
        elif c < 0.75:
            homeless(ctx, home)
        elif c < 0.97:
            crash(ctx, home)
        else:
            processes(ctx, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def homeless(ctx, home):
    """Where there is no folder for preferences, they are kept in the current folder"""
    from raytracing.preferences import Preferences
    rng = ctx.rng
    why = rng.choice(("missing", "file", "refused", "refused", "read-only"))
    here = os.path.join(home, "here")
    os.makedirs(here)
    k, v, k2 = key(rng), value(rng), "other"
    ctx.input("home folder: %s; %r is set" % (why, k))
    error = {"refused": PermissionError(13, "Permission denied"), "read-only": OSError(30, "Read-only file system")}.get(why)
    if why == "missing":
        os.environ["HOME"] = os.path.join(home, "nobody", "at", "home")
    elif why == "file":
        with open(os.path.join(home, "file"), "w") as f:
            f.write("not a folder")
        os.environ["HOME"] = os.path.join(home, "file")

    def work():
        p = Preferences()
        p[k] = v
        q = Preferences()
        q[k2] = 1
        if not (q[k] == v and p[k2] == 1 and Preferences()[k] == v and set(q) == {k, k2}):
            os._exit(3)

    def prepare():
        os.chdir(here)

        def hook(event, args):
            if event == "os.mkdir" and error is not None:
                raise error
        sys.addaudithook(hook)

    status = child(work, prepare)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1
    ctx.true(code == 0, "homeless", lambda: {3: "the preferences are not read back", 5: "raises an OSError"}.get(code, "ends with %d" % code))
    found = sorted(os.path.relpath(os.path.join(d, n), home) for d, _, names in os.walk(home) for n in names if n != "file")
    ctx.true(found == [os.path.join("here", NAME)], "homeless", lambda: "files: %s" % found)
    ctx.observe("no folder for preferences")
    ctx.nontrivial(("homeless", why, k, str(v)))


def history(ctx, home):
    from raytracing.preferences import Preferences
    rng = ctx.rng
    folder = os.path.join(home, ".config")
    path = os.path.join(folder, NAME)
    shared = {}
    begin = rng.choice(("nothing", "folder", "file", "file", "file", "garbage", "list", "link"))
    if begin != "nothing":
        os.makedirs(folder)
    if begin in ("file", "link"):
        shared = {key(rng): value(rng) for _ in range(rng.randrange(4))}
        target = path
        if begin == "link":
            os.makedirs(os.path.join(home, "dotfiles"))
            target = os.path.join(home, "dotfiles", "prefs.json")
            os.symlink(target, path)
        with open(target, "w") as f:
            json.dump(shared, f)
    elif begin == "garbage":
        with open(path, "w") as f:
            f.write(rng.choice(("", "{", '{"mode": "exp', "not json", '{"a": 1}}')))
        shared = None
    elif begin == "list":
        with open(path, "w") as f:
            f.write(rng.choice(("[1, 2]", "3", "null", '"text"')))
        shared = None
    log = ["begin with %s %s" % (begin, shared)]
    objects, memories = [], []

    def fresh(*args, **kw):
        nonlocal shared
        p = Preferences(*args, **kw)
        m = {} if shared is None else dict(shared)
        extra = dict(*args, **kw)
        if extra:
            m.update(extra)
            shared = dict(m)
        objects.append(p)
        memories.append(m)
        return len(objects) - 1

    def same(what):
        d = onDisk(path)
        if shared is not None:
            ctx.true(d == shared, "disk", lambda: "after %s: the file has %s, expected %s" % (what, d, shared))

    ctx.input(log)
    fresh()
    log.append("object 0")
    kinds = set([begin])
    for step in range(rng.randint(4, 16)):
        i = rng.randrange(len(objects))
        p = objects[i]
        op = rng.choice(("set", "set", "set", "get", "get", "get", "new", "newWith", "update", "del", "reset", "elsewhere", "unserializable", "removed",
                         "all", "garbage", "readFromDisk", "in"))
        k = key(rng)
        kinds.add(op)
        log.append("object %d: %s %r" % (i, op, k))
        if shared is None:
            known = memories[i]
        else:
            known = shared
        if op == "set":
            v = value(rng)
            log[-1] += " = %.60r" % (v,)
            p[k] = v
            shared = dict(known)
            shared[k] = v
            memories[i] = dict(shared)
        elif op == "get":
            if k in known:
                ctx.true(p[k] == known[k], "get", lambda: "read %r for %r, the last value is %r" % (p[k], k, known[k]))
            else:
                ctx.raises(KeyError, lambda: p[k], "get", "reading %r, which was never set" % k)
            memories[i] = dict(known)
        elif op == "all":
            try:
                p[k]
            except KeyError:
                pass
            ctx.true(dict(p) == known, "get", lambda: "the object has %s, expected %s" % (dict(p), known))
            memories[i] = dict(known)
        elif op == "in":
            try:
                p[k]
            except KeyError:
                pass
            ctx.true((k in p) == (k in known), "in", lambda: "%r in preferences: %s, expected %s" % (k, k in p, k in known))
            memories[i] = dict(known)
        elif op == "readFromDisk":
            p.readFromDisk()
            ctx.true(dict(p) == known, "get", lambda: "the object has %s, expected %s" % (dict(p), known))
            memories[i] = dict(known)
        elif op == "new":
            i = fresh()
            ctx.true(dict(objects[i]) == memories[i], "new", lambda: "a new object has %s, expected %s" % (dict(objects[i]), memories[i]))
        elif op == "newWith":
            v = value(rng)
            if k and k.isidentifier() and rng.random() < 0.5:
                i = fresh(**{k: v})
            else:
                i = fresh({k: v})
            ctx.true(dict(objects[i]) == memories[i], "new", lambda: "a new object has %s, expected %s" % (dict(objects[i]), memories[i]))
        elif op == "update":
            new = {key(rng): value(rng) for _ in range(rng.randint(1, 3))}
            c = rng.randrange(3)
            if c == 0:
                p.update(new)
            elif c == 1:
                p.update(list(new.items()))
            else:
                p.update(mode="expert", **{})
                new = {"mode": "expert"}
            log[-1] += " %.80r" % (new,)
            shared = dict(known)
            shared.update(new)
            memories[i] = dict(shared)
        elif op == "del":
            if k in known:
                del p[k]
                shared = dict(known)
                del shared[k]
                memories[i] = dict(shared)
            else:
                before = onDisk(path)

                def go():
                    del p[k]
                ctx.raises(KeyError, go, "del", "removing %r, which was never set" % k)
                ctx.true(onDisk(path) == before, "disk", "removing a missing key changed the file")
                memories[i] = dict(known)
        elif op == "reset":
            if rng.random() < 0.6:
                continue
            p.resetPreferences()
            shared = {}
            memories[i] = {}
            begin = "file"      # a link is removed too
            ctx.true(len(p) == 0, "reset", lambda: "%s after a reset" % dict(p))
            ctx.true(os.path.exists(path), "reset", "no file after a reset")
        elif op == "elsewhere":
            if shared is None:
                continue
            # another process
            v = value(rng)
            shared = dict(shared)
            shared[k] = v
            real = os.path.realpath(path)
            with open(real + ".new", "w") as f:
                json.dump(shared, f)
            os.replace(real + ".new", real)
            ctx.observe("changes by another process")
        elif op == "removed":
            # by hand, or by another process: there are no preferences anymore
            if begin == "link" or rng.random() < 0.4 or not os.path.exists(path):
                continue
            os.unlink(path)
            shared = {}
            ctx.observe("files removed by another process")
        elif op == "garbage":
            if rng.random() < 0.7:
                continue
            with open(path, "w") as f:
                f.write('{"mode": "exp')
            shared = None
        elif op == "unserializable":
            if not os.path.exists(path):
                continue
            before = open(path).read()
            bad = rng.choice((object(), {1, 2}, 1 + 2j, lambda: 0, [object()]))

            def go():
                p[k] = bad
            ctx.raises((TypeError, ValueError), go, "unserializable", "a value that cannot be saved")
            ctx.true(open(path).read() == before, "unserializable", "the file changed when a value could not be saved")
            if shared is not None:
                p.readFromDisk()
                ctx.true(dict(p) == shared, "unserializable", lambda: "the preferences are %s after a value could not be saved, expected %s" % (dict(p), shared))
                memories[i] = dict(shared)
            else:
                break
        if ctx.caseFailures:
            return
        same(log[-1])
        if begin == "link":
            ctx.true(os.path.islink(path), "link", "the link to the preferences was replaced by a file")
    others = [n for n in os.listdir(folder) if n != NAME]
    ctx.true(not others, "leftovers", lambda: "files left in the folder: %s" % others)
    ctx.observe("histories")
    ctx.nontrivial((tuple(log)))


def child(work, prepare):
    """Run work in a process of its own; its status"""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            prepare()
            work()
            code = 0
        except OSError:
            code = 5
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status


def crash(ctx, home):
    from raytracing.preferences import Preferences
    rng = ctx.rng
    folder = os.path.join(home, ".config")
    path = os.path.join(folder, NAME)
    os.makedirs(folder)
    old = {key(rng): value(rng) for _ in range(rng.randint(1, 5))}
    with open(path, "w") as f:
        json.dump(old, f)
    k, v = key(rng), value(rng)
    new = dict(old)
    op = rng.choice(("set", "update", "del", "init", "reset"))
    if op == "reset":
        new = {}
    elif op == "del":
        k = rng.choice(sorted(old))
        del new[k]
    else:
        new[k] = v

    def work():
        if op == "init":
            Preferences({k: v})
            return
        p = Preferences()
        if op == "set":
            p[k] = v
        elif op == "update":
            p.update({k: v})
        elif op == "reset":
            p.resetPreferences()
        else:
            del p[k]

    ctx.input("%s %r in %.300r, interrupted" % (op, k, old))
    size = max(len(json.dumps(old)), len(json.dumps(new)))

    def verdict(status, what, alive=False):
        d = onDisk(path)
        others = [n for n in os.listdir(folder) if n != NAME]
        ctx.true(not (alive and others), "leftovers", lambda: "%s, %s: files left in the folder: %s" % (op, what, others))
        done = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0
        good = d is not None and (d == new if done else d in (old, new))
        ctx.true(good, "torn", lambda: "%s, %s: the file has %s; it was %.200r and was to become %.200r" % (op, what, "%.100r" % open(path).read() if os.path.exists(path) else "nothing", old, new))
        if not done:
            # and the next session can go on
            p = Preferences()
            p["after"] = 1
            ctx.true((onDisk(path) or {}).get("after") == 1, "torn", "%s, %s: preferences cannot be saved any more" % (op, what))
        for n in os.listdir(folder):
            os.unlink(os.path.join(folder, n))
        with open(path, "w") as f:
            json.dump(old, f)
        return done

    # the disk is full, or the process is killed, after so many bytes
    sizes = sorted(set([0, 1, size // 2, size - 1] + [rng.randrange(size + 1) for _ in range(2)]))
    for n in sizes:
        if n < 0:
            continue
        for killed in (True, False):
            def prepare():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if killed else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            status = child(work, prepare)
            ctx.observe("crash points")
            verdict(status, "%s after %d bytes" % ("killed" if killed else "disk full", n), alive=not killed)
            if ctx.caseFailures:
                return
    # killed before each operation on files
    for n in range(1, 40):
        def prepare():
            count = [0]

            def hook(event, args):
                if event in WATCHED and args and isinstance(args[0], str) and args[0].startswith(home):
                    count[0] += 1
                    if count[0] == n:
                        os._exit(9)
            sys.addaudithook(hook)
        done = verdict(child(work, prepare), "killed before operation %d" % n)
        ctx.observe("crash points")
        if done or ctx.caseFailures:
            break
    # stopped by the user (or refused by the system) before each operation on files: the program goes on
    error = rng.choice((KeyboardInterrupt, KeyboardInterrupt, PermissionError, MemoryError))
    for n in range(1, 40):
        def prepare():
            count = [0]

            def hook(event, args):
                if event in WATCHED and args and isinstance(args[0], str) and args[0].startswith(home):
                    count[0] += 1
                    if count[0] == n:
                        raise error()
            sys.addaudithook(hook)
        done = verdict(child(work, prepare), "%s before operation %d" % (error.__name__, n), alive=True)
        ctx.observe("crash points")
        if done or ctx.caseFailures:
            break
    ctx.observe("interrupted operations")
    ctx.nontrivial((op, k, str(old)))


def processes(ctx, home):
    """The file is complete at all times while several processes (and threads) write"""
    import threading
    from raytracing.preferences import Preferences
    rng = ctx.rng
    folder = os.path.join(home, ".config")
    path = os.path.join(folder, NAME)
    os.makedirs(folder)
    with open(path, "w") as f:
        json.dump({"mode": "expert"}, f)
    n, rounds = rng.randint(2, 4), rng.randint(20, 60)
    threads = rng.random() < 0.4
    ctx.input("%d %s writing %d times each" % (n, "threads" if threads else "processes", rounds))
    big = "y" * rng.choice((10, 5000, 100000))
    errors = []

    def work(i):
        p = Preferences()
        for j in range(rounds):
            p["p%d" % i] = [j, big if j % 2 else "short"]
            try:
                p["p%d" % i]
            except KeyError:
                pass

    def guarded(i):
        try:
            work(i)
        except BaseException as err:
            errors.append(err)

    pids, workers = [], []
    if threads:
        # each with an object of its own
        workers = [threading.Thread(target=guarded, args=(i,)) for i in range(n)]
        for w in workers:
            w.start()
    else:
        for i in range(n):
            pid = os.fork()
            if pid == 0:
                code = 7
                try:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    work(i)
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
    alive = set(pids)
    bad = None
    seen = set()
    try:
        while (alive or any(w.is_alive() for w in workers)) and bad is None:
            for pid in list(alive):
                r, status = os.waitpid(pid, os.WNOHANG)
                if r:
                    alive.discard(pid)
                    if status != 0:
                        bad = "a process failed while others were writing (status %s)" % status
            d = onDisk(path)
            ctx.observe("concurrent readings")
            if d is None or d.get("mode") != "expert":
                bad = "incomplete file while it was written: %.100r" % open(path).read()
            else:
                seen.add(json.dumps({k: v[0] for k, v in d.items() if k != "mode"}, sort_keys=True))
    finally:
        for pid in alive:
            os.kill(pid, signal.SIGKILL) if bad else None
            os.waitpid(pid, 0)
        for w in workers:
            w.join()
    if errors and bad is None:
        bad = "a thread failed while others were writing: %r" % errors[0]
    ctx.true(bad is None, "concurrent", lambda: bad)
    ctx.observe("distinct states seen by a concurrent reader", len(seen))
    ctx.nontrivial((n, rounds, threads, ctx.index))
