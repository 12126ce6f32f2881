"""C22 importing always works, and warnings follow the chosen mode"""
import builtins
import contextlib
import datetime
import io
import json
import os
import re
import resource
import shutil
import signal
import sys
import traceback

NAME = "ca.dcclab.python.raytracing.json"
CASE_WALL = 120.0
MODES = ("beginner", "expert", "silent")
# shown: how many of (3 at the same place, 1 more at another place) are shown
SHOWN = {"beginner": {"BeginnerHint": (4, 4), "ExpertNote": (2, 2), "DeprecationWarning": (2, 2), "UserWarning": (2, 2)},
         "expert": {"BeginnerHint": (0, 0), "ExpertNote": (1, 2), "DeprecationWarning": (1, 2), "UserWarning": (1, 2)},
         "silent": {"BeginnerHint": (0, 0), "ExpertNote": (0, 0), "DeprecationWarning": (0, 0), "UserWarning": (0, 0)}}
FAULTS = ("none",) * 8 + ("cannot write", "cannot write", "no home", "no folder", "folder is a file", "file is a folder")


def setup(ctx):
    """Everything that importing raytracing needs is loaded once, raytracing itself is loaded again by every case"""
    import packaging.version  # noqa: F401
    import urllib.request  # noqa: F401


def dates(rng, now):
    """A date of the last check: its value, and whether a check is due (None: not judged)"""
    c = rng.randrange(12)
    if c < 2:
        return "absent", True
    if c < 5:
        then = now - datetime.timedelta(seconds=rng.uniform(0, 80000))
        return then.replace(microsecond=rng.randint(1, 999999)).isoformat(), False
    if c < 8:
        then = now - datetime.timedelta(days=rng.uniform(2.01, rng.choice((3, 30, 4000))))
        return then.replace(microsecond=rng.randint(1, 999999)).isoformat(), True
    if c == 8:  # isoformat() omits null microseconds
        then = (now - datetime.timedelta(seconds=rng.uniform(10, 80000))).replace(microsecond=0)
        return then.isoformat(), None
    if c == 9:
        then = now - datetime.timedelta(days=rng.uniform(3, 30))
        return then.replace(microsecond=0).isoformat(), True
    return rng.choice(("", "yesterday", "2024-13-45T00:00:00.0", "2024-01-01", None, 0, 3.5, [], {}, True)), True


def numbers(version):
    """Sorts as versions do: 1.2.dev1 < 1.2a1 < 1.2rc1 < 1.2 < 1.2.post1"""
    m = re.match(r"([0-9.]+?)\.?(?:(dev|a|b|rc|post)([0-9]+))?$", version)
    parts = tuple(int(x) for x in m.group(1).split("."))
    return (parts + (0, 0, 0))[:3] + (("dev", "a", "b", "rc", None, "post").index(m.group(2)), int(m.group(3) or 0))


def releases(rng, current):
    """What PyPI answers, and the version that is announced, if any"""
    major, minor, micro = (int(x) for x in current.split(".")[:3])
    older = ["%d.%d.%d" % (major, minor, i) for i in range(micro)] + ["%d.%d.0" % (major, i) for i in range(minor)]
    older = rng.sample(older, min(len(older), rng.randint(1, 8)))
    newer = ["%d.%d.%d" % (major, minor, micro + i) for i in (1, 2, 9, 10, 11)] + ["%d.%d.0" % (major, minor + 1), "%d.0.0" % (major + 1), "%d.0" % (major + 9)]
    newer = rng.sample(newer, rng.choice((0, 0, 1, 2, 4)))
    all_ = older + newer + ([current] if rng.random() < 0.8 else [])
    rng.shuffle(all_)
    best = max(newer, key=numbers) if newer else None
    return all_, best


def asked(rng, current, versions):
    """The version that is compared with those of PyPI: also one that came before or after a release"""
    v = rng.choice((current, current, "0.0.1", rng.choice(versions)))
    if rng.random() < 0.4:
        v += rng.choice((".dev3", "a1", "b2", "rc1", ".post1"))
    return v


def forget():
    for name in [n for n in sys.modules if n == "raytracing" or n.startswith("raytracing.")]:
        del sys.modules[name]


def emit(raytracing, warnings, mode, where, check, observe):
    """What is shown of warnings of each category, and of those of the package itself"""
    for name, (least, most) in SHOWN[mode].items():
        category = getattr(raytracing, name, None) or getattr(builtins, name)
        registry = {}
        with warnings.catch_warnings(record=True) as seen:
            for line in (1, 1, 1, 2):
                warnings.warn_explicit("message", category, "file.py", line, module="file", registry=registry)
        n = len(seen)
        check(least <= n <= most, "shown", "%s: in %s mode, %d of 4 %ss are shown (expected %d to %d)" % (where, mode, n, name, least, most))
        for w in seen:
            check(w.category is category, "shown", "%s: category %s" % (where, w.category))
        observe("warnings emitted", 4)
    with warnings.catch_warnings(record=True) as seen:
        for i in range(2):
            path = raytracing.ImagingPath([raytracing.Space(d=10), raytracing.Lens(f=5, diameter=10)])
            path.imageSize()
    n = len([w for w in seen if issubclass(w.category, raytracing.BeginnerHint)])
    check(n == (2 if mode == "beginner" else 0), "hints", "%s: in %s mode, %d of 2 hints about the field of view are shown" % (where, mode, n))
    with warnings.catch_warnings(record=True) as seen:
        for i in range(2):
            raytracing.Objective(f=4, NA=0.5, focusToFocusLength=40, backAperture=8, workingDistance=2)
    n = len([w for w in seen if issubclass(w.category, raytracing.ExpertNote)])
    check(n <= (0 if mode == "silent" else 1) , "notes", "%s: in %s mode, the same note is shown %d times" % (where, mode, n))
    with warnings.catch_warnings(record=True) as seen:
        raytracing.ImagingPath().rayNumber = 5
    n = len([w for w in seen if issubclass(w.category, DeprecationWarning)])
    check(n <= (0 if mode == "silent" else 1), "deprecation", "%s: in %s mode, %d deprecation warnings" % (where, mode, n))
    observe("warnings of the package", 3)
    text = warnings.formatwarning("the message", raytracing.ExpertNote, "/a/b/file.py", 12)
    check("the message" in text and "ExpertNote" in text and "file.py" in text and text.endswith("\n"), "format", "%s: a warning is written as %r" % (where, text))


def session(plan, home):
    """In a child process: imports, changes of mode, with the monitors; returns failures and counts"""
    import urllib.error
    import urllib.request
    import warnings
    failures, counts = [], {}

    def check(ok, key, message):
        counts["oracle checks"] = counts.get("oracle checks", 0) + 1
        if not ok:
            failures.append((key, message))

    def observe(name, n=1):
        counts[name] = counts.get(name, 0) + n

    folder = os.path.join(home, ".config")
    path = os.path.join(folder, NAME)
    requests = []
    answers = {"network": plan["network"]}

    def urlopen(request, *args, **kw):
        url = request if isinstance(request, str) else request.full_url
        requests.append((url, kw.get("timeout", args[1] if len(args) > 1 else None)))
        kind = answers["network"]
        if kind == "none":
            raise urllib.error.URLError("no network")
        if kind == "timeout":
            raise TimeoutError("timed out")
        if kind == "garbage":
            return io.BytesIO(b"<html>not json</html>")
        return io.BytesIO(json.dumps({"info": {"version": "?"}, "releases": {v: [] for v in plan["releases"]}}).encode())

    urllib.request.urlopen = urlopen
    os.environ["HOME"] = home if plan["fault"] != "no home" else os.path.join(home, "nowhere", "at", "all")
    os.chdir(home)
    os.environ.pop("RAYTRACING_EXPERT", None)
    if plan["expert"]:
        os.environ["RAYTRACING_EXPERT"] = plan["expert"]
    if plan["fault"] == "folder is a file":
        open(folder, "w").close()
    elif plan["fault"] not in ("no home", "no folder"):
        os.makedirs(folder)
        if plan["fault"] == "file is a folder":
            os.makedirs(path)
        elif plan["text"] is not None:
            with open(path, "w") as f:
                f.write(plan["text"])
    persistent = plan["fault"] in ("none", "no folder")
    readable = plan["fault"] in ("none", "cannot write")
    stored = dict(plan["prefs"]) if readable and plan["prefs"] is not None else {}

    def load():
        """Imports raytracing again, as another session would"""
        forget()
        warnings.resetwarnings()
        del requests[:]
        printed = io.StringIO()
        if plan["fault"] == "cannot write":
            resource.setrlimit(resource.RLIMIT_FSIZE, (0, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        try:
            with contextlib.redirect_stdout(printed):
                import raytracing
            return raytracing, printed.getvalue()
        except BaseException:
            check(False, "import", "import raytracing failed\n" + traceback.format_exc()[-1500:])
            return None, None
        finally:
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))

    def effective():
        if plan["expert"]:
            return "expert"
        mode = stored.get("mode")
        return mode if mode in MODES else "beginner"

    def onDisk():
        try:
            with open(path) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    for number in range(1 + plan["sessions"]):
        where = "import %d" % (number + 1)
        due = plan["due"] if readable else True
        if number > 0 and persistent:
            due = False
        elif number > 0 and plan["fault"] == "no home":
            due = None
        raytracing, printed = load()
        if raytracing is None:
            break
        observe("imports")
        if due is not None:
            check(len(requests) == (1 if due else 0), "version", "%s: PyPI was asked %d times, the last check was %r" % (where, len(requests), plan["last"] if number == 0 else "just before"))
        for url, timeout in requests:
            check("pypi.org" in url and "raytracing" in url, "version", "%s: asked %r" % (where, url))
            check(timeout is not None and timeout <= 10, "version", "%s: no time limit" % where)
            observe("version checks")
            if answers["network"] == "answers":
                announced = "Latest version" in printed
                check(announced == (plan["best"] is not None), "announced", "%s: printed %r, the versions are %s" % (where, printed, plan["releases"]))
                if plan["best"] is not None:
                    check("version %s available" % plan["best"] in printed, "announced", "%s: printed %r, the versions are %s" % (where, printed, plan["releases"]))
            else:
                check("Latest version" not in printed, "announced", "%s: printed %r" % (where, printed))
        mode = effective()
        emit(raytracing, warnings, mode, where, check, observe)
        if persistent:
            d = onDisk()
            check(isinstance(d, dict), "stored", "%s: the preferences are %r" % (where, d))
            if isinstance(d, dict):
                expected = "expert" if plan["expert"] else stored.get("mode", "beginner")
                check(d.get("mode") == expected, "stored", "%s: the mode on disk is %r, expected %r" % (where, d.get("mode"), expected))
                if requests:
                    try:
                        then = datetime.datetime.fromisoformat(d.get("lastVersionCheck"))
                        ok = abs((datetime.datetime.now() - then).total_seconds()) < 600
                    except (TypeError, ValueError):
                        ok = False
                    check(ok, "stored", "%s: the last version check is %r on disk" % (where, d.get("lastVersionCheck")))
                for k, v in stored.items():
                    if k not in ("mode", "lastVersionCheck"):
                        check(d.get(k) == v, "stored", "%s: the preference %r became %r" % (where, k, d.get(k)))
                stored = d
        # the user changes modes
        for name, save in plan["modes"][number]:
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(raytracing, name + "Mode")(**({} if save is None else {"saveToPrefs": save and persistent}))
            observe("changes of mode")
            emit(raytracing, warnings, name, "%s, then %sMode(saveToPrefs=%s)" % (where, name, save), check, observe)
            if persistent:
                if save:
                    stored["mode"] = name
                d = onDisk()
                check(d == stored, "stored", "%s, after %sMode(saveToPrefs=%s): the preferences are %s, expected %s" % (where, name, save, d, stored))
        # asked directly
        with contextlib.redirect_stdout(io.StringIO()) as out:
            newer = raytracing.checkLatestVersion(plan["asked"])
        if answers["network"] == "answers":
            latest = max(plan["releases"], key=numbers)
            check(bool(newer) == (numbers(latest) > numbers(plan["asked"])), "announced",
                  "checkLatestVersion(%r) is %s, the latest is %s" % (plan["asked"], newer, latest))
        else:
            check(not newer, "announced", "checkLatestVersion without network is %s" % newer)
    return failures, counts


def case(ctx):
    import raytracing
    rng = ctx.rng
    now = datetime.datetime.now()
    last, due = dates(rng, now)
    prefs = {}
    if rng.random() < 0.3:
        prefs["other"] = rng.choice((1, "text", [1, 2], {"a": None}))
    if last != "absent":
        prefs["lastVersionCheck"] = last
    mode = rng.choice(("absent", "beginner", "expert", "silent", "silent", "expert", "Expert", "", None, 3, ["silent"]))
    if mode != "absent":
        prefs["mode"] = mode
    text = json.dumps(prefs)
    c = rng.random()
    if c < 0.08:
        text, prefs, due = rng.choice(("", "{", '{"mode": "silent"', "[1", "null", "3", '"silent"', "[]", "\x00\x01")), None, True
    elif c < 0.16:
        text, prefs, due = None, {}, True
    fault = rng.choice(FAULTS)
    if fault == "no folder":
        prefs, due = {}, True
    versions, best = releases(rng, raytracing.__version__)
    plan = {"prefs": prefs, "text": text, "last": last, "due": due, "fault": fault, "expert": rng.choice((None, None, None, None, "1", "0", "yes")),
            "network": rng.choice(("answers", "answers", "answers", "none", "timeout", "garbage")), "releases": versions, "best": best,
            "sessions": rng.choice((0, 0, 1, 2)), "asked": asked(rng, raytracing.__version__, versions),
            "modes": [[(rng.choice(MODES), rng.choice((None, False, True))) for _ in range(rng.randrange(4))] for _ in range(3)]}
    ctx.input(json.dumps(plan))
    home = os.path.join(ctx.scratch, "i%s" % ctx.index)
    os.makedirs(home)
    try:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                try:
                    result = session(plan, home)
                except BaseException:
                    result = [("exception", traceback.format_exc()[-2500:])], {}
                data = json.dumps(result).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    if not ctx.true(data != b"", "import", "the session died"):
        return
    failures, counts = json.loads(data)
    for name, n in counts.items():
        ctx.observe(name, n)
    for key, message in failures:
        ctx.fail(key, message)
    ctx.observe("sessions")
    if fault != "none":
        ctx.observe("faults injected")
    if counts.get("changes of mode") or fault != "none" or plan["sessions"]:
        ctx.nontrivial((text, fault, plan["expert"], plan["network"], str(plan["modes"])))
