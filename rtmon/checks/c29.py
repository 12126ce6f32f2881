"""C29 the command line runs the examples asked for, lists them with their numbers, and prints the classes"""
import collections
import contextlib
import inspect
import io
import os
import re
import runpy
import subprocess
import sys
import warnings

ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Shown:
    """What the examples directory holds, read without the package"""

    def __init__(self, ctx):
        import importlib
        import raytracing.examples as examples
        from PIL import Image
        from pygments import highlight
        from pygments.formatters import BmpImageFormatter
        from pygments.lexers import PythonLexer
        self.dir = os.path.dirname(os.path.abspath(examples.__file__))
        self.names = sorted(f[:-3] for f in os.listdir(self.dir) if re.match(r"^(ex\d+|fig.+)\.py$", f))
        self.source, self.title, self.function, self.picture = {}, {}, {}, {}
        for name in self.names:
            with open(os.path.join(self.dir, name + ".py")) as f:
                self.source[name] = "".join(f.readlines()[:-3])
            module = importlib.import_module("raytracing.examples." + name)
            self.title[name], self.function[name] = module.TITLE, module.exampleCode
        self.entries = list(examples.short)
        self.draw = lambda name: Image.open(io.BytesIO(highlight(self.source[name], PythonLexer(), BmpImageFormatter())))


S = None


def setup(ctx):
    global S
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S = Shown(ctx)


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.rng.choice((selected, selected, selected, refused, listed, classes, everything, real))(ctx, ctx.rng)


def run(ctx, args, stubs=True):
    """Run 'python -m raytracing args' here, with examples that only say they were called"""
    import matplotlib
    import matplotlib.pyplot as plt
    calls, commands, saved = [], [], []
    out, err = io.StringIO(), io.StringIO()

    def stub(name):
        def code(*a, **k):
            calls.append((name, a, k))
            print("<<%s %d>>" % (name, len(calls)))
        return code

    import raytracing.examples as examples
    for e in examples.short:
        saved.append((e, e["code"]))
        if stubs:
            e["code"] = stub(e["name"])
    argv, system, popen = sys.argv, os.system, subprocess.Popen.__init__
    os.system = lambda c: commands.append(c) or 0

    def noProcess(self, *a, **k):
        commands.append(a)
        raise OSError("not here")
    subprocess.Popen.__init__ = noProcess
    sys.argv = ["raytracing"] + list(args)
    rc = dict(matplotlib.rcParams)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_module("raytracing", run_name="__main__", alter_sys=True)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except (ValueError, IndexError, OSError) as e:
        code = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv, os.system = argv, system
        subprocess.Popen.__init__ = popen
        for e, c in saved:
            e["code"] = c
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcParams.update(rc)
        plt.close("all")
    return code, out.getvalue(), err.getvalue(), calls, commands


def judge(ctx, numbers, text, calls, what):
    """The examples with these numbers ran, in this order, each between its source and the end of its output"""
    want = [S.names[i - 1] for i in numbers]
    ctx.true([c[0] for c in calls] == want, "which", lambda: "%s ran %r, the list says %r" % (what, [c[0] for c in calls], want))
    plain = ANSI.sub("", text)
    at = 0
    for j, (name, c) in enumerate(zip(want, calls)):
        for piece in ("Script '%s.py' - begin source code" % name, S.source[name].strip("\n"), "Script '%s.py' - end source code" % name,
                      "Script '%s.py' - begin output" % name, "<<%s %d>>" % (c[0], j + 1), "Script '%s.py' - end output" % name):
            found = plain.find(piece, at)
            if not ctx.true(found >= 0, "output", lambda: "%s: %r is missing or out of order in the output of %s" % (what, piece[:200], name)):
                return
            at = found + len(piece)
        ctx.observe("examples run")
        comments = c[2].get("comments", c[1][0] if c[1] else None)
        ctx.true(comments is not None, "comments", lambda: "%s: %s is run without its source" % (what, name))
        if comments is not None and not isinstance(comments, str):
            picture = S.draw(name)
            ctx.true(comments.size == picture.size and comments.convert("RGB").tobytes() == picture.convert("RGB").tobytes(), "comments",
                     lambda: "%s: the picture given to %s is not that of its source" % (what, name))
            ctx.observe("pictures of sources")
        elif comments is not None:
            ctx.true(ANSI.sub("", comments).strip() == S.source[name].strip(), "comments", lambda: "%s: the source given to %s is not its source" % (what, name))


def selected(ctx, rng):
    n = len(S.names)
    numbers = [rng.randint(1, n) for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
    if rng.random() < 0.3:
        numbers = [rng.choice((1, n))] + numbers
    if rng.random() < 0.2:
        numbers.append(numbers[0])
    text = ",".join((rng.choice(("", "", " ", "0")) + "%d" % i) for i in numbers)
    args = rng.choice((["-e", text], ["--examples", text], ["--examples=" + text], ["-e" + text]))
    ctx.input("python -m raytracing %s" % " ".join(args))
    code, out, err, calls, commands = run(ctx, args)
    ctx.true(code == 0 and not commands, "which", lambda: "%r ended with %r %s %r" % (args, code, err[-300:], commands))
    judge(ctx, numbers, out, calls, repr(args))
    ctx.nontrivial((tuple(numbers), len(args), args[0][:3]))


def everything(ctx, rng):
    """No argument: all of them, in order; an empty list: none"""
    args = rng.choice(([], ["-e", "all"], ["-e", ""]))
    ctx.input("python -m raytracing %r" % (args,))
    code, out, err, calls, commands = run(ctx, args)
    ctx.true(code == 0 and not commands, "which", lambda: "%r ended with %r %s" % (args, code, err[-300:]))
    judge(ctx, [] if args[-1:] == [""] else range(1, len(S.names) + 1), out, calls, repr(args))
    ctx.observe("all examples")


def refused(ctx, rng):
    """Numbers that are not in the list: an error, and nothing runs"""
    n = len(S.names)
    numbers = [str(rng.randint(1, n)) for _ in range(rng.randint(0, 3))]
    bad = rng.choice(("0", str(n + 1), str(n + rng.randint(1, 1000)), "-1", "-%d" % n, "x", "1.5", "", " ", "ex01"))
    numbers.insert(rng.randint(0, len(numbers)), bad)
    if numbers == [""]:
        numbers = ["", "1"]
    text = ",".join(numbers)
    args = ["--examples=" + text]
    ctx.input("python -m raytracing %r" % (args,))
    code, out, err, calls, commands = run(ctx, args)
    ctx.true(code != 0, "refused", lambda: "%r: accepted, ran %r" % (args, [c[0] for c in calls]))
    ctx.true(not calls, "refused", lambda: "%r: ran %r before it failed with %r" % (args, [c[0] for c in calls], code))
    ctx.observe("numbers refused")
    ctx.nontrivial(text)


def listed(ctx, rng):
    args = rng.choice((["-l"], ["--list"]))
    ctx.input("python -m raytracing %s" % args[0])
    code, out, err, calls, commands = run(ctx, args)
    ctx.true(code == 0 and not calls and not commands, "list", lambda: "%r ran %r %r, ended with %r" % (args, calls, commands, code))
    got = [(int(a), b, c) for a, b, c in re.findall(r"^\s*(\d+)\.\s*(\S+)\.py\s(.*)$", out, re.M)]
    want = [(i + 1, name, S.title[name]) for i, name in enumerate(S.names)]
    ctx.true(got == want, "list", lambda: "the list is %r, the examples are %r" % ([g for g in got if g not in want], [w for w in want if w not in got]))
    ctx.true(S.dir in out, "list", lambda: "the directory %s is not in the list" % S.dir)
    ctx.observe("lists")


def classes(ctx, rng):
    """One edge per class and direct subclass, those of the user included"""
    import raytracing as rt
    made = []
    for i in range(rng.randint(0, 3)):
        base = rng.choice([rt.Lens, rt.Matrix, rt.Rays, rt.UniformRays, rt.ImagingPath, rt.Space] + made)
        made.append(type("User%d" % i, (base,), {}))
    want = collections.Counter()
    seen = set()
    stack = [rt.Rays, rt.Matrix]
    while stack:
        c = stack.pop()
        if c in seen:
            continue
        seen.add(c)
        for s in c.__subclasses__():
            want[(c.__name__, s.__name__)] += 1
            stack.append(s)
    args = rng.choice((["-c"], ["--classes"]))
    ctx.input("python -m raytracing %s with %d classes more" % (args[0], len(made)))
    code, out, err, calls, commands = run(ctx, args)
    ctx.true(code == 0 and not calls and not commands, "classes", lambda: "%r ran %r, ended with %r %s" % (args, calls, code, err[-300:]))
    got = collections.Counter(re.findall(r'"(\w+)"\s*->\s*"(\w+)"', out))
    ctx.true(set(got) == set(want), "classes", lambda: "%s: missing %r, unknown %r" % (args[0], sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    ctx.true(out.count("{") == out.count("}") == 2 and out.count("digraph") == 2, "classes", lambda: "not two graphs: %s" % out[:200])
    ctx.observe("hierarchies")
    ctx.observe("subclasses seen", len(want))


def real(ctx, rng):
    """A real example: what runs is the code that was shown, and it shows the figure with its source under it"""
    import matplotlib.pyplot as plt
    import numpy
    name = rng.choice(S.names[:19])
    number = S.names.index(name) + 1
    code = inspect.getsource(S.function[name]).strip()
    ctx.true(code in S.source[name], "source", lambda: "the source shown for %s does not have the code that runs" % name)
    if rng.random() < 0.7:
        ctx.input("source of %s" % name)
        ctx.observe("sources compared")
        return
    ctx.input("python -m raytracing -e %d, for real" % number)
    figures = []

    def show(*a, **k):
        for n in plt.get_fignums():
            f = plt.figure(n)
            figures.append((f, [im.get_array() for ax in f.axes for im in ax.get_images()], sum(len(ax.lines) + len(ax.patches) for ax in f.axes)))
        plt.close("all")
    saved = plt.show
    plt.show = show
    try:
        code, out, err, calls, commands = run(ctx, ["-e", str(number)], stubs=False)
    finally:
        plt.show = saved
        plt.close("all")
    ctx.true(code == 0, "real", lambda: "example %d (%s) ended with %r %s" % (number, name, code, err[-500:]))
    ctx.true("Script '%s.py' - end output" % name in out, "real", lambda: "no end of the output of %s" % name)
    displays = re.search(r"^[^#\n]*\.(display|show)\w*\(", S.source[name], re.M)
    ctx.true((len(figures) > 0 or not displays) and all(f[2] > 0 for f in figures), "real", lambda: "%s showed %d figures, %r artists" % (name, len(figures), [f[2] for f in figures]))
    picture = numpy.asarray(S.draw(name).convert("RGB"))
    with_ = [im for f in figures for im in f[1] if numpy.shape(im)[:2] == picture.shape[:2]]
    if "comments=comments" in S.source[name]:
        ctx.true(any((numpy.asarray(im)[..., :3] == picture).all() for im in with_), "real", lambda: "no figure of %s shows its source" % name)
        ctx.observe("figures with their source")
    ctx.observe("real examples")
