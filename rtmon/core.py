"""Core of the runtime-monitoring framework: cases, oracles' verdicts, shards, evidence.

A check module (rtmon/checks/cNN.py) declares what it explores:

    ID        the property
    CASES     {'quick': n, 'thorough': m}    number of generated executions
    RULE      how cases are made and what makes one non-trivial
    REQUIRED  {counter: minimum per 100 cases}    what the monitors must have observed
    case(ctx) runs ONE execution of the real code, deterministic in (seed, property, index)
    known(ctx) (optional) deterministic probes of the known findings

Monitors report with ctx.fail(key, message); the key names the mechanism, and is what
known_findings.json lists.
"""
import collections
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTMON_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """The case cannot go on after a reported violation."""


class Skip(Exception):
    """The generated input is outside of the domain of the property (counted)."""


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.failures = []
        self.index = None
        self.describe = None
        self.listed = {}     # known findings: only the first of each is kept

    # -- life of a case -------------------------------------------------
    def start(self, index):
        self.index = index
        self.describe = None
        self.caseFailures = 0
        self.wasNontrivial = False
        self.rng = random.Random("%s:%s:%s" % (self.seed, self.prop, index))
        try:
            import numpy
            numpy.random.seed(self.rng.randrange(2 ** 32))
        except ImportError:
            pass

    def input(self, description):
        """What this case runs, written out (in replays and samples)."""
        self.describe = description

    # -- what the monitors observe --------------------------------------
    def observe(self, name, n=1):
        self.counts[name] += n

    def nontrivial(self, signature):
        """This case was non-trivial; distinct signatures are counted (one per case)."""
        if self.wasNontrivial:
            return
        self.wasNontrivial = True
        self.sigs.add(hashlib.md5(repr(signature).encode()).hexdigest()[:16])
        if len(self.samples) < 3 and self.describe is not None:
            self.samples.append({"index": self.index, "case": short(self.describe, 600)})

    # -- verdicts --------------------------------------------------------
    def fail(self, key, message):
        if key in self.listed:
            self.counts["known findings seen"] += 1
            self.listed[key] += 1
            if self.listed[key] > 1:
                return
        else:
            self.caseFailures += 1
        self.failures.append({"property": self.prop, "key": key, "message": short(message, 2000),
                              "index": self.index, "seed": self.seed, "tier": self.tier,
                              "input": short(self.describe, 4000) if self.describe is not None else None})
        if self.caseFailures > 5:
            raise StopCase()

    def true(self, cond, key, message):
        self.counts["oracle checks"] += 1
        if not cond:
            self.fail(key, message() if callable(message) else message)
        return bool(cond)

    def close(self, got, want, key, what, rel=1e-9, scale=0.0, abs_=1e-12):
        """got is want, up to rounding errors; scale: magnitude of the terms that were summed."""
        self.counts["oracle checks"] += 1
        ok = isclose(got, want, rel, scale, abs_)
        if not ok:
            self.fail(key, "%s: got %r, expected %r" % (what, got, want))
        return ok

    def raises(self, exceptions, func, key, what):
        """func() must be rejected with one of the exceptions."""
        self.counts["oracle checks"] += 1
        try:
            r = func()
        except exceptions:
            self.counts["rejections"] += 1
            return True
        except Exception as err:
            self.fail(key, "%s: raised %s(%s)" % (what, type(err).__name__, err))
            return False
        self.fail(key, "%s: accepted (returned %s)" % (what, short(r, 200)))
        return False


def isclose(got, want, rel=1e-9, scale=0.0, abs_=1e-12):
    if want is None or got is None:
        return want is None and got is None
    try:
        if isinstance(want, complex) or isinstance(got, complex):
            got, want = complex(got), complex(want)
            if got != got or want != want:
                return (got != got) and (want != want)
            if abs(want) == math.inf or abs(got) == math.inf:
                return abs(got) == abs(want)
        else:
            got, want = float(got), float(want)
            if math.isnan(want) or math.isnan(got):
                return math.isnan(want) and math.isnan(got)
            if math.isinf(want) or math.isinf(got):
                return got == want
    except (TypeError, ValueError):
        return False
    return abs(got - want) <= abs_ + rel * max(abs(want), abs(got), scale)


# ------------------------------------------------------------------------
def guarded(ctx, step, cpu=60.0, wall=240.0):
    """Run this step (a case, or what is done once): what it does not expect to be raised is a failure,
    as is no end after this many seconds"""
    def onCpu(signum, frame):
        raise CaseTimeout("no result after %g s of CPU" % cpu)

    def onWall(signum, frame):
        raise CaseTimeout("no result after %g s" % wall)

    signal.signal(signal.SIGPROF, onCpu)
    signal.signal(signal.SIGALRM, onWall)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        step(ctx)
    except Skip as err:
        ctx.counts["skipped: %s" % err] += 1
    except StopCase:
        pass
    except CaseTimeout as err:
        try:
            ctx.fail("no-termination", str(err))
        except StopCase:
            pass
    except (Exception, SystemExit) as err:
        tb = traceback.extract_tb(err.__traceback__)
        inRepo = [f for f in tb if os.sep + "raytracing" + os.sep in f.filename]
        key = "exception:%s" % type(err).__name__
        where = inRepo[-1] if inRepo else tb[-1]
        try:
            ctx.fail(key, "unexpected %s: %s (%s, %s)\n%s" % (
                type(err).__name__, err, os.path.basename(where.filename), where.name,
                "".join(traceback.format_list(tb[-6:]))))
        except StopCase:
            pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def runCases(module, ctx, indices):
    cpu, wall = getattr(module, "CASE_CPU", 60.0), getattr(module, "CASE_WALL", 240.0)
    for i in indices:
        ctx.start(i)
        guarded(ctx, module.case, cpu, wall)
        ctx.counts["cases"] += 1
        if len([f for f in ctx.failures if f["key"] not in ctx.listed]) >= 25:
            break
