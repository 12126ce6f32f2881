"""python run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--cases N]"""
import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from rtmon import core, env  # noqa: E402

PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def knownFindings():
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        return json.load(f)


def loadCheck(prop):
    return importlib.import_module("rtmon.checks." + prop.lower())


# ----------------------------------------------------------------- worker
def worker(a):
    sys.path.insert(0, core.REPO)
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    import warnings
    module = loadCheck(a.id)
    import raytracing
    assert os.path.dirname(os.path.dirname(os.path.abspath(raytracing.__file__))) == os.path.abspath(core.REPO), raytracing.__file__
    warnings.simplefilter("ignore")
    ctx = core.Ctx(a.id, a.tier, a.seed, a.scratch)
    ctx.listed = {f["key"]: 0 for f in knownFindings() if f["property"] == a.id and f.get("status") != "fixed"}
    if hasattr(module, "setup"):
        ctx.start("setup")
        core.guarded(ctx, module.setup)
    t0 = time.time()
    if a.replay:
        indices = [int(a.replay)] if a.replay.isdigit() else []
    else:
        indices = range(a.shard, a.cases, a.shards)
    core.runCases(module, ctx, indices)
    known = []
    if hasattr(module, "known") and (a.shard == 0 or a.replay == "known"):
        n = len(ctx.failures)
        ctx.start("known")
        core.guarded(ctx, module.known)
        known = ctx.failures[n:]
        ctx.failures = ctx.failures[:n]
    if hasattr(module, "finish"):
        ctx.start("finish")
        core.guarded(ctx, module.finish)
    out = {"counts": ctx.counts, "sigs": sorted(ctx.sigs), "samples": ctx.samples,
           "failures": ctx.failures, "known": known, "wall": time.time() - t0}
    with open(a.out, "w") as f:
        json.dump(out, f)
    os.dup2(real, 1)


# ----------------------------------------------------------------- parent
def main():
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--cases", type=int)
    p.add_argument("--replay")
    p.add_argument("--no-evidence", action="store_true")
    p.add_argument("--shard", type=int)
    p.add_argument("--shards", type=int)
    p.add_argument("--out")
    p.add_argument("--scratch")
    a = p.parse_args()
    if a.shard is not None:
        return worker(a)

    t0 = time.time()
    sys.path.insert(0, core.REPO)
    meta = json.load(open(os.path.join(HERE, "plan.json")))[a.id]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    replay = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.seed, a.tier, replay = r["seed"], r["tier"], str(r["index"])
        a.jobs = 1
    cases = a.cases if a.cases is not None else meta["cases"][a.tier]
    jobs = max(1, min(a.jobs, cases)) if cases else 1
    budget = 840 if a.tier == "quick" else 6 * 3600

    scratch = tempfile.mkdtemp(prefix="rtmon-%s-" % a.id)
    os.chmod(scratch, 0o755)
    try:
        procs = []
        for k in range(jobs):
            sub = os.path.join(scratch, "w%d" % k)
            os.makedirs(sub)
            out = os.path.join(sub, "out.json")
            cmd = [PYTHON, os.path.abspath(__file__), a.id, "--tier", a.tier, "--seed", str(a.seed),
                   "--shard", str(k), "--shards", str(jobs), "--cases", str(cases), "--out", out, "--scratch", sub]
            if replay is not None:
                cmd += ["--replay", replay]
            log = open(os.path.join(sub, "err.txt"), "w")
            procs.append((subprocess.Popen(cmd, env=env.prepare(sub), cwd=sub, stdin=subprocess.DEVNULL,
                                           stderr=log, start_new_session=True), out, sub))
        problems = []
        for proc, out, sub in procs:
            try:
                proc.wait(timeout=max(1, budget - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                problems.append("worker out of time")
            try:
                os.killpg(proc.pid, 9)
            except OSError:
                pass
            proc.wait()
        counts, sigs, samples, failures, known = collections.Counter(), set(), [], [], []
        for proc, out, sub in procs:
            if not os.path.exists(out):
                err = open(os.path.join(sub, "err.txt")).read()[-3000:]
                problems.append("worker ended with %s: %s" % (proc.returncode, err))
                continue
            r = json.load(open(out))
            counts.update(r["counts"])
            sigs.update(r["sigs"])
            samples += r["samples"]
            failures += r["failures"]
            known += r["known"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # Known findings: identified by their mechanism
    listed = {f["key"]: f for f in knownFindings() if f["property"] == a.id and f.get("status") != "fixed"}
    shown = set()
    violations = []
    for f in known + failures:
        if f["key"] in listed:
            if f["key"] not in shown:
                shown.add(f["key"])
                print("KNOWN-FINDING: property=%s %s" % (a.id, listed[f["key"]]["what"]))
        else:
            violations.append(f)
    violations.sort(key=lambda f: (str(f["key"]), str(f["index"])))

    byKey = collections.OrderedDict()
    for f in violations:
        byKey.setdefault(f["key"], f)
    for key, f in list(byKey.items())[:10]:
        folder = os.path.join(core.VERIF, "replays")
        os.makedirs(folder, exist_ok=True)
        safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:60]
        path = os.path.join(folder, "%s-%s-s%s-%s.json" % (a.id, safe, f["seed"], f["index"]))
        with open(path, "w") as out:
            json.dump(f, out, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        print("   [%s] case %s: %s" % (key, f["index"], f["message"][:800]))
        if f["input"]:
            print("   input: %s" % f["input"][:800])

    n = counts["cases"]
    missing = []
    if not replay and not violations:
        for name, minimum in meta.get("required", {}).items():
            if counts[name] * 100.0 < minimum * max(cases, 1) * 0.5:
                missing.append("%s: %d observed" % (name, counts[name]))
        if n < cases:
            missing.append("%d of %d cases" % (n, cases))

    if not a.no_evidence and not replay:
        folder = os.path.join(core.VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        evidence = {"property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
                    "coverage": {"evaluations": n, "distinct_nontrivial": len(sigs),
                                 "rule": meta["rule"],
                                 "samples": (samples or [{"case": "none"}])[:4],
                                 "observed": {k: v for k, v in sorted(counts.items()) if k != "cases"},
                                 "known_findings_reproduced": sorted(shown),
                                 "workers": jobs},
                    "assumptions": meta.get("assumptions", []),
                    "wall_s": round(time.time() - t0, 2),
                    "violations": len(violations)}
        with open(os.path.join(folder, a.id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %d violations, %.1f s" % (
        a.id, a.tier, a.seed, n, len(sigs), counts["oracle checks"], len(violations), time.time() - t0))
    if violations:
        return 1
    if problems or missing:
        print("INCONCLUSIVE: " + "; ".join(problems + missing))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
