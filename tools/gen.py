"""Writes properties.jsonl, MANIFEST.json, rtmon/plan.json and known_findings.json from one description.

python tools/gen.py            writes the files
python tools/gen.py --rates    first takes the rates of the required counters from /verif/evidence
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from content import PROPERTIES, FINDINGS, FIXED  # noqa: E402

_caught = os.path.join(HERE, "caught.json")
CAUGHT = json.load(open(_caught)) if os.path.exists(_caught) else {}
RATES = os.path.join(HERE, "rates.json")
COMMON = ("Says what held on the executions of this run, no more: the workload is sampled from VERIF_SEED. Trusts numpy, the "
          "floating-point arithmetic of Python and the reference model in rtmon (textbook paraxial optics, independent of the code). ")


def main():
    rates = json.load(open(RATES)) if os.path.exists(RATES) else {}
    if "--rates" in sys.argv:
        for p in PROPERTIES:
            path = os.path.join(VERIF, "evidence", p["id"] + ".json")
            if os.path.exists(path):
                c = json.load(open(path))["coverage"]
                rates[p["id"]] = {k: round(100.0 * c["observed"].get(k, 0) / c["evaluations"], 2) for k in p["required"]}
        with open(RATES, "w") as f:
            json.dump(rates, f, indent=1, sort_keys=True)
            f.write("\n")
    plan, checks, na = {}, [], []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["forall"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    for p in PROPERTIES:
        i = p["id"]
        for name in p["required"]:
            assert rates.get(i, {}).get(name, 1) > 0, (i, name)
        plan[i] = {"cases": {"quick": p["cases"][0], "thorough": p["cases"][1]}, "rule": p["rule"],
                   "required": {k: round(0.6 * v, 3) for k, v in rates.get(i, {}).items() if k in p["required"]},
                   "assumptions": p.get("assumptions", []) + ["the generated inputs are representative of use; see DESIGN.md for their ranges"]}
        cmd = "/opt/venv/bin/python rtmon/run.py %s" % i
        checks.append({"property": i, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "technique": p["technique"], "level": "exploration",
                       "level_note": COMMON + p.get("note", "")})
    with open(os.path.join(HERE, "..", "rtmon", "plan.json"), "w") as f:
        json.dump(plan, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "No hooks: every monitor observes the public API, the file system or the drawing commands from outside; "
                            "/repo has only fix: commits. Pure Python: the checks import /repo's working tree, nothing is built."},
                  f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(x, ensure_ascii=False) for x in FINDINGS + FIXED) + "\n]\n")
    design = open(os.path.join(HERE, "design.in.md")).read()
    text = "\n".join("### %s %s\n\n%s\n\n* Workload: %s\n* Observed: %s.\n* Deciding method: %s; %d quick, %d thorough cases; must have been observed: %s.\n* Why the tests cannot settle it: %s%s\n" % (
        p["id"], p["title"], p["statement"], p["rule"], "; ".join(p["observe"]), p["technique"], p["cases"][0], p["cases"][1], ", ".join(p["required"]), p["why"],
        "\n* Limits: " + p["note"] if p["note"] else "") for p in PROPERTIES)
    known = "Known findings (not repaired; the checks print KNOWN-FINDING):\n\n" + "\n".join("* %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in FINDINGS)
    known += "\n\nRepaired, one `fix:` commit each:\n\n" + "\n".join("* %s" % x["what"] for x in FIXED)
    seeded = []
    folder = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
        m = json.load(open(os.path.join(folder, name, "meta.json")))
        seeded.append("| %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"].replace("|", "/"), CAUGHT.get(name, "?")))
    notes = open(os.path.join(HERE, "notes.md")).read().replace("@@SEEDED@@", "| change | property | what it breaks | reported by |\n|---|---|---|---|\n" + "\n".join(seeded))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(design.replace("@@PROPERTIES@@", "\n" + text).replace("@@FINDINGS@@", known).replace("@@NOTES@@", notes))
    ids = set(p["id"] for p in PROPERTIES)
    assert all(x["property"] in ids for x in FINDINGS + FIXED), [x for x in FINDINGS + FIXED if x["property"] not in ids]


main()
