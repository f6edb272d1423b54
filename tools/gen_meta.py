#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().split("\n") if " hook: " in l]
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted(props.PROPS.items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=["results, errors, messages and simulated time as seen by the parties"],
                                             hook_needed=p.get("hook")))) + "\n")
m = dict(version=1, setup_cmd="python3 tools/build.py",
         hooks=dict(guard="SPU_SIM", enable="tools/build.py compiles /repo's sources with -DSPU_SIM=1", source_commits=HOOKS),
         checks=[], not_applicable=[],
         notes="All checks: one simulator (sim/), one harness (harness/), driver tools/check.py. Replay: python3 tools/check.py --replay FILE. Known findings and fixes: known_findings.json.")
for pid, p in sorted(props.PROPS.items()):
    if p.get("na"):
        m["not_applicable"].append(dict(property=pid, reason=p["na"]))
        continue
    m["checks"].append(dict(property=pid, quick_cmd="python3 tools/check.py " + pid, thorough_cmd="python3 tools/check.py %s --tier thorough" % pid,
                            technique="deterministic simulation with fault injection: seeded search over schedules, faults and programs", level=p.get("level", "exploration"),
                            level_note=p.get("level_note") or ("Seeded sampling of simulated executions of the real code. " + p["design"] + " Assumes: " + " ".join(p.get("assumptions", []) + props.ASSUME))))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


# DESIGN.md: the generated sections
def section(text, name, body):
    a, b = "<!-- gen:%s -->" % name, "<!-- /gen -->"
    i = text.index(a) + len(a)
    j = text.index(b, i)
    return text[:i] + "\n" + body.rstrip() + "\n" + text[j:]


d = open(V + "/DESIGN.md").read()
out = []
for pid, p in sorted(props.PROPS.items()):
    out.append("### %s %s\n\n%s\n" % (pid, p["title"], p["statement"]))
    if p.get("na"):
        out.append("Not applicable: %s\n" % p["na"])
        continue
    out.append("*Ranges over:* %s\n\n*Why tests cannot:* %s\n\n*Runs:* %s\n\n*Decided by:* %s\n" % (p["text"], p["why"], p["rule"], p["design"]))
    if p.get("assumptions"):
        out.append("*Assumes:* %s\n" % " ".join(p["assumptions"]))
    out.append("*Quick check:* %s cases.\n" % ", ".join("%s %d" % kv for kv in p["scenarios"].items()))
d = section(d, "properties", "\n".join(out))
kf = json.load(open(V + "/known_findings.json"))
d = section(d, "findings", "Known findings:\n\n" + "\n".join("* %s, %s: %s" % (k["property"], k["scenario"].strip("^$"), k["what"]) for k in kf["known"]) +
            "\n\nRepaired:\n\n" + "\n".join("* " + f[len("fixed: property="):] for f in kf["fixed"]))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    one = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], one(m["needs"]), one(m["what_it_breaks"]), props.CAUGHT.get(n, m["property"])))
d = section(d, "seeded", "\n".join(rows) + "\n\n" + props.CAMPAIGN)
open(V + "/DESIGN.md", "w").write(d)
