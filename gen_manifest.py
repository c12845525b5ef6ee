#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the scenario registry and the notes below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vp import core
import check
check.load()
NOTES = json.load(open(os.path.join(V, "level_notes.json")))
TRUST = " Assumes the observation layer (LD_PRELOAD clocks and fault injection, fake $SHELL, fake token servers) reports truthfully; holds for the executions explored, nothing more."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if not core.CHECKS.get(i) or i not in NOTES:
        continue
    t, n = NOTES[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": t, "level": "exploration", "level_note": n + TRUST})
m = {"version": 1, "setup_cmd": "python3 -m vp.build",
     "hooks": {"guard": "--cfg vp_hooks", "enable": "cargo rustc --bin pizauth -- --cfg vp_hooks (done by vp/build.py)",
               "source_commits": ["577cd0801f8c1a19a1a5d9fbcb8e80c6e4a3f1c2"]},
     "checks": checks, "not_applicable": [],
     "notes": "Every check runs the real server binary built from /repo's working tree in scratch directories under /tmp, with virtual clocks; see DESIGN.md. python3 check.py <id> --replay <file> re-runs one recorded violation."}
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m["hooks"]["source_commits"] = [l.split()[0] for l in h if "sched_point" in l] or json.load(open(V + "/MANIFEST.json"))["hooks"]["source_commits"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [p["id"] for p in props if p["id"] not in {c["property"] for c in checks}], "unclaimed")

# the table of scenarios in DESIGN.md
rows = ["| scenario | decides | what happens |", "|---|---|---|"]
for n, s in sorted(core.SCN.items()):
    d = " ".join((s.fn.__doc__ or "").split())
    rows.append("| %s%s | %s | %s |" % (n[4:], " (racy)" if s.racy else "", " ".join(sorted(s.props)), d.replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- scenarios -->\n", "<!-- end of scenarios -->"
if a in t:
    t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
    open(p, "w").write(t)
