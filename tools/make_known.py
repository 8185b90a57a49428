"""Rewrites the "fixed" list of known_findings.json from tools/fixed_commits.txt (lines: <commit> <property[,property]>) and /repo's log."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
k = json.load(open(P)) if os.path.exists(P) else {"findings": []}
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()]
props = dict(l.split() for l in open(os.path.join(V, "tools", "fixed_commits.txt")) if l.strip())
k["fixed"] = []
for h, s in log:
    if not s.startswith("fix: "): continue
    if h not in props: print("no property for", h, s); continue
    k["fixed"] += ["fixed: property=%s %s %s" % (p, h, s[5:]) for p in props.pop(h).split(",")]
if props: print("unknown commits", props)
json.dump(k, open(P, "w"), indent=1)
print(len(k["fixed"]))
