"""Writes MANIFEST.json from properties.jsonl and the property modules present in pbt/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(V, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "pbt", "props", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 pbt/run.py %s --tier quick" % i,
            "thorough_cmd": "python3 pbt/run.py %s --tier thorough" % i,
            "technique": "property-based testing (Hypothesis): generated inputs/histories against an independent oracle, shrunk replay",
            "level": "exploration",
            "level_note": "Random structured search over bounded sizes, deterministic per seed; never a proof of absence. "
                          "Trusts the oracle in pbt/oracle.py and the reading of objects through the public API."})
    else:
        na.append({"property": i, "reason": "Check not built yet."})
m = {"version": 1, "setup_cmd": "python3 pbt/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Checks are pure functions of /repo's working tree and VERIF_SEED. Replay: python3 pbt/run.py <property> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
