"""Writes MANIFEST.json from the table below (a check is claimed when checks/<id>.py exists)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in sorted(props):
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in T:
        t = T[p]; c = "python3 checks/%s.py" % p.lower()
        checks.append(dict(property=p, quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c, technique=t["technique"], level=t["level"], level_note=t["note"]))
    else: na.append(dict(property=p, reason=T.get(p, {}).get("reason", "no check yet")))
json.dump(dict(version=1, setup_cmd="true", hooks=dict(guard="VERIF_TRACE", enable="-DVERIF_TRACE added to NODEBUG (lib/vlib.py variants fotrace, hotrace)", source_commits=hooks), checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
