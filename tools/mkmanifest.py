"""Writes MANIFEST.json from properties.jsonl and the groups that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import ast
src = open(os.path.join(V, "lib", "main.py")).read()
GROUPS = [ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "GROUPS"][0]
SPECS = json.load(open(os.path.join(V, "tools", "specs.json")))
PENDING = set(open(os.path.join(V, 'tools', 'pending')).read().split())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    g = [g for g, ids in GROUPS.items() if pid in ids.split()]
    if g and os.path.isfile(os.path.join(V, "checks", g[0] + ".py")) and pid in SPECS and pid not in PENDING:
        checks.append({"property": pid, "quick_cmd": "./run %s quick" % pid, "thorough_cmd": "./run %s thorough" % pid,
                       "technique": "TLA+ specification (%s) checked with TLC; %s" % (SPECS[pid]["spec"], SPECS[pid]["bind"]),
                       "level": "model_checking",
                       "level_note": SPECS[pid]["note"]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python lib/fake_inkscape.py --version && java -version",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks observe the real code through its public interface and external channels only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
