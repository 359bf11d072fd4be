"""Rewrites /verif/MANIFEST.json and properties.jsonl from tools/props.py and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
from tools.props import PROPS, NOT_BUILT
out = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks: the monitors observe public calls, files and stand-ins of "
                 "missing libraries from outside; nothing in /repo is guarded", "source_commits": []},
       "checks": [], "not_applicable": []}
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
for p in PROPS:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": NOT_BUILT.get(p["id"], "check not built yet")})
        continue
    out["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
                          "thorough_cmd": "bash run.sh %s thorough" % p["id"], "technique": c["technique"],
                          "level": registry.LEVEL, "level_note": c["note"]})
assert set(registry.CHECKS) <= set(ids), set(registry.CHECKS) - set(ids)
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "unclaimed")
