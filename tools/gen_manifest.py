"""writes MANIFEST.json from the registry"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sim.registry import PROPS, NOT_APPLICABLE, HOOKS
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [
    {"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]}
if HOOKS:
    m["hooks"] = HOOKS
for p, s in sorted(PROPS.items()):
    m["checks"].append({
        "property": p,
        "quick_cmd": f"./check {p} --tier quick",
        "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": s["technique"],
        "level": "exploration",
        "level_note": s["level_note"],
    })
ids = {json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))}
for p in sorted(ids - set(PROPS) - set(NOT_APPLICABLE)):
    m["not_applicable"].append({"property": p, "reason": "its world is not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
got = set(PROPS) | set(NOT_APPLICABLE)
print("missing", sorted(ids - got), "extra", sorted(got - ids))
