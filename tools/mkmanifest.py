"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p in plan.PLAN:
        t, n = plan.NOTES.get(p, plan.NOTES["*"])
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the harness is added, and the clock replaced, by a go build -overlay made from /repo's working tree", "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": p, "reason": plan.NOT_APPLICABLE.get(p, "not built yet")} for p in props if p not in plan.PLAN]},
          open(V + "/MANIFEST.json", "w"), indent=1)
