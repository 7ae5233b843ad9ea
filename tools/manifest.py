"""writes /verif/MANIFEST.json: a check for every property that has props/<ID>.py or concrete/<ID>.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "concrete", i + ".py")) and i in NOTE:
        n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": n["technique"], "level": n["level"], "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTE.get("-" + i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
