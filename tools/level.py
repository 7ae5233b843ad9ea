"""python3 tools/level.py ID level technique note: set one entry of levels.json"""
import json, sys
f = __file__.rsplit("/", 1)[0] + "/levels.json"
d = json.load(open(f))
i, lv, t, n = sys.argv[1:5]
d[i] = {"level": lv, "technique": t, "note": n}
json.dump(d, open(f, "w"), indent=0)
