#!/usr/bin/env python3
"""Records in covers.json which situations each entry reached in the last clean
runs (evidence/*.json), as the witnesses later runs must reach again."""
import glob, json, os
h = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(h, "covers.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(h + "/evidence/*.json")):
    d = json.load(open(f))
    if d["violations"]:
        continue
    for e in d["coverage"]["entries"]:
        if e["completed"]:
            c[e["entry"]] = sorted(int(k) for k in e["witnesses"])
json.dump(c, open(p, "w"), indent=0, sort_keys=True)
