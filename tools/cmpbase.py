import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))
o = json.load(open(sys.argv[1]))
bl = next(v for v in b.values() if isinstance(v, list))
print("baseline", len(bl), "now not passing:", sorted(set(bl) - set(o["passed"])))
