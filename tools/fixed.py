"""record all not yet recorded fix: commits of /repo in known_findings.json, as fixed for the given property"""
import json, subprocess, sys

pid = sys.argv[1]
fn = "/verif/known_findings.json"
d = json.load(open(fn))
entries = d["findings"] if "findings" in d else d[[k for k in d if isinstance(d[k], list)][0]]
have = {e.get("commit") for e in entries}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: ") and h not in have and not any(c and (h.startswith(c) or c.startswith(h)) for c in have):
        entries.append({"property": pid, "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (pid, h, s[5:])})
        print(entries[-1]["what"])
json.dump(d, open(fn, "w"), indent=1)
