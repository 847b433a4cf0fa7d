"""dev: run every sub of a property separately, print a summary. usage: subs.py C07 [--scale F] [--seed N]"""
import subprocess, sys, concurrent.futures, os
sys.path.insert(0, "/verif/vendor"); sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
import importlib
pid = sys.argv[1]
m = importlib.import_module("props." + pid)
def run(s):
    p = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", pid, "--only", s.name, "--workers", "1", "-v"] + sys.argv[2:], capture_output=True, text=True, cwd="/verif")
    return s.name, p.returncode, p.stdout + p.stderr
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for name, rc, out in ex.map(run, m.SUBS):
        lines = out.strip().splitlines()
        print("=====", name, rc, [l for l in lines if " cases, " in l])
        if rc:
            i = [k for k, l in enumerate(lines) if l.startswith("case (")]
            print("\n".join(lines[max(0, (i[0] if i else len(lines)) - 14):]))
