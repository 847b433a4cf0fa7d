"""
Dev tool for planted bugs. Usage: seed.py verify ID [--tests "test_a test_b"|all] [--nocheck]
 - makes a scratch worktree of /repo HEAD, applies the patch, runs demo on both, tests, and the check of the property.
From Python: make(ID, prop, edits=[(file, old, new)], demo=..., needs=..., breaks=...)
"""
import json, os, subprocess, sys, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + "/seeded"
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", TF_USE_LEGACY_KERAS="1",
           CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", HF_HUB_OFFLINE="1", OMP_NUM_THREADS="2")

DEMO_SH = '''#!/bin/bash
# run with cwd = repository root
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
export PATH=/opt/venv/bin:$PATH TMPDIR=$S HOME=$S RETURNN_CACHE_DIR=$S/cache USER=demo PYTHONDONTWRITEBYTECODE=1 \\
  TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 OMP_NUM_THREADS=2 PYTHONPATH="$PWD"
timeout 280 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def make(id_, prop, edits, demo, needs, breaks):
    d = SEEDED + "/" + id_
    wt = tempfile.mkdtemp(prefix="wt-")
    os.rmdir(wt)
    assert sh("git -C /repo worktree add --detach %s HEAD" % wt).returncode == 0
    try:
        for fn, old, new in edits:
            s = open(wt + "/" + fn).read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(wt + "/" + fn, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % wt).stdout
        assert diff.strip()
        # only original lines may be changed
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        sh("git -C /repo worktree remove --force %s" % wt)


def verify(id_, tests=None, check=True):
    d = SEEDED + "/" + id_
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="wt-")
    os.rmdir(wt)
    assert sh("git -C /repo worktree add --detach %s HEAD" % wt).returncode == 0
    ok = True
    try:
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        if r.returncode != 0:
            print(id_, "DEMO FAILS ON UNCHANGED:", r.stdout[-1500:])
            ok = False
        r = sh("git apply %s/patch.diff" % d, cwd=wt)
        assert r.returncode == 0, r.stdout
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        if r.returncode == 0:
            print(id_, "DEMO PASSES WITH PATCH")
            ok = False
        else:
            print(id_, "demo with patch:", r.stdout.strip().splitlines()[-1:])
        if tests:
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            procs = []
            for t in tests:
                cache = tempfile.mkdtemp(prefix="seedtest-")
                procs.append((t, cache, subprocess.Popen(
                    "HOME=%s TMPDIR=%s RETURNN_CACHE_DIR=%s/cache timeout 780 python -m pytest -q -p no:cacheprovider --timeout=600 tests/%s.py -rf 2>&1 | grep -E '^FAILED|passed|failed'" % (cache, cache, cache, t),
                    shell=True, cwd=wt, stdout=subprocess.PIPE, text=True, env=ENV)))
            for t, cache, p in procs:
                out = p.communicate()[0]
                shutil.rmtree(cache, ignore_errors=True)
                failed = [l.split()[1] for l in out.splitlines() if l.startswith("FAILED")]
                bad = []
                for f in failed:
                    fn, _, name = f.partition("::")
                    key = fn.replace("/", ".").replace(".py", "") + "::" + name.split(" ")[0]
                    if key in stable or any(key in s for s in stable):
                        bad.append(key)
                print(id_, t, out.strip().splitlines()[-1:], "STABLE FAILED: %s" % bad if bad else "")
                ok = ok and not bad
        if check:
            e = dict(ENV, VERIF_REPO=wt, VERIF_SEED="1")
            r = subprocess.run(["python3", VERIF + "/run.py", prop, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(id_, "CHECK", "caught" if r.returncode == 1 and lines else "MISSED rc=%i %s" % (r.returncode, r.stdout[-600:]))
            if lines:
                rp = lines[0].split("replay=")[1]
                print("   ", json.load(open(rp))["sub"], json.load(open(rp))["msg"][:200].replace("\n", " "))
                os.unlink(rp)
    finally:
        sh("git -C /repo worktree remove --force %s" % wt)
    print(id_, "OK" if ok else "NOT OK")
    return ok


if __name__ == "__main__":
    assert sys.argv[1] == "verify"
    tests = None
    if "--tests" in sys.argv:
        tests = sys.argv[sys.argv.index("--tests") + 1].split()
    verify(sys.argv[2], tests, check="--nocheck" not in sys.argv)
