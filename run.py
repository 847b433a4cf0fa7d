#!/opt/venv/bin/python
"""
run.py <ID> [--tier quick|thorough] [--replay FILE] [--workers N] [--only SUB] [--scale F]

Runs the check of one property against the code in /repo (working tree as it is).
Exit 0: held on everything explored. Exit 1 + "VIOLATION property=<id> replay=<path>": broken. Other: harness error.
"""

from __future__ import annotations
import argparse
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    pid = args.property
    start = time.time()
    meta = _load_meta(pid)
    num_workers = args.workers or meta.get("workers", 8)
    quick = args.tier == "quick"
    soft = meta.get("soft_quick", 330) if quick else meta.get("soft_thorough", 3000)
    hard = 820 if quick else soft + 1200
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        code = _run(args, pid, meta, num_workers, soft, hard, scratch, start)
    finally:
        if not args.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _load_meta(pid):
    sys.path.insert(0, VERIF)
    from specs import SPECS

    if pid not in SPECS:
        return {}
    s = SPECS[pid]
    return dict(s["run"], rule=s["rule"], assumptions=s["assumptions"])


def _env(scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d + "/tmp", exist_ok=True)
    os.makedirs(d + "/home", exist_ok=True)
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "HOME": d + "/home",
        "USER": "vf",
        "TMPDIR": d + "/tmp",
        "RETURNN_CACHE_DIR": scratch + "/cache",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONNOUSERSITE": "1",
        "PYTHONFAULTHANDLER": "1",
        "CUDA_VISIBLE_DEVICES": "",
        "TF_USE_LEGACY_KERAS": "1",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "TF_NUM_INTRAOP_THREADS": "1",
        "TF_NUM_INTEROP_THREADS": "1",
        "HF_HUB_OFFLINE": "1",
        "TRANSFORMERS_OFFLINE": "1",
        "VERIF_SCRATCH": d + "/tmp",
        "VERIF_REPO": os.environ.get("VERIF_REPO", "/repo"),
        "HYPOTHESIS_STORAGE_DIRECTORY": d + "/hyp",
    }
    return env, d


def _spawn(scratch, name, req):
    env, d = _env(scratch, name)
    env.update(req.get("env") or {})
    req_fn, out_fn = d + "/req.json", d + "/out.json"
    with open(req_fn, "w") as f:
        json.dump(req, f)
    log = open(d + "/log", "wb")
    proc = subprocess.Popen(
        [PY, os.path.join(VERIF, "vlib", "worker.py"), req_fn, out_fn],
        stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=d + "/tmp", start_new_session=True,
    )  # fmt: skip
    return {"proc": proc, "out": out_fn, "log": d + "/log", "name": name}


def _kill(w):
    try:
        os.killpg(w["proc"].pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        w["proc"].wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def _wait(workers, hard_end, on_result):
    """wait for all; stops early when on_result returns True"""
    pending = list(workers)
    while pending and time.time() < hard_end:
        for w in list(pending):
            rc = w["proc"].poll()
            if rc is None:
                continue
            pending.remove(w)
            res = json.load(open(w["out"])) if os.path.exists(w["out"]) else None
            w["res"], w["rc"] = res, rc
            _kill(w)  # anything left of its process group
            if on_result(w):
                for w2 in pending:
                    _kill(w2)
                return
        time.sleep(0.05)
    for w in pending:
        w["timeout"] = True
        _kill(w)


def _tail(fn, n=4000):
    try:
        with open(fn, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf8", "replace")
    except OSError:
        return ""


def _run(args, pid, meta, num_workers, soft, hard, scratch, start):
    hard_end = start + hard
    # Compile the native frontend code once for all workers, from the current working tree.
    if meta.get("prebuild"):
        env, d = _env(scratch, "prebuild")
        with open(d + "/log", "wb") as log:
            subprocess.run(
                [PY, "-c", meta["prebuild"]], env=dict(env, PYTHONPATH=env["VERIF_REPO"]), cwd=d + "/tmp",
                stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=600,
            )  # fmt: skip
    base_req = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "env": meta.get("env"),
        "shrink_time": 40 if args.tier == "quick" else 180,
        "soft_deadline": soft,
        "only": args.only,
        "scale": args.scale,
    }
    if args.replay:
        item = json.load(open(args.replay))
        w = _spawn(scratch, "replay", dict(base_req, mode="replay", case=item))
        _wait([w], hard_end, lambda _: False)
        res = w.get("res")
        if res and res.get("failure") and res["failure"]["kind"] == "violation":
            print(res["failure"]["error"])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(args.replay)))
            return 1
        if res and res["ok"] and not res.get("failure"):
            print("replay: property %s holds on this case" % pid)
            return 0
        print("replay: harness error:", (res or {}).get("harness") or (res or {}).get("failure") or _tail(w["log"]))
        return 2

    corpus = []
    for fn in sorted(glob.glob(os.path.join(VERIF, "corpus", pid, "*.json"))):
        item = json.load(open(fn))
        corpus += item if isinstance(item, list) else [item]
    workers = []
    for i in range(num_workers):
        req = dict(
            base_req, mode="generate", index=i, num_workers=num_workers, corpus=corpus[i::num_workers] if not args.only else []
        )
        workers.append(_spawn(scratch, "w%i" % i, req))

    failures = []

    def on_result(w_):
        f = (w_["res"] or {}).get("failure")
        if f and f["kind"] == "violation":
            failures.append(f)
            return True
        return False

    _wait(workers, hard_end, on_result)

    problems = []
    for w in workers:
        res = w.get("res")
        if res is None and not failures:
            problems.append("worker %s: %s, rc %s\n%s" % (
                w["name"], "timeout" if w.get("timeout") else "no result", w.get("rc"), _tail(w["log"])))  # fmt: skip
        elif res and res.get("harness") is not None:
            problems.append("worker %s: error\n%s" % (w["name"], res["harness"]))
        elif res and res.get("failure") and res["failure"]["kind"] != "violation":
            problems.append("worker %s: harness error in case %s\n%s" % (
                w["name"], json.dumps(res["failure"]["case"])[:1500], res["failure"]["error"]))  # fmt: skip

    known = _known_findings(pid)
    code = 0
    violation_line = None
    if failures:
        f = failures[0]
        item = {"property": pid, "sub": f["sub"], "case": f["case"], "msg": f["msg"], "error": f["error"]}
        key = hashlib.sha1(json.dumps([f["sub"], f["case"]], sort_keys=True).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, f["sub"], key))
        with open(path, "w") as fh:
            json.dump(item, fh, indent=1)
        w = _spawn(scratch, "confirm", dict(base_req, mode="replay", case=item))
        _wait([w], time.time() + 120, lambda _: False)
        cf = (w.get("res") or {}).get("failure")
        fresh = bool(cf and cf["kind"] == "violation")
        inproc = f.get("confirmed_in_process", 1)
        print(f["error"])
        print("case (%s): %s" % (f["sub"], json.dumps(f["case"])[:3000]))
        if fresh or inproc:
            violation_line = "VIOLATION property=%s replay=%s" % (pid, path)
            if not fresh:
                print("note: reproduced in the same process, not by the case alone in a fresh one"
                      " (depends on the state left by earlier cases)")  # fmt: skip
            code = 1
        else:
            print("failure did not reproduce; inconclusive")
            code = 3
    elif problems:
        code = 2
    for p in problems:
        print(p)

    # evidence
    stats = [w["res"]["stats"] for w in workers if w.get("res") and w["res"].get("stats")]
    labels, per_sub, samples, keys, times = {}, {}, {}, set(), {}
    evaluations = skipped = 0
    for s in stats:
        evaluations += s["evaluations"]
        skipped += s["skipped_by_deadline"]
        keys.update(s["nontrivial_keys"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["per_sub"].items():
            per_sub[k] = per_sub.get(k, 0) + v
        for k, v in s["times"].items():
            times[k] = round(times.get(k, 0) + v, 1)
        for k, v in s["samples"].items():
            samples.setdefault(k, [])
            if len(samples[k]) < 2:
                samples[k] += v[: 2 - len(samples[k])]
    wall = time.time() - start
    ev = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": meta.get("rule", ""),
            "samples": [{"check": k, "case": c} for k in sorted(samples) for c in samples[k]],
            "cases_per_check": per_sub,
            "case_classes": dict(sorted(labels.items())),
            "corpus_cases": len(corpus),
            "skipped_by_deadline": skipped,
            "workers": num_workers,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if args.v:
        print("times:", times, "max worker wall:", max([w["res"].get("wall", 0) for w in workers if w.get("res")] or [0]))
        print(json.dumps(ev["coverage"]["case_classes"], indent=1))
    print("%s %s seed=%i: %i cases, %i distinct non-trivial, %s, %.1fs, %s" % (
        pid, args.tier, args.seed, evaluations, len(keys), per_sub, wall,
        "skipped by deadline: %i" % skipped if skipped else "complete"))  # fmt: skip
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation_line:
        print(violation_line)
    return code


def _known_findings(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [e["what"] for e in json.load(open(fn))["findings"] if e["property"] == pid and e["status"] == "open"]


if __name__ == "__main__":
    main()
