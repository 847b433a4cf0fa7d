"""Worker process: runs a share of the cases of all subs of one property."""

from __future__ import annotations
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import core  # noqa


def main():
    req = json.load(open(sys.argv[1]))
    out_file = sys.argv[2]
    start = time.time()
    core.setup_paths()
    stats = core.WorkerStats()
    res = {"ok": False, "failure": None, "stats": None, "harness": None}

    def finish():
        res["stats"] = stats.to_json()
        res["wall"] = time.time() - start
        tmp = out_file + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, out_file)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    try:
        mod = core.load_prop(req["property"])
        if hasattr(mod, "setup"):
            mod.setup()
        subs = {s.name: s for s in mod.SUBS}
        if req["mode"] == "replay":
            case = req["case"]
            sub = subs[case["sub"]]
            res["failure"] = _run_fixed(core, sub, case["case"], None)
            res["ok"] = True
            return finish()
        # replay tier: saved inputs
        for item in req["corpus"]:
            if item["sub"] not in subs:
                continue
            fail = _run_fixed(core, subs[item["sub"]], item["case"], stats)
            if fail:
                res["failure"] = fail
                return finish()
        deadline = start + req["soft_deadline"]
        names = [s.name for s in mod.SUBS]
        rot = req["index"] % len(names)
        for name in names[rot:] + names[:rot]:
            sub = subs[name]
            if req.get("only") and name not in req["only"]:
                continue
            total = getattr(sub, req["tier"])
            total = int(total * req.get("scale", 1.0))
            n, i = req["num_workers"], req["index"]
            num = (total + i) // n  # sums up to total over the workers
            if num <= 0:
                continue
            seed = (req["seed"] * 1000003 + i * 7919 + int(core.case_key(name), 16)) % (2**31)
            fail = core.run_sub_generated(
                sub, num=num, seed=seed, stats=stats, deadline=deadline, shrink_time=req["shrink_time"]
            )
            if fail:
                # Confirm, in the same process.
                confirm = 0
                for _ in range(2):
                    again = _run_fixed(core, sub, fail["case"], None)
                    confirm += bool(again)
                fail["confirmed_in_process"] = confirm
                res["failure"] = fail
                return finish()
        res["ok"] = True
    except BaseException as exc:  # noqa
        import traceback

        res["harness"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-8000:]
        res["harness_kind"] = core.classify_exception(exc)
    finish()


def _run_fixed(core, sub, case, stats):
    import traceback

    try:
        core.run_case(sub, case, stats)
    except BaseException as exc:  # noqa
        return {
            "sub": sub.name,
            "case": case,
            "error": "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:],
            "msg": str(exc)[:800],
            "kind": core.classify_exception(exc),
            "size": len(json.dumps(case)),
        }
    return None


if __name__ == "__main__":
    main()
