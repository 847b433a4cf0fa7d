"""C10: training survives being killed anywhere: resumed training ends where uninterrupted training ends"""

from __future__ import annotations
import glob
import os
import shutil
import tempfile
from hypothesis import strategies as st
from vlib.core import Sub, require, HarnessError
from vlib import gen, enginh


def setup():
    enginh.setup()


OPTIMIZERS = [
    {"class": "sgd", "momentum": 0.9},
    {"class": "adam"},
    {"class": "adamw", "weight_decay": 0.1},
    {"class": "rmsprop", "momentum": 0.5},
    {"class": "adagrad"},
    {"class": "nadam", "weight_decay": 0.01},
]

LR_CONTROLS = [
    {},
    {"learning_rate_control": "newbob_rel", "newbob_relative_error_threshold": -0.05},
    {"learning_rate_control": "newbob_abs", "newbob_error_threshold": -0.05, "learning_rate_decay": 0.7},
    {
        "learning_rate_control": "newbob_multi_epoch",
        "newbob_multi_num_epochs": 2,
        "newbob_multi_update_interval": 1,
        "newbob_relative_error_threshold": -0.05,
        "learning_rate_decay": 0.7,
    },
    {"learning_rates": [0.1, 0.05]},
    {"learning_rate_control": "newbob_rel", "learning_rates": [0.1, 0.05], "learning_rate_control_error_measure": "dev_loss_ce"},
    {"learning_rate_control": "newbob_rel", "learning_rate_control_min_num_epochs_per_new_lr": 2, "learning_rate_growth": 1.2},
]

EXTRAS = [
    {},
    {"accum_grad_multiple_step": 2},
    {"accum_grad_multiple_step": 3, "gradient_clip": 0.05},
    {"gradient_clip_global_norm": 0.1},
    {"gradient_noise": 0.01},
    {"online_shuffle_batches": 3},
    {"calculate_exp_loss": True},
    {"log_grad_norm": True},
]

CLEANUPS = [
    None,
    None,
    True,
    {"keep_last_n": 1, "keep_best_n": 0, "keep": []},
    {"keep_last_n": 2, "keep_best_n": 1, "keep": [1]},
]


def make_case(ints, *, faults):
    p = gen.Picks(ints)
    case = {
        "model": p.choice(["rf", "rf_bn", "torch"]),
        "dropout": p.choice([0.0, 0.3]),
        "norm_loss": p.choice([True, True, False]),
        "n_train": p.int(2, 9),
        "max_len": p.int(1, 6),
        "seed": p.int(0, 59) + 60 * p.int(0, 59),
        "order": p.choice(["default", "random", "laplace:.2", "sorted"]),
        "partition": p.choice([1, 1, 2]),
        "evals": p.choice([["dev"], ["dev", "eval"], []]),
        "batch_size": p.choice([4, 8, 1000]) + 2,
        "max_seqs": p.int(1, 4),
        "epochs": p.int(1, 6),
        "save_interval": p.choice([1, 1, 1, 2, 3]),
        "optimizer": p.choice(OPTIMIZERS),
        "lr": p.choice([0.1, 0.01, 0.003]),
        "dynamic_lr": p.choice([None, None, "step", "epoch"]),
        "accum_dyn": p.choice([False, False, False, True]),
        "extra": {**p.choice(LR_CONTROLS), **p.choice(EXTRAS)},
    }
    cleanup = p.choice(CLEANUPS)
    if cleanup:
        case["extra"]["cleanup_old_models"] = cleanup
    if p.choice([0, 0, 0, 1]):
        case["extra"]["apply_cleanup_old_models_to_optim_states"] = True
    if case["extra"].get("learning_rate_control_error_measure") and "dev" not in case["evals"]:
        case["evals"] = ["dev"]
    if case["batch_size"] < case["max_len"]:
        case["batch_size"] = case["max_len"]
    case["init"] = p.choice([None, None, None, "import", "preload", "preload_prefix", "preload_always"])
    case["faults"] = faults
    return case


def write_init(case, fn):
    """some checkpoint to start from"""

    def make():
        import torch
        from returnn.tensor import Dim
        from returnn.torch.frontend.bridge import rf_module_to_pt_module

        torch.manual_seed(case["seed"] + 1)
        if case["model"] == "torch":
            model = enginh.torch_model(case)
        else:
            model = enginh.rf_model(case, Dim(enginh.DIM_IN, name="in"), Dim(enginh.DIM_OUT, name="out"))
            model = rf_module_to_pt_module(model)
        state = {k: torch.rand_like(v) if v.is_floating_point() else v for k, v in model.state_dict().items()}
        if case["init"] in ("preload_prefix", "preload_always"):
            state = {k[len("inp.") :]: v for k, v in state.items() if k.startswith("inp.")}
        torch.save({"model": state, "epoch": 7, "step": 123}, fn)

    what, res = enginh.in_child(make)
    if what != "ok":
        raise HarnessError("cannot create init checkpoint: %s" % (res,))


def customize(case, fn):
    def f(cfg):
        if case["init"] == "import":
            cfg["import_model_train_epoch1"] = fn
        elif case["init"]:
            opts = {"filename": fn, "init_for_train": "always" if case["init"] == "preload_always" else True}
            if case["init"] != "preload":
                opts.update({"prefix": "inp.", "ignore_missing": True})
            cfg["preload_from_files"] = {"init": opts}

    return f


def st_resume():
    fault = st.tuples(st.integers(0, 999), st.sampled_from(["kill", "kill", "enospc", "interrupt"]))
    return st.builds(
        lambda ints, faults: make_case(ints, faults=[list(f) for f in faults]),
        gen.picks(32),
        st.lists(fault, min_size=1, max_size=3),
    )


def check_init(case, fn, params):
    """training starts with the given params"""
    state = enginh.load_pt(fn)["model"]
    if case["init"] in ("preload_prefix", "preload_always"):
        state = {"inp." + k: v for k, v in state.items()}
    for k, v in params.items():
        if k in state:
            diff = enginh.tensors_equal(v, state[k])
            require(not diff, lambda: "%s, param %s at the first step: %s" % (case["init"], k, diff))


def final_state(case, scratch):
    """what the user has at the end"""
    fn = scratch + "/net-model/network.%03d" % case["epochs"]
    require(os.path.exists(fn + ".pt"), "final model does not exist")
    require(os.path.exists(fn + ".opt.pt"), "final optimizer state does not exist")
    model = enginh.load_pt(fn + ".pt")
    opt = enginh.load_pt(fn + ".opt.pt")
    return {
        "model": dict(model["model"]),
        "epoch": model["epoch"],
        "step": model["step"],
        "effective_learning_rate": model["effective_learning_rate"],
        "optimizer": opt["optimizer"],
        "opt_param_names": opt["param_names"],
        "scores": enginh.lr_file_content(scratch),
    }


def check_disk(case, scratch):
    """whatever has its final name is complete and readable"""
    for fn in glob.glob(scratch + "/net-model/*.pt"):
        try:
            enginh.load_pt(fn)
        except Exception as exc:
            require(False, "after crash, %s is not loadable: %s" % (os.path.basename(fn), exc))
    try:
        enginh.read_lr_file(scratch)
    except Exception as exc:
        require(False, "after crash, learning rate file is not readable: %s" % exc)


def check_resume(case):
    scratch = tempfile.mkdtemp(prefix="vC10")
    labels = []
    try:
        os.mkdir(scratch + "/ref")
        init_fn = scratch + "/init.001.pt"
        if case["init"]:
            write_init(case, init_fn)
            labels.append("init:" + case["init"])
        custom = customize(case, init_fn)
        what, res = enginh.run_training(case, scratch + "/ref", custom=custom, record=[] if case["init"] else None)
        require(what == "ok", "uninterrupted training failed: %s" % (res,))
        if case["init"]:
            check_init(case, init_fn, res["record"][0]["params"])
        num_events = len(res["events"])
        ref = final_state(case, scratch + "/ref")
        require(res["epoch"] == case["epochs"] and ref["epoch"] == case["epochs"], "final epoch %s" % (res["epoch"],))
        require(ref["step"] == res["step"], "step %s vs %s" % (ref["step"], res["step"]))
        run = scratch + "/run"
        os.mkdir(run)
        hist = []
        for pos, kind in case["faults"]:
            at = 1 + pos * num_events // 1000
            what, r = enginh.run_training(case, run, at=at, kind=kind, custom=custom)
            hist.append((at, kind, what))
            if what == "exit":
                require(r == enginh.CRASH_RC, "training process died: rc %s" % (r,))
                labels.append("kill:" + res["events"][at - 1].split()[0])
            elif what == "error":
                require("injected" in r, "training process failed, history %s: %s" % (hist, r))
                labels.append(kind)
            else:
                labels.append("no_fault")
            check_disk(case, run)
            # The last training state which was completely saved must not get lost.
        what, r = enginh.run_training(case, run, custom=custom)
        require(what == "ok", lambda: "cannot resume after %s: %s" % (hist, r))
        new = final_state(case, run)
        diff = enginh.tensors_equal(ref, new)
        require(
            not diff,
            lambda: "resumed training differs from uninterrupted training after faults %s (events %s): %s"
            % (hist, [res["events"][h[0] - 1] for h in hist], diff),
        )
        # And once more: nothing left to do.
        if case["seed"] % 4 == 0:
            what, r = enginh.run_training(case, run, custom=custom)
            require(what == "ok", lambda: "rerun of finished training: %s" % (r,))
            diff = enginh.tensors_equal(ref, final_state(case, run))
            require(not diff, lambda: "rerun of finished training changes: %s" % diff)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return labels


# ---------------------------------------------------------------------------------------------------------------
# which values the params get: load / load_epoch / preload_from_files


NAMES = ["enc.w1", "enc.w2", "enc.sub.w1", "dec.w1", "dec.b", "top"]
PREFIXES = ["", "enc.", "enc.sub.", "dec."]


def st_load():
    @st.composite
    def _f(draw):
        subset = lambda names: sorted(draw(st.sets(st.sampled_from(names)))) if names else []  # noqa
        most = lambda names: names if draw(st.integers(0, 2)) else subset(names)  # noqa
        case = {
            "task": draw(st.sampled_from(["forward", "forward", "train"])),
            "base": draw(st.sampled_from([None, "load", "load_epoch", "load_plain"])),
            "base_keys": None,
            "preload": {},
            "seed": draw(gen.seeds()),
        }
        if case["base"]:
            case["base_keys"] = most(NAMES) + draw(st.sampled_from([[], [], ["old.x"]]))
        for key in draw(st.lists(st.sampled_from(["a", "b", "c", "x1"]), max_size=3, unique=True)):
            prefix = draw(st.sampled_from(PREFIXES))
            scope = [n[len(prefix) :] for n in NAMES if n.startswith(prefix)]
            e = {
                "prefix": prefix,
                "keys": most(scope) + draw(st.sampled_from([[], [], ["other.y"]])),
                "ignore_missing": draw(st.booleans()),
                "init_for_train": draw(st.sampled_from([None, None, True, "always"])),
                "ckpt_key": draw(st.sampled_from(["model", "model", None, "ema"])),
                "ignore": [],
                "ignore_prefixes": [],
                "mapping": {},
            }
            full = [prefix + k for k in e["keys"]]
            if draw(st.integers(0, 3)) == 0:
                e["ignore"] = subset(full)
            if draw(st.integers(0, 3)) == 0:
                e["ignore_prefixes"] = draw(st.sampled_from([["dec."], ["enc.w"], ["enc.sub", "top"]]))
            left = [
                k for k in full if k not in e["ignore"] and not any(k.startswith(p) for p in e["ignore_prefixes"])
            ]
            if left and draw(st.integers(0, 3)) == 0:
                old = draw(st.sampled_from(left))
                e["mapping"] = {draw(st.sampled_from([n for n in NAMES if n.startswith(prefix)])): old}
            case["preload"][key] = e
        case["pattern"] = draw(st.sampled_from([None, None, "enc.*", "*w1", "*"]))
        return case

    return _f()


def check_load(case):
    """the documented precedence"""
    import numpy

    scratch = tempfile.mkdtemp(prefix="vC10l")
    try:
        rnd = numpy.random.RandomState(case["seed"])

        def new():
            return rnd.normal(0, 1, (3,)).astype("float32")

        cfg = {"task": case["task"], "preload_from_files": {}}
        files = {}
        want = {}
        scope = set()  # must be loaded
        base = case["base"]
        if case["task"] == "train" and base:
            base = "load_epoch"  # means: continue from an existing checkpoint
        if base:
            state = {k: new() for k in case["base_keys"]}
            want.update({k: v for k, v in state.items() if k in NAMES})
            if base == "load_plain":
                files["net.003.pt"] = state
            else:
                files["net.003.pt"] = {"model": state, "epoch": 3, "step": 30}
            if case["task"] == "train":
                files["net.003.opt.pt"] = None
            if base == "load_epoch":
                cfg["model"] = scratch + "/net"
                if case["task"] != "train":
                    cfg["load_epoch"] = 3
                cfg["num_epochs"] = 5
            else:
                cfg["load"] = scratch + "/net.003.pt"
            scope |= set(NAMES)
        expect_error = False
        skip = False
        winner = {}
        loaded = set(want)
        for key in reversed(sorted(case["preload"])):  # the first one in sorted order wins
            e = case["preload"][key]
            raw = {k: new() for k in e["keys"]}
            full = {e["prefix"] + k: v for k, v in raw.items()}
            fn = "pre_%s.pt" % key
            files[fn] = raw if e["ckpt_key"] is None else {e["ckpt_key"]: raw}
            opts = {"filename": scratch + "/" + fn}
            if e["prefix"]:
                opts["prefix"] = e["prefix"]
            if e["ckpt_key"] != "model":
                opts["checkpoint_key"] = e["ckpt_key"]
            if e["ignore_missing"]:
                opts["ignore_missing"] = True
            if e["init_for_train"] is not None:
                opts["init_for_train"] = e["init_for_train"]
            if e["ignore"]:
                opts["ignore_params"] = e["ignore"]
            if e["ignore_prefixes"]:
                opts["ignore_params_prefixes"] = e["ignore_prefixes"]
            if e["mapping"]:
                opts["var_name_mapping"] = e["mapping"]
            cfg["preload_from_files"][key] = opts
            if e["init_for_train"] is None or e["init_for_train"] is False:
                active = case["task"] != "train"
            elif e["init_for_train"] == "always":
                active = True
            else:
                active = case["task"] == "train" and not base
            if not active:
                continue
            for k in list(full):
                if k in e["ignore"] or any(k.startswith(p) for p in e["ignore_prefixes"]):
                    del full[k]
            for new_name, old_name in e["mapping"].items():
                full[new_name] = full.pop(old_name)
            e_scope = {n for n in NAMES if n.startswith(e["prefix"])}
            if not e_scope.intersection(full):
                skip = True  # specific error
            if not e["ignore_missing"]:
                scope |= e_scope
            for k, v in full.items():
                if k in NAMES:
                    want[k] = v
        missing = scope - set(want)
        if case["pattern"]:
            import fnmatch

            cfg["preload_from_files"]["00"] = {
                "filename": None,
                "pattern": case["pattern"],
                "init_for_train": True if case["task"] == "train" and not base else ("always" if case["task"] == "train" else False),
            }
            missing = {k for k in missing if not fnmatch.fnmatch(k, case["pattern"])}
        if not cfg["preload_from_files"]:
            del cfg["preload_from_files"]

        def run():
            import torch
            import returnn.util.basic as util
            from returnn.config import Config, global_config_ctx
            from returnn.torch.engine import Engine
            from returnn.log import log

            log.initialize(verbosity=[0])
            for fn, content in files.items():
                content_ = (
                    {
                        k: ({k_: torch.tensor(v_) for k_, v_ in v.items()} if isinstance(v, dict) else torch.tensor(v) if isinstance(v, numpy.ndarray) else v)
                        for k, v in content.items()
                    }
                    if content
                    else {}
                )
                torch.save(content_, scratch + "/" + fn)

            def get_model(**_kwargs):
                root = torch.nn.Module()
                for n in NAMES:
                    m = root
                    *path, leaf = n.split(".")
                    for c in path:
                        if not hasattr(m, c):
                            setattr(m, c, torch.nn.Module())
                        m = getattr(m, c)
                    setattr(m, leaf, torch.nn.Parameter(torch.full((3,), 77.0)))
                return root

            util.BackendEngine.selected_engine = None
            config = Config(
                dict(
                    cfg,
                    backend="torch",
                    device="cpu",
                    behavior_version=21,
                    extern_data={"data": {"dim": 3}},
                    get_model=get_model,
                )
            )
            util.BackendEngine.select_engine(config=config)
            with global_config_ctx(config):
                engine = Engine(config=config)
                engine.init_network_from_config()
                model = engine.get_pt_model()
                params = dict(model.named_parameters())
                params.update(model.named_buffers())
                return {k: v.detach().numpy().copy() for k, v in params.items()}, engine.epoch

        what, res = enginh.in_child(run)
        require(what in ("ok", "error"), "process died: %s" % (res,))
        if skip:
            require(what == "error" and "No keys with prefix" in res, lambda: "expected an error, got %s" % (res,))
            return ["error_nothing"]
        if missing:
            require(what == "error", lambda: "params %s are not loaded by anything, but no error" % sorted(missing))
            require("Missing key" in res, lambda: "unexpected error: %s" % (res,))
            return ["error_missing"]
        require(what == "ok", lambda: "loading failed: %s" % (res,))
        got, epoch = res
        require(set(got) == set(NAMES), lambda: "model params %s" % sorted(got))
        for n in NAMES:
            w = want.get(n, numpy.full((3,), 77.0, "float32"))
            require(numpy.array_equal(got[n], w), lambda: "param %s is %s, expected %s" % (n, got[n], w))
        if base in ("load", "load_epoch"):
            require(epoch == (4 if case["task"] == "train" else 3), "epoch %s" % epoch)
        return ["ok", "base:%s" % base]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SUBS = [
    Sub("resume", st_resume, check_resume, quick=110, thorough=4000, nontrivial=lambda c: c["epochs"] >= 2),
    Sub("load", st_load, check_load, quick=500, thorough=10000, nontrivial=lambda c: bool(c["preload"])),
]
