"""C11: training computes what it says: parameter updates, reported scores, learning rates, kept checkpoints"""

from __future__ import annotations
import glob
import math
import os
import shutil
import tempfile
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require, HarnessError
from vlib import gen, enginh


def setup():
    enginh.setup()


# ---------------------------------------------------------------------------------------------------------------
# reference for the learning rate schedules


class RefLr:
    """
    Learning rate schedules as documented.
    history: list of (lr, errors) of all previous epochs
    """

    def __init__(self, cfg):
        self.cfg = cfg
        self.lrs = {}  # epoch -> lr
        self.errors = {}  # epoch -> dict
        preset = cfg.get("learning_rates") or []
        if isinstance(preset, dict):
            self.preset = {int(k): v for k, v in preset.items()}
        else:
            self.preset = {i + 1: v for i, v in enumerate(preset)}
        self.lrs.update(self.preset)

    def key_value(self, epoch):
        err = self.errors.get(epoch)
        if not err:
            return None
        keys = self.cfg.get("learning_rate_control_error_measure")
        keys = keys if isinstance(keys, list) else [keys] if keys else []
        for k in [k + s for k in keys for s in ("", "_output")] + ["dev_score", "dev_score_output"]:
            if k in err:
                return k, err[k]
        devs = sorted(k for k in err if k.startswith("dev_"))
        if devs:
            pref = [k for k in devs if k == "dev_score_output/output" or k.startswith("dev_score_output/output_")]
            pref = pref or [k for k in devs if k.startswith("dev_score_output/")] or devs
            return pref[0], err[pref[0]]
        for k in ["train_score", "train_score_output"]:
            if k in err:
                return k, err[k]
        k = min(err)
        return k, err[k]

    def rel(self, old_ep, new_ep):
        old, new = self.key_value(old_ep), self.key_value(new_ep)
        if old is None or new is None or old[0] != new[0]:
            return None
        div = old[1] if self.cfg.get("newbob_relative_error_div_by_old") else new[1]
        diff = new[1] - old[1]
        r = diff / abs(div) if div else math.copysign(math.inf, diff) if diff else 0.0
        if self.cfg.get("learning_rate_control_relative_error_relative_lr"):
            lr = self.lrs[new_ep]
            if lr > 0:
                r /= lr / self.cfg["learning_rate"]
        return r

    def update(self, lr, decay, grow):
        if decay:
            return max(lr * self.cfg.get("learning_rate_decay", 0.5), self.cfg.get("min_learning_rate", 0.0))
        if grow:
            return lr * self.cfg.get("learning_rate_growth", 1.0)
        return lr

    def get(self, epoch):
        if epoch in self.lrs:
            return self.lrs[epoch]
        self.lrs[epoch] = self._calc(epoch)
        return self.lrs[epoch]

    def _calc(self, epoch):
        cfg = self.cfg
        prev = sorted(e for e in self.lrs if e < epoch)
        min_num = cfg.get("learning_rate_control_min_num_epochs_per_new_lr", 0)
        if min_num > 1 and prev:
            last = [self.lrs[e] for e in prev[-min_num:]]
            if len(set(last)) > 1 or len(last) < min_num:
                return last[-1]
        if not prev:
            return cfg["learning_rate"]
        lr = self.lrs[prev[-1]]
        kind = cfg.get("learning_rate_control", "constant")
        if kind == "constant":
            return lr
        if kind == "newbob_multi_epoch":
            num = cfg.get("newbob_multi_num_epochs", 5)
            interval = cfg.get("newbob_multi_update_interval", num)
            if interval > 1 and epoch % interval != 1:
                return lr
            es = prev[-(num + 1) :]
            if len(es) <= 1:
                return lr
            rels = [self.rel(a, b) for a, b in zip(es[:-1], es[1:])]
            if None in rels:
                return lr
            m = float(numpy.mean(rels))
            thr = cfg.get("newbob_relative_error_threshold", -0.01)
            grow_thr = cfg.get("newbob_relative_error_grow_threshold", thr)
            return self.update(lr, m > thr, m < grow_thr)
        if len(prev) < 2:
            return lr
        if kind == "newbob_abs":
            old, new = self.key_value(prev[-2]), self.key_value(prev[-1])
            if old is None or new is None or old[0] != new[0]:
                return lr
            decay = new[1] - old[1] > cfg.get("newbob_error_threshold", -0.01)
            return self.update(lr, decay, not decay)
        r = self.rel(prev[-2], prev[-1])
        if r is None:
            return lr
        decay = r > cfg.get("newbob_relative_error_threshold", -0.01)
        return self.update(lr, decay, not decay)


def st_lr_cfg():
    @st.composite
    def _f(draw):
        cfg = {"learning_rate": draw(st.sampled_from([0.1, 0.03, 1.0]))}
        kind = draw(st.sampled_from(["constant", "newbob", "newbob_rel", "newbob_abs", "newbob_multi_epoch", None]))
        if kind:
            cfg["learning_rate_control"] = kind

        def opt(name, vals, p=3):
            v = draw(st.sampled_from([None] * p + vals))
            if v is not None:
                cfg[name] = v

        opt("min_learning_rate", [0.001, 0.05])
        opt("learning_rate_decay", [0.9, 0.7, 0.1], 1)
        opt("learning_rate_growth", [1.1, 1.0, 2.0], 1)
        opt("newbob_relative_error_div_by_old", [True])
        opt("learning_rate_control_relative_error_relative_lr", [True])
        opt("learning_rate_control_min_num_epochs_per_new_lr", [1, 2, 3])
        opt("newbob_relative_error_threshold", [-0.05, 0.0, 0.1])
        opt("newbob_error_threshold", [-0.05, 0.0, 0.1])
        opt("newbob_multi_num_epochs", [1, 2, 3, 4], 1)
        opt("newbob_multi_update_interval", [1, 2, 3], 1)
        if kind == "newbob_multi_epoch":
            thr = cfg.get("newbob_relative_error_threshold", -0.01)
            opt("newbob_relative_error_grow_threshold", [thr, thr - 0.1])
        opt(
            "learning_rate_control_error_measure",
            ["dev_score", "dev_loss_ce", "train_score", ["dev_error", "dev_loss_ce"], "dev_score_out"],
            2,
        )
        if draw(st.booleans()):
            n = draw(st.integers(1, 4))
            vals = [draw(st.sampled_from([0.2, 0.1, 0.05, 0.01])) for _ in range(n)]
            if draw(st.booleans()):
                cfg["learning_rates"] = vals
            else:
                cfg["learning_rates"] = {
                    str(e): v for e, v in zip(draw(st.lists(st.integers(1, 9), min_size=n, max_size=n, unique=True)), vals)
                }
        keys = draw(
            st.sampled_from(
                [
                    ["dev_score"],
                    ["train_score", "dev_score", "dev_error"],
                    ["train_loss_ce", "train_loss_fer", "dev_loss_ce", "dev_loss_fer"],
                    ["dev_score_output/output", "dev_score_output/aux", "train_score_output/output"],
                    ["train_loss_a", "train_loss_b"],
                    ["dev_score_output"],
                ]
            )
        )
        val = st.one_of(
            st.floats(0.5, 3.0).map(lambda v: round(v, 3)),
            st.sampled_from([1.0, 0.9, 1.1, 0.0, 0.5]),
            st.floats(-2.0, -0.5).map(lambda v: round(v, 3)),
        )
        epochs = []
        for _ in range(draw(st.integers(1, 9))):
            ks = keys if draw(st.integers(0, 9)) else keys[:1]
            epochs.append(
                {
                    "err": {k: draw(val) for k in ks},
                    "reload": draw(st.booleans()),
                    "skip": draw(st.integers(0, 12)) == 0,
                    "split": draw(st.booleans()),
                    "nested": draw(st.integers(0, 5)) == 0,
                }
            )
        return {"cfg": cfg, "epochs": epochs}

    return _f()


def check_lr(case):
    from returnn.config import Config
    from returnn.learning_rate_control import load_learning_rate_control_from_config

    cfg = dict(case["cfg"])
    if isinstance(cfg.get("learning_rates"), dict):
        cfg["learning_rates"] = {int(k): v for k, v in cfg["learning_rates"].items()}
    scratch = tempfile.mkdtemp(prefix="vC11lr")
    labels = []
    try:
        cfg["learning_rate_file"] = scratch + "/lr"
        ref = RefLr(case["cfg"])

        def load():
            return load_learning_rate_control_from_config(Config(dict(cfg)))

        lrc = load()
        ep = 0
        for i, step in enumerate(case["epochs"]):
            ep += 1
            if step["skip"]:
                ep += 1
            want = ref.get(ep)
            got = lrc.get_learning_rate_for_epoch(ep)
            require(abs(got - want) <= 1e-12 * abs(want), lambda: "epoch %i: lr %r, expected %r" % (ep, got, want))
            got = lrc.get_learning_rate_for_epoch(ep)
            require(abs(got - want) <= 1e-12 * abs(want), lambda: "epoch %i, again: lr %r, expected %r" % (ep, got, want))
            if got != case["cfg"]["learning_rate"]:
                labels.append("changed")
            err = dict(step["err"])
            if step["nested"] and len(err) >= 2:
                # as the TF engine does it
                lrc.set_epoch_error(ep, {"dev_score": {"cost:" + k: v for k, v in err.items()}})
                err = {"dev_score_" + k: v for k, v in err.items()}
            elif step["split"]:
                for k, v in err.items():
                    lrc.set_epoch_error(ep, {k: v})
                    lrc.save()
            else:
                lrc.set_epoch_error(ep, err)
            lrc.epoch_data[ep].meta.update({"x": 1, "y": "z"})
            ref.errors[ep] = err
            if step["reload"]:
                lrc.save()
                before = {e: (d.learning_rate, dict(d.error), dict(d.meta)) for e, d in lrc.epoch_data.items()}
                lrc = load()
                after = {e: (d.learning_rate, dict(d.error), dict(d.meta)) for e, d in lrc.epoch_data.items()}
                require(before == after, lambda: "file round trip: %r vs %r" % (before, after))
                require(os.listdir(scratch) == ["lr"], "left over: %s" % os.listdir(scratch))
            require(lrc.get_epoch_error_dict(ep) == err, lambda: "%r vs %r" % (lrc.get_epoch_error_dict(ep), err))
            key, value = lrc.get_epoch_error_key_value(ep)
            require((key, value) == ref.key_value(ep), lambda: "error key/value %r vs %r" % ((key, value), ref.key_value(ep)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return labels


# ---------------------------------------------------------------------------------------------------------------
# the whole training, compared to a straightforward reference training loop


OPTS = [
    ({"class": "sgd"}, "SGD", {}),
    ({"class": "SGD", "momentum": 0.9, "weight_decay": 0.1}, "SGD", {"momentum": 0.9}),
    ({"class": "adam", "epsilon": 1e-3}, "Adam", {"eps": 1e-3}),
    ({"class": "adamw", "weight_decay": 0.2, "betas": [0.8, 0.9]}, "AdamW", {"betas": (0.8, 0.9)}),
    ({"class": "adamw", "weight_decay": 0.2, "weight_decay_modules_blacklist": ["rf.LayerNorm"]}, "AdamW", {}),
    ({"class": "adamw", "weight_decay": 0.2, "weight_decay_modules_blacklist": []}, "AdamW", {}),
    ({"class": "adamw", "weight_decay": 0.0, "weight_decay_modules_blacklist": ["torch.nn.LayerNorm"]}, "AdamW", {}),
    ({"class": "adamw", "weight_decay": 0.2, "_check": "out_only"}, "AdamW", {}),
    ({"class": "rmsprop", "learning_rate_multiplier": 0.5}, "RMSprop", {}),
    ({"class": "sgd", "learning_rate_multiplier": 2.0}, "SGD", {}),
]


def wants_decay(case, name):
    """by the documented rules"""
    opts = case["optimizer"]
    mod, leaf = name.rsplit(".", 1) if "." in name else ("", name)
    if opts.get("_check") == "out_only":
        # custom: only out.weight (True), rest of inp: default rules, norm: False
        if name == "out.weight":
            return True
        if name.startswith("norm."):
            return False
    if leaf.endswith("bias"):
        return False
    bl = opts.get("weight_decay_modules_blacklist")
    is_rf = case["model"].startswith("rf")
    if mod == "norm":
        if bl is None:
            return is_rf
        return ("rf.LayerNorm" if is_rf else "torch.nn.LayerNorm") not in bl
    return True


def _include_check(*, module, rf_module, full_param_name, param, **_kwargs):
    if full_param_name == "out.weight":
        return True
    if full_param_name.startswith("norm."):
        return False
    return None


def custom_optimizer(cfg):
    """the parts of the optimizer options which cannot be in JSON"""
    opt = cfg["optimizer"]
    if opt.pop("_check", None):
        opt["weight_decay_custom_include_check"] = _include_check


def st_train():
    def make(ints, opt_idx, lr_cfg):
        p = gen.Picks(ints)
        opt, cls, kw = OPTS[opt_idx]
        case = {
            "model": p.choice(["rf", "torch"]),
            "dropout": 0.0,
            "norm_loss": p.choice([True, True, False]),
            "loss_scale": p.choice([1.0, 0.3]),
            "aux": p.choice([0.0, 0.0, 0.1]),
            "n_train": p.int(2, 8),
            "max_len": p.int(1, 6),
            "seed": p.int(0, 59) + 60 * p.int(0, 59),
            "order": p.choice(["default", "random", "laplace:.2", "sorted"]),
            "partition": p.choice([1, 1, 2]),
            "evals": p.choice([["dev"], ["dev", "eval"], []]),
            "batch_size": p.choice([4, 8, 1000]) + 2,
            "max_seqs": p.int(1, 4),
            "epochs": p.int(1, 4),
            "optimizer": opt,
            "opt_idx": opt_idx,
            "lr": p.choice([0.1, 0.03]),
            "dynamic_lr": p.choice([None, None, "step", "epoch"]),
            "accum_dyn": p.choice([False, False, True]),
            "extra": {},
        }
        ex = case["extra"]
        ex.update({k: v for k, v in lr_cfg.items() if k not in ("learning_rate", "learning_rates")})
        if "learning_rates" in lr_cfg and isinstance(lr_cfg["learning_rates"], list):
            ex["learning_rates"] = lr_cfg["learning_rates"]
        if isinstance(ex.get("learning_rate_control_error_measure"), (str, list)):
            ex.pop("learning_rate_control_error_measure")
            if "dev" in case["evals"]:
                ex["learning_rate_control_error_measure"] = "dev_loss_ce"
        if not case["accum_dyn"]:
            ex["accum_grad_multiple_step"] = p.choice([1, 2, 3])
        clip = p.int(0, 3)
        if clip == 1:
            ex["gradient_clip"] = 0.05
        elif clip == 2:
            ex["gradient_clip_global_norm"] = 0.1
        elif clip == 3:
            ex["gradient_clip"] = 0.1
            ex["gradient_clip_global_norm"] = 0.15
        if p.choice([0, 0, 1]):
            ex["calculate_exp_loss"] = True
        if p.choice([0, 0, 1]):
            ex["log_grad_norm"] = True
        ex["default_float_dtype"] = "float64"
        if case["batch_size"] < case["max_len"]:
            case["batch_size"] = case["max_len"]
        return case

    return st.builds(make, gen.picks(32), st.integers(0, len(OPTS) - 1), st_lr_cfg().map(lambda c: c["cfg"]))


def ref_forward(case, params, x):
    import torch

    is_rf = case["model"].startswith("rf")
    if is_rf:
        h = x @ params["inp.weight"] + params["inp.bias"]
    else:
        h = x @ params["inp.weight"].T + params["inp.bias"]
    mean = h.mean(-1, keepdim=True)
    var = ((h - mean) ** 2).mean(-1, keepdim=True)
    h = (h - mean) / torch.sqrt(var + (1e-6 if is_rf else 1e-5))
    h = torch.tanh(h * params["norm.scale" if is_rf else "norm.weight"] + params["norm.bias"])
    return h @ (params["out.weight"] if is_rf else params["out.weight"].T) + params["out.bias"]


def ref_losses(case, params, seqs):
    """
    :return: dict name -> (sum, num)
    """
    import torch

    x = torch.tensor(numpy.concatenate([s[0] for s in seqs], 0).astype("float64"))
    y = torch.tensor(numpy.concatenate([s[1] for s in seqs], 0).astype("int64"))
    logits = ref_forward(case, params, x)
    logp = logits - torch.logsumexp(logits, -1, keepdim=True)
    res = {
        "ce": (-logp[torch.arange(len(y)), y].sum(), len(y)),
        "fer": ((logits.argmax(-1) != y).double().sum(), len(y)),
    }
    if case.get("aux"):
        res["aux"] = ((params["inp.weight"] ** 2).sum(), 1)
    return res


def check_train(case):
    import torch

    scratch = tempfile.mkdtemp(prefix="vC11")
    labels = []
    try:
        what, res = enginh.run_training(case, scratch, record=[], custom=custom_optimizer)
        require(what == "ok", "training failed: %s" % (res,))
        record = res["record"]
        params = {k: v.double().requires_grad_() for k, v in record[0]["params"].items()}
        opt, cls, kw = OPTS[case["opt_idx"]]
        wd = opt.get("weight_decay", 0.0)
        groups = [
            {"params": [v for k, v in params.items() if wants_decay(case, k)], "weight_decay": wd},
            {"params": [v for k, v in params.items() if not wants_decay(case, k)], "weight_decay": 0.0},
        ]
        optim = getattr(torch.optim, cls)(groups, lr=1.0, **kw)
        lr_mult = opt.get("learning_rate_multiplier", 1.0)
        ex = case["extra"]
        ref_lr = RefLr({"learning_rate": case["lr"], **ex})
        lr_file = enginh.lr_file_content(scratch)
        step = 0
        norm_key = "grad_norm:p2"
        all_seqs = enginh.make_seqs(case["n_train"], case["seed"], case["max_len"])
        seen = []
        for ep in range(1, case["epochs"] + 1):
            lr = ref_lr.get(ep)
            batches = [r for r in record if r["epoch"] == ep and r["train"]]
            seen += [s for r in batches for s in r["seqs"]]
            total_seqs = sum(len(r["seqs"]) for r in batches)
            done_seqs = 0
            count = 0
            sums, nums = {}, {}
            optim.zero_grad()
            for i, r in enumerate(batches):
                require(r["step"] == step, "step %s vs %s" % (r["step"], step))
                losses = ref_losses(case, params, r["seqs"])
                s, n = losses["ce"]
                total = (s / n if case["norm_loss"] else s) * case["loss_scale"]
                if case["aux"]:
                    total = total + case["aux"] * losses["aux"][0]
                if count == 0:
                    optim.zero_grad()
                total.backward()
                count += 1
                accum = 1 + (ep + step) % 3 if case["accum_dyn"] else ex["accum_grad_multiple_step"]
                losses = {k: (float(a), b) for k, (a, b) in losses.items()}
                if count >= accum:
                    grads = [p.grad for p in params.values() if p.grad is not None]
                    norm = math.sqrt(sum(float((g**2).sum()) for g in grads))
                    if ex.get("log_grad_norm"):
                        losses[norm_key] = (norm, 1)
                    if ex.get("gradient_clip"):
                        for g in grads:
                            g.clamp_(-ex["gradient_clip"], ex["gradient_clip"])
                        norm = math.sqrt(sum(float((g**2).sum()) for g in grads))
                    if ex.get("gradient_clip_global_norm") and norm > 0:
                        f = min(1.0, ex["gradient_clip_global_norm"] / (norm + 1e-6))
                        for g in grads:
                            g.mul_(f)
                    eff = lr
                    if case["dynamic_lr"] == "step":
                        eff = lr / (1.0 + 0.1 * step)
                    elif case["dynamic_lr"] == "epoch":
                        eff = lr / (1.0 + 0.2 * (ep - 1 + (done_seqs / total_seqs if i else 0.0)))
                    for g in optim.param_groups:
                        g["lr"] = eff * lr_mult
                    optim.step()
                    count = 0
                    labels.append("update")
                for k, (a, b) in losses.items():
                    sums[k] = sums.get(k, 0.0) + a
                    nums[k] = nums.get(k, 0) + b
                step += 1
                done_seqs += len(r["seqs"])
            scores = {"train_loss_" + k: sums[k] / nums[k] for k in sums}
            with torch.no_grad():
                for name, opts in enginh.eval_opts(case).items():
                    ls = ref_losses(case, params, [(d["data"], d["classes"]) for d in opts["data"]])
                    scores.update({"%s_loss_%s" % (name, k): float(a) / b for k, (a, b) in ls.items()})
            if ex.get("calculate_exp_loss"):
                # error measures are not scores
                scores.update({k + ":exp": math.exp(v) for k, v in scores.items() if k.endswith("_ce") or k.endswith("_aux")})
            got = lr_file[ep]
            require(
                abs(got["lr"] - lr) < 1e-12,
                lambda: "epoch %i: learning rate %r, expected %r" % (ep, got["lr"], lr),
            )
            got_scores = {k: v for k, v in got["error"].items() if not k.startswith(":meta:")}
            require(
                set(got_scores) == set(scores),
                lambda: "epoch %i: score keys %s vs %s" % (ep, sorted(got_scores), sorted(scores)),
            )
            for k, v in scores.items():
                require(
                    abs(got_scores[k] - v) <= 1e-5 + 1e-5 * abs(v),
                    lambda: "epoch %i: reported %s = %r, expected %r" % (ep, k, got_scores[k], v),
                )
            require(got["error"][":meta:epoch_num_train_steps"] == len(batches))
            require(got["error"][":meta:global_train_step_end"] == step)
            ref_lr.errors[ep] = scores
            ckpt = enginh.load_pt(scratch + "/net-model/network.%03d.pt" % ep)
            require((ckpt["epoch"], ckpt["step"]) == (ep, step), "ckpt epoch/step %s" % ((ckpt["epoch"], ckpt["step"]),))
            require(set(ckpt["model"]) == set(params), "ckpt params %s" % (sorted(ckpt["model"]),))
            for k, v in ckpt["model"].items():
                a, b = v.numpy(), params[k].detach().numpy()
                require(
                    numpy.allclose(a, b, rtol=1e-5, atol=1e-6),
                    lambda: "epoch %i: param %s after %i steps: %r, expected %r" % (ep, k, step, a.tolist(), b.tolist()),
                )
            if ep % case["partition"] == 0:
                a = sorted((s[0].astype("float32").tobytes(), s[1].astype("int32").tobytes()) for s in seen)
                b = sorted((s["data"].tobytes(), s["classes"].tobytes()) for s in all_seqs)
                require(a == b, "not each sequence was trained on exactly once in the full epoch")
                seen = []
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return sorted(set(labels))


# ---------------------------------------------------------------------------------------------------------------
# optimizer state goes to the parameter with the same name


def st_optim():
    @st.composite
    def _f(draw):
        n = draw(st.integers(1, 6))
        names = ["p%i" % i for i in range(n)]
        return {
            "names": names,
            "order": draw(st.permutations(names)),
            "frozen_a": draw(st.lists(st.sampled_from(names), max_size=1)),
            "extra_b": draw(st.sampled_from([[], [], ["p00x"], ["q"]])),
            "drop_b": draw(st.sampled_from([0, 0, 1])),
            "opt": draw(
                st.sampled_from(
                    [
                        {"class": "adam"},
                        {"class": "sgd", "momentum": 0.9},
                        {"class": "adamw", "weight_decay": 0.1},
                        {"class": "rmsprop", "momentum": 0.9, "centered": True},
                    ]
                )
            ),
            "steps": draw(st.integers(1, 4)),
            "seed": draw(gen.seeds()),
            "bias": draw(st.booleans()),
        }

    return _f()


def check_optim(case):
    import torch
    from returnn.config import Config
    from returnn.torch.updater import Updater

    rnd = numpy.random.RandomState(case["seed"])
    drop = case["names"][: case["drop_b"]] if len(case["names"]) > 1 else []
    suffix = {n: ("_bias" if case["bias"] and i % 2 else "") for i, n in enumerate(case["names"])}
    # all shapes the same, such that a mixup is not noticed by a shape check
    init = {n: rnd.normal(0, 1, (3,)) for n in case["names"] + case["extra_b"]}
    grads = [{n: rnd.normal(0, 1, (3,)) for n in init} for _ in range(case["steps"] + 2)]

    class Net(torch.nn.Module):
        def __init__(self, names):
            super().__init__()
            for n in names:
                p = torch.nn.Parameter(torch.tensor(init[n]))
                if n in case["frozen_a"] or n in case["extra_b"]:
                    p.requires_grad_(False)
                setattr(self, n + suffix.get(n, ""), p)

    def updater(net):
        u = Updater(config=Config({"optimizer": dict(case["opt"])}), network=net, device="cpu", initial_learning_rate=0.1)
        u.create_optimizer()
        u.set_learning_rate(0.1)
        return u

    def step(net, u, g):
        u.get_optimizer().zero_grad()
        for n, v in g.items():
            p = getattr(net, n + suffix.get(n, ""), None)
            if p is not None and p.requires_grad:
                p.grad = torch.tensor(v)
        u.step()

    scratch = tempfile.mkdtemp(prefix="vC11o")
    try:
        a = Net(case["names"])
        ua = updater(a)
        for i in range(case["steps"]):
            ua.set_current_train_step(global_train_step=i, epoch=1, epoch_continuous=0.5)
            step(a, ua, grads[i])
        ua.save_optimizer(scratch + "/opt.pt")
        require(os.listdir(scratch) == ["opt.pt"], "left over files")
        names_b = [n for n in case["order"] if n not in drop] + case["extra_b"]
        if case["seed"] % 2:
            names_b = case["extra_b"] + [n for n in case["order"] if n not in drop]
        b = Net(names_b)
        for n in names_b:
            if n in case["names"]:
                with torch.no_grad():
                    getattr(b, n + suffix[n]).copy_(getattr(a, n + suffix[n]))
        ub = updater(b)
        ub.load_optimizer(scratch + "/opt.pt")
        ub.set_learning_rate(0.1)
        for i in range(case["steps"], case["steps"] + 2):
            step(a, ua, grads[i])
            step(b, ub, grads[i])
            for n in names_b:
                x = getattr(b, n + suffix.get(n, "")).detach().numpy()
                want = getattr(a, n + suffix[n]).detach().numpy() if n in case["names"] else init[n]
                require(
                    numpy.array_equal(x, want),
                    lambda: "param %s after restoring the optimizer and %i more steps: %s vs %s" % (n, i + 1 - case["steps"], x, want),
                )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return ["reordered"] if case["order"] != case["names"] else []


# ---------------------------------------------------------------------------------------------------------------
# checkpoint cleanup


def st_cleanup():
    @st.composite
    def _f(draw):
        n = draw(st.one_of(st.integers(1, 14), st.sampled_from([25, 60, 110, 260])))
        eps = sorted(draw(st.sets(st.integers(1, n), min_size=1, max_size=14)) | {n})
        keys = draw(st.sampled_from([["dev_loss_ce"], ["dev_loss_ce", "dev_loss_fer"], ["train_loss_ce", "dev_loss_ce", "x"]]))
        vals = draw(st.sampled_from([[0.1, 0.2, 0.3, 0.4], [1.0], [0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, -1.0]]))
        opts = {}
        if draw(st.booleans()):
            opts["keep_last_n"] = draw(st.integers(1, 4))
        if draw(st.booleans()):
            opts["keep_best_n"] = draw(st.integers(0, 4))
        if draw(st.booleans()):
            opts["keep"] = draw(st.lists(st.integers(1, n + 2), max_size=4))
        return {
            "n": n,
            "eps": eps,
            "opts": opts,
            "scores": {
                str(e): {
                    k: draw(st.sampled_from(vals)) for k in (keys if e == 1 or draw(st.integers(0, 7)) else keys[:1])
                }
                for e in range(1, n + 1)
                if n <= 14 or e in eps
            },
            "opt_missing": draw(st.lists(st.sampled_from(eps), max_size=6)),
            "dry_run": draw(st.integers(0, 9)) == 0,
            "subset_seed": draw(gen.seeds()),
        }

    return _f()


def default_keep(last):
    """from the documented rule"""
    if last <= 10:
        every, doubles = 4, 5
    elif last <= 50:
        every, doubles = 20, 5
    elif last <= 100:
        every, doubles = 40, 10
    else:
        every, doubles = 80, 20
        p = 1
        while p < 1 + last // 240:
            p *= 2
        every *= p
    res = {e for e in range(1, last + 1) if e % every == 0}
    d = doubles
    while d <= last:
        res.add(d)
        d *= 2
    return res


def check_cleanup(case):
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine
    from returnn.learning_rate_control import LearningRateControl
    import returnn.util.basic as util

    scratch = tempfile.mkdtemp(prefix="vC11c")
    try:
        cfg = dict(
            task="train",
            backend="torch",
            model=scratch + "/net",
            num_epochs=case["n"] + 3,
            learning_rate_file=scratch + "/lr",
            cleanup_old_models=dict(case["opts"]) if case["opts"] else True,
            dry_run=case["dry_run"],
        )
        for e in case["eps"]:
            with open(scratch + "/net.%03d.pt" % e, "w") as f:
                f.write("model %i" % e)
            if e not in case["opt_missing"]:
                with open(scratch + "/net.%03d.opt.pt" % e, "w") as f:
                    f.write("opt %i" % e)
        others = ["other.pt", "net.pt", "net.001.pt.bak", "net-001.pt"]
        for fn in others:
            with open(scratch + "/" + fn, "w") as f:
                f.write("x")
        scores = {int(e): s for e, s in case["scores"].items()}
        with open(scratch + "/lr", "w") as f:
            f.write(
                repr(
                    {e: "EpochData" for e in ()}
                )
                if not scores
                else "{%s}" % ", ".join("%i: EpochData(learningRate=0.1, error=%r)" % (e, s) for e, s in scores.items())
            )
        config = Config(cfg)
        util.BackendEngine.selected_engine = None
        util.BackendEngine.select_engine(config=config)
        engine = Engine.__new__(Engine)
        engine.config = config
        engine.learning_rate_control = None
        engine._device = "cpu"
        engine.model_filename = scratch + "/net"
        engine.pretrain = None
        engine.epoch = case["n"]
        with global_config_ctx(config):
            engine.cleanup_old_models()
        eps = case["eps"]
        last_n, best_n = case["opts"].get("keep_last_n", 2), case["opts"].get("keep_best_n", 4)
        keep = set(case["opts"]["keep"]) if "keep" in case["opts"] else default_keep(eps[-1])
        keep |= set(eps[-last_n:])
        keys = {k for s in scores.values() for k in s}
        for k in keys:
            have = [scores[e][k] for e in eps if k in scores[e]]
            if not have or min(have) == max(have):
                continue
            # missing score counts as the worst one
            ranked = sorted((scores[e].get(k, max(have)), e) for e in eps)
            keep |= {e for _, e in ranked[:best_n]}
        if max(last_n, best_n) >= len(eps) or case["dry_run"]:
            keep = set(eps)
        keep &= set(eps)
        got = {e for e in eps if os.path.exists(scratch + "/net.%03d.pt" % e)}
        require(not keep - got, lambda: "checkpoints %s were deleted (kept %s)" % (sorted(keep - got), sorted(got)))
        require(not got - keep, lambda: "checkpoints %s were not deleted (expected %s)" % (sorted(got - keep), sorted(keep)))
        for e in eps:
            exp = e in got and e not in case["opt_missing"]
            require(os.path.exists(scratch + "/net.%03d.opt.pt" % e) == exp, "optimizer state of epoch %i" % e)
        for fn in others + ["lr"]:
            require(os.path.exists(scratch + "/" + fn), "unrelated file %s deleted" % fn)
        return ["deleted"] if len(got) < len(eps) else []
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SUBS = [
    Sub("train", st_train, check_train, quick=240, thorough=6000, nontrivial=lambda c: c["epochs"] >= 2),
    Sub("lr_control", st_lr_cfg, check_lr, quick=3000, thorough=60000, nontrivial=lambda c: len(c["epochs"]) >= 3),
    Sub("optim_state", st_optim, check_optim, quick=800, thorough=20000, nontrivial=lambda c: c["order"] != c["names"]),
    Sub("cleanup", st_cleanup, check_cleanup, quick=2000, thorough=40000, nontrivial=lambda c: len(c["eps"]) >= 3),
]
