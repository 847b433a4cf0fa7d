"""
Drives the PyTorch training engine over generated setups, in forked child processes,
which can be made to die at any of their externally visible operations.
"""

from __future__ import annotations
import builtins
import errno
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import numpy
from vlib.core import HarnessError, require

CRASH_RC = 66
DIM_IN, DIM_OUT = 3, 4


def setup():
    from vlib import rfh

    rfh.setup_torch()
    import returnn.torch.engine  # noqa
    import returnn.datasets.generating  # noqa
    import torch._dynamo  # noqa  # imported lazily by some of the optimizers
    import logging

    logging.disable(logging.CRITICAL)


def make_seqs(num, seed, max_len):
    rnd = numpy.random.RandomState(seed)
    res = []
    for _ in range(num):
        t = int(rnd.randint(1, max_len + 1))
        res.append(
            {
                "data": rnd.normal(0, 1, (t, DIM_IN)).astype("float32"),
                "classes": rnd.randint(0, DIM_OUT, (t,)).astype("int32"),
            }
        )
    return res


def dataset_opts(name, seqs, **kwargs):
    return {
        "class": "StaticDataset",
        "data": seqs,
        "input_dim": DIM_IN,
        "output_dim": {"data": [DIM_IN, 2], "classes": [DIM_OUT, 1]},
        "name": name,
        **kwargs,
    }


def rf_model(case, in_dim, out_dim):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    kind = case["model"]

    class Model(rf.Module):
        def __init__(self):
            super().__init__()
            self.in_dim = in_dim
            self.hid_dim = Dim(5, name="hid")
            self.out_dim = out_dim
            self.inp = rf.Linear(self.in_dim, self.hid_dim)
            if kind == "rf_bn":
                self.norm = rf.BatchNorm(self.hid_dim, use_mask=True)
            else:
                self.norm = rf.LayerNorm(self.hid_dim)
            self.unused = rf.Parameter([self.hid_dim])
            self.unused.initial = 0.5
            self.out = rf.Linear(self.hid_dim, self.out_dim)

        def __call__(self, x):
            x = rf.tanh(self.norm(self.inp(x)))
            x = rf.dropout(x, case["dropout"], axis=self.hid_dim)
            return self.out(x)

    return Model()


def torch_model(case):
    import torch

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.inp = torch.nn.Linear(DIM_IN, 5)
            self.norm = torch.nn.LayerNorm(5)
            self.drop = torch.nn.Dropout(case["dropout"])
            self.out = torch.nn.Linear(5, DIM_OUT)

        def forward(self, x):
            return self.out(self.drop(torch.tanh(self.norm(self.inp(x)))))

    return Model()


def make_config(case, scratch, *, hook=lambda what: None, record=None):
    """
    :param dict case:
    :param str scratch:
    :param hook: called for each step
    :return: config dict
    """
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, batch_dim

    is_rf = case["model"].startswith("rf")

    def get_model(**_kwargs):
        return rf_model(case, in_dim, out_dim) if is_rf else torch_model(case)

    def train_step(*, model, extern_data, **_kwargs):
        ctx = rf.get_run_ctx()
        hook("train_step" if ctx.train_flag else "eval_step")
        x, y = extern_data["data"], extern_data["classes"]
        if record is not None:
            named = {k: p.raw_tensor if is_rf else p for k, p in model.named_parameters()}
            xr, yr = x.copy_as_batch_major().raw_tensor.numpy(), y.copy_as_batch_major().raw_tensor.numpy()
            lens_ = time_dim.dyn_size_ext.raw_tensor.numpy()
            record.append(
                {
                    "train": bool(ctx.train_flag),
                    "epoch": ctx.epoch,
                    "step": int(ctx.step),
                    "seqs": [(xr[b, :t].copy(), yr[b, :t].copy()) for b, t in enumerate(lens_)],
                    "params": {k: p.detach().clone() for k, p in named.items()} if len(record) == 0 else None,
                }
            )
        if case.get("aux"):
            w = model.inp.weight
            aux = ((w.raw_tensor if is_rf else w) ** 2).sum()
            ctx.mark_as_loss(aux, name="aux", scale=case["aux"])
        if is_rf:
            logits = model(x)
            loss = rf.cross_entropy(estimated=logits, estimated_type="logits", target=y, axis=model.out_dim)
            loss.mark_as_loss("ce", scale=case.get("loss_scale", 1.0), use_normalized_loss=case["norm_loss"])
            err = rf.cast(rf.reduce_argmax(logits, axis=model.out_dim) != y, "float32")
            err.mark_as_loss("fer", as_error=True)
        else:
            lens = time_dim.dyn_size_ext.raw_tensor
            logits = model(x.copy_as_batch_major().raw_tensor)
            yr = y.copy_as_batch_major().raw_tensor
            mask = torch.arange(logits.shape[1])[None, :] < lens[:, None]
            loss = torch.nn.functional.cross_entropy(logits[mask], yr[mask].long(), reduction="none")
            n = rf.convert_to_tensor(lens.sum(), dims=())
            ctx.mark_as_loss(
                loss.sum(),
                name="ce",
                scale=case.get("loss_scale", 1.0),
                custom_inv_norm_factor=n,
                use_normalized_loss=case["norm_loss"],
            )
            err = (logits[mask].argmax(-1) != yr[mask]).float().sum()
            ctx.mark_as_loss(err, name="fer", as_error=True, custom_inv_norm_factor=n)

    time_dim = Dim(None, name="time")
    in_dim, out_dim = Dim(DIM_IN, name="in"), Dim(DIM_OUT, name="out")
    extern_data = {
        "data": {"dims": [batch_dim, time_dim, in_dim], "feature_dim_axis": 2, "dtype": "float32"},
        "classes": {"dims": [batch_dim, time_dim], "sparse_dim": out_dim, "dtype": "int32"},
    }
    cfg = dict(
        task="train",
        backend="torch",
        device="cpu",
        behavior_version=21,
        log_verbosity=[0],
        extern_data=extern_data,
        get_model=get_model,
        train_step=train_step,
        batch_size=case["batch_size"],
        max_seqs=case["max_seqs"],
        torch_dataloader_opts={"num_workers": 0},
        num_epochs=case["epochs"],
        model=scratch + "/net-model/network",
        save_interval=case.get("save_interval", 1),
        optimizer=dict(case["optimizer"]),
        random_seed=case["seed"] % 1000 + 1,
        learning_rate=case["lr"],
        learning_rate_file=scratch + "/learning_rates",
    )
    cfg.update(case.get("extra", {}))
    if case.get("dynamic_lr"):

        def dynamic_learning_rate(*, global_train_step, epoch, epoch_continuous, learning_rate, **_kwargs):
            if case["dynamic_lr"] == "step":
                return learning_rate / (1.0 + 0.1 * global_train_step)
            return learning_rate / (1.0 + 0.2 * (epoch_continuous if epoch_continuous is not None else epoch))

        cfg["dynamic_learning_rate"] = dynamic_learning_rate
    if case.get("accum_dyn"):
        cfg["accum_grad_multiple_step"] = lambda *, epoch, global_train_step, **_kw: 1 + (epoch + global_train_step) % 3
    return cfg


class Fault:
    """
    Counts the visible operations of the process on its scratch directory (and its steps), and strikes at one of them.
    """

    def __init__(self, scratch, at=None, kind="kill"):
        self.scratch = scratch
        self.at = at
        self.kind = kind
        self.count = 0
        self.log = []

    def event(self, what, partial=None):
        """
        :param str what:
        :param partial: function to be called when the fault strikes, to have the operation half done
        """
        if "/" in what:
            pass
        self.count += 1
        self.log.append(what)
        if self.at is not None and self.count == self.at:
            if partial:
                partial()
            if self.kind == "kill":
                os._exit(CRASH_RC)
            if self.kind == "enospc" and "step" not in what:
                raise OSError(errno.ENOSPC, "injected: no space left on device")
            raise KeyboardInterrupt("injected")

    def _mine(self, fn):
        try:
            fn = os.fspath(fn)
        except TypeError:
            return False
        return isinstance(fn, str) and os.path.abspath(fn).startswith(self.scratch + "/")

    def install(self):
        import torch

        fault = self

        def wrap_path_func(mod, name):
            orig = getattr(mod, name)

            def f(path, *args, **kwargs):
                if fault._mine(path):
                    fault.event("%s %s" % (name, os.path.basename(os.fspath(path))))
                return orig(path, *args, **kwargs)

            setattr(mod, name, f)

        for name in ["rename", "replace", "unlink", "remove", "truncate"]:
            wrap_path_func(os, name)
        orig_open = builtins.open

        class _Writer:
            def __init__(self, f, fn):
                self._f, self._fn = f, fn

            def write(self, data):
                def partial():
                    self._f.write(data[: len(data) // 2])
                    self._f.flush()

                fault.event("write %s" % os.path.basename(self._fn), partial)
                return self._f.write(data)

            def __getattr__(self, item):
                return getattr(self._f, item)

            def __enter__(self):
                self._f.__enter__()
                return self

            def __exit__(self, *args):
                return self._f.__exit__(*args)

            def __iter__(self):
                return iter(self._f)

        def open_(file, mode="r", *args, **kwargs):
            if isinstance(mode, str) and any(c in mode for c in "wax+") and fault._mine(file):
                fault.event("open %s" % os.path.basename(os.fspath(file)))
                return _Writer(orig_open(file, mode, *args, **kwargs), os.fspath(file))
            return orig_open(file, mode, *args, **kwargs)

        builtins.open = open_
        orig_save = torch.save

        def save(obj, f, *args, **kwargs):
            if fault._mine(f):

                def partial():
                    import io

                    buf = io.BytesIO()
                    orig_save(obj, buf, *args, **kwargs)
                    with orig_open(f, "wb") as f_:
                        f_.write(buf.getvalue()[: buf.getbuffer().nbytes * 2 // 3])

                fault.event("torch.save %s" % os.path.basename(os.fspath(f)), partial)
            return orig_save(obj, f, *args, **kwargs)

        torch.save = save


def in_child(func, *, timeout=240.0):
    """
    :param func: run in a forked process group. its return value (picklable)
    :return: ("ok", value) | ("error", text) | ("exit", rc)
    """
    fd, out = tempfile.mkstemp(prefix="vchild")
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            devnull = os.open(os.devnull, os.O_RDWR)
            for i in range(3):
                os.dup2(devnull, i)
            try:
                res = ("ok", func())
            except BaseException as exc:  # noqa
                import traceback

                tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
                res = ("error", tb[-6000:])
            with open(out + ".res", "wb") as f:
                pickle.dump(res, f)
            os.rename(out + ".res", out)
        finally:
            os._exit(0)
    end = time.time() + timeout
    rc = None
    try:
        while time.time() < end:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                rc = os.waitstatus_to_exitcode(status)
                break
            time.sleep(0.004)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if rc is None:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
    try:
        if rc is None:
            raise HarnessError("child timed out")
        if os.path.getsize(out):
            with open(out, "rb") as f:
                return pickle.load(f)
        return "exit", rc
    finally:
        for fn in (out, out + ".res"):
            if os.path.exists(fn):
                os.unlink(fn)


def run_training(case, scratch, *, at=None, kind="kill", probe=None, record=None, custom=None):
    """
    One life of the training process.

    :param probe: (engine) -> picklable, called at the end
    :return: as in_child. value is dict
    """

    def life():
        fault = Fault(scratch, at=at, kind=kind)
        from returnn.config import Config, global_config_ctx
        from returnn.datasets import init_dataset
        from returnn.torch.engine import Engine
        from returnn.log import log
        import returnn.util.basic as util
        import torch

        torch.set_num_threads(1)
        log.initialize(verbosity=[0])
        util.BackendEngine.selected_engine = None
        util.BehaviorVersion._reset()
        cfg = make_config(case, scratch, hook=fault.event, record=record)
        if custom:
            custom(cfg)
        config = Config(cfg)
        util.BehaviorVersion.set(config.int("behavior_version", None))
        util.BackendEngine.select_engine(config=config)
        fault.install()
        with global_config_ctx(config):
            train = init_dataset(train_opts(case))
            evals = {k: init_dataset(o) for k, o in eval_opts(case).items()}
            engine = Engine(config=config)
            engine.init_train_from_config(
                train_data=train, dev_data=evals.get("dev"), eval_data=evals.get("eval")
            )
            engine.train()
            res = {"events": list(fault.log), "step": engine.global_train_step, "epoch": engine.epoch}
            if record is not None:
                res["record"] = record
            if probe:
                res["probe"] = probe(engine)
            return res

    return in_child(life)


def train_opts(case):
    return dataset_opts(
        "train",
        make_seqs(case["n_train"], case["seed"], case["max_len"]),
        seq_ordering=case["order"],
        partition_epoch=case["partition"],
    )


def eval_opts(case):
    return {
        name: dataset_opts(name, make_seqs(3 + i, case["seed"] + 17 + i, case["max_len"]))
        for i, name in enumerate(case["evals"])
    }


def read_lr_file(scratch):
    """parse it independent of the code under test"""
    fn = scratch + "/learning_rates"
    if not os.path.exists(fn):
        return {}
    with open(fn) as f:
        txt = f.read()

    def epoch_data(**kw):
        return kw

    return eval(txt, {"EpochData": epoch_data, "nan": float("nan"), "inf": float("inf"), "np": numpy})


META_KEYS = {":meta:global_train_step", ":meta:effective_learning_rate", ":meta:epoch_num_train_steps", ":meta:global_train_step_end"}


def lr_file_content(scratch):
    res = {}
    for ep, d in read_lr_file(scratch).items():
        err = {k: v for k, v in d["error"].items() if not k.startswith(":meta:") or k in META_KEYS}
        res[ep] = {"lr": d["learningRate"], "error": err}
    return res


def load_pt(fn):
    import torch

    return torch.load(fn, map_location="cpu", weights_only=False)


def tensors_equal(a, b, path=""):
    """
    :return: None, or description of the first difference
    """
    import torch

    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return "%s: %r vs %r" % (path, a, b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: %s %s vs %s %s" % (path, a.shape, a.dtype, b.shape, b.dtype)
        if not torch.equal(torch.nan_to_num(a.double(), nan=123.0), torch.nan_to_num(b.double(), nan=123.0)):
            return "%s: %r vs %r" % (path, a, b)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %s vs %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = tensors_equal(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r vs %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = tensors_equal(x, y, "%s/%i" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    if a != b:
        return "%s: %r vs %r" % (path, a, b)
    return None
