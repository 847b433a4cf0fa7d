"""
C12: the forward task delivers every sequence exactly once, with exactly its own unpadded outputs.
"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from vlib import gen, enginh
from vlib.core import Sub, require, Violation

DIM_IN = 3
N_CLS = 5

OUTS = [
    "ident",
    "ident_rev",
    "sum",
    "len",
    "frames_bool",
    "argmax",
    "pool",
    "select",
    "outer",
    "beam",
    "beam_dyn",
    "static3",
    "bf16",
    "classes",
    "classes64",
    "linear",
    "shift",
    "window",
    "raw_torch",
    "tags",
    "rep",
]


def setup():
    enginh.setup()


@st.composite
def case_st(draw):
    n = draw(gen.sizes(1, 9))
    lens = draw(st.lists(st.integers(1, 7), min_size=n, max_size=n))
    empty = draw(st.booleans()) and draw(st.booleans())
    if empty:
        lens = [0 if v == 7 else v for v in lens]
    c = {
        "lens": lens,
        "clens": draw(st.one_of(st.none(), st.lists(st.integers(1, 5), min_size=n, max_size=n))),
        "seed": draw(gen.seeds()),
        "order": draw(st.sampled_from(["default", "reverse", "sorted", "sorted_reverse", "random", "laplace:.3"])),
        "sort_dataset": draw(st.sampled_from([None, True, False])),
        "max_seqs": draw(st.sampled_from([1, 2, 3, 4, 100])),
        "batch_size": draw(st.sampled_from([7, 10, 15, 1000])),
        "runs": draw(st.sampled_from([1, 1, 2])),
        "oom": draw(st.sampled_from([None, None, None, 1, 2, 3])),
        "batch_kind": draw(st.sampled_from(["global", "global", "own"])),
        "own_len_dim": draw(st.booleans()),
        "expected": draw(st.booleans()),
        "skip": draw(st.sampled_from([None, None, None, "min", "max"])),
        "dataset": draw(st.sampled_from(["static", "static", "hdf"])),
        "outs": draw(st.lists(st.sampled_from(OUTS), min_size=1, max_size=4, unique=True)),
        "init_epoch": draw(st.sampled_from([True, True, False])),
    }
    return c


def _data(case):
    rnd = numpy.random.RandomState(case["seed"])
    seqs = []
    for i, t in enumerate(case["lens"]):
        u = case["clens"][i] if case["clens"] else t
        seqs.append(
            {
                "data": rnd.randint(-8, 9, (t, DIM_IN)).astype("float32"),
                "classes": rnd.randint(0, N_CLS, (u,)).astype("int32"),
            }
        )
    return seqs


def _make_dataset(case, seqs, tags, scratch):
    from returnn.datasets import init_dataset

    if case["dataset"] == "hdf":
        from returnn.datasets.hdf import SimpleHDFWriter
        import os

        fn = scratch + "/data.hdf"
        if os.path.exists(fn):
            os.remove(fn)
        w = SimpleHDFWriter(fn, dim=DIM_IN, ndim=2, extra_type={"classes": (N_CLS, 1, "int32")})
        for s, tag in zip(seqs, tags):
            w.insert_batch(
                s["data"][None],
                seq_len={0: [len(s["data"])]},
                seq_tag=[tag],
                extra={"classes": s["classes"][None]},
            )
        w.close()
        return init_dataset({"class": "HDFDataset", "files": [fn], "seq_ordering": case["order"]})
    opts = {
        "class": "StaticDataset",
        "data": seqs,
        "input_dim": DIM_IN,
        "output_dim": {"data": [DIM_IN, 2], "classes": [N_CLS, 1]},
        "seq_ordering": case["order"],
    }
    return init_dataset(opts)


WEIGHT = numpy.array([[1.0, -2.0], [0.5, 3.0], [-1.0, 0.25]], dtype="float32")


def _ref(kind, x, y, tag):
    """one sequence. (expected array, expected lens of the dims)"""
    t, u = len(x), len(y)
    if kind == "ident":
        return x
    if kind == "ident_rev":
        return x.transpose(1, 0)
    if kind == "sum":
        return x.sum(axis=0)
    if kind == "len":
        return numpy.array(t)
    if kind == "frames_bool":
        return x[:, 0] > x[:, 1]
    if kind == "argmax":
        return x.argmax(axis=-1)
    if kind == "pool":
        return numpy.array([x[i : i + 2].max(axis=0) for i in range(0, t, 2)]).reshape((-(-t // 2), DIM_IN))
    if kind == "select":
        return x[x[:, 0] > 0]
    if kind == "outer":
        return x[:, 0][:, None] * y[None, :].astype("float32")
    if kind == "beam":
        return numpy.stack([x[:, 0] + b for b in range(3)])
    if kind == "beam_dyn":
        # beam b keeps only the frames with (index % (b + 1)) == 0
        ls = [len(range(0, t, b + 1)) for b in range(3)]
        res = numpy.zeros((3, max(ls)), dtype="float32")
        for b in range(3):
            res[b, : ls[b]] = x[:, 1][:: b + 1]
        return res, ls
    if kind == "static3":
        return x.sum(axis=0)[None, :] * numpy.arange(3)[:, None]
    if kind == "bf16":
        return x
    if kind in ("classes", "classes64"):
        return y
    if kind == "linear":
        return x @ WEIGHT
    if kind == "shift":
        return numpy.concatenate([x[1:, 0], numpy.full((min(t, 1),), -7.0)])
    if kind == "window":
        p = numpy.concatenate([numpy.zeros((1,)), x[:, 0], numpy.zeros((1,))])
        return numpy.array([p[i : i + 3] for i in range(t)]).reshape((t, 3))
    if kind == "raw_torch":
        return x.sum(axis=0) * 2.0
    if kind == "tags":
        return tag
    if kind == "rep":
        return numpy.concatenate([[9.0], x[:, 0], [9.0, 9.0]])
    raise KeyError(kind)


def _forward_out(kind, rf, extern_data, model, dims, expected):
    """build and mark"""
    from returnn.tensor import Dim, Tensor

    B, T, F, U = dims
    x, y = extern_data["data"], extern_data["classes"]
    ctx = rf.get_run_ctx()

    def mark(v, d):
        if expected is None:
            ctx.mark_as_output(v, kind, dims=d)
        else:
            exp = expected[kind].dims
            for a, b in zip(exp, d):
                if a is not b and a.size is None:
                    a.declare_same_as(b)
            ctx.mark_as_output(v, kind, dims=exp)

    def col(i):
        return rf.gather(x, axis=F, indices=i)

    if kind == "ident":
        mark(x, [B, T, F])
    elif kind == "ident_rev":
        mark(x, [F, T, B] if expected is None else [B, F, T])
    elif kind == "sum":
        mark(rf.reduce_sum(x, axis=T), [B, F])
    elif kind == "len":
        mark(rf.copy_to_device(T.get_size_tensor(), "cpu"), [B])
    elif kind == "frames_bool":
        mark(col(0) > col(1), [B, T])
    elif kind == "argmax":
        mark(rf.cast(rf.reduce_argmax(x, axis=F), "int32"), [B, T])
    elif kind == "pool":
        v, t2 = rf.max_pool1d(x, pool_size=2, padding="same", in_spatial_dim=T)
        mark(v, [B, t2, F])
    elif kind == "select":
        v, t2 = rf.masked_select(x, mask=col(0) > 0, dims=[T])
        mark(v, [B, t2, F])
    elif kind == "outer":
        mark(col(0) * rf.cast(y, "float32"), [B, T, U])
    elif kind == "beam":
        beam = Dim(3, name="beam")
        v = col(0) + rf.cast(rf.range_over_dim(beam), "float32")
        mark(v, [B, beam, T])
    elif kind == "beam_dyn":
        beam = Dim(3, name="beam")
        r = rf.range_over_dim(T)
        m = rf.logical_and((r % (rf.range_over_dim(beam) + 1)) == 0, col(1) < 100.0)
        v, t2 = rf.masked_select(rf.expand_dim(col(1), beam), mask=m, dims=[T])
        mark(v, [B, beam, t2])
    elif kind == "static3":
        s = Dim(3, name="s")
        v = rf.reduce_sum(x, axis=T) * rf.cast(rf.range_over_dim(s), "float32")
        mark(v, [B, s, F])
    elif kind == "bf16":
        mark(rf.cast(x, "bfloat16"), [B, T, F])
    elif kind == "classes":
        mark(y, [B, U])
    elif kind == "classes64":
        mark(rf.cast(y, "int64"), [B, U])
    elif kind == "linear":
        mark(model(x), [B, T, model.out_dim])
    elif kind == "shift":
        mark(rf.shift_left(col(0), axis=T, pad_value=-7.0), [B, T])
    elif kind == "window":
        w = Dim(3, name="w")
        v = rf.window(col(0), spatial_dim=T, window_dim=w, padding="same")
        mark(v[0] if isinstance(v, tuple) else v, [B, T, w])
    elif kind == "raw_torch":
        raw = rf.reduce_sum(x, axis=T).copy_compatible_to_dims([B, F]).raw_tensor
        if expected is None:
            ctx.mark_as_output(raw * 2.0, kind)
        else:
            ctx.mark_as_output(raw * 2.0, kind, dims=expected[kind].dims)
    elif kind == "tags":
        ctx.mark_as_output(extern_data["seq_tag"], kind, dims=[B])
    elif kind == "rep":
        v, (t2,) = rf.pad(col(0), axes=[T], padding=[(1, 2)], value=9.0)
        mark(v, [B, t2])
    else:
        raise KeyError(kind)


def check_forward(case):
    import tempfile
    import shutil

    scratch = tempfile.mkdtemp(prefix="vc12")
    try:
        return _check_forward(case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check_forward(case, scratch):
    import torch
    import returnn.frontend as rf
    from returnn.config import Config, global_config_ctx
    from returnn.tensor import Dim, batch_dim, Tensor
    from returnn.torch.engine import Engine
    from returnn.forward_iface import ForwardCallbackIface
    from returnn.log import log
    import returnn.util.basic as util

    outs = list(case["outs"])
    if case["batch_kind"] == "own":
        outs = [k for k in outs if k != "raw_torch"] or ["ident"]
    if not (case["clens"] or case["own_len_dim"]):  # U is T
        outs = [k for k in outs if k != "outer"] or ["ident"]
    seqs = _data(case)
    if min(case["lens"]) == 0:
        # not defined: pooling, windows of nothing, etc
        outs = [k for k in outs if k not in ("pool", "window", "shift", "rep", "select", "beam_dyn")] or ["ident"]
    tags = ["tag-%i%s" % (i, "x" * (i % 4)) for i in range(len(seqs))]
    util.BackendEngine.selected_engine = None
    util.BehaviorVersion._reset()
    log.initialize(verbosity=[0])
    B = Dim(None, name="own_batch") if case["batch_kind"] == "own" else batch_dim
    T = Dim(None, name="time")
    own = bool(case["clens"]) or case["own_len_dim"]
    U = Dim(None, name="ctime") if own else T
    F = Dim(DIM_IN, name="feat")
    C = Dim(N_CLS, name="classes")
    out_dim = Dim(2, name="out")
    step_sizes = []

    class Model(rf.Module):
        def __init__(self):
            super().__init__()
            self.out_dim = out_dim
            self.lin = rf.Parameter([F, out_dim])
            self.lin.initial = WEIGHT

        def __call__(self, x):
            return rf.matmul(x, self.lin, reduce=F)

    def get_model(**_kwargs):
        return Model()

    state = {"expected": None}

    def forward_step(*, model, extern_data, **_kwargs):
        n = int(B.get_dim_value())
        if case["oom"] and n > case["oom"]:
            raise torch.cuda.OutOfMemoryError("CUDA out of memory (injected)")
        step_sizes.append(n)
        for k in outs:
            _forward_out(k, rf, extern_data, model, (B, T, F, U), state["expected"])

    cfg = dict(
        task="forward",
        backend="torch",
        device="cpu",
        behavior_version=24,
        allow_random_model_init=True,
        log_verbosity=[0],
        extern_data={
            "data": {"dims": [B, T, F], "feature_dim_axis": 2, "dtype": "float32"},
            "classes": {"dims": [B, U], "sparse_dim": C, "dtype": "int32"},
        },
        get_model=get_model,
        forward_step=forward_step,
        batch_size=case["batch_size"],
        max_seqs=case["max_seqs"],
        torch_dataloader_opts={"num_workers": 0},
        random_seed=1,
        forward_auto_split_batch_on_oom=bool(case["oom"]),
    )
    if case["sort_dataset"] is not None:
        cfg["sort_dataset"] = case["sort_dataset"]
    keep = list(range(len(seqs)))
    # batch_size is a limit per batch; a longer seq is a batch of its own.
    if case["skip"] == "min":
        cfg["min_seq_length"] = 3
        keep = [i for i in keep if len(seqs[i]["data"]) >= 3 and len(seqs[i]["classes"]) >= 3]
    elif case["skip"] == "max":
        cfg["max_seq_length"] = 4
        keep = [i for i in keep if len(seqs[i]["data"]) <= 4 and len(seqs[i]["classes"]) <= 4]
    if case["expected"]:
        def dyn(n):
            return Dim(None, name=n)

        shapes = {
            "ident": [B, T, F], "ident_rev": [B, F, T], "sum": [B, F], "len": [B], "frames_bool": [B, T], "argmax": [B, T],
            "pool": [B, dyn("tp"), F], "select": [B, dyn("ts"), F], "outer": [B, T, U], "bf16": [B, T, F],
            "classes": [B, U], "classes64": [B, U], "linear": [B, T, out_dim], "shift": [B, T], "raw_torch": [B, F],
            "tags": [B], "rep": [B, dyn("tr")],
        }
        if all(k in shapes for k in outs):
            dtypes = {"len": "int32", "frames_bool": "bool", "argmax": "int32", "bf16": "bfloat16", "classes": "int32",
                      "classes64": "int64", "tags": "string"}
            sparse = {"argmax": F, "classes": C, "classes64": C}
            cfg["model_outputs"] = {
                k: Tensor(k, dims=shapes[k], dtype=dtypes.get(k, "float32"), sparse_dim=sparse.get(k)) for k in outs
            }
            state["expected"] = cfg["model_outputs"]
    config = Config(cfg)
    labels = sorted(outs) + [case["dataset"], "oom" if case["oom"] else "no_oom"]
    with global_config_ctx(config):
        util.BehaviorVersion.set(config.int("behavior_version", None))
        util.BackendEngine.select_engine(config=config)
        engine = Engine(config=config)
        engine.init_network_from_config(config)
        for _ in range(case["runs"]):
            dataset = _make_dataset(case, seqs, tags, scratch)
            if not case["init_epoch"]:
                dataset.init_seq_order(epoch=1)
            got = []
            log_ = []

            class Callback(ForwardCallbackIface):
                def init(self, *, model):
                    log_.append("init")
                    require(isinstance(model, Model), "init: model")

                def process_seq(self, *, seq_tag, outputs):
                    res = {}
                    for k, v in outputs.data.items():
                        require(isinstance(v.raw_tensor, numpy.ndarray), lambda: "%s is %r" % (k, type(v.raw_tensor)))
                        require(B not in v.dims, lambda: "%s %s has batch dim" % (k, v))
                        require(
                            tuple(int(d.get_dim_value()) for d in v.dims) == v.raw_tensor.shape,
                            lambda: "%s: dims %s vs shape %s" % (k, v.dims, v.raw_tensor.shape),
                        )
                        ls = None
                        if k == "beam_dyn":
                            se = v.dims[1].dyn_size_ext
                            require(len(se.dims) == 1, lambda: "beam sizes %s" % se)
                            ls = [int(i) for i in numpy.asarray(se.raw_tensor)]
                        res[k] = (v.raw_tensor.copy(), ls, v.dtype, v.sparse_dim)
                    got.append((seq_tag, res))
                    log_.append("seq")

                def finish(self):
                    log_.append("finish")

            step_sizes.clear()
            engine.forward_with_callback(
                dataset=dataset,
                callback=Callback(),
                dataset_init_epoch=case["init_epoch"],
                allow_skipping_seqs=bool(case["skip"]),
            )
            require(log_[:1] == ["init"] and log_[-1:] == ["finish"], lambda: "callback calls %s" % log_)
            require(log_.count("init") == 1 and log_.count("finish") == 1, lambda: "callback calls %s" % log_)
            require(sum(step_sizes) == len(got), "more or less seqs than in the batches")
            names = tags if case["dataset"] == "hdf" else ["seq-%i" % i for i in range(len(seqs))]
            require(
                sorted(t for t, _ in got) == sorted(names[i] for i in keep),
                lambda: "seqs %s, expected %s" % ([t for t, _ in got], [names[i] for i in keep]),
            )
            by_tag = {n: i for i, n in enumerate(names)}
            if case["order"] == "default" and not case["init_epoch"]:
                require([t for t, _ in got] == [names[i] for i in keep], "order")
            for tag, res in got:
                require(isinstance(tag, str), "seq tag type %r" % type(tag))
                i = by_tag[tag]
                require(sorted(res) == sorted(outs), lambda: "outputs %s" % sorted(res))
                for k, (v, ls, dtype, sd) in res.items():
                    ref = _ref(k, seqs[i]["data"], seqs[i]["classes"], tag)
                    if k == "tags":
                        require(str(v) == ref, lambda: "tag output %r vs %r" % (v, ref))
                        continue
                    if k == "beam_dyn":
                        ref, rls = ref
                        require(ls == rls, lambda: "%s %s: sizes %s vs %s" % (tag, k, ls, rls))
                        for b in range(3):
                            require(
                                numpy.array_equal(v[b, : rls[b]], ref[b, : rls[b]]),
                                lambda: "%s %s: %s vs %s" % (tag, k, v, ref),
                            )
                        require(v.shape == ref.shape, lambda: "%s %s: shape %s vs %s" % (tag, k, v.shape, ref.shape))
                        continue
                    require(
                        v.shape == ref.shape and numpy.allclose(v.astype("float64"), ref.astype("float64"), atol=1e-4),
                        lambda: "%s %s: got %s %s, expected %s %s" % (tag, k, v.shape, v.tolist(), ref.shape, ref.tolist()),
                    )
                    if k in ("classes", "classes64"):
                        require(sd == C, lambda: "%s sparse dim %s" % (k, sd))
                    if k == "classes64":
                        require(v.dtype == numpy.int64, lambda: "dtype %s" % v.dtype)
            if case["oom"]:
                require(all(s <= case["oom"] for s in step_sizes), "oom split")
    return labels


SUBS = [
    Sub(
        "forward",
        case_st,
        check_forward,
        quick=800,
        thorough=60000,
        nontrivial=lambda c: len(set(c["lens"])) > 1 and c["max_seqs"] > 1,
    ),
]
