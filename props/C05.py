"""C05: PyTorch data pipeline: from dataset to the padded batch (filter, chunking, batching, bucketing, shuffling)"""

from __future__ import annotations
import math
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen

META_KEYS = ["seq_tag", "seq_idx", "num_seqs", "epoch", "complete_frac"]


def setup():
    import torch  # noqa
    import returnn.torch.data.pipeline  # noqa
    import returnn.torch.data.returnn_dataset_wrapper  # noqa
    import returnn.torch.data.extern_data  # noqa
    import returnn.datasets.map  # noqa
    from returnn.datasets.basic import Dataset  # noqa


@st.composite
def case_strategy(draw):
    n = draw(gen.sizes(1, 14))
    max_len = draw(st.sampled_from([2, 6, 15]))
    rel = draw(st.sampled_from(["same", "same", "half", "other"]))
    chunk = None
    if draw(st.integers(0, 2)) == 0:
        size = draw(st.integers(1, 7))
        step = draw(st.one_of(st.just(size), st.integers(1, 7)))
        chunk = {
            "size": size,
            "step": step,
            "fmt": draw(st.sampled_from(["int", "tuple", "dict", "dicts", "str"])),
            "min": draw(st.sampled_from([0, 0, 1, 2, 3])),
        }
        if rel == "half":
            chunk["fmt"] = "dicts"
    batching = draw(st.sampled_from(["std", "std", "std", "bucket"]))
    return {
        "lens": draw(st.lists(st.integers(0, max_len), min_size=n, max_size=n)),
        "lens2": draw(st.lists(st.integers(0, max_len), min_size=n, max_size=n)),
        "rel": rel,
        "cls_dtype": draw(st.sampled_from(["int32", "int64", "uint8", "uint16", "uint32", "int16"])),
        "scalar": draw(st.booleans()),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted"])),
        "epochs": draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)),
        "filter": draw(
            st.sampled_from([None, None, ["min", 1], ["min", 3], ["max", 4], ["max_d", 3], ["min_d", 2], ["both", 2]])
        ),
        "chunk": chunk,
        "batching": batching,
        "batch_size": draw(st.one_of(st.none(), st.integers(1, 10), st.integers(5, 40))),
        "batch_size_kind": draw(st.sampled_from(["plain", "plain", "dict_data", "dict_both", "func"])),
        "batch_size2": draw(st.integers(1, 30)),
        "max_seqs": draw(st.sampled_from([None, -1, 1, 2, 3, 4])),
        "max_seqs_func": draw(st.integers(0, 3)) == 0,
        "buckets": draw(
            st.lists(
                st.tuples(st.integers(1, 16), st.integers(1, 4)).map(list), min_size=1, max_size=4,
                unique_by=lambda b: b[0]
            )
        ),
        "random_bucket_prob": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
        "shuffle": draw(st.sampled_from([None, None, 1, 2, 3, 100])),
        "seed": draw(gen.seeds()),
        "splits": draw(st.integers(1, 5)),
        "via": draw(st.sampled_from(["direct", "config", "config_train", "config_dev", "callable"])),
        "reset": draw(st.sampled_from(["func", "default", "mp_shared"])),
    }  # fmt: skip


def _nontrivial(case):
    return len(case["lens"]) >= 3 and bool(
        case["chunk"] or case["filter"] or case["batching"] == "bucket" or case["shuffle"] or case["max_seqs"] != 1
    )


def _seqs(case):
    rnd = numpy.random.RandomState(case["seed"])
    seqs = []
    for i, ln in enumerate(case["lens"]):
        if case["chunk"] and case["rel"] == "other":
            lc = ln  # must chunk consistently (unless only the data key is chunked)
            if case["chunk"]["fmt"] == "dict":
                lc = case["lens2"][i]
        else:
            lc = {"same": ln, "half": ln, "other": case["lens2"][i]}[case["rel"]]
        ld = 2 * ln if case["rel"] == "half" else ln
        d = {
            "data": rnd.randint(-99, 99, size=(ld, 2)).astype("float32"),
            "classes": rnd.randint(1, 50, size=(lc,)).astype(case["cls_dtype"]),
        }
        if case["scalar"]:
            d["sc"] = numpy.array(rnd.randint(0, 99), dtype="int32")
        seqs.append(d)
    return seqs


def _keys(case):
    return ["data", "classes"] + (["sc"] if case["scalar"] else [])


def _user_kwargs(item):
    epoch, frac, num = int(item["epoch"]), float(item["complete_frac"]), int(item["num_seqs"])
    return {"epoch": epoch, "seq_idx": int(item["seq_idx"]), "epoch_continuous": epoch - 1 + frac}


def _batching_pipe(case, pipe, cls, opts):
    """create the batching directly, or as it would be specified in the config"""
    from returnn.config import Config
    from returnn.torch.data import pipeline as dp

    via = case.get("via", "direct")
    if via == "direct":
        return cls(pipe, **opts)
    train = via != "config_dev"
    if via == "callable":

        def _batching(dataset, *, train, **_kwargs):
            assert train
            return cls(dataset, **opts)

        config = Config({"torch_batching": _batching, "batch_size": 1, "max_seqs": 1})
    elif cls.__name__ == "BatchingIterDataPipe":
        config = {k: v for k, v in opts.items() if v is not None or k == "batch_size"}
        if via != "config":  # the more specific option has priority
            config["batch_size_" + ("train" if train else "dev")] = config["batch_size"]
            config["batch_size_" + ("dev" if train else "train")] = 1
            config["batch_size"] = 1
        config = Config(config)
    else:
        config = Config({"torch_batching": dict(opts, **{"class": cls.__name__}), "batch_size": 1, "max_seqs": 1})
    return dp.get_batching_iterable_dataset_from_config(dataset=pipe, config=config, train=train)


def check(case):
    import torch
    from returnn.datasets.map import MapDatasetWrapper, FromListDataset
    from returnn.torch.data import pipeline as dp
    from returnn.torch.data import returnn_dataset_wrapper as dw

    seqs = _seqs(case)
    keys = _keys(case)
    chunk = case["chunk"]
    if chunk and case["scalar"] and chunk["fmt"] not in ("dict", "dicts"):
        # all keys would be chunked; scalars cannot be
        keys = ["data", "classes"]
        for s in seqs:
            s.pop("sc")
    order = list(range(len(seqs)))
    if case["order"] == "reverse":
        order = order[::-1]
    if case["order"] == "sorted":
        order.sort(key=lambda i: (len(seqs[i]["data"]), i))

    class _DS(FromListDataset):
        def get_seq_order(self, epoch=None):
            o = order
            if epoch and case["order"] == "random":
                o = [int(i) for i in numpy.random.RandomState(epoch).permutation(len(seqs))]
            return o

    data_types = {
        "data": {"dim": 2, "shape": (None, 2)},
        "classes": {"dim": 60, "sparse": True, "shape": (None,)},
        "sc": {"dim": 100, "sparse": True, "shape": ()},
    }
    ds = MapDatasetWrapper(
        map_dataset=_DS([dict(s) for s in seqs], data_types={k: v for k, v in data_types.items() if k in keys})
    )
    ds.initialize()
    epochs = list(case["epochs"])
    reset = case.get("reset", "func")
    if reset == "default":
        epochs = list(range(1, len(epochs) + 1))
    it = iter(epochs)
    mp_shared = torch.multiprocessing.Value("i")

    def _reset():
        ds.init_seq_order(epoch=next(it))

    if reset == "default":
        _reset = None
    elif reset == "mp_shared":
        _reset = dw.ReturnnDatasetResetMpSharedEpochCallback(ds, mp_shared)

    pipe = dw.ReturnnDatasetIterDataPipe(ds, reset_callback=_reset)
    flt = case["filter"]
    if flt:
        kind, val = flt
        kw = {
            "min": {"min_seq_length": val},
            "max": {"max_seq_length": val},
            "max_d": {"max_seq_length": {"data": val}},
            "min_d": {"min_seq_length": {"data": val}},
            "both": {"min_seq_length": val, "max_seq_length": {"classes": val + 2}},
        }[kind]
        pipe = dp.LenFilterDataPipe(pipe, **kw)
    ck_keys = None
    if chunk:
        size, step, fmt = chunk["size"], chunk["step"], chunk["fmt"]
        f = 2 if case["rel"] == "half" else 1
        mn = {"data": f * chunk["min"], "classes": chunk["min"]}
        if fmt == "int":
            opt, step, ck_keys = size, size, ["data", "classes"]
        elif fmt == "str":
            opt, ck_keys = "%i:%i" % (size, step), ["data", "classes"]
        elif fmt == "tuple":
            opt, ck_keys = (size, step), ["data", "classes"]
        elif fmt == "dict":
            opt, ck_keys = ({"data": f * size}, {"data": f * step}), ["data"]
        else:
            opt = ({"data": f * size, "classes": size}, {"data": f * step, "classes": step})
            ck_keys = ["data", "classes"]
        sizes, steps = {"data": f * size, "classes": size}, {"data": f * step, "classes": step}
        pipe = dp.ChunkingIterDataPipe(pipe, opt, min_chunk_size=mn if f == 2 else chunk["min"])
        if f == 1:
            mn = {"data": chunk["min"], "classes": chunk["min"]}

    bs, bs_kind = case["batch_size"], case["batch_size_kind"]
    if bs is None and bs_kind != "func":
        bs_kind = "plain"

    def _limit(item):
        """:return: dict key -> max padded size"""
        if bs_kind == "plain":
            return {} if bs is None else {"data": bs, "classes": bs}
        if bs_kind == "dict_data":
            return {"data": bs}
        if bs_kind == "dict_both":
            return {"data": bs, "classes": case["batch_size2"]}
        k = _user_kwargs(item)
        v = _bs_func(**k)
        return {"data": v, "classes": v}

    def _bs_func(*, epoch, seq_idx, epoch_continuous, **_kwargs):
        assert epoch - 1 <= epoch_continuous <= epoch
        return (bs or 7) + epoch + (seq_idx % 3) * 2

    def _max_seqs_func(*, epoch, seq_idx, epoch_continuous, **_kwargs):
        return 1 + (epoch + seq_idx // 2) % 3

    def _max_seqs(item):
        if case["max_seqs_func"]:
            return _max_seqs_func(**_user_kwargs(item))
        return case["max_seqs"] if case["max_seqs"] not in (None, -1) else 10**9

    if case["batching"] == "std":
        opt = {
            "plain": bs,
            "dict_data": {"data": bs},
            "dict_both": {"data": bs, "classes": case["batch_size2"]},
            "func": _bs_func,
        }[bs_kind]
        max_seqs = _max_seqs_func if case["max_seqs_func"] else case["max_seqs"]
        pipe = _batching_pipe(case, pipe, dp.BatchingIterDataPipe, {"batch_size": opt, "max_seqs": max_seqs})
    else:
        pipe = _batching_pipe(
            case,
            pipe,
            dp.BucketOrderingIterDataPipe,
            dict(
                buckets=[tuple(b) for b in case["buckets"]],
                length_key="data",
                random_bucket_prob=case["random_bucket_prob"],
                seed=case["seed"],
            ),
        )
    if case["shuffle"]:
        pipe = dp.ShufflingDataPipe(
            pipe, buffer_size=case["shuffle"], monotonic_data_keys=("complete_frac", "seq_idx"), seed=case["seed"]
        )
    loader = dp.create_data_loader_from_batches(pipe, {"num_workers": 0})
    labels = []
    for epoch in epochs:
        mp_shared.value = epoch
        got = list(loader)
        o = order
        if case["order"] == "random":
            o = [int(i) for i in numpy.random.RandomState(epoch).permutation(len(seqs))]
        # the reference
        items = []
        for idx, ci in enumerate(o):
            d = dict(seqs[ci])
            d["seq_tag"] = "seq-%i" % ci
            d["seq_idx"] = idx
            d["epoch"] = epoch
            d["num_seqs"] = len(seqs)
            d["complete_frac"] = numpy.float32((idx + 1) / len(seqs))
            items.append(d)
        if flt:
            kind, val = flt
            lens = lambda d: {k: len(d[k]) for k in ["data", "classes"]}  # noqa
            pred = {
                "min": lambda d: all(v >= val for v in lens(d).values()),
                "max": lambda d: all(v <= val for v in lens(d).values()),
                "max_d": lambda d: len(d["data"]) <= val,
                "min_d": lambda d: len(d["data"]) >= val,
                "both": lambda d: all(v >= val for v in lens(d).values()) and len(d["classes"]) <= val + 2,
            }[kind]
            items = [d for d in items if pred(d)]
        if chunk:
            new = []
            for d in items:
                i = 0
                while i * steps["data"] < len(d["data"]):
                    c = {k: d[k][i * steps[k] : i * steps[k] + sizes[k]] for k in ck_keys}
                    if all(len(c[k]) >= mn[k] for k in ck_keys):
                        new.append(dict(d, **c))
                    i += 1
            items = new
        if case["batching"] == "std":
            exp, cur = [], []
            for d in items:
                if cur:
                    mx = {k: max(len(x[k]) for x in cur + [d]) for k in ["data", "classes"]}
                    if len(cur) >= _max_seqs(d) or any(mx[k] * (len(cur) + 1) > v for k, v in _limit(d).items()):
                        exp.append(cur)
                        cur = []
                cur.append(d)
            if cur:
                exp.append(cur)
        else:
            exp = None
        _check_batches(case, keys, items, exp, got, epoch, seqs, labels)
    return sorted(set(labels))


def _check_batches(case, keys, items, exp, got, epoch, seqs, labels):
    import torch

    # un-collate, checking the padding
    batches = []
    prev_frac = 0.0
    for b in got:
        num = len(b["seq_tag"])
        require(num >= 1, "empty batch")
        lens = {}
        for k in keys:
            t = b[k]
            require(isinstance(t, torch.Tensor) and t.shape[0] == num, "batch dim of %s" % k)
            src = seqs[0][k].dtype
            exp_dtype = {"uint16": "int32", "uint32": "int64"}.get(str(src), str(src))
            require(str(t.dtype) == "torch." + exp_dtype, lambda: "%s: dtype %s from %s" % (k, t.dtype, src))
            if k == "sc":
                require(t.ndim == 1 and "sc:seq_len" not in b, "scalar")
                continue
            sl = b["%s:seq_len" % k]
            require(sl.dtype == torch.int32 and sl.shape == (num,), "seq_len of %s" % k)
            lens[k] = [int(x) for x in sl]
            require(t.shape[1] == max(lens[k]), lambda: "%s not padded to max: %r %r" % (k, t.shape, lens[k]))
            for i, ln in enumerate(lens[k]):
                require(bool((t[i, ln:] == 0).all()), "%s: padding not zero" % k)
        require(int(b["num_seqs"]) == len(seqs) and int(b["epoch"]) == epoch, "num_seqs/epoch")
        frac = float(b["complete_frac"])
        require(0.0 < frac <= 1.0, "complete_frac %r" % frac)
        if case["batching"] == "std":
            require(frac >= prev_frac, "complete_frac not monotonic")
        prev_frac = frac
        batches.append(
            [
                {
                    "seq_tag": str(b["seq_tag"][i]),
                    "seq_idx": int(b["seq_idx"][i]),
                    "frac": frac,
                    **{k: (b[k][i, : lens[k][i]] if k != "sc" else b[k][i]).numpy() for k in keys},
                }
                for i in range(num)
            ]
        )

    def _ident(d, with_idx):
        r = [d["seq_tag"]] + ([int(d["seq_idx"])] if with_idx else [])
        for k in keys:
            r.append(numpy.asarray(d[k]).astype("float64").tolist())
        return r

    flat = [d for b in batches for d in b]
    if exp is not None and not case["shuffle"]:
        # exact
        e = [[_ident(d, True) for d in b] for b in exp]
        g = [[_ident(d, True) for d in b] for b in batches]
        require(e == g, lambda: "batches differ: expected %r\ngot %r" % (e, g))
        for b, eb in zip(batches, exp):
            require(
                math.isclose(b[0]["frac"], float(max(d["complete_frac"] for d in eb)), abs_tol=1e-6), "complete_frac"
            )
        labels.append("exact")
    elif exp is not None:
        # shuffled batches: same batches, each at most once per ..., order of progress kept
        e = sorted([_ident(d, False) for d in b] for b in exp)
        g = sorted([_ident(d, False) for d in b] for b in batches)
        require(e == g, lambda: "shuffled batches differ: expected %r\ngot %r" % (e, g))
        require([d["seq_idx"] for d in flat] == [int(d["seq_idx"]) for d in items], "seq_idx order not kept")
        # batches move only within the buffer
        size = case["shuffle"]
        for i in range(0, len(exp), size):
            e = sorted([_ident(d, False) for d in b] for b in exp[i : i + size])
            g = sorted([_ident(d, False) for d in b] for b in batches[i : i + size])
            require(e == g, "batches moved beyond the shuffle buffer")
        labels.append("shuffled")
    else:
        bounds = sorted(b[0] for b in case["buckets"])
        caps = dict(tuple(b) for b in case["buckets"])
        items = [d for d in items if len(d["data"]) <= bounds[-1]]
        e = sorted(_ident(d, False) for d in items)
        g = sorted(_ident(d, False) for d in flat)
        require(e == g, lambda: "bucketing lost/duplicated/changed seqs: expected %r\ngot %r" % (e, g))
        for b in batches:
            ok = [s for s in bounds if s >= max(len(d["data"]) for d in b) and len(b) <= caps[s]]
            require(ok, lambda: "bucket batch %r does not fit to any bucket" % [len(d["data"]) for d in b])
            if case["random_bucket_prob"] == 0.0:
                fit = {min(s for s in bounds if s >= len(d["data"])) for d in b}
                require(len(fit) == 1, "batch with seqs from different buckets")
                require(len(b) <= caps[fit.pop()], "bucket overfull")
        if case["random_bucket_prob"] == 0.0:
            # only the last batch of a bucket is not full
            for s in bounds:
                lo = max([0] + [x + 1 for x in bounds if x < s])
                n = sum(1 for d in items if lo <= len(d["data"]) <= s)
                sz = [len(b) for b in batches if lo <= len(b[0]["data"]) <= s]
                require(len(sz) == -(-n // caps[s]), lambda: "bucket %i: %i seqs in batches %r" % (s, n, sz))
        labels.append("bucket")


@st.composite
def split_strategy(draw):
    n = draw(gen.sizes(1, 9))
    return {
        "lens": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
        "lens2": draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)),
        "splits": draw(st.one_of(st.integers(1, n), st.lists(st.integers(1, 3), min_size=1, max_size=5))),
        "to_extern": draw(st.booleans()),
        "float_dtype": draw(st.sampled_from([None, None, "bfloat16", "float64"])),
        "swap": draw(st.booleans()),
    }


def check_split(case):
    """split of a batch (e.g. after out-of-memory), and conversion to the model input"""
    import torch
    from returnn.torch.data import pipeline as dp
    from returnn.torch.data import extern_data as ed
    from returnn.tensor import Tensor, TensorDict, Dim, batch_dim

    n = len(case["lens"])
    seqs = []
    for i in range(n):
        d = {
            "data": (numpy.arange(2 * case["lens"][i]).reshape(-1, 2) + 100 * i + 1).astype("float32"),
            "classes": (numpy.arange(case["lens2"][i]) + 10 * i + 1).astype("int32"),
        }
        if case["swap"]:
            d = dict(reversed(list(d.items())))
        d.update(
            seq_tag=numpy.array("seq-%i" % i),
            seq_idx=numpy.array(i),
            epoch=numpy.array(3),
            num_seqs=numpy.array(n),
            complete_frac=numpy.array((i + 1) / n, dtype="float32"),
        )
        seqs.append(d)
    raw = dp.collate_batch(seqs)
    splits = case["splits"]
    if isinstance(splits, list):
        # cut to sum n
        res, left = [], n
        for x in splits:
            x = min(x, left)
            if x:
                res.append(x)
            left -= x
        if left:
            res.append(left)
        splits = res
        parts = ed.raw_dict_split_batch(raw, splits=splits)
        require(len(parts) == len(splits), "num parts")
        sizes = splits
    else:
        require(ed.raw_dict_can_split_batch(raw, num_splits=splits), "can split")
        parts = ed.raw_dict_split_batch(raw, splits=splits)
        require(len(parts) == splits, "num parts")
        sizes = [len(p["seq_tag"]) for p in parts]
        require(sum(sizes) == n and min(sizes) >= 1, lambda: "part sizes %r of %i" % (sizes, n))
    off = 0
    time_dim, time2_dim = Dim(None, name="time"), Dim(None, name="time2")
    template = TensorDict()
    template.data["data"] = Tensor("data", [batch_dim, time_dim, Dim(2, name="f")], "float32")
    template.data["classes"] = Tensor("classes", [batch_dim, time2_dim], "int32", sparse_dim=Dim(99, name="c"))
    template.data["seq_tag"] = Tensor("seq_tag", [batch_dim], "string")
    for p, size in zip(parts, sizes):
        ref = dp.collate_batch(seqs[off : off + size])
        require(set(p) == set(ref), lambda: "keys %r vs %r" % (set(p), set(ref)))
        for k in ref:
            if k in ("complete_frac",):
                require(float(p[k]) == 1.0, "complete_frac of the part")
                continue
            require(type(p[k]) is type(ref[k]), "type of %s" % k)
            require(tuple(p[k].shape) == tuple(ref[k].shape), lambda: "%s: %r vs %r" % (k, p[k].shape, ref[k].shape))
            require(bool((p[k] == ref[k]).all()), lambda: "%s: %r vs %r" % (k, p[k], ref[k]))
        if case["to_extern"]:
            x = ed.raw_dict_to_extern_data(p, extern_data_template=template, device="cpu", float_dtype=case.get("float_dtype"))
            require(x.data["data"].dtype == (case.get("float_dtype") or "float32"), lambda: "float dtype %r" % x.data["data"])
            require(x.data["classes"].dtype == "int32", lambda: "int dtype %r" % x.data["classes"])
            for k in ("data", "classes"):
                require(x.data[k].raw_tensor.dtype == getattr(torch, x.data[k].dtype), lambda: "raw dtype of %r" % x.data[k])
            require(int(batch_dim.get_dim_value()) == size, "batch dim value")
            for k, dim in [("data", time_dim), ("classes", time2_dim)]:
                require(x.data[k].dims[1] is dim or x.data[k].dims[1] == dim, "dim")
                ln = [len(s[k]) for s in seqs[off : off + size]]
                require(dim.dyn_size_ext.raw_tensor.tolist() == ln, lambda: "dyn size of %s" % k)
                require(int(dim.get_dim_value()) == max(ln), "dim value")
                require(bool((x.data[k].raw_tensor == ref[k].to(x.data[k].raw_tensor.dtype)).all()), "extern data %s" % k)
            require([str(t) for t in x.data["seq_tag"].raw_tensor] == [str(s["seq_tag"]) for s in seqs[off : off + size]], "tags")
        off += size
    return ["parts_%i" % min(len(parts), 3)]


SUBS = [
    Sub("pipeline", case_strategy, check, quick=2500, thorough=60000, nontrivial=_nontrivial),
    Sub("split", split_strategy, check_split, quick=800, thorough=20000, nontrivial=lambda c: len(c["lens"]) >= 2),
]
