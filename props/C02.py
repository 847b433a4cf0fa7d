"""C02: what is written to a HDF file is what is read back"""

from __future__ import annotations
import os
import tempfile
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen


def setup():
    import returnn.datasets.hdf  # noqa
    import returnn.datasets.generating  # noqa


FLOATS = ["float32", "float32", "float64", "float16"]
INTS = ["int32", "int32", "uint8", "int64", "int16", "int8"]


@st.composite
def writer_case(draw):
    kind = draw(st.sampled_from(["dense", "dense", "sparse", "sparse", "sparse_nodim", "dense2d", "sparse2d", "notime"]))
    num_files = draw(st.sampled_from([1, 1, 2, 3]))
    dim = draw(st.integers(1, 5))
    extras = {}
    for key in draw(st.lists(st.sampled_from(["classes", "a", "zz", "align", "B"]), unique=True, max_size=3)):
        ek = draw(st.sampled_from(["sparse", "dense", "scalar", "string"]))
        extras[key] = {
            "kind": ek,
            "dim": draw(st.integers(1, 4)),
            "dtype": draw(
                st.sampled_from(FLOATS if ek in ("dense", "rank3") else ["int32"] if ek == "scalar" else INTS)
            ),
        }
    files = []
    for _ in range(num_files):
        batches = []
        for _ in range(draw(st.integers(1, 4))):
            n = draw(st.integers(1, 4))
            lens = draw(st.lists(draw(st.sampled_from([st.integers(0, 6), st.integers(1, 3), st.integers(0, 1)])),
                                 min_size=n, max_size=n))  # fmt: skip
            batches.append({"lens": lens, "lens2": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
                            "extra_len": draw(st.integers(0, 4))})  # fmt: skip
        # second part of the batches gets written by re-opening the file
        files.append({"batches": batches, "extend_from": draw(st.sampled_from([None, None, 1, 2]))})
    return {
        "kind": kind,
        "dim": dim,
        "dtype": draw(st.sampled_from(FLOATS if kind in ("dense", "dense2d", "notime") else INTS)),
        "extras": extras,
        # further streams which only exist in later files, ignored by the dataset
        "more": draw(st.sampled_from([[], [], ["AA"], ["mm"], ["zzz"], ["AA", "mm", "zzz"]])) if extras else [],
        "declare_extra": draw(st.booleans()),
        "labels": draw(st.booleans()),
        "files": files,
        "tag_style": draw(st.sampled_from(["ascii", "path", "unicode", "bytes"])),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted", "sorted_reverse", "laplace:.2"])),
        "partition": draw(st.sampled_from([None, None, 2, 3])),
        "epoch": draw(st.integers(1, 5)),
        "access": draw(st.sampled_from(["one", "window", "all", "nonmonotonic"])),
        "seed": draw(gen.seeds()),
    }


def _tag(style, i):
    if style == "path":
        return "corpus/rec-%i/%i" % (i // 3, i)
    if style == "unicode":
        return "s\u00e4tz-\u4e2d%i" % i
    return "seq-%i" % i


def _mk(rnd, shape, dtype, dim=None):
    if dtype.startswith("float"):
        return rnd.normal(size=shape).astype(dtype)
    hi = dim if dim is not None else 100
    return rnd.randint(0, max(hi, 1), size=shape).astype(dtype)


def check_writer(case):
    from returnn.datasets.hdf import SimpleHDFWriter, HDFDataset

    rnd = numpy.random.RandomState(case["seed"])
    kind, dim, dtype = case["kind"], case["dim"], case["dtype"]
    ndim = {"dense": 2, "sparse": 1, "sparse_nodim": 1, "dense2d": 3, "sparse2d": 2, "notime": 1}[kind]
    sparse = kind.startswith("sparse")
    expected = []  # (tag, {key: array}) in corpus order
    labels = ["lab%i" % i for i in range(dim)] if case["labels"] and kind != "sparse_nodim" else None
    extra_labels = {
        k: ["%s-%i" % (k, i) for i in range(v["dim"])]
        for k, v in case["extras"].items()
        if case["labels"] and v["kind"] in ("sparse", "dense")
    }
    with tempfile.TemporaryDirectory() as d:
        filenames = []
        for fi, f in enumerate(case["files"]):
            fn = "%s/data%i.hdf" % (d, fi)
            filenames.append(fn)
            parts = [f["batches"]]
            if f["extend_from"] and f["extend_from"] < len(f["batches"]):
                parts = [f["batches"][: f["extend_from"]], f["batches"][f["extend_from"] :]]
            old_content = None
            for pi, part in enumerate(parts):
                kw = {}
                if case["declare_extra"] and case["extras"] and pi == 0:
                    kw["extra_type"] = {k: _extra_type(v) for k, v in case["extras"].items()}
                    if fi >= 1:
                        kw["extra_type"].update({k: (5, 1, "int32") for k in case.get("more") or []})
                    if extra_labels:
                        kw["extra_labels"] = extra_labels
                writer = SimpleHDFWriter(
                    fn, dim=None if kind == "sparse_nodim" else dim, ndim=ndim, labels=labels if pi == 0 else None,
                    extend_existing_file=pi > 0, **kw,
                )  # fmt: skip
                for b in part:
                    lens, lens2 = b["lens"], b["lens2"]
                    n = len(lens)
                    if kind == "notime":
                        inputs, seq_len = _mk(rnd, (n, dim), dtype), {}
                    elif kind == "dense":
                        inputs, seq_len = _mk(rnd, (n, max(lens), dim), dtype), {0: lens}
                    elif kind in ("sparse", "sparse_nodim"):
                        inputs, seq_len = _mk(rnd, (n, max(lens)), dtype, dim if kind == "sparse" else None), lens
                    elif kind == "dense2d":
                        inputs = _mk(rnd, (n, max(lens), max(lens2), dim), dtype)
                        seq_len = {0: lens, 1: numpy.array(lens2)}
                    else:
                        inputs = _mk(rnd, (n, max(lens), max(lens2)), dtype, dim)
                        seq_len = {0: numpy.array(lens), 1: lens2}
                    extra = {}
                    for key, e in case["extras"].items():
                        tlen = b["extra_len"]
                        if e["kind"] == "scalar":
                            extra[key] = _mk(rnd, (n,), e["dtype"])
                        elif e["kind"] == "sparse":
                            extra[key] = _mk(rnd, (n, tlen), e["dtype"], e["dim"])
                        elif e["kind"] == "dense":
                            extra[key] = _mk(rnd, (n, tlen, e["dim"]), e["dtype"])
                        elif e["kind"] == "rank3":
                            extra[key] = _mk(rnd, (n, tlen, 2, e["dim"]), e["dtype"])
                        else:
                            extra[key] = numpy.array(
                                [["w\u00f6rd%i" % rnd.randint(100) for _ in range(max(tlen, 1))] for _ in range(n)],
                                dtype=object,
                            )
                    tags = [_tag(case["tag_style"], len(expected) + i) for i in range(n)]
                    for i in range(n):
                        x = inputs[i]
                        if kind == "notime":
                            x = x[None]
                        else:
                            x = x[: lens[i]]
                            if kind == "dense2d":
                                x = x[:, : lens2[i]].reshape(lens[i] * lens2[i], dim)
                            elif kind == "sparse2d":
                                x = x[:, : lens2[i]].reshape(lens[i] * lens2[i])
                        exp = {"data": x}
                        if kind in ("dense2d", "sparse2d"):
                            exp["sizes"] = numpy.array([lens[i], lens2[i]], dtype="int32")
                        for key, v in extra.items():
                            exp[key] = v[i : i + 1] if v.ndim == 1 else v[i]
                        expected.append((tags[i], exp))
                    if fi >= 1:
                        for ki, key in enumerate(case.get("more") or []):
                            extra[key] = _mk(rnd, (n, b["extra_len"] + 1 + ki), "int32", 5)
                    if case["tag_style"] == "bytes":
                        tags = [t.encode("utf8") for t in tags]
                    writer.insert_batch(inputs, seq_len=seq_len, seq_tag=tags, extra=extra or None)
                if pi == 0:
                    require(not os.path.exists(fn), "file visible before close")
                else:
                    require(open(fn, "rb").read() == old_content, "existing file changed before close")
                writer.close()
                old_content = open(fn, "rb").read()
            require(sorted(os.listdir(d)) == sorted(os.path.basename(f_) for f_ in filenames), "left over files")

        kw = {}
        if case["partition"]:
            kw["partition_epoch"] = case["partition"]
        ds = HDFDataset(files=filenames, seq_ordering=case["order"], **kw)
        ds.initialize()
        keys = sorted(expected[0][1].keys())
        check_reader(ds, expected, keys, case["epoch"], case["access"], partition=case["partition"] or 1)
        require(ds.get_data_dtype("data") == dtype, lambda: "dtype %r" % ds.get_data_dtype("data"))
        require(ds.is_data_sparse("data") == sparse, "sparse flag of data")
        if kind != "sparse_nodim":
            require(ds.get_data_dim("data") == dim, lambda: "dim %r vs %r" % (ds.get_data_dim("data"), dim))
        if labels:
            require(ds.labels.get("data") == labels, lambda: "labels %r" % (ds.labels,))
        for key, e in case["extras"].items():
            if e["kind"] != "string":
                require(ds.get_data_dtype(key) == e["dtype"], lambda: "dtype of %s: %s" % (key, ds.get_data_dtype(key)))
                require(ds.is_data_sparse(key) == (e["kind"] in ("sparse", "scalar")), lambda: "sparse flag of %s" % key)
            if e["kind"] in ("dense", "rank3"):
                require(ds.get_data_dim(key) == e["dim"], lambda: "dim of %s" % key)
            if case["declare_extra"] and key in extra_labels:
                require(ds.labels.get(key) == extra_labels[key], lambda: "labels of %s: %r" % (key, ds.labels.get(key)))
        del ds
    return [kind, "access_" + case["access"]] + ["extra_" + e["kind"] for e in case["extras"].values()] + (
        ["extend"] if any(f["extend_from"] and f["extend_from"] < len(f["batches"]) for f in case["files"]) else []
    )


def _extra_type(e):
    k = e["kind"]
    return {
        "scalar": (1, 0, e["dtype"]),
        "sparse": (e["dim"], 1, e["dtype"]),
        "dense": (e["dim"], 2, e["dtype"]),
        "rank3": (e["dim"], 3, e["dtype"]),
        "string": (1, 1, "string"),
    }[k]


def _eq(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "O" or b.dtype.kind in "OU":
        f = lambda s: s.decode("utf8") if isinstance(s, bytes) else s  # noqa
        return [f(x) for x in a.flat] == [f(x) for x in b.flat]
    if a.dtype != b.dtype:
        return False
    return bool(numpy.array_equal(a, b))


def check_reader(ds, expected, keys, epoch, access, partition=1):
    """dataset content over the full epoch which includes `epoch` is `expected`"""
    by_tag = {tag: (i, exp) for i, (tag, exp) in enumerate(expected)}
    require(sorted(ds.get_data_keys()) == keys, lambda: "data keys %r vs %r" % (ds.get_data_keys(), keys))
    require(ds.get_all_tags() == [t for t, _ in expected], lambda: "all tags %r" % (ds.get_all_tags(),))
    require(ds.get_total_num_seqs() == len(expected), "total num seqs")
    seen = []
    first = (epoch - 1) // partition * partition + 1
    for ep in range(first, first + partition):
        ds.init_seq_order(epoch=ep)
        n = 0
        while ds.is_less_than_num_seqs(n):
            n += 1
        require(n == ds.num_seqs, "num_seqs")
        idxs = list(range(n))
        if access == "all" and n:
            ds.load_seqs(0, n)
        if access == "nonmonotonic":
            idxs = idxs[::-1]
        for i in idxs:
            if access == "one":
                ds.load_seqs(i, i + 1)
            elif access == "window":
                ds.load_seqs(i, min(i + 3, n))
            elif access == "nonmonotonic":
                ds.load_seqs(i, i + 1)
            tag = ds.get_tag(i)
            require(tag in by_tag, lambda: "unknown tag %r" % tag)
            corpus_idx, exp = by_tag[tag]
            seen.append(corpus_idx)
            require(ds.get_corpus_seq_idx(i) == corpus_idx, lambda: "corpus seq idx of %r" % tag)
            lens = ds.get_seq_length(i)
            seq = ds.get_corpus_seq(corpus_idx)
            require(seq.seq_tag == tag, "get_corpus_seq tag")
            for key in keys:
                x = ds.get_data(i, key)
                require(_eq(x, exp[key]), lambda: "%s/%s: got %r, written %r" % (tag, key, x, exp[key]))
                require(lens[key] == exp[key].shape[0], lambda: "%s/%s: len %r" % (tag, key, lens[key]))
                require(_eq(seq.features[key], exp[key]), lambda: "get_corpus_seq %s/%s" % (tag, key))
                require(_eq(ds.get_data_by_seq_tag(tag, key), exp[key]), lambda: "get_data_by_seq_tag %s/%s" % (tag, key))
                t = exp[key].shape[0]
                if t >= 2:
                    require(_eq(ds.get_data_slice(i, key, 1, t - 1), exp[key][1 : t - 1]), "get_data_slice")
    require(sorted(seen) == list(range(len(expected))), lambda: "seqs seen in epoch: %r" % (seen,))
    # predefined order
    sub = [t for t, _ in expected][::-2]
    ds.init_seq_order(epoch=epoch, seq_list=sub)
    require(ds.num_seqs == len(sub), "num_seqs with seq_list")
    require([ds.get_tag(i) for i in range(len(sub))] == sub, "order with seq_list")
    for i, tag in enumerate(sub):
        ds.load_seqs(i, i + 1)
        require(all(_eq(ds.get_data(i, k), by_tag[tag][1][k]) for k in keys), "data with seq_list")
    order = list(range(len(expected)))[::2]
    ds.init_seq_order(epoch=epoch, seq_order=order)
    require([ds.get_corpus_seq_idx(i) for i in range(len(order))] == order, "order with seq_order")


@st.composite
def dump_case(draw):
    n = draw(gen.sizes(1, 9))
    keys = {}
    names = draw(st.lists(st.sampled_from(["data", "classes", "x", "align", "extra"]), unique=True, min_size=1, max_size=3))
    for k in names:
        kind = draw(st.sampled_from(["dense", "sparse", "dense3"] if k != "data" else ["dense", "sparse"]))
        keys[k] = {"kind": kind, "dim": draw(st.integers(1, 4)),
                   "dtype": draw(st.sampled_from(["float32", "float64"] if kind != "sparse" else ["int32", "uint8", "int64"])),
                   "lens": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))}  # fmt: skip
    return {
        "n": n,
        "keys": keys,
        "order": draw(st.sampled_from(["default", "reverse", "random"])),
        "epoch": draw(st.integers(1, 3)),
        "start": draw(st.sampled_from([0, 0, 0, 1])),
        "seed": draw(gen.seeds()),
        "labels": draw(st.sampled_from([None, "a", "lab中", "x" * 9])),
        "read_order": draw(st.sampled_from(["default", "random", "sorted"])),
        "access": draw(st.sampled_from(["one", "window", "all", "nonmonotonic"])),
    }


def check_dump(case):
    from returnn.datasets.hdf import HDFDatasetWriter, HDFDataset
    from returnn.datasets.generating import StaticDataset

    rnd = numpy.random.RandomState(case["seed"])
    n, keys = case["n"], case["keys"]
    if case["start"] >= n:
        case["start"] = 0
    data = []
    for i in range(n):
        seq = {}
        for k, e in keys.items():
            shape = {"dense": (e["lens"][i], e["dim"]), "sparse": (e["lens"][i],), "dense3": (e["lens"][i], 2, e["dim"])}
            seq[k] = _mk(rnd, shape[e["kind"]], e["dtype"], e["dim"])
        data.append(seq)
    # Shapes with further unknown axes cannot be dumped (the dataset does not tell the size)
    if any(e["kind"] == "dense3" for e in keys.values()):
        for k, e in keys.items():
            if e["kind"] == "dense3":
                e["kind"] = "dense"
                for seq in data:
                    seq[k] = seq[k][:, 0]
    out_dim = {k: (e["dim"], 2 if e["kind"] == "dense" else 1) for k, e in keys.items()}
    src = StaticDataset(data=data, output_dim=out_dim, seq_ordering=case["order"])
    src.initialize()
    src.init_seq_order(epoch=case["epoch"])
    src.load_seqs(0, n)
    tags = [src.get_tag(i) for i in range(n)]
    expected = [(t, data[int(t[len("seq-") :])]) for t in tags][case["start"] :]
    if any(sum(seq[k].shape[0] for _, seq in expected) == 0 for k in keys):
        return ["skip_empty"]  # h5py cannot store completely empty arrays that way
    labels = {k: [case["labels"] * (i % 2) + str(i) for i in range(e["dim"])] for k, e in keys.items()} if case["labels"] else {}
    src.labels = dict(labels)
    # one key becomes the input ("data"), all others targets
    inputs = [k for k in keys if k not in src.get_target_list()]
    key_map = {k: k for k in keys}
    if len(inputs) == 1:
        key_map[inputs[0]] = "data"
    expected = [(t, {key_map[k]: v for k, v in seq.items()}) for t, seq in expected]
    with tempfile.TemporaryDirectory() as d:
        fn = d + "/dump.hdf"
        writer = HDFDatasetWriter(fn)
        writer.dump_from_dataset(src, epoch=case["epoch"], start_seq=case["start"], use_progress_bar=False)
        writer.close()
        ds = HDFDataset(files=[fn], seq_ordering=case["read_order"])
        ds.initialize()
        check_reader(ds, expected, sorted(key_map.values()), case["epoch"], case["access"])
        for k, e in keys.items():
            require(ds.get_data_dtype(key_map[k]) == e["dtype"], lambda: "dtype of %s" % k)
            require(ds.is_data_sparse(key_map[k]) == (e["kind"] == "sparse"), lambda: "sparse flag of %s" % k)
            require(ds.get_data_dim(key_map[k]) == e["dim"], lambda: "dim of %s: %r" % (k, ds.get_data_dim(key_map[k])))
            if k in labels and key_map[k] != "data":
                require(list(ds.labels[key_map[k]]) == labels[k], lambda: "labels of %s: %r, not %r" % (k, ds.labels.get(key_map[k]), labels[k]))
        del ds
    return ["keys%i" % len(keys)]


SUBS = [
    Sub("simple_writer", writer_case, check_writer, quick=900, thorough=12000,
        nontrivial=lambda c: sum(len(b["lens"]) for f in c["files"] for b in f["batches"]) >= 2),
    Sub("dataset_dump", dump_case, check_dump, quick=500, thorough=6000, nontrivial=lambda c: c["n"] >= 2),
]  # fmt: skip
