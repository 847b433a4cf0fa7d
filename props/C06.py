"""C06: distributing a dataset over processes, files and shards neither loses nor duplicates nor changes data"""

from __future__ import annotations
import os
import gc
import pickle
import tempfile
import shutil
from collections import Counter
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen

DIM, NCLS = 2, 9


def setup():
    import returnn.datasets.multi_proc  # noqa
    import returnn.datasets.distrib_files  # noqa
    import returnn.datasets.meta  # noqa
    import returnn.datasets.map  # noqa
    import returnn.datasets.postprocessing  # noqa
    import returnn.datasets.hdf  # noqa
    import returnn.datasets.generating  # noqa


# ---- functions which have to be picklable for the sub processes ----


def map_seq_neg(tdict, **_kwargs):
    """map_seq"""
    from returnn.tensor import TensorDict

    res = TensorDict(tdict.data.copy())
    x = tdict.data["data"].copy()
    x.raw_tensor = -tdict.data["data"].raw_tensor
    res.data["data"] = x
    return res


def stream_repeat(it, **_kwargs):
    """map_seq_stream: repeats seqs with odd length"""
    for tdict in it:
        for _ in range(1 + tdict.data["data"].raw_tensor.shape[0] % 2):
            yield tdict


class SubEpochDataset:
    """get_sub_epoch_dataset"""

    def __init__(self, order, tree, kind):
        self.order, self.tree, self.kind = order, tree, kind

    def __call__(self, files):
        if self.tree:
            return {
                "class": "MetaDataset",
                "datasets": {
                    "a": {"class": "HDFDataset", "files": [f[0] for f in files], "seq_ordering": self.order},
                    "b": {"class": "HDFDataset", "files": [f[1] for f in files]},
                },
                "data_map": {"data": ("a", "data"), "classes": ("b", "classes")},
                "seq_order_control_dataset": "a",
            }
        d = {"class": "HDFDataset", "files": list(files), "seq_ordering": self.order}
        if self.kind == "post":
            d = {"class": "PostprocessingDataset", "dataset": d, "map_seq": map_seq_neg}
        return d


def _data(n, lens, seed, base=0):
    rnd = numpy.random.RandomState(seed)
    return [
        {
            "data": rnd.randint(-50, 50, size=(lens[i % len(lens)], DIM)).astype("float32"),
            "classes": numpy.array([(base + i) % NCLS, rnd.randint(0, NCLS)], dtype="int32"),
        }
        for i in range(n)
    ]


def _write_hdf(fn, data, base=0):
    from returnn.datasets.hdf import SimpleHDFWriter

    writer = SimpleHDFWriter(fn, dim=DIM, ndim=2, extra_type={"classes": (NCLS, 1, "int32")})
    for i, x in enumerate(data):
        writer.insert_batch(
            x["data"][None], seq_len=[x["data"].shape[0]], seq_tag=["seq-%i" % (base + i)],
            extra={"classes": x["classes"][None]}
        )  # fmt: skip
    writer.close()


def _dataset_dict(case, d, own=True):
    """
    :param bool own: with the ordering options of the case
    """
    data = _data(case["n"], case["lens"], case["seed"])
    o = {"seq_ordering": case["order"], "partition_epoch": case["part"]} if own else {}
    kind = case["kind"]
    if kind in ("hdf", "meta", "post", "stream"):
        fn = d + "/x.hdf"
        if not os.path.exists(fn):
            _write_hdf(fn, data)
        ds = {"class": "HDFDataset", "files": [fn], **o}
        if kind == "meta":
            ds = {
                "class": "MetaDataset",
                "datasets": {"a": ds, "b": {"class": "HDFDataset", "files": [fn]}},
                "data_map": {"data": ("b", "data"), "classes": ("a", "classes")},
                "seq_order_control_dataset": "a",
            }
        elif kind == "post":
            ds = {"class": "PostprocessingDataset", "dataset": ds, "map_seq": map_seq_neg}
        elif kind == "stream":
            ds = {"class": "PostprocessingDataset", "dataset": ds, "map_seq_stream": stream_repeat}
        return ds
    if kind == "map":
        from returnn.datasets.map import FromListDataset

        return {
            "class": "MapDatasetWrapper",
            "map_dataset": FromListDataset(
                data,
                sort_data_key="data",
                data_types={
                    "data": {"dim": DIM, "shape": (None, DIM)},
                    "classes": {"dim": NCLS, "sparse": True, "shape": (None,)},
                },
            ),
            **o,
        }
    raise ValueError(kind)


def _read(ds, limit=None, window=1):
    """:return: list of (tag, {key: data}), from the current epoch"""
    keys = ["data", "classes"]
    res = []
    i = 0
    last_frac = 0.0
    while ds.is_less_than_num_seqs(i) and (limit is None or i < limit):
        ds.load_seqs(i, i + window)
        frac = ds.get_complete_frac(i)
        require(frac is None or 0 < frac <= 1.0 + 1e-6, lambda: "complete_frac %r" % frac)
        if frac is not None:
            require(frac >= last_frac - 1e-6, lambda: "complete_frac decreased %r -> %r" % (last_frac, frac))
            last_frac = frac
        require(sorted(ds.get_data_keys()) == sorted(keys), lambda: "data keys %r" % ds.get_data_keys())
        res.append((ds.get_tag(i), {k: ds.get_data(i, k) for k in keys}))
        i += 1
    return res


def _same(a, b):
    return a[0] == b[0] and all(
        a[1][k].dtype == b[1][k].dtype and a[1][k].shape == b[1][k].shape and (a[1][k] == b[1][k]).all() for k in b[1]
    )


def _cmp(got, exp, what, ordered=True):
    if not ordered:
        got = sorted(got, key=lambda x: x[0])
        exp = sorted(exp, key=lambda x: x[0])
    require(
        [g[0] for g in got] == [e[0] for e in exp],
        lambda: "%s: got tags %r, expected %r" % (what, [g[0] for g in got], [e[0] for e in exp]),
    )
    for g, e in zip(got, exp):
        require(_same(g, e), lambda: "%s: data differs for %s: %r vs %r" % (what, g[0], g[1], e[1]))


def _meta_check(ds, ref, n_total):
    for k in ["data", "classes"]:
        require(ds.get_data_dim(k) == ref.get_data_dim(k), "dim of %s" % k)
        require(ds.get_data_dtype(k) == ref.get_data_dtype(k), "dtype of %s" % k)
        require(ds.is_data_sparse(k) == ref.is_data_sparse(k), "sparse of %s" % k)


steps_strategy = lambda: st.lists(  # noqa
    st.fixed_dictionaries(
        {
            "epoch": st.integers(1, 5),
            "take": st.sampled_from([None, None, 0, 1, 2, 5]),
            "window": st.sampled_from([1, 1, 2, 4]),
            "predef": st.sampled_from([None, None, None, "seq_order", "seq_list"]),
            "pick": st.integers(0, 1000),
            "query": st.sampled_from([None, None, "total", "tags"]),
            "after": st.sampled_from([None, None, "finish", "finish_free", "pickle"]),
        }
    ),
    min_size=1,
    max_size=4,
)


@st.composite
def mp_strategy(draw):
    n = draw(st.sampled_from([5, 3, 2, 1, 4, 6, 7, 9, 12]))
    return {
        "n": n,
        "lens": draw(st.lists(st.integers(1, 6), min_size=1, max_size=5)),
        "seed": draw(gen.seeds()),
        "kind": draw(st.sampled_from(["map", "hdf", "meta", "post", "stream"])),
        "order": draw(st.sampled_from(["default", "random", "reverse", "sorted"])),
        "part": draw(st.sampled_from([1, 1, 2, 3])),
        "workers": draw(st.sampled_from([2, 3, 1, 2, 3])),
        "buffer": draw(st.integers(1, 4)),
        "method": draw(st.sampled_from(["seq_order", "dedicated"])),
        "seed_offset": draw(st.sampled_from([None, 3])),
        "steps": draw(steps_strategy()),
    }


def check_mp(case):
    from returnn.datasets import init_dataset

    if case["kind"] == "stream":
        # an epoch without any seq is not allowed if the number of seqs is not known
        case = dict(case, method="dedicated", n=max(case["n"], case["workers"] * case["part"]))
    if case["kind"] == "map":
        case = dict(case, method="seq_order")  # does not support sharding
    d = tempfile.mkdtemp(prefix="c06_")
    ds = None
    try:
        inner = _dataset_dict(case, d)
        kw = {"random_seed_offset": case["seed_offset"]} if case["seed_offset"] is not None else {}
        ref = init_dataset(dict(inner, **kw))
        ds = init_dataset(
            {
                "class": "MultiProcDataset",
                "dataset": inner,
                "num_workers": case["workers"],
                "buffer_size": case["buffer"],
                "sharding_method": case["method"],
                **kw,
            }
        )
        _meta_check(ds, ref, case["n"])
        all_exp = []
        if case["method"] == "dedicated" and case["part"] > 1:
            for epoch in range(1, case["part"] + 1):
                ref.init_seq_order(epoch=epoch)
                all_exp += _read(ref)
        for step in case["steps"]:
            if case["kind"] in ("hdf", "map") and step.get("query") == "total":
                require(ds.get_total_num_seqs() == case["n"], "total num seqs")
            if case["kind"] in ("hdf", "map") and step.get("query") == "tags":
                require(list(ds.get_all_tags()) == ["seq-%i" % i for i in range(case["n"])], "all tags")
            args = {"epoch": step["epoch"]}
            if case["method"] == "seq_order" and case["kind"] in ("map", "hdf") and step["predef"]:
                rnd = numpy.random.RandomState(step["pick"])
                seqs = [int(i) for i in rnd.permutation(case["n"])][: rnd.randint(1, case["n"] + 1)]
                if step["predef"] == "seq_order":
                    args["seq_order"] = seqs
                else:
                    args["seq_list"] = ["seq-%i" % i for i in seqs]
            ref.init_seq_order(**args)
            exp = _read(ref)
            ds.init_seq_order(**args)
            window = min(step["window"], case["buffer"])
            got = _read(ds, limit=step["take"], window=window)
            if case["method"] == "dedicated" and case["part"] > 1:
                # The sub epochs of the sharded dataset are cut differently. See below for the full epoch.
                require(case["kind"] == "stream" or len({g[0] for g in got}) == len(got), "duplicate seqs in sub epoch")
                by_tag = dict(all_exp)
                for g in got:
                    require(g[0] in by_tag and _same(g, (g[0], by_tag[g[0]])), lambda: "data of %s differs" % g[0])
            elif step["take"] is None:
                # dedicated sharding: the shards are interleaved, so the order might differ
                _cmp(got, exp, "epoch %i" % step["epoch"], ordered=case["method"] == "seq_order")
                if case["kind"] != "stream":
                    require(ds.num_seqs == len(exp), lambda: "num_seqs %r vs %r" % (ds.num_seqs, len(exp)))
            elif case["method"] == "seq_order":
                _cmp(got, exp[: step["take"]], "epoch %i, partial" % step["epoch"])
            else:
                require(len(got) == min(len(exp), step["take"]), "partial read: too few seqs")
            if step["after"] == "finish":
                ds.finish_epoch()
            elif step["after"] == "finish_free":
                ds.finish_epoch(free_resources=True)
            elif step["after"] == "pickle":
                new = pickle.loads(pickle.dumps(ds))
                ds = None
                gc.collect()
                ds = new
                _meta_check(ds, ref, case["n"])
        if all_exp:
            all_got = []
            for epoch in range(1, case["part"] + 1):
                ds.init_seq_order(epoch=epoch)
                all_got += _read(ds)
            _cmp(all_got, all_exp, "full epoch", ordered=False)
    finally:
        ds = None
        gc.collect()
        shutil.rmtree(d, ignore_errors=True)
    return [case["kind"], case["method"], "w%i" % case["workers"]]


@st.composite
def files_strategy(draw):
    parts = draw(st.sampled_from([1, 1, 2, 3]))
    shards = draw(st.sampled_from([1, 1, 2, 3]))
    nf = draw(st.integers(parts * shards, parts * shards + 4))
    return {
        "file_seqs": draw(st.lists(st.integers(1, 6), min_size=nf, max_size=nf)),
        "lens": draw(st.lists(st.integers(1, 30), min_size=1, max_size=5)),
        "seed": draw(gen.seeds()),
        "parts": parts,
        "shards": shards,
        "order": draw(st.sampled_from(["default", "random"])),
        "sub_order": draw(st.sampled_from(["default", "reverse", "random"])),
        "tree": draw(st.booleans()),
        "kind": draw(st.sampled_from(["hdf", "post"])),
        "preload": draw(st.sampled_from([1, 0, 0, 2])),
        "buffer": draw(st.integers(1, 3)),
        "start_full_epoch": draw(st.integers(0, 2)),
        "again": draw(st.sampled_from([None, None, "same", "partial_same", "back", "finish", "free", "pickle"])),
        "again_at": draw(st.integers(0, 5)),
    }


def check_files(case):
    from returnn.datasets import init_dataset

    d = tempfile.mkdtemp(prefix="c06_")
    dss = []
    try:
        files, exp, base = [], [], 0
        for i, n in enumerate(case["file_seqs"]):
            data = _data(n, case["lens"], case["seed"] + i, base=base)
            fn = "%s/%i.hdf" % (d, i)
            _write_hdf(fn, data, base)
            for j, x in enumerate(data):
                x = dict(x)
                if case["kind"] == "post" and not case["tree"]:
                    x["data"] = -x["data"]
                exp.append(("seq-%i" % (base + j), x))
            base += n
            files.append((fn, fn) if case["tree"] else fn)
        file_of = {}
        b = 0
        for i, n in enumerate(case["file_seqs"]):
            for j in range(n):
                file_of["seq-%i" % (b + j)] = i
            b += n
        first = case["start_full_epoch"] * case["parts"] + 1
        epochs = list(range(first, first + case["parts"]))
        got_all = []
        order_of_files = []
        for shard in range(case["shards"]):
            kw = {"_num_shards": case["shards"], "_shard_index": shard} if case["shards"] > 1 else {}
            ds = init_dataset(
                {
                    "class": "DistributeFilesDataset",
                    "files": files,
                    "get_sub_epoch_dataset": SubEpochDataset(case["sub_order"], case["tree"], case["kind"]),
                    "partition_epoch": case["parts"],
                    "seq_ordering": case["order"],
                    "preload_next_n_sub_epochs": case["preload"],
                    "buffer_size": case["buffer"],
                    **kw,
                }
            )
            dss.append(ds)
            for i, epoch in enumerate(epochs):
                ds.init_seq_order(epoch=epoch)
                got = _read(ds)
                require(ds.num_seqs == len(got), lambda: "num_seqs %r vs %i" % (ds.num_seqs, len(got)))
                require(len(got) > 0, "empty sub epoch")
                if case["sub_order"] == "default" and case["order"] == "default" and not case["tree"]:
                    require([g[0] for g in got] == [e[0] for e in exp if e[0] in {g[0] for g in got}], "order in sub epoch")
                got_all += got
                order_of_files.append({file_of[g[0]] for g in got})
                if shard == 0 and case["again"] and i == case["again_at"] % len(epochs):
                    what = case["again"]
                    if what == "partial_same":
                        ds.init_seq_order(epoch=epoch)
                        _read(ds, limit=1)
                        ds.init_seq_order(epoch=epoch)
                    elif what == "back":
                        ds.init_seq_order(epoch=epoch + 1)
                        _read(ds, limit=1)
                        ds.init_seq_order(epoch=epoch)
                    elif what in ("finish", "free"):
                        ds.finish_epoch(free_resources=what == "free")
                        ds.init_seq_order(epoch=epoch)
                    elif what == "pickle":
                        new = pickle.loads(pickle.dumps(ds))
                        dss.remove(ds)
                        ds = new
                        dss.append(ds)
                        ds.init_seq_order(epoch=epoch)
                    else:
                        ds.init_seq_order(epoch=epoch)
                    _cmp(_read(ds), got, "epoch %i again (%s)" % (epoch, what))
        _cmp(got_all, exp, "full epoch over all shards", ordered=False)
        for a in range(len(order_of_files)):
            for b in range(a):
                require(not (order_of_files[a] & order_of_files[b]), "file used in two sub epochs/shards")
    finally:
        ds = None
        for x in dss:
            x.finish_epoch(free_resources=True)
        dss.clear()
        gc.collect()
        shutil.rmtree(d, ignore_errors=True)
    return ["parts%i" % case["parts"], "shards%i" % case["shards"], "again_%s" % case["again"]]


@st.composite
def bins_strategy(draw):
    bins = draw(st.integers(1, 8))
    return {
        "bins": bins,
        "sizes": draw(
            st.lists(
                st.one_of(st.integers(0, 5), st.integers(1, 1000), st.just(1)), min_size=bins, max_size=bins + 12
            )
        ),
    }


def check_bins(case):
    from returnn.datasets.distrib_files import DistributeFilesDataset

    files = ["f%i" % i for i in range(len(case["sizes"]))]
    res = DistributeFilesDataset._distribute_evenly_by_size(
        num_bins=case["bins"], file_sizes=dict(zip(files, case["sizes"])), files_order=files
    )
    require(len(res) == case["bins"], "num bins")
    require(all(res), lambda: "empty bin: %r" % res)
    require([f for b in res for f in b] == files, lambda: "not all files in order: %r" % res)


@st.composite
def shards_strategy(draw):
    c = draw(mp_strategy())
    c.pop("steps")
    c.update(shards=draw(st.integers(2, 4)), epochs=draw(st.lists(st.integers(0, 4), min_size=1, max_size=3)))
    return c


def check_shards(case):
    from returnn.datasets import init_dataset

    if case["kind"] == "stream":
        case = dict(case, kind="post")
    d = tempfile.mkdtemp(prefix="c06_")
    try:
        inner = _dataset_dict(case, d)
        if case["kind"] == "map":
            inner = dict(_dataset_dict(dict(case, kind="hdf"), d))
        kw = {"random_seed_offset": case["seed_offset"] or 0}
        ref = init_dataset(dict(inner, **kw))
        shards = [
            init_dataset(dict(inner, _num_shards=case["shards"], _shard_index=i, **kw)) for i in range(case["shards"])
        ]
        for full_epoch in case["epochs"]:
            got, exp = [], []
            for epoch in range(full_epoch * case["part"] + 1, (full_epoch + 1) * case["part"] + 1):
                ref.init_seq_order(epoch=epoch)
                exp += _read(ref)
                sizes = []
                for s in shards:
                    s.init_seq_order(epoch=epoch)
                    r = _read(s)
                    sizes.append(len(r))
                    got += r
                require(max(sizes) - min(sizes) <= 1, lambda: "shards not balanced: %r" % sizes)
                if case["part"] == 1:
                    require(sizes == sorted(sizes, reverse=True), "later shard larger than earlier one")
            _cmp(got, exp, "all shards of full epoch %i" % full_epoch, ordered=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [case["kind"], "shards%i" % case["shards"]]


SUBS = [
    Sub("multiproc", mp_strategy, check_mp, quick=100, thorough=4000, nontrivial=lambda c: c["n"] >= 3 and c["workers"] > 1),
    Sub("files", files_strategy, check_files, quick=60, thorough=3000, nontrivial=lambda c: len(c["file_seqs"]) >= 3),
    Sub("bins", bins_strategy, check_bins, quick=1500, thorough=50000, nontrivial=lambda c: 1 < c["bins"] < len(c["sizes"])),
    Sub("shards", shards_strategy, check_shards, quick=250, thorough=8000, nontrivial=lambda c: c["n"] >= 3),
]  # fmt: skip
