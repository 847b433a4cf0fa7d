"""C04: legacy batch construction: chunking, length filters, batch limits, padding (feed-dict data provider)"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen

KEYS = ["data", "classes", "aux"]


def setup():
    import returnn.datasets.generating  # noqa
    import returnn.engine.batch  # noqa
    from returnn.tf.data_pipeline import FeedDictDataProvider  # noqa


@st.composite
def case_strategy(draw):
    n = draw(gen.sizes(1, 12))
    max_len = draw(st.sampled_from([3, 8, 20]))
    # how the other streams relate to "data": same len, len 1 (repeated for each chunk), half (with other chunk sizes)
    rel = draw(st.sampled_from(["same", "same", "one", "half"]))
    base = draw(st.lists(st.integers(1, max_len), min_size=n, max_size=n))
    mode = draw(st.sampled_from(["none", "chunk", "chunk", "chunk"])) if rel != "half" else "chunk"
    size = draw(st.integers(1, 9))
    step = draw(st.one_of(st.just(size), st.integers(1, 9)))
    fmt = draw(st.sampled_from(["str", "int", "tuple", "dict", "dicts"]))
    if rel == "half":
        fmt = "dicts"
    case = {
        "lens": base,
        "odd": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "rel": rel,
        "chunk": [size, step] if mode == "chunk" else None,
        "fmt": fmt,
        "min_chunk": draw(st.sampled_from([0, 0, 1, 2, 3])),
        "used_keys": draw(st.booleans()) or rel == "half",
        "recurrent": draw(st.integers(0, 4)) > 0,
        "batch_size": draw(st.one_of(st.integers(1, 12), st.integers(10, 60), st.just(1000))),
        "batch_size_dict": draw(st.sampled_from([None, None, "data", "classes", "both"])),
        "batch_size2": draw(st.integers(1, 40)),
        "max_seqs": draw(st.sampled_from([-1, -1, 1, 2, 3, 5])),
        "max_seq_length": draw(st.one_of(st.none(), st.none(), st.integers(1, 20))),
        "min_seq_length": draw(st.sampled_from([0, 0, 0, 1, 2, 4])),
        "max_pad_size": draw(st.one_of(st.none(), st.none(), st.integers(0, 10))),
        "context": draw(st.sampled_from([None, None, None, 1, 2, 3, 4])),
        "peek": draw(st.integers(1, 3)),
        "dim": draw(st.integers(1, 2)),
        "order": draw(st.sampled_from(["default", "reverse", "sorted"])),
    }
    if not case["recurrent"]:
        # frame-wise mode is only meaningful for streams which are aligned frame by frame
        case["rel"] = "same"
        case["context"] = None
    return case


def _nontrivial(case):
    return len(case["lens"]) >= 2 and (
        case["chunk"] is not None or case["max_seqs"] > 1 or case["batch_size"] < sum(case["lens"])
    )


def _seqs(case):
    seqs = []
    rnd = numpy.random.RandomState(len(case["lens"]))
    for i, ln in enumerate(case["lens"]):
        ld = ln
        if case["rel"] == "half":
            ld = 2 * ln
            # one frame less: only such that the number of chunks stays the same for both streams
            size, step = case["chunk"]
            if case["odd"][i] and case["min_chunk"] == 0 and ld > 1 and -(-(ld - 1) // (2 * step)) == -(-ln // step):
                ld -= 1
        lc = {"same": ln, "one": 1, "half": ln}[case["rel"]]
        seqs.append(
            {
                "data": (rnd.randint(1, 99, size=(ld, case["dim"])) + 100 * i).astype("float32"),
                "classes": (rnd.randint(1, 50, size=(lc,))).astype("int32"),
                "aux": rnd.randint(1, 50, size=(1 if case["rel"] == "one" else ld,)).astype("int32"),
            }
        )
    return seqs


def _chunk_conf(case):
    if not case["chunk"]:
        return None, None
    size, step = case["chunk"]
    sizes = {"data": size, "classes": size, "aux": size}
    steps = {"data": step, "classes": step, "aux": step}
    if case["rel"] == "half":
        for d in (sizes, steps):
            d["data"] *= 2
            d["aux"] *= 2
    fmt = case["fmt"]
    if fmt == "str":
        return (sizes, steps), "%i:%i" % (size, step) if size != step else "%i" % size
    if fmt == "int":
        steps = dict(sizes)
        return (sizes, steps), size
    if fmt == "tuple":
        return (sizes, steps), (size, step)
    if fmt == "dict":
        steps = dict(sizes)
        return (sizes, steps), sizes
    return (sizes, steps), (sizes, steps)


def _ref_chunks(lens, chunk, min_chunk):
    """:return: list of {key: (start,end)}"""
    if not chunk:
        return [{k: (0, v) for k, v in lens.items()}]
    sizes, steps = chunk
    full = [k for k in lens if not (steps[k] == steps["data"] and lens[k] == lens["data"]) and lens[k] <= 1]
    res = []
    i = 0
    while i * steps["data"] < lens["data"]:
        if i > 0 and any(lens[k] - i * steps[k] <= min_chunk[k] for k in lens if k not in full):
            break
        res.append(
            {
                k: ((0, lens[k]) if k in full else (i * steps[k], min(i * steps[k] + sizes[k], lens[k])))
                for k in lens
            }
        )
        i += 1
    return res


def _violates(lens, limit, cmp):
    """limit: int or dict or None"""
    if limit is None:
        return False
    if isinstance(limit, dict):
        return any(cmp(lens[k], limit[k]) for k in lens if k in limit)
    return any(cmp(v, limit) for v in lens.values())


def check(case):
    from returnn.datasets.generating import StaticDataset
    from returnn.tf.data_pipeline import FeedDictDataProvider
    from returnn.tensor import TensorDict, Tensor, Dim, batch_dim

    seqs = _seqs(case)
    dim = case["dim"]
    chunk, chunk_opt = _chunk_conf(case)
    min_chunk = {k: case["min_chunk"] for k in KEYS}
    min_chunk_opt = case["min_chunk"]
    if case["rel"] == "half":
        min_chunk = {"data": 2 * case["min_chunk"], "classes": case["min_chunk"], "aux": 2 * case["min_chunk"]}
        min_chunk_opt = min_chunk
    ctx_l = ctx_r = 0
    kw = {}
    if case["context"]:
        ctx_total = case["context"]
        # (left, right), which is applied to the data stream
        ctx_l, ctx_r = ctx_total // 2, ctx_total - ctx_total // 2
        kw["context_window"] = ({"data": ctx_l, "classes": 0, "aux": 0}, {"data": ctx_r, "classes": 0, "aux": 0})
    if case["chunk"]:
        kw["chunking"] = chunk_opt
        kw["min_chunk_size"] = min_chunk_opt
    ds = StaticDataset(
        data=seqs,
        output_dim={"data": (dim, 2), "classes": (60, 1), "aux": (60, 1)},
        input_dim=dim,
        **kw,
    )
    order = list(range(len(seqs)))
    if case["order"] == "reverse":
        order = order[::-1]
    if case["order"] == "sorted":
        order.sort(key=lambda i: (len(seqs[i]["data"]), i))
    ds.init_seq_order(epoch=1, seq_order=order)

    batch_size = case["batch_size"]
    if case["batch_size_dict"]:
        batch_size = {
            "data": {"data": case["batch_size"]},
            "classes": {"classes": case["batch_size"]},
            "both": {"data": case["batch_size"], "classes": case["batch_size2"]},
        }[case["batch_size_dict"]]
    recurrent = case["recurrent"]
    if not recurrent:
        # concatenating mode: one frame count for all the streams
        batch_size = case["batch_size"]
    gen_kw = {}
    if case["max_seq_length"] is not None:
        gen_kw["max_seq_length"] = case["max_seq_length"]
    used = set(KEYS) if case["used_keys"] else None
    batches = ds.generate_batches(
        recurrent_net=recurrent,
        batch_size=batch_size,
        max_seqs=case["max_seqs"],
        min_seq_length=case["min_seq_length"],
        max_pad_size=case["max_pad_size"],
        used_data_keys=used,
        **gen_kw,
    )
    time_dims = {k: Dim(None, name="time_" + k) for k in KEYS}
    extern_data = TensorDict()
    extern_data.data["data"] = Tensor("data", [batch_dim, time_dims["data"], Dim(dim, name="feat")], "float32")
    for k in ["classes", "aux"]:
        extern_data.data[k] = Tensor(k, [batch_dim, time_dims[k]], "int32", sparse_dim=Dim(60, name="cls"))
    for v in extern_data.data.values():
        v.batch_ndim  # noqa
    provider = FeedDictDataProvider(dataset=ds, batches=batches, extern_data=extern_data, data_keys=list(KEYS))

    got = []
    num = 0
    while batches.has_more():
        pk = batches.peek_next_n(case["peek"])
        require(1 <= len(pk) <= case["peek"], "peek_next_n")
        frac = batches.completed_frac()
        require(0 < frac <= 1, "completed_frac %r" % frac)
        require(batches.get_current_batch_idx() == num, "batch idx")
        feed = provider.get_next_batch()
        got.append((pk[0], feed))
        batches.advance(1)
        num += 1
    require(not batches.has_more(), "has_more after the end")

    if not recurrent:
        _check_frame_mode(case, seqs, order, got, batch_size, ctx_l, ctx_r)
        return ["frames", "rel_" + case["rel"]]

    # reference: chunks -> filter -> greedy batches
    exp = []
    cur = []  # list of (seq_idx, {key:(start,end)})
    for seq_idx, corpus_idx in enumerate(order):
        lens = {k: len(v) for k, v in seqs[corpus_idx].items()}
        for ch in _ref_chunks(lens, chunk, min_chunk):
            ch = dict(ch)
            ch["data"] = (ch["data"][0] - ctx_l, ch["data"][1] + ctx_r)
            clens = {k: e - s for k, (s, e) in ch.items()}
            if _violates(clens, case["max_seq_length"], lambda a, b: a > b):
                continue
            if _violates(clens, case["min_seq_length"], lambda a, b: a < b):
                continue
            if cur:
                mx = {k: max([clens[k]] + [c[k][1] - c[k][0] for _, c in cur]) for k in clens}
                padded = {k: mx[k] * (len(cur) + 1) for k in mx}
                pad = {k: padded[k] - clens[k] - sum(c[k][1] - c[k][0] for _, c in cur) for k in mx}
                if (
                    _violates(padded, batch_size, lambda a, b: a > b)
                    or (case["max_seqs"] > 0 and len(cur) + 1 > case["max_seqs"])
                    or _violates(pad, case["max_pad_size"], lambda a, b: a > b)
                ):
                    exp.append(cur)
                    cur = []
            cur.append((seq_idx, ch))
    if cur:
        exp.append(cur)

    require(
        len(got) == len(exp),
        lambda: "got %i batches, expected %i: %r" % (len(got), len(exp), [[s for s, _ in b] for b in exp]),
    )
    for (batch, feed), eb in zip(got, exp):
        require([s.seq_idx for s in batch.seqs] == [s for s, _ in eb], "seqs in batch differ")
        require(batch.num_slices == len(eb), "num slices")
        require(batch.start_seq == min(s for s, _ in eb), "start_seq")
        require(batch.end_seq == max(s for s, _ in eb) + 1, "end_seq")
        require(feed["batch_dim"] == len(eb), "batch_dim")
        require(list(feed["seq_idx"]) == [s for s, _ in eb], "seq_idx")
        require(list(feed["seq_tag"]) == ["seq-%i" % order[s] for s, _ in eb], lambda: "tags %r" % (feed["seq_tag"],))
        for k in KEYS:
            clens = [c[k][1] - c[k][0] for _, c in eb]
            ref = numpy.zeros((len(eb), max(clens)) + seqs[0][k].shape[1:], seqs[0][k].dtype)
            for b, (s, c) in enumerate(eb):
                src = seqs[order[s]][k]
                for t in range(*c[k]):
                    if 0 <= t < len(src):
                        ref[b, t - c[k][0]] = src[t]
            require(list(feed["%s_seq_lens" % k]) == clens, lambda: "%s seq_lens %r vs %r" % (k, feed["%s_seq_lens" % k], clens))
            require(feed[k].shape == ref.shape, lambda: "%s shape %r vs %r" % (k, feed[k].shape, ref.shape))
            require((feed[k] == ref).all(), lambda: "%s data differs:\n%r\nvs\n%r" % (k, feed[k], ref))
            require(feed[k].dtype == ref.dtype, "dtype")
    return ["recurrent", "rel_" + case["rel"], "batches_%s" % ("1" if len(exp) == 1 else "0" if not exp else "n")]


def _check_frame_mode(case, seqs, order, got, batch_size, ctx_l, ctx_r):
    """
    non-recurrent: all frames of all seqs are concatenated, and cut by the batch size.
    """
    per_seq = {}
    for batch, feed in got:
        require(batch.num_slices == 1, "frame mode: one slice")
        n = batch.max_num_frames_per_slice.max_value()
        require(0 < n <= batch_size, lambda: "frame mode: %r frames, batch size %r" % (n, batch_size))
        require(feed["data"].shape[:2] == (1, n), "frame mode shape")
        for part in batch.seqs:
            per_seq.setdefault(part.seq_idx, []).append((part, feed))
    for (batch, feed), (next_batch, _) in zip(got[:-1], got[1:]):
        n = batch.max_num_frames_per_slice.max_value()
        require(
            n == batch_size or (case["max_seqs"] > 0 and batch.get_num_seqs() >= case["max_seqs"]),
            "frame mode: batch closed early",
        )
    require(sorted(per_seq) == list(range(len(order))), "frame mode: not all seqs covered")
    for seq_idx, parts in per_seq.items():
        src = seqs[order[seq_idx]]["data"]
        t = -ctx_l
        for part, feed in parts:
            s, e = part.seq_start_frame["data"], part.seq_end_frame["data"]
            require(s == t, "frame mode: gap or overlap")
            o = part.batch_frame_offset["data"]
            for j in range(s, e):
                ref = src[j] if 0 <= j < len(src) else numpy.zeros_like(src[0])
                require((feed["data"][0, o + j - s] == ref).all(), "frame mode: data differs")
            t = e
        require(t == len(src) + ctx_r, "frame mode: seq not fully covered")


# ---- background thread, batch slices ----

_tf_extern_data = {}


def _get_tf_extern_data(dim):
    """placeholders, created once"""
    if dim not in _tf_extern_data:
        import tensorflow as tf
        from returnn.tf.network import ExternData
        from returnn.tensor import Tensor

        with tf.Graph().as_default():
            ed = ExternData()
            ed.data["data"] = Tensor("data", shape=(None, dim), dim=dim, dtype="float32", auto_create_placeholders=True)
            for k in ["classes", "aux"]:
                ed.data[k] = Tensor(k, shape=(None,), dim=60, sparse=True, dtype="int32", auto_create_placeholders=True)
            ed.init_batch_info()
        _tf_extern_data[dim] = ed
    return _tf_extern_data[dim]


@st.composite
def thread_case(draw):
    n = draw(gen.sizes(1, 14))
    return {
        "lens": draw(st.lists(st.integers(1, 6), min_size=n, max_size=n)),
        "max_seqs": draw(st.integers(1, 3)),
        "capacity": draw(st.integers(1, 3)),
        "dim": draw(st.integers(1, 2)),
        "slice": draw(
            st.one_of(
                st.none(),
                st.tuples(
                    st.sampled_from([None, 0, 1, 2, 3]), st.sampled_from([None, None, 1, 2, 4, 9]), st.sampled_from([None, 1, 2, 3])
                ),
            )
        ),
        "single": draw(st.integers(0, 3)) == 0,
        "stop_after": draw(st.sampled_from([None, None, None, 0, 1, 2])),
    }


def check_thread(case):
    """the feed dicts, as they come from the background thread (or without it), are those batches, in this order"""
    from returnn.datasets.generating import StaticDataset
    from returnn.tf.data_pipeline import FeedDictDataProvider

    dim = case["dim"]
    rnd = numpy.random.RandomState(len(case["lens"]))
    seqs = [
        {
            "data": rnd.randint(1, 99, size=(ln, dim)).astype("float32"),
            "classes": rnd.randint(1, 50, size=(rnd.randint(1, 5),)).astype("int32"),
            "aux": rnd.randint(1, 50, size=(ln,)).astype("int32"),
        }
        for ln in case["lens"]
    ]
    ds = StaticDataset(data=seqs, output_dim={"data": (dim, 2), "classes": (60, 1), "aux": (60, 1)}, input_dim=dim)
    ds.init_seq_order(epoch=1)
    extern_data = _get_tf_extern_data(dim)
    n, m = len(seqs), case["max_seqs"]
    exp = [list(range(i, min(i + m, n))) for i in range(0, n, m)]
    sl = None
    single = case["single"]
    if case["slice"] and not single:
        sl = slice(*case["slice"])
        exp = exp[sl]
    batches = ds.generate_batches(recurrent_net=True, batch_size=10**6, max_seqs=m, used_data_keys=None)
    provider = FeedDictDataProvider(
        dataset=ds, batches=batches, extern_data=extern_data, data_keys=list(KEYS), capacity=case["capacity"], batch_slice=sl
    )
    got = []
    if not single:
        provider.start_threads(None)
    try:
        while batches.has_more() if single else provider.have_more_data(None):
            if case["stop_after"] is not None and len(got) >= case["stop_after"]:
                break
            got.append(provider.get_feed_dict(single_threaded=single))
            require(len(got) <= len(exp), lambda: "too many batches: %r, expected %r" % (got, exp))
        else:
            require(len(got) == len(exp), lambda: "%i batches, expected %r, slice %r" % (len(got), exp, sl))
    finally:
        if not single:
            provider.stop_threads()  # must not hang, also with the queue full
    for (feed, meta), idxs in zip(got, exp):
        require(list(meta["seq_idx"]) == idxs, lambda: "seq_idx %r vs %r" % (meta, idxs))
        require(list(meta["seq_tag"]) == ["seq-%i" % i for i in idxs], lambda: "seq_tag %r vs %r" % (meta, idxs))
        for k in KEYS:
            data = extern_data.data[k]
            v, lens = feed[data.placeholder], feed[data.size_placeholder[0]]
            require(list(lens) == [len(seqs[i][k]) for i in idxs], lambda: "%s lens %r" % (k, lens))
            ref = numpy.zeros((len(idxs), max(lens)) + seqs[0][k].shape[1:], seqs[0][k].dtype)
            for b, i in enumerate(idxs):
                ref[b, : len(seqs[i][k])] = seqs[i][k]
            require(v.shape == ref.shape and (v == ref).all(), lambda: "%s: %r vs %r" % (k, v, ref))
        require(feed[extern_data.get_batch_info().dim] == len(idxs), "batch dim")
    return ["single" if single else "thread", "slice" if sl else "all"]


# ---- BatchSetGenerator, model-based ----


@st.composite
def batch_set_case(draw):
    return {
        "n": draw(st.integers(0, 7)),
        "shuffle": draw(st.integers(0, 3)) == 0,
        "ops": draw(
            st.lists(
                st.one_of(
                    st.tuples(st.just("peek"), st.integers(1, 4)),
                    st.tuples(st.just("advance"), st.integers(1, 3)),
                    st.tuples(st.just("all"), st.just(0)),
                    st.tuples(st.just("reset"), st.just(0)),
                ),
                max_size=12,
            )
        ),
    }


def check_batch_set(case):
    """for any history: the batches in order, each once per pass; after reset all of them again"""
    from returnn.engine.batch import BatchSetGenerator, Batch
    from returnn.datasets.generating import StaticDataset

    n = case["n"]
    ds = StaticDataset([{"data": numpy.zeros((1, 1), "float32")}] * max(n, 1))
    ds.init_seq_order(epoch=1)
    items = []
    for i in range(n):
        b = Batch()
        b.add_sequence_as_slice(seq_idx=i, seq_start_frame=0, length=1)
        items.append(b)
    bs = BatchSetGenerator(ds, iter(items), shuffle_batches=case["shuffle"], cache_whole_epoch=True)
    seen, passes = [], 0
    last_frac = 0.0

    def _cmp(xs, pos, what):
        idxs = [b.start_seq for b in xs]
        if not case["shuffle"] or passes == 0:
            require(idxs == list(range(pos, pos + len(idxs))), lambda: "%s: %r at %i" % (what, idxs, pos))
        else:
            require(len(set(idxs)) == len(idxs) and not set(idxs) & set(seen), lambda: "%s: %r after %r" % (what, idxs, seen))

    for op, arg in case["ops"]:
        left = n - len(seen)
        require(bs.has_more() == (left > 0), lambda: "has_more %r, left %i" % (bs.has_more(), left))
        require(bs.get_current_batch_idx() == len(seen), "batch idx")
        if op == "reset":
            bs.reset()
            passes += 1
            seen.clear()
            last_frac = 0.0
            continue
        if op == "all":
            arg = left
        if op == "peek":
            xs = bs.peek_next_n(arg)
            require(len(xs) == min(arg, left), lambda: "peek %i: %i of %i left" % (arg, len(xs), left))
            _cmp(xs, len(seen), "peek")
        elif 0 < arg <= left:
            xs = bs.peek_next_n(arg)
            _cmp(xs, len(seen), "advance")
            bs.advance(arg)
            seen += [b.start_seq for b in xs]
            frac = bs.completed_frac()
            require(0 < frac <= 1, lambda: "completed_frac %r" % frac)
            if not case["shuffle"]:
                require(frac >= last_frac, lambda: "completed_frac %r after %r" % (frac, last_frac))
            last_frac = frac
    return ["passes%i" % min(passes, 2)]


# ---- random chunk sizes ----


@st.composite
def variance_case(draw):
    n = draw(gen.sizes(1, 8))
    size = draw(st.integers(1, 12))
    return {
        "lens": draw(st.lists(st.integers(1, 40), min_size=n, max_size=n)),
        "size": size,
        "step": draw(st.one_of(st.just(size), st.integers(1, 12))),
        "ratio": draw(st.integers(1, 3)),
        "var": draw(st.sampled_from([0.0, 0.2, 0.5, 0.9])),
        "epoch": draw(st.integers(1, 5)),
    }


def check_variance(case):
    """chunking with random sizes: regular chunks, within the bounds, in the same ratio for all data, reproducible"""
    from returnn.datasets.generating import StaticDataset

    r, size, step, var = case["ratio"], case["size"], case["step"], case["var"]

    def _run():
        ds = StaticDataset(
            [{"data": numpy.zeros((ln * r, 1), "float32"), "classes": numpy.zeros((ln,), "int32")} for ln in case["lens"]],
            output_dim={"data": (1, 2), "classes": (3, 1)},
            chunking=({"data": size * r, "classes": size}, {"data": step * r, "classes": step}),
            chunking_variance=var,
        )
        ds.init_seq_order(epoch=case["epoch"])
        return [
            (i, {k: (int(s[k]), int(e[k])) for k in ("data", "classes")})
            for i, s, e in ds.iterate_seqs(used_data_keys={"data", "classes"})
        ]

    res = _run()
    require(res == _run(), "not reproducible")
    for i, ln in enumerate(case["lens"]):
        chunks = [c for j, c in res if j == i]
        require(chunks, "no chunk of seq %i" % i)
        for c in chunks:
            # same part, in the ratio (chunk sizes in the ratio only with step in the same order)
            require(c["data"] == (c["classes"][0] * r, c["classes"][1] * r), lambda: "ratio %i: %r" % (r, chunks))
        starts = [c["classes"][0] for c in chunks]
        require(starts[0] == 0, lambda: "start %r" % chunks)
        cur_step = starts[1] if len(starts) > 1 else None
        if cur_step is not None:
            require(starts == [cur_step * x for x in range(len(starts))], lambda: "irregular steps %r" % chunks)
            lo = max(int(step * (1 - var)), 1)
            require(lo <= cur_step <= step, lambda: "step %i not in [%i, %i]" % (cur_step, lo, step))
            require(starts[-1] + cur_step >= ln, lambda: "not all covered: %r of %i" % (chunks, ln))
        sizes = [e - s for s, e in (c["classes"] for c in chunks)]
        full = max(sizes)
        for (s, e), sz in zip((c["classes"] for c in chunks), sizes):
            require(e == min(s + full, ln), lambda: "irregular sizes %r of %i" % (chunks, ln))
        lo = max(int(size * (1 - var)), 1)
        require(min(lo, ln) <= full <= size, lambda: "size %i not in [%i, %i]" % (full, lo, size))
        require(len(chunks) > 1 or (ln <= step), lambda: "only one chunk %r, len %i, step %i" % (chunks, ln, step))
    return ["var%g" % var]


SUBS = [
    Sub("thread", thread_case, check_thread, quick=300, thorough=4000, nontrivial=lambda c: len(c["lens"]) >= 3),
    Sub("batch_set", batch_set_case, check_batch_set, quick=600, thorough=10000,
        nontrivial=lambda c: c["n"] >= 2 and len(c["ops"]) >= 3),
    Sub("variance", variance_case, check_variance, quick=600, thorough=10000, nontrivial=lambda c: c["var"] > 0),
    Sub("batches", case_strategy, check, quick=2500, thorough=60000, nontrivial=_nontrivial),
]  # fmt: skip
