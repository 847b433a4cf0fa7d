"""C16: TF recurrent subnetworks: loop = unrolled definition, whatever is optimized out of the loop; beam search"""

from __future__ import annotations
import contextlib
import io
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen

D = 3  # dim of all the layers in the loop


def setup():
    import os

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    import returnn.tf.network  # noqa
    import returnn.tf.layers.basic  # noqa
    import returnn.tf.layers.rec  # noqa
    from returnn.util.basic import BehaviorVersion
    from returnn.log import log

    log.initialize(verbosity=[1])
    if BehaviorVersion.get_if_set() is None:
        BehaviorVersion.set(21)


# ---------------------------------------------------------------- the cell
# A cell is a list of (name, kind, srcs, opts), in an order such that each layer depends only on earlier layers of the
# list, on "prev:X" of any layer X, on the labels and on things outside.
# All float layers have shape [B, D].


def sigmoid(x):
    return 1 / (1 + numpy.exp(-x))


def softmax(x):
    e = numpy.exp(x - x.max())
    return e / e.sum()


def make_cell(c):
    p = gen.Picks(c["p"])
    names = ["l%i" % i for i in range(c["n_layers"])]
    n_pre = max(1, min(len(names), c["n_pre"]))
    cell = []
    have_src = c["from_data"]
    for i, name in enumerate(names):
        pre = i < n_pre
        avail = [n for n, k, _, _ in cell]
        srcs_all = list(avail) + ["prev:" + n for n in names] + ["emb:prev"]
        if have_src:
            srcs_all.append("data:source")
        if not pre:
            srcs_all += ["emb:cur"] * 2
        srcs_all.append("base:vec")

        live = [x for x in srcs_all if not x.startswith("prev:") and x != "base:vec"]

        def src(first=False):
            if avail and p.int(0, 2) == 0:
                return avail[-1]
            return p.choice(live if first else srcs_all)

        kind = p.choice(["lin", "lin2", "lin2", "lin2", "add", "mul", "act", "step", "lstm", "att", "subnet", "switch", "sub"])
        if kind == "att" and (not c["with_att"] or not pre):
            kind = "lin"
        init = p.choice([None, None, None, "ones", 0.5])
        if kind in ("lin", "act", "subnet", "lstm", "att", "step"):
            s = [src(True)]
        elif kind == "lin2":
            s = [src(True), src()]
            if s[0] == s[1]:
                kind, s = "lin", s[:1]
        else:
            s = [src(True), src()]
            if p.bool():
                s = s[::-1]
            if kind == "switch" and any(x not in ("emb:prev", "emb:cur", "data:source") for x in s):
                kind = "sub"  # the template of a switch needs its sources to be known
        if kind == "step" and c["search"] and c["opt"]:
            kind = "act"
        if kind == "lstm":
            init = None
        opts = {"init": init}
        if kind == "switch":
            opts["val"] = p.int(0, c["V"] - 1)
            opts["which"] = "prev:output" if pre else p.choice(["prev:output", "output"])
        if kind == "subnet":
            init = opts["init"] = None
        cell.append((name, kind, s, opts))
    return cell, n_pre


def net_dict(c, cell, n_pre, optimize, search):
    unit = {}
    out_flags = {}

    def src_name(s):
        return s if s not in ("emb:prev", "emb:cur") else {"emb:prev": "emb_prev", "emb:cur": "emb_cur"}[s]

    unit["emb_prev"] = {"class": "linear", "from": "prev:output", "activation": None, "with_bias": False, "out_dim": c["_feat"]}
    unit["emb_cur"] = {"class": "linear", "from": "output", "activation": None, "with_bias": False, "out_dim": c["_feat"]}
    for name, kind, srcs, opts in cell:
        f = [src_name(s) for s in srcs]
        if kind in ("lin", "lin2"):
            l = {"class": "linear", "from": f, "activation": "tanh", "out_dim": c["_feat"]}
        elif kind == "add":
            l = {"class": "combine", "kind": "add", "from": f}
        elif kind == "sub":
            l = {"class": "eval", "eval": "source(0) - 0.5 * source(1)", "from": f}
        elif kind == "mul":
            l = {"class": "combine", "kind": "mul", "from": f}
        elif kind == "act":
            l = {"class": "activation", "activation": "tanh", "from": f}
        elif kind == "step":
            unit[name + "_i"] = {"class": "cast", "dtype": "float32", "from": ":i"}
            l = {"class": "eval", "eval": "source(0) * 0.5 + 0.1 * source(1)", "from": f + [name + "_i"]}
        elif kind == "lstm":
            unit[name + "_cell"] = {"class": "rnn_cell", "unit": "BasicLSTM", "n_out": D, "from": f}
            l = {"class": "linear", "from": name + "_cell", "activation": None, "with_bias": False, "out_dim": c["_feat"]}
        elif kind == "att":
            unit[name + "_q"] = {"class": "linear", "from": f, "activation": None, "with_bias": False, "out_dim": c["_feat"]}
            unit[name + "_e"] = {"class": "dot", "from": ["base:enc", name + "_q"], "reduce": "F"}
            unit[name + "_w"] = {"class": "softmax_over_spatial", "from": name + "_e", "axis": c["_mem"]}
            unit[name + "_c"] = {"class": "dot", "from": [name + "_w", "base:enc"], "reduce": c["_mem"]}
            l = {"class": "activation", "activation": "tanh", "from": name + "_c"}
        elif kind == "subnet":
            l = {
                "class": "subnetwork",
                "from": f,
                "subnetwork": {
                    "a": {"class": "linear", "from": "data", "activation": "tanh", "out_dim": c["_feat"]},
                    "output": {"class": "combine", "kind": "add", "from": ["a", "data"]},
                },
            }
        elif kind == "switch":
            unit[name + "_cmp"] = {"class": "compare", "kind": "equal", "from": opts["which"], "value": opts["val"]}
            l = {"class": "switch", "condition": name + "_cmp", "true_from": f[0], "false_from": f[1]}
        else:
            raise ValueError(kind)
        if opts["init"] is not None:
            l["initial_output"] = opts["init"]
        l["is_output_layer"] = True
        unit[name] = l
    unit["prob"] = {"class": "linear", "activation": "log_softmax", "from": cell[n_pre - 1][0], "n_out": c["V"], "is_output_layer": True}
    unit["output"] = {
        "class": "choice",
        "from": "prob",
        "input_type": "log_prob",
        "target": "classes",
        "beam_size": c["beam"],
        "initial_output": c["bos"],
        "length_normalization": c["len_norm"],
        "prob_scale": c["scale"],
    }
    if c["len_norm"]:
        unit["output"]["length_normalization_exponent"] = c["exp"]
    rec = {
        "class": "rec",
        "from": "data" if c["from_data"] else [],
        "target": "classes",
        "unit": unit,
        "optimize_move_layers_out": optimize,
        "is_output_layer": True,
    }
    if not c["from_data"]:
        unit["end"] = {"class": "compare", "from": "output", "value": 0}
        rec["max_seq_len"] = c["max_len"]
        if c["include_eos"]:
            rec["include_eos"] = True
    net = {
        "enc": {"class": "linear", "from": "data:mem", "activation": "tanh", "out_dim": c["_feat"], "with_bias": False},
        "vec": {"class": "reduce", "mode": "mean", "axis": c["_mem"], "from": "enc"},
        "rec": rec,
        "output": {"class": "decide", "from": "rec", "length_normalization": c["dec_norm"], "is_output_layer": True} if search else {"class": "copy", "from": "rec"},
    }
    return net


# ---------------------------------------------------------------- reference


def init_state(c, cell):
    st_ = {}
    for name, kind, srcs, opts in cell:
        v = {None: 0.0, "ones": 1.0, 0.5: 0.5}[opts["init"]]
        st_[name] = numpy.full((D,), v)
        if kind == "lstm":
            st_[name + ".c"] = st_[name + ".h"] = numpy.zeros((D,))
    return st_


def calc(c, cell, n_pre, P, ext, prev, prev_label, i, label=None):
    """
    One step. label None: up to the probs only

    :return: values, log probs
    """
    vals = {}

    def get(s):
        if s.startswith("prev:"):
            return prev[s[len("prev:") :]]
        if s == "emb:prev":
            return P["emb_prev/W"][prev_label]
        if s == "emb:cur":
            return P["emb_cur/W"][label]
        if s == "data:source":
            return ext["x"][i]
        if s == "base:vec":
            return ext["vec"]
        return vals[s]

    logp = None
    for j, (name, kind, srcs, opts) in enumerate(cell):
        if j == n_pre:
            if label is None:
                break
        xs = [get(s) for s in srcs]
        if kind in ("lin", "lin2"):
            v = numpy.tanh(numpy.concatenate(xs) @ P[name + "/W"] + P[name + "/b"])
        elif kind == "add":
            v = xs[0] + xs[1]
        elif kind == "sub":
            v = xs[0] - 0.5 * xs[1]
        elif kind == "mul":
            v = xs[0] * xs[1]
        elif kind == "act":
            v = numpy.tanh(xs[0])
        elif kind == "step":
            v = xs[0] * 0.5 + 0.1 * i
        elif kind == "lstm":
            W, b_ = [[P[k] for k in P if k.startswith(name + "_cell/") and k.endswith(x)][0] for x in ("kernel", "bias")]
            z = numpy.concatenate([xs[0], prev[name + ".h"]]) @ W + b_
            i_, j_, f_, o_ = numpy.split(z, 4)
            cc = prev[name + ".c"] * sigmoid(f_ + 1.0) + sigmoid(i_) * numpy.tanh(j_)
            vals[name + ".c"] = cc
            vals[name + ".h"] = numpy.tanh(cc) * sigmoid(o_)
            v = vals[name + ".h"] @ P[name + "/W"]
        elif kind == "att":
            q = xs[0] @ P[name + "_q/W"]
            w = softmax(ext["enc"] @ q)
            v = numpy.tanh(w @ ext["enc"])
        elif kind == "subnet":
            v = numpy.tanh(xs[0] @ P[name + "/a/W"] + P[name + "/a/b"]) + xs[0]
        elif kind == "switch":
            lab = prev_label if opts["which"] == "prev:output" else label
            v = xs[0] if lab == opts["val"] else xs[1]
        vals[name] = v
        if j == n_pre - 1:
            z = v @ P["prob/W"] + P["prob/b"]
            logp = z - z.max()
            logp = logp - numpy.log(numpy.exp(logp).sum())
    return vals, logp


def forced(c, cell, n_pre, P, ext, labels):
    """:return: dict name -> list of values per step, list of log probs"""
    prev, pl = init_state(c, cell), c["bos"]
    out = {name: [] for name, _, _, _ in cell}
    logps = []
    for i, y in enumerate(labels):
        vals, logp = calc(c, cell, n_pre, P, ext, prev, pl, i, int(y))
        for k in out:
            out[k].append(vals[k])
        logps.append(logp)
        prev, pl = vals, int(y)
    return out, logps


class Ambiguous(Exception):
    pass


def beam_search(c, cell, n_pre, P, ext, n_steps):
    """
    :return: list of (labels, score), best first, after n_steps
    """
    hyps = [{"labels": [], "score": 0.0, "prev": init_state(c, cell), "ended": False}]
    ends = not c["from_data"]
    for t in range(n_steps):
        cand = []
        for h, hyp in enumerate(hyps):
            base = hyp["score"]
            if hyp["ended"]:
                if c["len_norm"]:
                    base = base * ((t + 1) / t) ** c["exp"]
                cand.append((base, h, 0))
                continue
            _, logp = calc(c, cell, n_pre, P, ext, hyp["prev"], hyp["labels"][-1] if hyp["labels"] else c["bos"], t)
            for y in range(c["V"]):
                cand.append((base + logp[y] * c["scale"], h, y))
        cand.sort(key=lambda x: -x[0])
        if len(cand) < c["beam"]:
            raise Ambiguous
        for a, b in zip(cand[: c["beam"]], cand[1:]):
            if a[0] - b[0] < 2e-4:
                raise Ambiguous
        new = []
        for sc, h, y in cand[: c["beam"]]:
            hyp = hyps[h]
            vals, _ = calc(c, cell, n_pre, P, ext, hyp["prev"], hyp["labels"][-1] if hyp["labels"] else c["bos"], t, y)
            new.append({"labels": hyp["labels"] + [y], "score": sc, "prev": vals, "ended": hyp["ended"] or (ends and y == 0)})
        hyps = new
    return hyps


# ---------------------------------------------------------------- run


def session_config(tf):
    config = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
    # Without the graph rewriting of TF itself: faster, and it can remove fetched tensors.
    config.graph_options.rewrite_options.disable_meta_optimizer = True
    return config


def run(c):
    import returnn.tf.compat as tf_compat

    tf = tf_compat.v1
    with tf.Graph().as_default() as graph:
        with tf.Session(graph=graph, config=session_config(tf)) as session:
            return _run(c, tf, session)


def _build(c, cell, n_pre, optimize, search, tf, session, rnd):
    from returnn.config import Config
    from returnn.tf.network import TFNetwork, ExternData
    from returnn.tensor import Dim, batch_dim

    time = Dim(kind=Dim.Types.Spatial, description="time", dimension=None)
    mem = Dim(kind=Dim.Types.Spatial, description="mem-time", dimension=None)
    feat = Dim(kind=Dim.Types.Feature, description="feat", dimension=D)
    cls = Dim(kind=Dim.Types.Feature, description="classes", dimension=c["V"])
    otime = time if c["from_data"] else Dim(kind=Dim.Types.Spatial, description="out-time", dimension=None)
    ext = ExternData(
        {
            "data": {"dims": [batch_dim, time, feat], "version": 1, "time_dim_axis": 1, "dtype": "float32", "available_for_inference": True},
            "mem": {"dims": [batch_dim, mem, feat], "version": 1, "time_dim_axis": 1, "dtype": "float32", "available_for_inference": True},
            "classes": {"dims": [batch_dim, otime], "version": 1, "time_dim_axis": 1, "sparse_dim": cls, "dtype": "int32", "available_for_inference": False},
        }
    )
    c2 = dict(c, _mem=mem, _feat=feat)
    net = TFNetwork(config=Config({}), extern_data=ext, train_flag=False, eval_flag=not search, search_flag=search)
    net.construct_from_dict(net_dict(c2, cell, n_pre, optimize, search))
    net.initialize_params(session)
    params = sorted(net.get_params_list(), key=lambda v: v.name)
    vals = {}
    for v in params:
        x = rnd.uniform(-1, 1, v.get_shape().as_list()) * c["gain"]
        v.load(x.astype("float32"), session)
        vals[v.name.split(":")[0]] = x.astype("float32").astype("float64")
    return net, ext, (time, mem), otime, vals


def feeds(ext, times, otime, xs, ys, ms, pad_seed, search):
    time, mem = times
    rnd = numpy.random.RandomState(pad_seed)
    n = len(xs)
    tm, um = max(len(x) for x in xs), max(len(y) for y in ys)
    x = rnd.choice([0.5, -3, 40]) * rnd.uniform(0.5, 1, (n, tm, D))
    m = rnd.choice([0.5, -3, 40]) * rnd.uniform(0.5, 1, (n, max(len(x) for x in ms), D))
    y = rnd.randint(0, ext.data["classes"].sparse_dim.dimension, (n, um))
    for i in range(n):
        x[i, : len(xs[i])] = xs[i]
        m[i, : len(ms[i])] = ms[i]
        y[i, : len(ys[i])] = ys[i]
    fd = {
        ext.get_batch_info().dim: n,
        ext.data["data"].placeholder: x,
        time.dyn_size_ext.raw_tensor: [len(a) for a in xs],
        ext.data["mem"].placeholder: m,
        mem.dyn_size_ext.raw_tensor: [len(a) for a in ms],
    }
    if not search:
        fd[ext.data["classes"].placeholder] = y
        if otime is not time:
            fd[otime.dyn_size_ext.raw_tensor] = [len(a) for a in ys]
    return fd


def _pname(vals):
    """map variable names to layer-relative ones"""
    P = {}
    for k, v in vals.items():
        parts = [p for p in k.split("/") if p not in ("rec", "rnn", "param")]
        P["/".join(parts)] = v
    return P


def _run(c, tf, session):
    if c["search"] and c["from_data"]:
        c = dict(c, lens=[c["lens"][0]] * len(c["lens"]))  # otherwise the padding is searched: known finding
    cell, n_pre = make_cell(c)
    tags = {k for _, k, _, _ in cell}
    data_rnd = numpy.random.RandomState(c["seed"] % 100003)
    xs = [data_rnd.uniform(-1, 1, (t, D)).astype("float32") for t in c["lens"]]
    ms = [data_rnd.uniform(-1, 1, (t, D)).astype("float32") for t in c["lens3"]]
    ys = [data_rnd.randint(0, c["V"], (t if c["from_data"] else u,)) for t, u in zip(c["lens"], c["lens2"])]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            net, ext, times, otime, vals = _build(c, cell, n_pre, c["opt"], c["search"], tf, session, data_rnd)
    except AssertionError as exc:
        # known finding: loud rejection of some layers which are moved out of the loop of a search
        if c["search"] and c["opt"] and "but no search choices" in str(exc):
            return {"rejected"}
        raise
    P = _pname(vals)
    rec = net.layers["rec"]
    names = [n for n, _, _, _ in cell]
    if not c["search"]:
        return _check_forced(c, cell, n_pre, session, net, ext, times, otime, P, xs, ys, ms, names) | tags
    return _check_search(c, cell, n_pre, session, net, ext, times, otime, P, xs, ys, ms, names) | tags


def _ext_ref(P, x, m):
    if "enc/W" not in P:  # not used
        return {"x": x.astype("float64"), "enc": None, "vec": None}
    enc = numpy.tanh(m.astype("float64") @ P["enc/W"])
    return {"x": x.astype("float64"), "enc": enc, "vec": enc.mean(axis=0)}


def _accum(net, names):
    """outputs of the layers in the loop, over time"""
    rec = net.layers["rec"]
    out = {}
    for n in names:
        l = net.get_layer("rec/" + n)
        out[n] = l.output
    return out


def _check_forced(c, cell, n_pre, session, net, ext, times, otime, P, xs, ys, ms, names):
    with contextlib.redirect_stdout(io.StringIO()):
        outs = _accum(net, names + ["prob"])
    fetch = {n: o.placeholder for n, o in outs.items()}
    res = session.run(fetch, feeds(ext, times, otime, xs, ys, ms, c["seed"] % 997, False))
    refs = [forced(c, cell, n_pre, P, _ext_ref(P, x, m), y) for x, y, m in zip(xs, ys, ms)]
    info = lambda: "cell %r, params %s, lens %s/%s, in loop: %s" % (cell, sorted(P), c["lens"], c["lens2"], net.layers["rec"].cell.layers_in_loop)
    for n, o in outs.items():
        a = res[n]
        dims = list(o.dims)
        require(a.ndim == len(dims), lambda: "%s: %s, ndim %i" % (n, o, a.ndim))
        tdim = [i for i, d in enumerate(dims) if d == otime]
        bdim = [i for i, d in enumerate(dims) if d.is_batch_dim()]
        fdim = [i for i in range(len(dims)) if i not in tdim + bdim]
        require(len(fdim) == 1, lambda: "%s: unexpected dims %s; %s" % (n, o, info()))
        for b in range(len(xs)):
            r = refs[b][0][n] if n != "prob" else refs[b][1]
            r = numpy.array(r)  # [T,D]
            x = a
            # to [T,B,D]
            x = x.transpose(tdim + bdim + fdim)
            if bdim:
                x = x.take(b, axis=len(tdim))
            if tdim:
                require(x.shape[0] >= len(r), lambda: "%s: %s frames; %s" % (n, x.shape[0], info()))
                x = x[: len(r)]
                require(
                    numpy.allclose(x, r, rtol=1e-3, atol=2e-4),
                    lambda: "%s: seq %i: got %s, expected %s; optimized %s; %s" % (n, b, x.tolist(), r.tolist(), c["opt"], info()),
                )
            else:  # constant over time
                for t in range(len(r)):
                    require(
                        numpy.allclose(x, r[t], rtol=1e-3, atol=2e-4),
                        lambda: "%s: no time dim: seq %i: got %s, expected %s; %s" % (n, b, x.tolist(), r.tolist(), info()),
                    )
    sz = session.run(net.layers["rec"].output.get_sequence_lengths(), feeds(ext, times, otime, xs, ys, ms, 1, False))
    require(sz.tolist() == [len(y) for y in ys], lambda: "output lengths %s, expected %s" % (sz, [len(y) for y in ys]))
    loop = net.layers["rec"].cell
    return {"moved-out"} if getattr(loop, "layers_in_loop", None) is not None and len(loop.layers_in_loop) < len(names) else {"all-in-loop"}


def _check_search(c, cell, n_pre, session, net, ext, times, otime, P, xs, ys, ms, names):
    rec = net.layers["rec"]
    with contextlib.redirect_stdout(io.StringIO()):
        outs = _accum(net, names)
    K, nb = c["beam"], len(xs)
    fetch = {n: o.placeholder for n, o in outs.items()}
    fetch["@labels"] = rec.output.copy_as_time_batch_major().placeholder
    fetch["@lens"] = rec.output.get_sequence_lengths()
    sc = rec.get_search_choices()
    fetch["@scores"] = sc.beam_scores
    fetch["@best"] = net.layers["output"].output.copy_as_batch_major().placeholder
    fetch["@best_scores"] = net.layers["output"].search_choices.beam_scores
    fetch["@best_lens"] = net.layers["output"].output.get_sequence_lengths()
    try:
        res = session.run(fetch, feeds(ext, times, otime, xs, ys, ms, c["seed"] % 997, True))
    except Exception as exc:
        # all hypotheses empty: known finding
        if "TensorArray has size zero" in str(exc) and not c["from_data"] and not c["include_eos"]:
            try:
                hs = [h for x, m in zip(xs, ms) for h in beam_search(c, cell, n_pre, P, _ext_ref(P, x, m), 1)]
            except Ambiguous:
                return {"all-empty"}
            if all(h["labels"] == [0] for h in hs):
                return {"all-empty"}
        raise
    labels = res["@labels"]  # [T,B*K]
    T = labels.shape[0]
    info = lambda: "cell %r, lens %s, beam %i, max len %s, bos %s, optimized %s" % (cell, c["lens"], K, c["max_len"], c["bos"], c["opt"])
    require(labels.shape == (T, nb * K), lambda: "labels shape %s; %s" % (labels.shape, info()))
    lens = res["@lens"].reshape(nb, K)
    scores = res["@scores"]
    require(scores.shape == (nb, K), lambda: "scores %s; %s" % (scores.shape, info()))
    labels = labels.reshape(T, nb, K)
    tags = {"search"}
    S = T if c["from_data"] else min(int(lens.max()) + (0 if c["include_eos"] else 1), c["max_len"])  # executed steps
    if c["from_data"]:
        require(T == max(c["lens"]), "%i steps" % T)
    for b in range(nb):
        e = _ext_ref(P, xs[b], ms[b])
        n_steps = c["lens"][b] if c["from_data"] else None
        try:
            if n_steps is not None:
                want = beam_search(c, cell, n_pre, P, e, n_steps)
            else:
                want = None
                for n in range(1, c["max_len"] + 1):
                    want = beam_search(c, cell, n_pre, P, e, n)
                    if all(h["ended"] for h in want):
                        break
                want = beam_search(c, cell, n_pre, P, e, max(n, S)) if S > n else want
        except Ambiguous:
            tags.add("ambiguous")
            want = None
        for k in range(K):
            n = int(lens[b, k])
            require(0 <= n <= T, lambda: "length %i of %i; %s" % (n, T, info()))
            seq = labels[:n, b, k].tolist()
            if c["from_data"]:
                require(n == c["lens"][b], lambda: "seq %i beam %i has length %i; %s" % (b, k, n, info()))
                full = seq
                score = None
            else:
                require(n <= c["max_len"], lambda: "length %i; %s" % (n, info()))
                if c["include_eos"]:
                    require(0 not in seq[:-1], lambda: "EOS inside %s; %s" % (seq, info()))
                    full = seq
                else:
                    require(0 not in seq, lambda: "EOS in %s; %s" % (seq, info()))
                    full = seq + [0] if n < c["max_len"] else seq
            # every layer along the path of this hypothesis
            vals, logps = forced(c, cell, n_pre, P, e, full)
            sc_ = sum(lp[y] for lp, y in zip(logps, full)) * c["scale"]
            if c["len_norm"] and not c["from_data"] and full and full[-1] == 0 and len(full) < S:
                sc_ = sc_ * (S / len(full)) ** c["exp"]
            if c["len_norm"]:
                sc_ = sc_ / (lens.max() + (0 if c["include_eos"] and not c["from_data"] else 1))
            require(
                abs(sc_ - scores[b, k]) < 1e-3 * (1 + abs(sc_)),
                lambda: "seq %i beam %i: %s has score %s, got %s; %s" % (b, k, full, sc_, scores[b, k], info()),
            )
            for name, o in outs.items():
                a = res[name]
                dims = list(o.dims)
                bdim = [i for i, d in enumerate(dims) if d.is_batch_dim()]
                tdim = [i for i, d in enumerate(dims) if d.dimension is None and not d.is_batch_dim()]
                fdim = [i for i in range(len(dims)) if i not in tdim + bdim]
                x = a.transpose(tdim + bdim + fdim)
                if not tdim:
                    continue
                if bdim:
                    if x.shape[1] == nb * K:
                        x = x[:, b * K + k]
                    else:
                        require(x.shape[1] == nb, lambda: "%s: %s: shape %s" % (name, o, x.shape))
                        x = x[:, b]
                r = numpy.array(vals[name][:n]).reshape(n, D)
                x = x[:n]
                require(
                    x.shape == r.shape and numpy.allclose(x, r, rtol=1e-3, atol=2e-4),
                    lambda: "layer %s of seq %i beam %i, labels %s: got %s, expected %s; %s" % (name, b, k, full, x.tolist(), r.tolist(), info()),
                )
            if want is not None:
                w = want[k]
                wl = w["labels"]
                if not c["from_data"]:
                    if 0 in wl:
                        wl = wl[: wl.index(0) + 1]
                require(
                    full == wl,
                    lambda: "seq %i beam %i: %s (score %s), expected %s (score %s), all %s; %s"
                    % (b, k, full, scores[b, k], wl, w["score"], [(h["labels"], h["score"]) for h in want], info()),
                )
                tags.add("reference")
        hyps = {tuple(labels[: lens[b, k], b, k].tolist()) for k in range(K)}
        require(len(hyps) == K, lambda: "duplicate hypotheses %s; %s" % (hyps, info()))
        with numpy.errstate(divide="ignore", invalid="ignore"):
            norm = scores[b] / lens[b].astype("float32") if c["dec_norm"] else scores[b]
        best = int(numpy.argmax(norm))
        bl = int(res["@best_lens"][b])
        require(
            res["@best"].shape[1] == max(res["@best_lens"]) and abs(res["@best_scores"][b, 0] - norm[best]) < 1e-4 * (1 + abs(norm[best])) or not numpy.isfinite(norm).all(),
            lambda: "decide: shape %s, lens %s, score %s, beam scores %s; %s" % (res["@best"].shape, res["@best_lens"], res["@best_scores"][b], norm, info()),
        )
        require(
            res["@best"][b, :bl].tolist() == labels[: lens[b, best], b, best].tolist(),
            lambda: "decide: %s, best is %s; %s" % (res["@best"][b, :bl], labels[: lens[b, best], b, best], info()),
        )
    return tags


@st.composite
def case(draw, search=False):
    n = draw(st.integers(1, 3))
    V = draw(st.integers(2, 5))
    opt = draw(st.booleans())
    return {
        "search": search,
        "from_data": draw(st.booleans()),
        "include_eos": draw(st.booleans()) and search,
        "opt": opt,
        "with_att": draw(st.booleans()),
        "lens": draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)),
        "lens3": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)),
        "lens2": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)),
        "n_layers": draw(st.integers(1, 5)),
        "n_pre": draw(st.integers(1, 5)),
        "V": V,
        "beam": draw(st.integers(1, V)),
        "bos": draw(st.integers(0, V - 1)),
        "len_norm": draw(st.booleans()) and search,
        "exp": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])),
        "dec_norm": draw(st.booleans()) and search,
        "scale": draw(st.sampled_from([1.0, 1.0, 0.5])),
        "max_len": draw(st.integers(1, 6)),
        "gain": draw(st.sampled_from([1.0, 2.0])),
        "seed": draw(gen.seeds()),
        "p": draw(gen.picks(60)),
    }


def nontrivial(c):
    return len(set(c["lens"])) > 1 or (c["search"] and c["beam"] > 1)


SUBS = [
    Sub("loop", lambda: case(search=False), run, quick=300, thorough=15000, nontrivial=nontrivial),
    Sub("search", lambda: case(search=True), run, quick=200, thorough=15000, nontrivial=nontrivial),
]
