"""C07: frontend array ops on padded batches == numpy on each sequence"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, rfh
from vlib.rfh import World, check_seqs, assert_close, dim_len, out_seq


def setup():
    rfh.setup_torch()


OPS = {}


def op(*, min_len=0, t_kinds=None, no_nan=False):
    def deco(f):
        OPS[f.__name__[3:]] = (f, min_len, t_kinds, no_nan)
        return f

    return deco


def _lse(a, axis):
    with numpy.errstate(divide="ignore", invalid="ignore"):
        return numpy.logaddexp.reduce(a.astype("float64"), axis=axis)


def _lse_multi(a, axes):
    for ax in sorted(axes, reverse=True):
        a = _lse(a, ax)
    return a


# ---------------------------------------------------------------- reductions

@op()
def op_reduce(w, p):
    import returnn.frontend as rf

    mode = p.choice(["sum", "max", "min", "mean", "logsumexp", "logmeanexp", "any", "all", "argmax", "argmin"])
    with_b = p.bool()
    names = ["B"] + p.subset(["T", "U", "S", "F"], at_least=1)
    cand = [n for n in names if n != "B"]
    if mode.startswith("arg"):
        axes = [p.choice(cand)]
        with_b = False
    else:
        axes = p.subset(cand, at_least=1)
    if with_b:
        axes = ["B"] + [n for n in cand if n in axes or n in w.lens]
    if mode in ("any", "all"):
        dtype = "bool"
    elif mode in ("sum", "max", "min", "argmax", "argmin"):
        dtype = p.choice(["float32", "int32", "int64", "float64"])
    else:
        dtype = p.choice(["float32", "float64"])
    if mode not in ("sum", "any", "all") and any(w.size(a) == 0 for a in axes):
        return []  # no frame at all
    x = w.tensor(names, dtype=dtype, ints=p.bool(), inf=mode in ("max", "min", "argmax", "argmin", "logsumexp") and p.int(0, 3) == 0)
    rf_axes = [w.dims[a] for a in axes]
    if p.bool():
        rf_axes = rf_axes[::-1]
    out = getattr(rf, "reduce_" + mode)(x.t, axis=rf_axes if len(rf_axes) > 1 or p.bool() else rf_axes[0])
    rest = [n for n in names if n not in axes and n != "B"]

    def red(arr, ax):
        n = int(numpy.prod([arr.shape[a] for a in ax]))
        a64 = arr.astype("float64") if dtype.startswith("float") else arr
        if n == 0 and mode not in ("sum", "any", "all"):
            return None
        if mode == "logsumexp":
            return _lse_multi(a64, ax)
        if mode == "logmeanexp":
            return _lse_multi(a64, ax) - numpy.log(n)
        if mode.startswith("arg"):
            return getattr(numpy, mode)(a64, axis=ax[0])
        return getattr(numpy, mode)(a64, axis=tuple(ax))

    if mode.startswith("arg"):
        require(out.sparse_dim == w.dims[axes[0]], "sparse dim of %s" % mode)
        ref = lambda b: red(x.seq(b), [x.seq_names.index(axes[0])])
    elif not with_b:
        ref = lambda b: red(x.seq(b), [x.seq_names.index(a) for a in axes])
    else:
        # over all valid frames of all seqs
        keep = [x.seq_names.index(n) for n in rest]
        parts = []
        for b in w.seqs():
            s = x.seq(b)
            s = numpy.transpose(s, keep + [i for i in range(s.ndim) if i not in keep])
            parts.append(s.reshape([s.shape[i] for i in range(len(keep))] + [-1]) if s.size else numpy.zeros([w.size(n) for n in rest] + [0], s.dtype))
        allf = numpy.concatenate(parts, axis=-1)
        res = red(allf, [allf.ndim - 1])
        require(w.B not in out.dims, "batch dim was to be reduced")
        ref = lambda b: res
    check_seqs(out, w, rest, ref, "reduce_%s %s over %s" % (mode, names, axes), rtol=1e-4, atol=1e-4)
    return ["reduce_" + mode]


@op()
def op_num_elements(w, p):
    import returnn.frontend as rf

    names = ["B"] + p.subset(["T", "U", "S", "F"], at_least=1)
    if p.bool():
        names = names[1:]
    n = rf.num_elements_of_shape([w.dims[x] for x in names])
    tot = []
    for b in w.seqs():
        tot.append(int(numpy.prod([w.lens[x][b] if x in w.lens else w.num[x] for x in names if x != "B"])))
    from returnn.tensor import Tensor

    if isinstance(n, Tensor):
        check_seqs(n, w, [], lambda b: sum(tot) if "B" in names else tot[b], "num_elements_of_shape %s" % names)
    else:
        want = sum(tot) if "B" in names else tot[0]
        require(n == want and ("B" in names or len(set(tot)) == 1), lambda: "num elements of %s: %r, want %r" % (names, n, want))
    return []


@op(min_len=1)
def op_moments(w, p):
    import returnn.frontend as rf

    corr = p.choice([0, 0, 1])
    axes = p.choice([["B", "T"], ["T"], ["F"], ["B", "T", "F"], ["T", "F"]])
    x = w.tensor(["B", "T", "F"])
    allf = None
    if "B" in axes:
        allf = numpy.concatenate([x.seq(b) for b in w.seqs()], axis=0).astype("float64")
        arrs = [allf] * w.c["b"]
    else:
        arrs = [x.seq(b).astype("float64") for b in w.seqs()]
    ax = tuple(["T", "F"].index(a) for a in axes if a != "B")
    rest = [n for n in ["T", "F"] if n not in axes]
    if corr and any(int(numpy.prod([arrs[b].shape[a] for a in ax])) <= corr for b in w.seqs()):
        return []
    mean, var = rf.moments(x.t, axis=[w.dims[a] for a in axes], correction=corr)
    check_seqs(mean, w, rest, lambda b: arrs[b].mean(axis=ax), "moments mean over %s" % axes)

    def ref_var(b):
        n = numpy.prod([arrs[b].shape[a] for a in ax])
        return None if n <= corr else arrs[b].var(axis=ax, ddof=corr)

    check_seqs(var, w, rest, ref_var, "moments var over %s, correction %i" % (axes, corr), rtol=1e-4, atol=1e-4)
    return []


# ---------------------------------------------------------------- elementwise over the sequence

@op()
def op_cumsum(w, p):
    import returnn.frontend as rf

    ax = p.choice(["T", "F", "U"])
    x = w.tensor(["B"] + p.choice([["T", "F", "U"], ["T", "U"]]) if ax != "F" else ["B", "T", "F"])
    if ax not in x.names:
        return []
    out = rf.cumsum(x.t, spatial_dim=w.dims[ax])
    check_seqs(out, w, x.seq_names, lambda b: numpy.cumsum(x.seq(b), axis=x.seq_names.index(ax)), "cumsum " + ax)
    return []


@op(min_len=1)
def op_softmax(w, p):
    import returnn.frontend as rf

    ax = p.choice(["T", "F", "U"])
    log = p.bool()
    names = ["B", "T", "F"] + (["U"] if ax == "U" else [])
    x = w.tensor(names)
    out = (rf.log_softmax if log else rf.softmax)(x.t, axis=w.dims[ax])

    def ref(b):
        s = x.seq(b).astype("float64")
        i = x.seq_names.index(ax)
        r = s - numpy.expand_dims(_lse(s, i), i)
        return r if log else numpy.exp(r)

    check_seqs(out, w, x.seq_names, ref, "softmax " + ax, rtol=1e-4, atol=1e-4)
    return []


@op()
def op_reverse(w, p):
    import returnn.frontend as rf

    ax = p.choice(["T", "T", "F", "S"])
    x = w.tensor(["B", "T", "F", "S"], dtype=p.choice(["float32", "int32"]))
    out = rf.reverse_sequence(x.t, axis=w.dims[ax])
    check_seqs(out, w, x.seq_names, lambda b: numpy.flip(x.seq(b), axis=x.seq_names.index(ax)), "reverse " + ax)
    return []


@op()
def op_shift(w, p):
    import returnn.frontend as rf

    right = p.bool()
    amount = p.int(1, 3)
    x = w.tensor(["B", "T", "F"], dtype=p.choice(["float32", "int64"]))
    pv = numpy.array([p.int(5, 9)] * w.c["b"])
    value = int(pv[0])
    if p.bool():
        vt = w.tensor(["B"], dtype=x.t.dtype)
        pv, value = vt.arr, vt.t
    if w.max_T == 0:
        return []  # torch
    out = (rf.shift_right if right else rf.shift_left)(x.t, axis=w.T, pad_value=value, amount=amount)

    def ref(b):
        s = x.seq(b)
        pad = numpy.full((amount,) + s.shape[1:], pv[b], s.dtype)
        return numpy.concatenate([pad, s])[: len(s)] if right else numpy.concatenate([s, pad])[amount:]

    check_seqs(out, w, x.seq_names, ref, "shift %s %i" % ("right" if right else "left", amount))
    return []


@op()
def op_sort(w, p):
    import returnn.frontend as rf

    ax = p.choice(["T", "F", "S"])
    desc = p.bool()
    if ax == "T" and w.T.need_masking():
        ax = "F"  # not supported
    x = w.tensor(["B", "T", "F", "S"], ints=p.bool(), dtype=p.choice(["float32", "int32"]))
    out, idx, od = rf.sort(x.t, axis=w.dims[ax], descending=desc)
    order = [od if n == ax else n for n in x.seq_names]
    i = x.seq_names.index(ax)

    def ref(b):
        s = x.seq(b)
        return numpy.sort(s, axis=i) if not desc else numpy.flip(numpy.sort(s, axis=i), axis=i)

    check_seqs(out, w, order, ref, "sort " + ax)
    check_seqs(
        idx, w, order, lambda b: numpy.argsort(-x.seq(b) if desc else x.seq(b), axis=i, kind="stable"), "sort indices"
    )
    require(idx.sparse_dim == w.dims[ax], "sort sparse dim")
    return []


# ---------------------------------------------------------------- gather / scatter

@op(min_len=1)
def op_gather(w, p):
    import returnn.frontend as rf

    ax = p.choice(["T", "T", "F", "U"])
    src_names = ["B"] + p.choice([["T", "F", "U"], ["T", "F", "S", "U"]])
    x = w.tensor(src_names, dtype=p.choice(["float32", "int32", "bool"]))
    kind = p.choice(["b", "bi", "int", "bs", "i", "bui"])
    w.add_static("I", p.int(1, 3))
    clip = p.bool()
    if kind == "int":
        lim = min(w.lens[ax]) if ax in w.lens else w.num[ax]
        k = p.int(0, lim - 1)
        out = rf.gather(x.t, indices=k, axis=w.dims[ax])
        i = x.seq_names.index(ax)
        check_seqs(
            out, w, [n for n in x.seq_names if n != ax], lambda b: numpy.take(x.seq(b), k, axis=i), "gather int"
        )
        return ["int"]
    names = {"b": ["B"], "bi": ["B", "I"], "bs": ["B", "S", "I"], "i": ["I"], "bui": ["B", "U", "I"]}[kind]
    if ax in names:
        names = ["B", "I"]
    if kind == "i" and ax in w.lens and not clip:
        lims = [min(w.lens[ax])] * w.c["b"]
    else:
        lims = w.lens[ax] if ax in w.lens else [w.num[ax]] * w.c["b"]
    shape = [w.size(n) for n in names]
    vals = numpy.zeros(shape, "int64")
    if "B" in names:
        for b in w.seqs():
            vals[b] = w.rnd.randint(-2 if clip else 0, lims[b] + (3 if clip else 0), vals[b].shape)
    else:
        vals = w.rnd.randint(-2 if clip else 0, lims[0] + (3 if clip else 0), shape)
    use_sparse = p.bool()
    idx = w.tensor(names, dtype=p.choice(["int32", "int64"]), values=vals, sparse_dim=w.dims[ax] if use_sparse else None, garbage=False)
    out = rf.gather(x.t, indices=idx.t, clip_to_valid=clip, **({} if use_sparse else {"axis": w.dims[ax]}))
    rest = [n for n in x.seq_names if n != ax]
    shared = [n for n in idx.seq_names if n in rest]
    new = [n for n in idx.seq_names if n not in rest]

    def ref(b):
        s = x.seq(b)
        iv = idx.seq(b)
        if clip:
            iv = numpy.clip(iv, 0, (w.lens[ax][b] if ax in w.lens else w.num[ax]) - 1)
        # naive loop
        s = numpy.moveaxis(s, x.seq_names.index(ax), 0)
        res_names = shared + new + [n for n in rest if n not in shared]
        sh = [s.shape[1 + rest.index(n)] if n in rest else iv.shape[idx.seq_names.index(n)] for n in res_names]
        res = numpy.zeros(sh, s.dtype)
        for pos in numpy.ndindex(*sh):
            d = dict(zip(res_names, pos))
            k = iv[tuple(d[n] for n in idx.seq_names)]
            res[pos] = s[(k,) + tuple(d[n] for n in rest)]
        return res

    check_seqs(out, w, shared + new + [n for n in rest if n not in shared], ref, "gather %s %s clip %s" % (ax, names, clip))
    return [kind]


@op()
def op_scatter(w, p):
    import returnn.frontend as rf

    mode = p.choice(["sum", "sum", "max", "min", "logsumexp", "logmeanexp", "argmax"])
    dim = p.choice(["T", "T", "F"])
    names = ["B", "T"] + p.subset(["F", "S"])
    if dim not in names:
        names.append(dim)
    names = [n for n in ["B", "T", "S", "F"] if n in names]
    dtype = "float32" if mode in ("logsumexp", "logmeanexp") else p.choice(["float32", "int32"] if mode != "argmax" else ["float32"])
    x = w.tensor(names, dtype=dtype, ints=True)
    n_out = p.int(1, 5)
    od = w.add_static("O", n_out)
    inames = ["B", dim] + (["S"] if "S" in names and p.bool() and dim != "S" else [])
    idx = w.tensor(inames, dtype="int32", low=0, high=n_out - 1, sparse_dim=od)
    if dim in w.lens or True:  # keep the indices valid also in the padding (undefined otherwise)
        import torch

        idx.t.raw_tensor = torch.clamp(idx.t.raw_tensor, 0, n_out - 1)
        idx.arr = numpy.clip(idx.arr, 0, n_out - 1)
    fill = p.choice([None, None, 0, -7]) if mode in ("sum", "max", "min") else None
    if mode == "argmax":
        fill = -1
    if mode == "sum" and fill not in (None, 0):
        fill = 0
    kw = {} if fill is None else {"fill_value": fill}
    out = rf.scatter(x.t, indices=idx.t, indices_dim=w.dims[dim], mode=mode, **kw, **({"out_dim": od} if p.bool() else {}))
    rest = [n for n in x.seq_names if n != dim]

    def ref(b):
        s = x.seq(b)
        iv = idx.seq(b)
        sh = [n_out] + [s.shape[x.seq_names.index(n)] for n in rest]
        lists = {}
        for pos in numpy.ndindex(*s.shape):
            d = dict(zip(x.seq_names, pos))
            k = int(iv[tuple(d[n] for n in idx.seq_names)])
            lists.setdefault((k,) + tuple(d[n] for n in rest), []).append((d[dim], s[pos]))
        res = numpy.zeros(sh, "float64")
        for pos in numpy.ndindex(*sh):
            vs = lists.get(pos, [])
            v = [float(a) for _, a in vs]
            if mode == "sum":
                res[pos] = sum(v)
            elif mode in ("max", "min"):
                if not v:
                    if fill is None:
                        if dtype.startswith("int"):
                            f = numpy.iinfo(dtype).min if mode == "max" else numpy.iinfo(dtype).max
                        else:
                            f = -numpy.inf if mode == "max" else numpy.inf
                    else:
                        f = fill
                    res[pos] = f
                else:
                    res[pos] = max(v) if mode == "max" else min(v)
            elif mode == "argmax":
                res[pos] = -1 if not v else min(i for i, a in vs if a == max(v))
            else:
                if not v:
                    res[pos] = -numpy.inf
                else:
                    res[pos] = _lse(numpy.array(v), 0) - (numpy.log(len(v)) if mode == "logmeanexp" else 0)
        return res if dtype.startswith("float") and mode != "argmax" else res.astype("int64")

    check_seqs(out, w, ["O"] + rest, ref, "scatter %s over %s, fill %r, indices %s" % (mode, dim, fill, inames), rtol=1e-4, atol=1e-4)
    return [mode]


# ---------------------------------------------------------------- slice / pad / concat

@op(min_len=1)
def op_slice(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Tensor

    ax = p.choice(["T", "T", "F"])
    x = w.tensor(["B", "T", "F"], dtype=p.choice(["float32", "int32"]))
    lens = w.lens["T"] if ax == "T" else [w.num["F"]] * w.c["b"]
    lmin = min(lens)
    i = x.seq_names.index(ax)
    kind = p.choice(["start", "start_end", "end_neg", "step", "size", "neg_start", "start_tensor_size", "size_tensor", "size_dim"])
    d = w.dims[ax]
    if kind == "start":
        s = p.int(0, lmin)
        out, od = rf.slice(x.t, axis=d, start=s)
        f = lambda b, a: a[s:]
    elif kind == "start_end":
        s = p.int(0, lmin)
        e = p.int(s, lmin)
        out, od = rf.slice(x.t, axis=d, start=s, end=e)
        f = lambda b, a: a[s:e]
    elif kind == "end_neg":
        s = p.int(0, lmin)
        e = -p.int(1, lmin)
        if s - e > lmin:
            s = lmin + e
        if ax == "T" and w.c["t_kind"] == "batch":
            pass
        out, od = rf.slice(x.t, axis=d, start=s, end=e)
        f = lambda b, a: a[s:e]
    elif kind == "step":
        s = p.int(0, lmin)
        st_ = p.int(1, 4)
        out, od = rf.slice(x.t, axis=d, start=s, step=st_)
        f = lambda b, a: a[s::st_]
    elif kind == "size":
        s = p.int(0, lmin)
        n = p.int(0, lmin - s)
        out, od = rf.slice(x.t, axis=d, start=s, size=n)
        f = lambda b, a: a[s : s + n]
    elif kind == "neg_start":
        if ax == "T" and w.c["t_kind"] == "batch" and len(set(lens)) > 1:
            return []  # counts from the padded end
        s = -p.int(1, lmin)
        out, od = rf.slice(x.t, axis=d, start=s)
        f = lambda b, a: a[s:]
    elif kind == "start_tensor_size":
        n = p.int(0, lmin)
        starts = [int(w.rnd.randint(0, lmin - n + 1))] * w.c["b"]
        st_t = w.tensor([], dtype="int32", values=starts[0])
        out, od = rf.slice(x.t, axis=d, start=st_t.t, size=n)
        f = lambda b, a: a[starts[b] : starts[b] + n]
    elif kind == "size_tensor":
        sizes = [int(w.rnd.randint(0, lmin + 1))] * w.c["b"]
        st_t = w.tensor([], dtype="int32", values=sizes[0])
        out, od = rf.slice(x.t, axis=d, size=st_t.t)
        f = lambda b, a: a[: sizes[b]]
    else:
        n = p.int(0, lmin)
        w.add_static("N", n)
        out, od = rf.slice(x.t, axis=d, size=w.dims["N"])
        require(od == w.dims["N"], "slice out dim")
        f = lambda b, a: a[:n]

    def ref(b):
        a = numpy.moveaxis(x.seq(b), i, 0)
        return numpy.moveaxis(f(b, a), 0, i)

    check_seqs(out, w, [od if n == ax else n for n in x.seq_names], ref, "slice %s %s" % (ax, kind))
    return [kind]


@op()
def op_pad(w, p):
    import returnn.frontend as rf

    mode = p.choice(["constant", "constant", "constant", "reflect", "replicate", "circular"])
    dtype = p.choice(["float32", "float32", "int32", "bool"]) if mode == "constant" else "float32"
    names = ["B", "T", "F"]
    axes = p.choice([["T"], ["T"], ["F"], ["T", "F"], ["F", "T"]]) if mode == "constant" else p.choice([["T"], ["F"]])
    if w.max_T == 0:
        return []  # torch
    x = w.tensor(names, dtype=dtype)
    padding = []
    for a in axes:
        lens = w.lens[a] if a in w.lens else [w.num[a]]
        m = 3
        if mode == "reflect":
            m = min(lens) - 1
        elif mode == "circular":
            m = min(lens)
        elif mode == "replicate" and min(lens) == 0:
            m = 0
        if m < 0:
            return []
        padding.append((p.int(0, m), p.int(0, m)))
    if mode != "constant" and any(a in w.lens and len(set(w.lens[a])) > 1 for a in axes):
        if not p.bool():
            padding = [(le, 0) for le, _ in padding]  # only left padding
            if mode == "circular":
                return []
    value_kind = p.choice(["const", "none", "tensor_b" if len(axes) == 1 else "const", "tensor_scalar"]) if mode == "constant" and dtype != "bool" else "none"
    kw = {}
    val = numpy.zeros(w.c["b"])
    if value_kind == "const":
        kw["value"] = p.int(4, 9)
        val += kw["value"]
    elif value_kind == "tensor_b":
        vt = w.tensor(["B"], dtype=dtype)
        kw["value"] = vt.t
        val = vt.arr
    elif value_kind == "tensor_scalar":
        vt = w.tensor([], dtype=dtype)
        kw["value"] = vt.t
        val = val + vt.arr
    if mode == "constant" and dtype == "bool":
        kw["value"] = p.bool()
        val = val + kw["value"]
    try:
        out, ods = rf.pad(x.t, axes=[w.dims[a] for a in axes], padding=padding, mode=mode, handle_dynamic_dims=True, **kw)
    except NotImplementedError:
        require(mode != "constant", "constant padding is implemented")
        return ["not_implemented"]

    def ref(b):
        s = x.seq(b)
        pw = [(0, 0)] * s.ndim
        for a, lr in zip(axes, padding):
            pw[x.seq_names.index(a)] = lr
        if mode == "constant":
            return numpy.pad(s, pw, constant_values=val[b])
        return numpy.pad(s, pw, mode={"reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode])

    order = [ods[axes.index(n)] if n in axes else n for n in x.seq_names]
    check_seqs(out, w, order, ref, "pad %s %s %s value %s" % (mode, axes, padding, value_kind))
    return [mode]


@op()
def op_concat(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    ax = p.choice(["T", "F"])
    k = p.int(1, 3)
    parts = []
    sources = []
    for j in range(k):
        nm = "C%i" % j
        w.add_static(nm, p.int(0, 3))
        names = ["B", nm, "F"] if ax == "T" else ["B", "T", nm]
        parts.append((w.tensor(names), nm))
    names = ["B", "T", "F"]
    parts.append((w.tensor(names), ax))  # the last one can be dynamic
    bc = p.bool()
    if bc and k >= 1:  # a source without batch dim
        nm = parts[0][1]
        parts[0] = (w.tensor([nm, "F"] if ax == "T" else ["T", nm] if w.c["t_kind"] != "batch" else ["B", "T", nm]), nm)
    out, od = rf.concat(*[(x.t, w.dims[nm]) for x, nm in parts], allow_broadcast=bc)
    order = [od, "F"] if ax == "T" else ["T", od]

    def ref(b):
        arrs = []
        for x, nm in parts:
            s = x.seq(b)
            want = [nm if n == ax else n for n in ["T", "F"]]
            arrs.append(s.transpose([x.seq_names.index(n) for n in want]))
        return numpy.concatenate(arrs, axis=0 if ax == "T" else 1)

    check_seqs(out, w, order, ref, "concat " + ax)
    return []


@op()
def op_stack_split(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    k = p.int(1, 4)
    xs = [w.tensor(["B", "T", "F"]) for _ in range(k)]
    out, od = rf.stack([x.t for x in xs])
    check_seqs(out, w, [od, "T", "F"], lambda b: numpy.stack([x.seq(b) for x in xs]), "stack")
    ns = [p.int(1, 3) for _ in range(p.int(1, 3))]
    tot = w.add_static("X", sum(ns))
    y = w.tensor(["B", "T", "X"])
    ods = [Dim(n, name="part%i" % i) for i, n in enumerate(ns)]
    outs = rf.split(y.t, axis=tot, out_dims=ods)
    require(len(outs) == len(ns), "number of split outputs")
    o = 0
    for n, d, t in zip(ns, ods, outs):
        check_seqs(t, w, ["T", d], lambda b: y.seq(b)[:, o : o + n], "split")
        o += n
    return []


@op()
def op_cum_concat(w, p):
    import returnn.frontend as rf

    x = w.tensor(["B", "T", "F"])
    new = w.tensor(["B", "F"])
    out, od = rf.cum_concat_step(new.t, prev_accum=x.t, axis=w.T)
    check_seqs(out, w, [od, "F"], lambda b: numpy.concatenate([x.seq(b), new.seq(b)[None]]), "cum_concat_step")
    return []


@op()
def op_window(w, p):
    import returnn.frontend as rf

    n = p.int(1, 5)
    wd = w.add_static("W", n)
    padding = p.choice(["same", "same", "valid"])
    stride = p.choice([1, 1, 2, 3])
    kw = {}
    left = None
    if padding == "same":
        k = p.choice(["none", "left", "right"])
        if k == "left":
            left = p.int(0, n - 1)
            kw["window_left"] = left
        elif k == "right":
            r = p.int(0, n - 1)
            kw["window_right"] = r
            left = n - 1 - r
        else:
            left = (n + 1) // 2 - 1
    elif min(w.lens["T"]) < n:
        return []
    x = w.tensor(["B", "T", "F"])
    pv = p.choice([None, None, 7.0])
    if pv is not None:
        if padding == "same" and w.c["t_kind"] == "batch" and len(set(w.c["t"])) > 1:
            pv = None  # what is after the end of a shorter seq is masked with zero
        else:
            kw["pad_value"] = pv
    out, od = rf.window(x.t, spatial_dim=w.T, window_dim=wd, padding=padding, stride=stride, **kw)

    def ref(b):
        s = x.seq(b)
        if padding == "same":
            s2 = numpy.pad(s, [(left, n - 1 - left), (0, 0)], constant_values=pv or 0)
        else:
            s2 = s
        num = len(s2) - n + 1
        r = numpy.stack([s2[t : t + n] for t in range(num)]) if num > 0 else numpy.zeros((0, n, s.shape[1]), s.dtype)
        return r[::stride]

    check_seqs(out, w, [od, "W", "F"], ref, "window %i %s stride %i %s" % (n, padding, stride, kw))
    return []


# ---------------------------------------------------------------- masking / packing

@op()
def op_masked_select(w, p):
    import returnn.frontend as rf

    x = w.tensor(["B", "T", "F"], dtype=p.choice(["float32", "int32"]))
    kind = p.choice(["bt", "tb", "t", "pack"])
    if kind == "pack":
        order = p.choice([["B", "T"], ["T", "B"]])
        if w.c["t_kind"] != "batch":
            return []
        packed, pd = rf.pack_padded(x.t, dims=[w.dims[n] for n in order])
        back = rf.pad_packed(packed, in_dim=pd, dims=[w.dims[n] for n in order])
        frames = []
        if order == ["B", "T"]:
            frames = [x.seq(b)[t] for b in w.seqs() for t in range(w.lens["T"][b])]
        else:
            frames = [x.seq(b)[t] for t in range(w.max_T) for b in w.seqs() if t < w.lens["T"][b]]
        want = numpy.array(frames, dtype=x.t.dtype).reshape(-1, w.num["F"])
        require(w.B not in packed.dims, "pack keeps B")
        check_seqs(packed, w, [pd, "F"], lambda b: want, "pack_padded")
        check_seqs(back, w, ["T", "F"], x.seq, "pad_packed(pack_padded)")
        return [kind]
    m = w.tensor(["B", "T"], dtype="bool")
    if kind in ("bt", "tb"):
        # explicit mask with the frames of all seqs. the mask covers the padding as well: set it False there
        m2 = m.t.copy_masked(False)
        dims = [w.dims[n] for n in (["B", "T"] if kind == "bt" else ["T", "B"])]
        out, od = rf.masked_select(x.t, mask=m2, dims=dims)
        back = rf.masked_scatter(out, mask=m2, dims=dims, in_dim=od)
        if kind == "bt":
            frames = [x.seq(b)[t] for b in w.seqs() for t in range(w.lens["T"][b]) if m.seq(b)[t]]
        else:
            frames = [x.seq(b)[t] for t in range(w.max_T) for b in w.seqs() if t < w.lens["T"][b] and m.seq(b)[t]]
        want = numpy.array(frames, dtype=x.t.dtype).reshape(-1, w.num["F"])
        check_seqs(out, w, [od, "F"], lambda b: want, "masked_select " + kind)
        check_seqs(
            back, w, ["T", "F"], lambda b: numpy.where(m.seq(b)[:, None], x.seq(b), 0).astype(x.t.dtype), "masked_scatter " + kind
        )
        bk = w.tensor(["B", "T", "F"], dtype=x.t.dtype)
        back = rf.masked_scatter(out, bk.t, mask=m2, dims=dims, in_dim=od)
        check_seqs(
            back, w, ["T", "F"], lambda b: numpy.where(m.seq(b)[:, None], x.seq(b), bk.seq(b)).astype(x.t.dtype), "masked_scatter backup"
        )
        return [kind]
    if w.max_T == 0:
        return []
    out, od = rf.masked_select(x.t, mask=m.t, dims=[w.T])
    check_seqs(out, w, [od, "F"], lambda b: x.seq(b)[m.seq(b)], "masked_select T")
    if out.raw_tensor.shape[out.get_axis_from_description(od)] == 0:
        return [kind]
    back = rf.masked_scatter(out, mask=m.t, dims=[w.T], in_dim=od)
    check_seqs(
        back, w, ["T", "F"], lambda b: numpy.where(m.seq(b)[:, None], x.seq(b), 0).astype(x.t.dtype), "masked_scatter T"
    )
    return [kind]


@op()
def op_seq_mask(w, p):
    import returnn.frontend as rf

    m = w.T.get_mask() if w.T.need_masking() else None
    if m is not None:
        got = out_all(m, [w.B, w.T], w)
        require((got == w.mask(["B", "T"])).all(), lambda: "get_mask %r" % got)
    x = w.tensor(["B", "T", "U", "F"], dtype=p.choice(["float32", "int32"]))
    k = p.int(-5, 5)
    dims = p.choice([None, ["T"], ["U"], ["T", "U"]])
    y = x.t.copy_masked(k, **({} if dims is None else {"dims": [w.dims[d] for d in dims]}))
    got = out_all(y, [w.dims[n] for n in x.names], w)
    mask = numpy.ones(got.shape, bool)
    for n in dims or ["T", "U"]:
        if w.dims[n].need_masking():
            mask &= w.mask(["B", n]).reshape([w.c["b"]] + [w.size(n) if m == n else 1 for m in x.names[1:]])
    want = numpy.where(mask, x.arr, k)
    require(numpy.array_equal(got, want, equal_nan=x.t.dtype == "float32"), lambda: "copy_masked %r:\n%r\nwant\n%r" % (dims, got, want))
    r = rf.range_over_dim(w.T)
    check_seqs(r, w, ["T"], lambda b: numpy.arange(w.lens["T"][b]), "range_over_dim")
    from returnn.tensor import Tensor

    last = rf.last_frame_position_of_dim(w.T)
    for b in w.seqs():
        got = last if not isinstance(last, Tensor) else int(out_seq(last, w, b, []))
        require(got == max(w.lens["T"][b] - 1, 0), "last frame position")
    return []


def out_all(t, order, w):
    """whole raw array"""
    require(set(t.dims) == set(order), lambda: "dims %r, want %r" % (t.dims, order))
    raw = t.raw_tensor.detach().cpu().numpy()
    return raw.transpose([t.dims.index(d) for d in order])


# ---------------------------------------------------------------- matmul / combine / where

@op()
def op_matmul(w, p):
    import returnn.frontend as rf

    n_red = p.choice([1, 1, 1, 2, 3])
    w.add_static("X", p.int(1, 3))
    w.add_static("Y", p.int(1, 3))
    cand = ["T", "U", "S", "F"]
    red = []
    for _ in range(n_red):
        r = p.choice(cand)
        if r in w.lens and w.dims[r].need_masking():
            r = "F"  # masking is not implemented
        if r not in red:
            red.append(r)
    rest = [n for n in cand if n not in red]
    a_names = ["B"] + red
    b_names = list(red)
    if p.bool() or any(r in w.lens for r in red):
        b_names = ["B"] + b_names
    for n in rest:
        k = p.int(0, 3)
        if k in (1, 3):
            a_names.append(n)
        if k in (2, 3) and (n not in w.lens or "B" in b_names):
            b_names.append(n)
    if p.bool():
        a_names.append("X")
    if p.bool():
        b_names.append("Y")
    dtype = p.choice(["float32", "float32", "float64"])
    a = w.tensor(a_names, dtype=dtype)
    b_ = w.tensor(b_names, dtype=dtype)
    swap = p.bool()
    args = (b_.t, a.t) if swap else (a.t, b_.t)
    out = rf.matmul(*args, reduce=[w.dims[r] for r in red] if len(red) > 1 or p.bool() else w.dims[red[0]])
    all_names = [n for n in ["T", "U", "S", "F", "X", "Y"] if (n in a_names or n in b_names) and n not in red]
    let = {n: chr(97 + i) for i, n in enumerate(["T", "U", "S", "F", "X", "Y"])}

    def ref(b):
        eq = "%s,%s->%s" % (
            "".join(let[n] for n in a.seq_names),
            "".join(let[n] for n in b_.seq_names),
            "".join(let[n] for n in all_names),
        )
        return numpy.einsum(eq, a.seq(b).astype("float64"), b_.seq(b).astype("float64"))

    check_seqs(out, w, all_names, ref, "matmul %s x %s reduce %s" % (a_names, b_names, red), rtol=1e-4, atol=1e-4)
    return ["red%i" % len(red)]


@op()
def op_combine(w, p):
    import returnn.frontend as rf

    kind = p.choice(["+", "-", "*", "/", "//", "%", "maximum", "minimum", "squared_difference", "==", "<", ">=", "!=", "logical_and", "logical_or", "where", "python"])
    a_names = ["B"] + p.subset(["T", "U", "S", "F"])
    b_names = p.subset(["B", "T", "U", "S", "F"])
    if any(n in w.lens for n in b_names) and "B" not in b_names:
        b_names = ["B"] + b_names
    let = ["T", "U", "S", "F"]
    all_names = [n for n in let if n in a_names or n in b_names]
    if kind.startswith("logical"):
        dtype = "bool"
    elif kind in ("//", "%"):
        dtype = "int32"
    else:
        dtype = p.choice(["float32", "int32"]) if kind not in ("/", "where") else "float32"
    a = w.tensor(a_names, dtype=dtype, ints=True, low=-4, high=4)
    b_ = w.tensor(b_names, dtype=dtype, ints=True, low=1, high=5)
    if dtype == "int32" and kind in ("//", "%"):
        import torch

        b_.t.raw_tensor = torch.clamp(b_.t.raw_tensor, min=1)  # no zero division in the padding
        b_.arr = numpy.maximum(b_.arr, 1)
    scalar = None
    if p.int(0, 3) == 0 and kind != "where":
        scalar = 2 if dtype != "bool" else True
        b_names = []
        all_names = [n for n in let if n in a_names]
    rhs = b_.t if scalar is None else scalar
    is_sub = set(b_names) <= set(a_names) or set(a_names) <= set(b_names)
    if kind in ("python", "where", "maximum", "minimum", "squared_difference") and not is_sub and kind not in ("maximum", "minimum", "squared_difference"):
        pass
    ops = {
        "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
        "//": lambda x, y: x // y, "%": lambda x, y: x % y, "maximum": numpy.maximum, "minimum": numpy.minimum,
        "squared_difference": lambda x, y: (x - y) ** 2, "==": lambda x, y: x == y, "<": lambda x, y: x < y,
        ">=": lambda x, y: x >= y, "!=": lambda x, y: x != y, "logical_and": numpy.logical_and,
        "logical_or": numpy.logical_or,
    }  # fmt: skip
    if kind == "where":
        c = w.tensor(p.choice([["B"], ["B", "T"], a_names]), dtype="bool")
        all_names = [n for n in let if n in a_names or n in b_names or n in c.names]
        out = rf.where(c.t, a.t, b_.t, allow_broadcast_all_sources=True)
        f = lambda bb: numpy.where(_ex(c, bb, all_names), _ex(a, bb, all_names), _ex(b_, bb, all_names))
    else:
        if kind == "python":
            import operator

            o = p.choice(["add", "sub", "mul", "truediv", "lt", "ge", "eq"])
            if not is_sub:
                out = rf.combine_bc(a.t, "+", rhs)
                fn = lambda x, y: x + y
            else:
                fn = getattr(operator, o)
                out = fn(a.t, rhs)
        elif kind in ("==", "<", ">=", "!="):
            out = rf.compare_bc(a.t, kind, rhs)
            fn = ops[kind]
        else:
            name = {"+": "+", "-": "-", "*": "*", "/": "/"}.get(kind, kind)
            out = rf.combine_bc(a.t, name, rhs)
            fn = ops[kind]
        if scalar is not None:
            f = lambda bb: fn(_ex(a, bb, all_names), scalar)
        else:
            f = lambda bb: fn(_ex(a, bb, all_names), _ex(b_, bb, all_names))

    def ref(bb):
        r = f(bb)
        sh = [w.lens[n][bb] if n in w.lens else w.num[n] for n in all_names]
        return numpy.broadcast_to(r, sh)

    check_seqs(out, w, all_names, ref, "%s: %s %s" % (kind, a_names, b_names))
    return [kind]


def _ex(x, b, all_names):
    """expand to all_names (broadcast axes of size 1)"""
    s = x.seq(b)
    names = x.seq_names
    s = s.transpose([names.index(n) for n in all_names if n in names])
    return s.reshape([s.shape[[n for n in all_names if n in names].index(n)] if n in names else 1 for n in all_names])


# ---------------------------------------------------------------- top-k, search, one-hot

@op(min_len=1)
def op_top_k(w, p):
    import returnn.frontend as rf

    multi = p.int(0, 2) == 0
    names = ["B", "T", "S", "F"]
    x = w.tensor(names)
    ragged = w.T.need_masking()
    if multi:
        axes = p.choice([["S", "F"], ["F", "S"]])
    else:
        axes = [p.choice(["F", "T", "S"])]
    sizes = [[w.lens[a][b] if a in w.lens else w.num[a] for a in axes] for b in w.seqs()]
    k = p.int(1, min(int(numpy.prod(s)) for s in sizes))
    vals, idx, kd = rf.top_k(x.t, axis=[w.dims[a] for a in axes] if multi else w.dims[axes[0]], k=k)
    rest = [n for n in x.seq_names if n not in axes]

    def flat(b):
        s = x.seq(b)
        s = s.transpose([x.seq_names.index(n) for n in rest + axes])
        return s.reshape(list(s.shape[: len(rest)]) + [-1])

    check_seqs(vals, w, rest + [kd], lambda b: -numpy.sort(-flat(b), axis=-1)[..., :k], "top_k %s k=%i" % (axes, k))
    idxs = list(idx) if multi else [idx]
    for j, a in enumerate(axes):
        require(idxs[j].sparse_dim == w.dims[a], "top_k sparse dim")

        def ref_idx(b):
            best = numpy.argsort(-flat(b), axis=-1, kind="stable")[..., :k]
            return numpy.array(numpy.unravel_index(best, sizes[b])[j])

        check_seqs(idxs[j], w, rest + [kd], ref_idx, "top_k indices %s" % a)
    return ["multi" if multi else axes[0]]


@op(min_len=1)
def op_top_k_mask(w, p):
    import returnn.frontend as rf

    which = p.choice(["k", "p"])
    if which == "k":
        ax = p.choice(["F", "T"])
        x = w.tensor(["B", "T", "F"])
        k = p.int(1, min(w.lens["T"]) if ax == "T" else w.num["F"])
        out = rf.top_k_mask(x.t, axis=w.dims[ax], k=k)
        i = x.seq_names.index(ax)

        def ref(b):
            s = x.seq(b)
            rank = numpy.argsort(numpy.argsort(-s, axis=i, kind="stable"), axis=i, kind="stable")
            return rank < k

        check_seqs(out, w, x.seq_names, ref, "top_k_mask %s %i" % (ax, k))
    else:
        x = w.tensor(["B", "T", "F"])
        probs = rf.softmax(x.t, axis=w.F)
        pr = p.choice([0.0, 0.25, 0.5, 0.9, 1.0])
        one_more = p.bool()
        out = rf.top_p_mask(probs, axis=w.F, p=pr, one_more=one_more)

        def ref(b):
            s = out_seq(probs, w, b, [w.T, w.F])
            srt = numpy.argsort(-s, axis=1, kind="stable")
            cum = numpy.cumsum(numpy.take_along_axis(s, srt, 1), axis=1)
            keep = cum <= pr
            if (numpy.abs(cum - pr) < 1e-5).any():
                return None
            if one_more:
                keep = numpy.concatenate([numpy.ones_like(keep[:, :1]), keep[:, :-1]], axis=1)
            res = numpy.zeros_like(keep)
            numpy.put_along_axis(res, srt, keep, 1)
            return res

        check_seqs(out, w, ["T", "F"], ref, "top_p_mask %r" % pr)
    return [which]


@op(min_len=1)
def op_search_sorted(w, p):
    import returnn.frontend as rf

    side = p.choice(["left", "right"])
    ax = "F" if w.T.need_masking() else p.choice(["F", "T"])
    names = ["B"] + (["T", "F"] if p.bool() or ax == "T" else ["F"])
    x = w.tensor(names, ints=True)
    srt = numpy.sort(x.arr, axis=x.names.index(ax))
    x2 = w.tensor(names, values=srt, garbage=True)
    w.add_static("V", p.int(1, 4))
    vn = [n for n in x2.names if n != ax] + (["V"] if p.bool() else [])
    v = w.tensor(vn, ints=True, low=-5, high=5)
    out = rf.search_sorted(x2.t, v.t, axis=w.dims[ax], side=side)
    rest = [n for n in x2.seq_names if n != ax]

    def ref(b):
        s = x2.seq(b)
        vv = v.seq(b)
        res = numpy.zeros(vv.shape, "int64")
        for pos in numpy.ndindex(*vv.shape):
            d = dict(zip(v.seq_names, pos))
            ix = tuple(slice(None) if n == ax else d[n] for n in x2.seq_names)
            res[pos] = numpy.searchsorted(s[ix], vv[pos], side=side)
        return res

    check_seqs(out, w, v.seq_names, ref, "search_sorted %s %s" % (ax, side))
    return []


@op()
def op_one_hot(w, p):
    import returnn.frontend as rf

    x = w.tensor(["B", "T"], dtype="int32", low=0, high=w.num["F"] - 1, sparse_dim=w.F)
    out = rf.one_hot(x.t)
    check_seqs(out, w, ["T", "F"], lambda b: numpy.eye(w.num["F"], dtype="float32")[x.seq(b)].reshape(-1, w.num["F"]), "one_hot")
    lp = p.choice([0.9, 0.6])
    if w.num["F"] > 1:
        out = rf.smooth_one_hot(x.t, label_prob=lp)
        check_seqs(
            out, w, ["T", "F"],
            lambda b: numpy.where(numpy.eye(w.num["F"])[x.seq(b)].reshape(-1, w.num["F"]) > 0, lp, (1 - lp) / (w.num["F"] - 1)),
            "smooth_one_hot",
        )  # fmt: skip
    return []


# ---------------------------------------------------------------- merge / split

@op()
def op_merge_split(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    x = w.tensor(["B", "T", "S", "F"], dtype=p.choice(["float32", "int32"]))
    kind = p.choice(["sf", "fs", "st", "ts", "bt", "round", "split_static", "split_dyn"])
    if kind in ("sf", "fs"):
        ds = ["S", "F"] if kind == "sf" else ["F", "S"]
        out, od = rf.merge_dims(x.t, dims=[w.dims[d] for d in ds])

        def ref(b):
            s = x.seq(b).transpose([x.seq_names.index(n) for n in ["T"] + ds])
            return s.reshape(s.shape[0], s.shape[1] * s.shape[2])

        check_seqs(out, w, ["T", od], ref, "merge " + kind)
        back = rf.split_dims(out, axis=od, dims=[w.dims[d] for d in ds])
        check_seqs(back, w, x.seq_names, x.seq, "split(merge)")
    elif kind == "ts":
        # dynamic major, static minor: the valid data is a prefix
        if w.c["t_kind"] == "batch":
            ds = ["T", "S"]
            out, od = rf.merge_dims(x.t, dims=[w.T, w.S])
            back = rf.split_dims(out, axis=od, dims=[w.T, w.S])
            check_seqs(back, w, x.seq_names, x.seq, "split(merge) T,S")
            if dim_len(od, w, 0) == w.lens["T"][0] * w.num["S"]:
                check_seqs(
                    out, w, [od, "F"],
                    lambda b: x.seq(b).reshape(x.seq(b).shape[0] * x.seq(b).shape[1], w.num["F"]) if dim_len(od, w, b) == w.lens["T"][b] * w.num["S"] else None,
                    "merge T,S",
                )  # fmt: skip
    elif kind in ("st", "bt", "round"):
        ds = {"st": ["S", "T"], "bt": ["B", "T"], "round": ["T", "B", "S"]}[kind]
        out, od = rf.merge_dims(x.t, dims=[w.dims[d] for d in ds])
        back = rf.split_dims(out, axis=od, dims=[w.dims[d] for d in ds])
        check_seqs(back, w, x.seq_names, x.seq, "split(merge) %s" % ds)
    elif kind == "split_static":
        a, b2 = p.int(1, 3), p.int(1, 3)
        w.add_static("X", a * b2)
        da, db = Dim(a, name="xa"), Dim(b2, name="xb")
        y = w.tensor(["B", "T", "X"])
        out = rf.split_dims(y.t, axis=w.dims["X"], dims=[da, db])
        check_seqs(out, w, ["T", da, db], lambda b: y.seq(b).reshape(-1, a, b2), "split static")
    else:
        n = p.int(1, 3)
        nd = Dim(n, name="chunk")
        lens = [ln * n for ln in w.lens["T"]]
        if w.c["t_kind"] == "static":
            return []
        y = w.tensor(["B", "T", "S", "F"])
        td = w.T * nd
        out, _ = rf.merge_dims(y.t, dims=[w.T, w.S], out_dim=w.T * w.S)
        od = w.T * w.S
        back = rf.split_dims(out, axis=od, dims=[w.T, w.S])
        check_seqs(back, w, y.seq_names, y.seq, "split dyn")
        require([dim_len(td, w, b) for b in w.seqs()] == lens, "T * n")
    return [kind]


@op()
def op_edit(w, p):
    import returnn.frontend as rf

    a = w.tensor(["B", "T"], dtype="int32", low=0, high=2)
    b_ = w.tensor(["B", "U"], dtype="int32", low=0, high=2)
    from returnn.tensor import Dim

    sd = Dim(3, name="labels")
    a.t.sparse_dim = sd
    b_.t.sparse_dim = sd
    out = rf.edit_distance(a.t, w.T, b_.t, w.U)

    def ref(b):
        x, y = list(a.seq(b)), list(b_.seq(b))
        row = list(range(len(y) + 1))
        for i, xx in enumerate(x):
            new = [i + 1]
            for j, yy in enumerate(y):
                new.append(min(row[j] + (xx != yy), row[j + 1] + 1, new[j] + 1))
            row = new
        return numpy.array(row[-1])

    check_seqs(out, w, [], ref, "edit_distance")
    return []


@op(min_len=1)
def op_scatter_multi(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    mode = p.choice(["sum", "max", "min"])
    o1, o2 = Dim(p.int(1, 3), name="o1"), Dim(p.int(1, 2), name="o2")
    n_out = o1.dimension * o2.dimension
    two_in = p.bool() and not w.T.need_masking()
    x = w.tensor(["B", "T", "S"] if two_in else ["B", "T", "F"], ints=True)
    names = ["B", "T", "S"] if two_in else ["B", "T"]
    idx = w.tensor(names, dtype="int32", low=0, high=n_out - 1, garbage=False)
    out = rf.scatter(
        x.t, indices=idx.t, indices_dim=[w.T, w.S] if two_in else w.T, mode=mode, out_dim=[o1, o2], fill_value=9
    )

    def ref(b):
        s, iv = x.seq(b), idx.seq(b)
        res = numpy.full([n_out] + ([] if two_in else [w.num["F"]]), 9.0)
        f = {"sum": numpy.sum, "max": numpy.max, "min": numpy.min}[mode]
        for o in range(n_out):
            sel = s[iv == o]
            if len(sel):
                res[o] = f(sel, axis=0)
        return res.reshape([o1.dimension, o2.dimension] + list(res.shape[1:]))

    check_seqs(out, w, [o1, o2] + ([] if two_in else ["F"]), ref, "scatter %s multi" % mode)
    return [mode]


def _nontrivial(case):
    return case["b"] >= 2 and (case["t_kind"] == "batch" and len(set(case["t"])) > 1)


def _strategy(name):
    f, min_len, t_kinds, _ = OPS[name]

    def make():
        kw = {}
        if t_kinds:
            kw["t_kinds"] = t_kinds
        return st.tuples(rfh.world(min_len=min_len, **kw), gen.picks(16)).map(lambda t: dict(t[0], p=t[1]))

    return make


def _check(name):
    f = OPS[name][0]

    def check(case):
        w = World(case)
        return f(w, gen.Picks(case["p"]))

    return check


_WEIGHT = {"reduce": 4, "gather": 2, "scatter": 3, "slice": 3, "pad": 3, "matmul": 3, "combine": 4, "masked_select": 2, "merge_split": 2, "window": 2, "top_k": 2}

SUBS = [
    Sub(n, _strategy(n), _check(n), quick=160 * _WEIGHT.get(n, 1), thorough=6000 * _WEIGHT.get(n, 1), nontrivial=_nontrivial)
    for n in OPS
]
