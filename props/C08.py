"""C08: modules: the result for a sequence does not depend on the batch around it; values as by the reference formulas"""

from __future__ import annotations
import itertools
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, rfh
from vlib.rfh import World, assert_close, dim_len, out_seq, out_seq_torch, single_world, single_tensor


def setup():
    rfh.setup_torch()


MODS = {}


def mod(*, min_len=0, grad=True, ref_only=False, weight=1, max_len=7):
    def deco(f):
        MODS[f.__name__[2:]] = (f, dict(min_len=min_len, grad=grad, ref_only=ref_only, weight=weight, max_len=max_len))
        return f

    return deco


class M:
    """one module under test"""

    def __init__(self, module, inputs, call, ref=None, *, skip_single=None, grad=True, tags=(), train=False, tol=1e-6, partial=False):
        self.module = module
        self.inputs = inputs  # list of RTensor
        self.call = call  # (world, tensors) -> list of (name, tensor, order)
        self.ref = ref  # b -> list of arrays or None
        self.skip_single = skip_single  # b -> bool
        self.grad = grad
        self.tags = list(tags)
        self.train = train
        self.tol = tol
        self.partial = partial  # NaN in ref means: unspecified, do not look at it


def _randomize(module, rnd):
    import torch

    params = {}
    for name, p in module.named_parameters():
        v = rnd.uniform(-0.8, 0.8, tuple(p.raw_tensor.shape))
        if "variance" in name:
            v = numpy.abs(v) + 0.3
        with torch.no_grad():
            p.raw_tensor.copy_(torch.tensor(v, dtype=p.raw_tensor.dtype))
        params[name] = v.astype("float64")
    return params


def _np(p):
    return p.raw_tensor.detach().numpy().astype("float64")


def run(c):
    """one case"""
    import torch
    import returnn.frontend as rf

    w = World(c["w"])
    p = gen.Picks(c["p"])
    f, opts = MODS[c["kind"]]
    with rf.set_default_float_dtype_ctx("float64"):
        rf.init_forward_step_run_ctx(epoch=1, step=0)
        m = f(w, p)
        if m is None:
            return ["skipped"]
        with_grad = m.grad and opts["grad"] and c["grad"]
        if m.module is not None and c["train"]:
            # dropout is 0 everywhere (explicitly), so the train flag must not matter for what is not batch norm
            pass

        params = list(m.module.named_parameters()) if m.module is not None else []
        tags = ["kind:" + c["kind"]] + m.tags

        def _run(ww, ins):
            if with_grad:
                for x in ins:
                    if x.t.dtype.startswith("float"):
                        x.t.raw_tensor = x.t.raw_tensor.detach().clone().requires_grad_(True)
                for _, prm in params:
                    prm.raw_tensor.grad = None
            return m.call(ww, [x.t for x in ins])

        def _grads():
            return {n: (prm.raw_tensor.grad.numpy().copy() if prm.raw_tensor.grad is not None else None) for n, prm in params}

        outs = _run(w, m.inputs)
        names = [n for n, _, _ in outs]
        got = [[out_seq(t, w, b, order) for _, t, order in outs] for b in w.seqs()]

        # reference formulas
        unspecified = None
        if m.partial:
            unspecified = [[numpy.isnan(r) for r in m.ref(b)] for b in w.seqs()]
            for b in w.seqs():
                for g, u in zip(got[b], unspecified[b]):
                    require(g.shape == u.shape, lambda: "%s shape %r, expected %r" % (c["kind"], g.shape, u.shape))
        if m.ref is not None:
            for b in w.seqs():
                for i, (n, g, r) in enumerate(zip(names, got[b], m.ref(b))):
                    if unspecified:
                        g, r = [numpy.where(unspecified[b][i], 0.0, v) for v in (g, r)]
                    if r is not None:
                        assert_close(g, r, "%s %s, seq %i, vs reference" % (c["kind"], n, b), rtol=1e-5, atol=1e-5)
            tags.append("ref")

        # gradients
        weights = [
            [w.rnd.uniform(-1, 1, g.shape) if g.dtype.kind == "f" else None for g in gb] for gb in got
        ]
        if unspecified:
            weights = [[numpy.where(u, 0.0, wt) for u, wt in zip(ub, wb)] for ub, wb in zip(unspecified, weights)]
        in_grads = None
        p_grads = None
        if with_grad:
            loss = 0.0
            for b in w.seqs():
                if m.skip_single and m.skip_single(b):
                    continue
                for (n, t, order), wt in zip(outs, weights[b]):
                    if wt is not None and t.raw_tensor.requires_grad:
                        loss = loss + (out_seq_torch(t, w, b, order) * torch.tensor(wt)).sum()
            if torch.is_tensor(loss):
                loss.backward()
                tags.append("grad")
            else:
                with_grad = False
            p_grads = _grads()
            in_grads = []
            for x in m.inputs:
                g = x.t.raw_tensor.grad if x.t.dtype.startswith("float") else None
                if g is None:
                    in_grads.append(None)
                    continue
                order = [w.dims[n] for n in x.names]
                in_grads.append(g.permute(*[list(x.t.dims).index(d) for d in order]).numpy() if x.names else g.numpy())
            for x, g in zip(m.inputs, in_grads):
                if g is not None and x.names:
                    mask = w.mask(x.names)
                    require(
                        bool((g[~mask] == 0).all()),
                        lambda: "%s: gradient w.r.t. padding frames of the input %s: %r" % (c["kind"], x.t, g[~mask]),
                    )

        # each sequence alone, without any padding
        reuse = c["reuse"] and w.B.dimension is None
        if reuse:
            tags.append("reuse-dims")
        sum_grads = {}
        for b in w.seqs():
            if m.skip_single and m.skip_single(b):
                tags.append("seq-skipped")
                continue
            ws = single_world(w, b, reuse_dims=reuse)
            ins = [single_tensor(x, ws, b) for x in m.inputs]
            souts = _run(ws, ins)
            loss = 0.0
            for i, ((n, t, order), g, wt) in enumerate(zip(souts, got[b], weights[b])):
                s = out_seq(t, ws, 0, order)
                if unspecified and s.shape == g.shape:
                    g, s = [numpy.where(unspecified[b][i], 0.0, v) for v in (g, s)]
                assert_close(g, s, "%s %s, seq %i, in batch vs alone" % (c["kind"], n, b), rtol=m.tol, atol=m.tol)
                if with_grad and wt is not None and t.raw_tensor.requires_grad:
                    loss = loss + (out_seq_torch(t, ws, 0, order) * torch.tensor(wt)).sum()
            if with_grad and torch.is_tensor(loss):
                loss.backward()
                for n, g in _grads().items():
                    if g is not None:
                        sum_grads[n] = sum_grads.get(n, 0.0) + g
                for x, sx, gb in zip(m.inputs, ins, in_grads):
                    if gb is None or "B" not in x.names:
                        continue
                    gs = sx.t.raw_tensor.grad
                    if gs is None:
                        gs = torch.zeros_like(sx.t.raw_tensor)
                    gs = gs.permute(*[list(sx.t.dims).index(ws.dims[n]) for n in x.names]).numpy()[0]
                    gg = gb[b]
                    for i, n in enumerate(x.names[1:]):
                        if n in w.lens:
                            gg = numpy.take(gg, numpy.arange(w.lens[n][b]), axis=i)
                    assert_close(gg, gs, "%s: input gradient, seq %i, in batch vs alone" % (c["kind"], b), rtol=m.tol * 10, atol=m.tol * 10)
        if with_grad:
            for n, g in p_grads.items():
                sg = sum_grads.get(n)
                if g is None:
                    require(sg is None or not numpy.abs(sg).max() > 0, lambda: "%s: no grad for %s in batch" % (c["kind"], n))
                    continue
                if sg is None:
                    sg = numpy.zeros_like(g)
                assert_close(g, sg, "%s: gradient of parameter %s, batch vs sum of single sequences" % (c["kind"], n), rtol=m.tol * 10, atol=m.tol * 10)
    if c["w"]["b"] > 1 and len(set(c["w"]["t"])) > 1:
        tags.append("ragged")
    return tags


# ---------------------------------------------------------------- simple modules


def _x(w, p, *names, extra=True, feature=True):
    """input [B,T,F] with maybe S as additional batch dim"""
    names = list(names) or ["B", "T", "F"]
    if extra and p.int(0, 2) == 0:
        names.append("S")
    return w.tensor(names, dtype="float64", feature=feature)


@mod()
def m_linear(w, p):
    import returnn.frontend as rf

    out = w.add_static("out", p.int(1, 4))
    m = rf.Linear(w.F, out, with_bias=p.bool())
    _randomize(m, w.rnd)
    x = _x(w, p)

    def ref(b):
        s = x.seq(b)
        y = numpy.tensordot(s, _np(m.weight), axes=(x.seq_names.index("F"), 0))
        return [y + (_np(m.bias) if m.bias is not None else 0)]

    names = [n for n in x.seq_names if n != "F"] + ["out"]
    return M(m, [x], lambda ww, t: [("out", m(t[0]), [ww.dims[n] for n in names])], ref)


@mod()
def m_embedding(w, p):
    import returnn.frontend as rf

    out = w.add_static("out", p.int(1, 4))
    vocab = w.add_static("vocab", 50)
    m = rf.Embedding(vocab, out)
    _randomize(m, w.rnd)
    x = w.tensor(["B", "T"] + (["S"] if p.bool() else []), dtype="int32", low=0, high=49, sparse_dim=vocab)
    x.t.raw_tensor = x.t.raw_tensor.clamp(0, 49)

    def ref(b):
        return [_np(m.weight)[x.seq(b)]]

    return M(m, [x], lambda ww, t: [("out", m(t[0]), [ww.dims[n] for n in x.seq_names] + [out])], ref)


@mod()
def m_norm(w, p):
    import returnn.frontend as rf

    kind = p.choice(["layer", "rms", "layer2", "group", "normalize"])
    x = _x(w, p)
    names = x.seq_names
    if kind == "layer2":
        dims = ["S", "F"] if "S" in names else ["F"]
        m = rf.LayerNorm([w.dims[n] for n in dims], with_bias=p.bool())
    elif kind == "layer":
        dims = ["F"]
        m = rf.LayerNorm(w.F, with_bias=p.bool(), eps=p.choice([1e-6, 1e-2]))
    elif kind == "rms":
        dims = ["F"]
        m = rf.RMSNorm(w.F, with_bias=p.bool(), eps=p.choice([1e-6, 1e-2]))
    elif kind == "group":
        dims = ["F"]
        f = w.num["F"]
        g = p.choice([d for d in (1, 2, 3, 4) if f % d == 0])
        m = rf.GroupNorm(w.F, num_groups=g)
    else:
        dims = ["F"]
        m = None
        if min(w.lens["T"]) == 0:
            return None  # mean over nothing
    if m is not None:
        _randomize(m, w.rnd)
    axes = ["T"] + (["F"] if p.bool() else []) if kind == "normalize" else None

    def ref(b):
        a = x.seq(b)
        if kind == "normalize":
            ax = tuple(names.index(n) for n in axes)
            if a.size == 0:
                return [None]
            return [(a - a.mean(axis=ax, keepdims=True)) / numpy.sqrt(a.var(axis=ax, keepdims=True) + 1e-6)]
        ax = tuple(names.index(n) for n in dims)
        order = [i for i in range(a.ndim) if i not in ax] + list(ax)
        a = a.transpose(order)
        red = tuple(range(a.ndim - len(ax), a.ndim))
        if kind == "rms":
            y = a / numpy.sqrt((a**2).mean(axis=red, keepdims=True) + m.eps)
        elif kind == "group":
            aa = a.reshape(a.shape[:-1] + (g, a.shape[-1] // g))
            y = (aa - aa.mean(-1, keepdims=True)) / numpy.sqrt(aa.var(-1, keepdims=True) + m.eps)
            y = y.reshape(a.shape)
        else:
            y = (a - a.mean(axis=red, keepdims=True)) / numpy.sqrt(a.var(axis=red, keepdims=True) + m.eps)
        y = y * _np(m.scale)
        if m.bias is not None:
            y = y + _np(m.bias)
        return [y.transpose(numpy.argsort(order))]

    def call(ww, t):
        if kind == "normalize":
            y = rf.normalize(t[0], axis=[ww.dims[n] for n in axes])
        else:
            y = m(t[0])
        return [("out", y, [ww.dims[n] for n in names])]

    return M(m, [x], call, ref, tags=["norm:" + kind], grad=w.num["F"] > 1 or kind == "rms", skip_single=(lambda b: w.lens["T"][b] == 0) if kind == "normalize" else None, tol=1e-5)


@mod(min_len=1)
def m_batch_norm_eval(w, p):
    import returnn.frontend as rf

    m = rf.BatchNorm(w.F, affine=p.bool(), use_mask=p.choice([True, False, None]), eps=p.choice([1e-3, 0.1]))
    _randomize(m, w.rnd)
    x = _x(w, p)
    names = x.seq_names

    def ref(b):
        a = numpy.moveaxis(x.seq(b), names.index("F"), -1)
        y = (a - _np(m.running_mean)) / numpy.sqrt(_np(m.running_variance) + m.eps)
        if m.affine:
            y = y * _np(m.gamma) + _np(m.beta)
        return [numpy.moveaxis(y, -1, names.index("F"))]

    before = [_np(m.running_mean).copy(), _np(m.running_variance).copy()]

    def call(ww, t):
        y = m(t[0])
        require(
            (_np(m.running_mean) == before[0]).all() and (_np(m.running_variance) == before[1]).all(),
            "running statistics changed in eval mode",
        )
        return [("out", y, [ww.dims[n] for n in names])]

    return M(m, [x], call, ref)


# ---------------------------------------------------------------- conv / pool


def _out_len(n, *, f, s, d, pad):
    if pad == "same":
        return -(-n // s)
    extra = 2 * pad if isinstance(pad, int) else 0
    return max(0, -(-(n + extra - (f - 1) * d) // s))


def _windows(n, *, f, s, d, pad):
    """list of list of input positions, for each output frame"""
    left = (f - 1) * d // 2 if pad == "same" else pad if isinstance(pad, int) else 0
    return [[o * s + k * d - left for k in range(f)] for o in range(_out_len(n, f=f, s=s, d=d, pad=pad))]


@mod(weight=4)
def m_conv(w, p):
    import returnn.frontend as rf

    nd = p.choice([1, 1, 2])
    same = p.bool()
    pad = "same" if same else p.choice(["valid", "valid", 1])
    groups = 1
    cin = w.add_static("cin", p.int(1, 3))
    cout_n = p.int(1, 3)
    if p.int(0, 2) == 0:
        groups = cin.dimension
        cout_n = groups * p.int(1, 2)
    cout = w.add_static("cout", cout_n)
    spatial = ["T"] if nd == 1 else p.choice([["T", "F"], ["F", "T"]])
    fs = [p.int(1, 4) for _ in spatial]
    ss = [p.choice([1, 1, 2, 3]) for _ in spatial]
    ds = [p.choice([1, 1, 1, 2, 3]) for _ in spatial]
    names = ["B", "T", "cin"] + (["F"] if nd == 2 else []) + (["S"] if p.int(0, 2) == 0 else [])
    lens = [w.size(n) for n in spatial]
    if w.max_T == 0 or any(_out_len(n, f=f, s=s, d=d, pad=pad) == 0 for n, f, s, d in zip(lens, fs, ss, ds)):
        return None  # nothing to compute at all
    x = w.tensor(names, dtype="float64")
    stride_arg = ss if nd > 1 or p.bool() else ss[0]
    if all(s == 1 for s in ss) and p.bool():
        stride_arg = None
    dil_arg = ds if nd > 1 or p.bool() else ds[0]
    if all(d == 1 for d in ds) and p.bool():
        dil_arg = None
    cls = rf.Conv1d if nd == 1 else rf.Conv2d
    kw = dict(padding="valid" if isinstance(pad, int) else pad, strides=stride_arg, dilation_rate=dil_arg, groups=groups if groups > 1 or p.bool() else None, with_bias=p.bool())
    m = cls(cin, cout, fs[0] if nd == 1 else fs, **kw)
    m.padding = pad
    _randomize(m, w.rnd)
    order = [n for n in x.seq_names if n not in spatial and n != "cin"]

    def call(ww, t):
        dims = [ww.dims[n] for n in spatial]
        if nd == 1:
            y, o = m(t[0], in_spatial_dim=dims[0])
            o = [o]
        else:
            y, o = m(t[0], in_spatial_dims=dims)
        return [("out", y, [ww.dims[n] for n in order] + [cout] + list(o))]

    def ref(b):
        a = x.seq(b)
        a = a.transpose([x.seq_names.index(n) for n in order + ["cin"] + spatial])
        lens_b = a.shape[-nd:]
        wt = _np(m.filter)  # [out, in/groups, *filter]
        wins = [_windows(n, f=f, s=s, d=d, pad=pad) for n, f, s, d in zip(lens_b, fs, ss, ds)]
        out = numpy.zeros(a.shape[: len(order)] + (cout_n,) + tuple(len(v) for v in wins))
        for o in itertools.product(*[range(len(v)) for v in wins]):
            for k in itertools.product(*[range(f) for f in fs]):
                pos = [wins[i][o[i]][k[i]] for i in range(nd)]
                if any(q < 0 or q >= n for q, n in zip(pos, lens_b)):
                    continue
                v = a[(Ellipsis,) + tuple(pos)]  # [..., cin]
                wk = wt[(slice(None), slice(None)) + k]  # [out, in/g]
                per_out = cout_n // groups
                per_in = cin.dimension // groups
                for g in range(groups):
                    out[(Ellipsis, slice(g * per_out, (g + 1) * per_out)) + o] += (
                        v[..., g * per_in : (g + 1) * per_in] @ wk[g * per_out : (g + 1) * per_out].T
                    )
        if m.bias is not None:
            out = out + _np(m.bias).reshape((cout_n,) + (1,) * nd)
        return [out]

    t_idx = spatial.index("T")

    def skip(b):
        return w.lens["T"][b] == 0 or _out_len(w.lens["T"][b], f=fs[t_idx], s=ss[t_idx], d=ds[t_idx], pad=pad) == 0

    tags = ["conv:%s%s%s%s" % ("same" if same else "valid" if pad == "valid" else "int", ":stride" if max(ss) > 1 else "", ":dil" if max(ds) > 1 else "", ":groups" if groups > 1 else "")]
    return M(m, [x], call, ref, skip_single=skip, tags=tags)


@mod(weight=3)
def m_pool(w, p):
    import returnn.frontend as rf

    nd = p.choice([1, 1, 2])
    mode = p.choice(["max", "max", "avg"])
    pad = p.choice(["same", "valid"])
    spatial = ["T"] if nd == 1 else p.choice([["T", "F"], ["F", "T"]])
    fs = [p.int(1, 4) for _ in spatial]
    ss = [p.choice([f, f, 1, 2, 3]) for f in fs]
    ds = [p.choice([1, 1, 2]) if mode == "max" and pad == "valid" else 1 for _ in spatial]
    if pad == "same" and any(s == 1 for s in ss):
        pass
    names = ["B", "T"] + (["F"] if nd == 2 or p.bool() else []) + (["S"] if p.int(0, 2) == 0 else [])
    lens = [w.size(n) for n in spatial]
    if w.max_T == 0 or any(_out_len(n, f=f, s=s, d=d, pad=pad) == 0 for n, f, s, d in zip(lens, fs, ss, ds)):
        return None
    x = w.tensor(names, dtype="float64", ints=p.bool())
    order = [n for n in x.seq_names if n not in spatial]
    stride_arg = None if ss == fs and p.bool() else ss

    def call(ww, t):
        dims = [ww.dims[n] for n in spatial]
        y, o = rf.pool(
            t[0],
            mode=mode,
            pool_size=fs if nd > 1 or p.bool() else fs[0],
            strides=stride_arg,
            padding=pad,
            dilation_rate=ds if max(ds) > 1 else 1,
            in_spatial_dims=dims,
        )
        return [("out", y, [ww.dims[n] for n in order] + list(o))]

    def ref(b):
        a = x.seq(b)
        a = a.transpose([x.seq_names.index(n) for n in order + spatial])
        lens_b = a.shape[-nd:]
        wins = [_windows(n, f=f, s=s, d=d, pad=pad) for n, f, s, d in zip(lens_b, fs, ss, ds)]
        out = numpy.full(a.shape[: len(order)] + tuple(len(v) for v in wins), numpy.nan)
        for o in itertools.product(*[range(len(v)) for v in wins]):
            vals = []
            for k in itertools.product(*[range(f) for f in fs]):
                pos = [wins[i][o[i]][k[i]] for i in range(nd)]
                if any(q < 0 or q >= n for q, n in zip(pos, lens_b)):
                    continue
                vals.append(a[(Ellipsis,) + tuple(pos)])
            if not vals:
                continue
            full = len(vals) == numpy.prod(fs)
            if mode == "max":
                out[(Ellipsis,) + o] = numpy.max(vals, axis=0)
            elif full:
                out[(Ellipsis,) + o] = numpy.mean(vals, axis=0)
        return [out]

    t_idx = spatial.index("T")

    def skip(b):
        return w.lens["T"][b] == 0 or _out_len(w.lens["T"][b], f=fs[t_idx], s=ss[t_idx], d=ds[t_idx], pad=pad) == 0

    return M(None, [x], call, ref, skip_single=skip, tags=["pool:%s:%s" % (mode, pad)], partial=True)


# ---------------------------------------------------------------- recurrent


def _sig(v):
    return 1.0 / (1.0 + numpy.exp(-v))


@mod(min_len=1, weight=2)
def m_lstm(w, p):
    import returnn.frontend as rf

    zone = p.choice([False, False, True])
    out = w.add_static("out", p.int(1, 3))
    order = p.choice(["ifco", "icfo", "cifo"]) if zone else "ifco"
    if zone:
        m = rf.ZoneoutLSTM(
            w.F, out, with_bias=p.bool(), parts_order=order, forget_bias=p.choice([0.0, 1.0]),
            zoneout_factor_cell=p.choice([0.0, 0.15]), zoneout_factor_output=p.choice([0.0, 0.05]), use_zoneout_output=p.bool(),
        )
    else:
        m = rf.LSTM(w.F, out, with_bias=p.bool())
    _randomize(m, w.rnd)
    x = _x(w, p)
    bn = [n for n in x.names if n not in ("T", "F")]
    h0 = w.tensor(bn + ["out"], dtype="float64", name="h")
    c0 = w.tensor(bn + ["out"], dtype="float64", name="c")
    use_state = p.bool()
    for s_ in (h0, c0):
        s_.t.feature_dim = out

    def call(ww, t):
        if use_state:
            state = rf.LstmState(h=t[1], c=t[2])
        else:
            state = m.default_initial_state(batch_dims=[ww.dims[n] for n in bn])
        y, st_ = m(t[0], state=state, spatial_dim=ww.T)
        o = [ww.dims[n] for n in bn[1:]]
        res = [("out", y, o + [ww.T, out])]
        if not zone:
            res += [("h", st_.h, o + [out]), ("c", st_.c, o + [out])]
        return res

    def ref(b):
        a = x.seq(b)
        a = a.transpose([x.seq_names.index(n) for n in bn[1:] + ["T", "F"]])
        shape = a.shape[:-2] + (out.dimension,)

        def init(s):
            if not use_state:
                return numpy.zeros(shape)
            v = s.seq(b)
            return v.transpose([s.seq_names.index(n) for n in bn[1:] + ["out"]])

        h, cc = init(h0), init(c0)
        ys = []
        for t in range(a.shape[-2]):
            z = a[..., t, :] @ _np(m.ff_weight).T + h @ _np(m.rec_weight).T
            if m.bias is not None:
                z = z + _np(m.bias)
            parts = dict(zip(order, numpy.split(z, 4, axis=-1)))
            nc = _sig(parts["f"] + (m.forget_bias if zone else 0.0)) * cc + _sig(parts["i"]) * numpy.tanh(parts["c"])
            nh = _sig(parts["o"]) * numpy.tanh(nc)
            y = nh
            if zone:
                nc = (1 - m.zoneout_factor_cell) * nc + m.zoneout_factor_cell * cc
                hz = (1 - m.zoneout_factor_output) * nh + m.zoneout_factor_output * h
                if m.use_zoneout_output:
                    y = hz
                nh = hz
            h, cc = nh, nc
            ys.append(y)
        return [numpy.stack(ys, axis=-2), h, cc]

    return M(m, [x, h0, c0], call, ref, tags=["lstm:zoneout" if zone else "lstm"])


# ---------------------------------------------------------------- attention


def _softmax(s):
    e = numpy.exp(s - s.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def _rope(x, pos):
    """x [..., T, D]"""
    d = x.shape[-1]
    half = d // 2
    base = 10_000 ** (1 - 2 / d)
    div = numpy.exp(numpy.arange(half) * -(numpy.log(base) / (half - 1)))
    ang = pos[:, None] * div[None, :]
    re, im = x[..., 0::2], x[..., 1::2]
    out = numpy.zeros_like(x)
    out[..., 0::2] = re * numpy.cos(ang) - im * numpy.sin(ang)
    out[..., 1::2] = re * numpy.sin(ang) + im * numpy.cos(ang)
    return out


def _self_att_ref(m, a, *, causal, kind, heads):
    """a [..., T, F]"""
    kd = m.key_dim_per_head.dimension
    vd = m.value_dim_per_head.dimension
    qkv = a @ _np(m.qkv.weight) + (_np(m.qkv.bias) if m.qkv.bias is not None else 0)
    n = a.shape[-2]
    qkv = qkv.reshape(qkv.shape[:-1] + (heads, 2 * kd + vd))
    qkv = numpy.moveaxis(qkv, -2, -3)  # [..., H, T, D]
    q, k, v = qkv[..., :kd], qkv[..., kd : 2 * kd], qkv[..., 2 * kd :]
    if kind == "rope":
        q, k = _rope(q, numpy.arange(n)), _rope(k, numpy.arange(n))
    if kind == "relpos":
        u = _np(m.pos_bias_u)[:, None, :] if m.pos_bias_u is not None else 0.0
        vv = _np(m.pos_bias_v)[:, None, :] if m.pos_bias_v is not None else 0.0
        rel = numpy.arange(n)[None, :] - numpy.arange(n)[:, None]  # j - i
        if m.learned_pos_emb is not None:
            cl = m.learned_pos_emb.clipping
            emb = _np(m.learned_pos_emb.pos_emb)[numpy.clip(rel, -cl, cl) + cl]
        else:
            fd = m.pos_emb_feat_dim.dimension
            div = numpy.exp(numpy.arange(fd // 2) * -(2.0 * numpy.log(1e4) / fd))
            emb = numpy.concatenate([numpy.sin(rel[..., None] * div), numpy.cos(rel[..., None] * div)], axis=-1)
        if m.linear_pos is not None:
            emb = emb @ _np(m.linear_pos.weight)
        if m.separate_pos_emb_per_head:
            emb = numpy.moveaxis(emb.reshape(n, n, heads, kd), 2, 0)  # [H,T,T,D]
        else:
            emb = emb[None]
        s = numpy.einsum("...qd,...kd->...qk", q + u, k) + numpy.einsum("...hqd,hqkd->...hqk", q + vv, numpy.broadcast_to(emb, (heads,) + emb.shape[1:]))
    else:
        s = numpy.einsum("...qd,...kd->...qk", q, k)
    s = s / numpy.sqrt(kd)
    if causal:
        s = numpy.where(numpy.tril(numpy.ones((n, n), bool)), s, -numpy.inf)
    y = _softmax(s) @ v  # [...,H,T,vd]
    y = numpy.moveaxis(y, -3, -2).reshape(a.shape[:-1] + (heads * vd,))
    if m.proj is not None:
        y = y @ _np(m.proj.weight) + (_np(m.proj.bias) if m.proj.bias is not None else 0)
    return y


def make_self_att(w, p, *, causal, kind):
    """also used by C09"""
    import returnn.frontend as rf

    heads = p.int(1, 2)
    kd = w.add_static("kd", heads * (p.choice([4, 6]) if kind == "rope" else p.choice([2, 4]) if kind == "relpos" else p.int(1, 3)))
    vd = w.add_static("vd", heads * p.int(1, 3))
    if kind == "relpos":
        f = w.add_static("Fi", p.choice([2, 4]))
        fn = "Fi"
    else:
        f, fn = w.F, "F"
    proj = w.add_static("proj", p.int(1, 3)) if p.bool() else None
    kw = dict(in_dim=f, proj_dim=proj, key_dim_total=kd, value_dim_total=vd, num_heads=heads, with_bias=p.bool(), att_dropout=0.1)
    if kind == "relpos":
        kw.update(
            with_linear_pos=p.bool(), with_pos_bias=p.bool(), learnable_pos_emb=p.bool(),
            learnable_pos_emb_clipping=p.int(1, 4), separate_pos_emb_per_head=p.bool(), pos_emb_dropout=0.1,
        )
        cls = rf.RelPosCausalSelfAttention if causal else rf.RelPosSelfAttention
    elif kind == "rope":
        cls = rf.RotaryPosCausalSelfAttention if causal else rf.RotaryPosSelfAttention
    else:
        cls = rf.CausalSelfAttention if causal else rf.SelfAttention
    m = cls(**kw)
    _randomize(m, w.rnd)
    return m, heads, fn, proj if proj is not None else vd


@mod(min_len=1, weight=4)
def m_self_att(w, p):
    kind = p.choice(["plain", "rope", "relpos", "relpos"])
    causal = p.bool()
    m, heads, fn, out = make_self_att(w, p, causal=causal, kind=kind)
    x = _x(w, p, "B", "T", fn, feature=False)
    rest = [n for n in x.seq_names if n not in ("T", fn)]

    def call(ww, t):
        if causal:
            # the state is optional
            if p.bool():
                state = m.default_initial_state(batch_dims=[ww.dims[n] for n in ["B"] + rest])
            else:
                state = None
            y, _ = m(t[0], axis=ww.T, state=state)
        else:
            y = m(t[0], axis=ww.T)
        return [("out", y, [ww.dims[n] for n in rest] + [ww.T, out])]

    def ref(b):
        a = x.seq(b).transpose([x.seq_names.index(n) for n in rest + ["T", fn]])
        return [_self_att_ref(m, a, causal=causal, kind=kind, heads=heads)]

    return M(m, [x], call, ref, tags=["att:%s%s" % ("causal-" if causal else "", kind)])


@mod(min_len=1, weight=2)
def m_cross_att(w, p):
    import returnn.frontend as rf

    heads = p.int(1, 2)
    kd = w.add_static("kd", heads * p.int(1, 3))
    vd = w.add_static("vd", heads * p.int(1, 3))
    proj = w.add_static("proj", p.int(1, 3)) if p.bool() else None
    enc_dim = w.add_static("enc", p.int(1, 3))
    m = rf.CrossAttention(enc_dim, w.F, proj, key_dim_total=kd, value_dim_total=vd, num_heads=heads, with_bias=p.bool())
    _randomize(m, w.rnd)
    x = _x(w, p, "B", "U", "F", feature=False)
    e = w.tensor(["B", "T", "enc"], dtype="float64")
    rest = [n for n in x.seq_names if n not in ("U", "F")]
    out = proj if proj is not None else vd

    def call(ww, t):
        y = m(t[0], m.transform_encoder(t[1], axis=ww.T))
        return [("out", y, [ww.dims[n] for n in rest] + [ww.U, out])]

    def ref(b):
        a = x.seq(b).transpose([x.seq_names.index(n) for n in rest + ["U", "F"]])
        ee = e.seq(b)
        k1, v1 = kd.dimension // heads, vd.dimension // heads
        q = a @ _np(m.q.weight) + (_np(m.q.bias) if m.q.bias is not None else 0)
        q = numpy.moveaxis(q.reshape(q.shape[:-1] + (heads, k1)), -2, -3)
        kv = ee @ _np(m.kv.weight) + (_np(m.kv.bias) if m.kv.bias is not None else 0)
        kv = numpy.moveaxis(kv.reshape(kv.shape[:-1] + (heads, k1 + v1)), -2, -3)
        s = numpy.einsum("...hqd,hkd->...hqk", q, kv[..., :k1]) / numpy.sqrt(k1)
        y = numpy.einsum("...hqk,hkd->...hqd", _softmax(s), kv[..., k1:])
        y = numpy.moveaxis(y, -3, -2).reshape(a.shape[:-1] + (heads * v1,))
        if proj is not None:
            y = y @ _np(m.proj.weight) + (_np(m.proj.bias) if m.proj.bias is not None else 0)
        return [y]

    return M(m, [x, e], call, ref)


# ---------------------------------------------------------------- whole encoders / decoders


@mod(min_len=1, weight=2, max_len=9)
def m_conformer(w, p):
    import returnn.frontend as rf
    from returnn.frontend.encoder.conformer import ConformerEncoder, ConformerConvSubsample, ConformerEncoderLayer
    from returnn.frontend.encoder.conformer_v2 import ConformerEncoderV2
    from returnn.frontend.encoder.e_branchformer import EBranchformerLayer
    from returnn.frontend.encoder.transformer import TransformerEncoder

    kind = p.choice(["conformer", "conformer", "v2", "ebranch", "subsample", "layer"])
    model = w.add_static("model", 4)
    kern = p.choice([1, 2, 3, 4, 5])
    kw = dict(num_heads=p.int(1, 2), dropout=0.1, att_dropout=0.1)
    lkw = dict(conv_kernel_size=kern, **kw)
    lkw["conv_norm_opts"] = {"use_mask": p.choice([True, False])}
    fin = w.add_static("fin", p.int(1, 5))
    sub = None
    if kind in ("subsample", "conformer"):
        n = p.int(1, 2)
        pad = p.choice(["same", "same", "valid"])
        pools = p.choice([None, [(1, 2)], [(2, 1)], [(3, 2), (2, 1)][:n]])
        fs = [p.choice([(3, 3), (1, 3), (3, 1), (2, 3), 3]) for _ in range(n)]
        strides = [p.choice([(1, 1), (2, 1), (3, 1), 2]) for _ in range(n)] if p.bool() else None

        def shrink(size, ax):
            for i in range(n):
                f = fs[i] if isinstance(fs[i], int) else fs[i][ax]
                s = 1 if not strides else strides[i] if isinstance(strides[i], int) else strides[i][ax]
                size = _out_len(size, f=f, s=s, d=1, pad=pad)
                if pools and i < len(pools) and size:
                    size = -(-size // pools[i][ax])
            return size

        if shrink(fin.dimension, 1) == 0 or shrink(w.max_T, 0) == 0:
            return None
        sub = ConformerConvSubsample(
            fin, out_dims=[w.add_static("c%i" % i, p.int(1, 2)) for i in range(n)], filter_sizes=fs, strides=strides, pool_sizes=pools, padding=pad
        )
        out_len = lambda size: shrink(size, 0)  # noqa
        if kind == "conformer" and any(out_len(n) == 0 for n in w.lens["T"]):
            return None  # attention over nothing is not defined
    if kind == "subsample":
        m = sub
    elif kind == "conformer":
        m = ConformerEncoder(
            fin, model, num_layers=p.int(1, 2), input_layer=sub, encoder_layer_opts=dict(conv_norm_opts=lkw["conv_norm_opts"]), conv_kernel_size=kern, input_embedding_scale=p.choice([1.0, 2.0]), **kw
        )
    elif kind == "v2":
        m = ConformerEncoderV2(model, num_layers=p.int(1, 2), conv_kernel_size=kern, encoder_layer_opts=dict(conv_norm_opts=lkw["conv_norm_opts"]), **kw)
    elif kind == "ebranch":
        m = EBranchformerLayer(model, ff_dim=6, cgmlp_ff_dim=p.int(2, 5), cgmlp_conv_kernel=kern, merge_conv_kernel=p.choice([1, 3]), **kw)
    else:
        m = ConformerEncoderLayer(model, **lkw)
    _randomize(m, w.rnd)
    feat = "fin" if kind in ("conformer", "subsample") else "model"
    x = w.tensor(["B", "T", feat] + (["S"] if p.int(0, 3) == 0 else []), dtype="float64")
    rest = [n for n in x.seq_names if n not in ("T", feat)]
    coll = p.bool()

    def call(ww, t):
        res = []
        rdims = [ww.dims[n] for n in rest]
        if kind in ("conformer", "subsample"):
            kw2 = {}
            c = {}
            if kind == "conformer" and coll:
                kw2["collected_outputs"] = c
            y, o = m(t[0], in_spatial_dim=ww.T, **kw2)
            for b in ww.seqs():
                want = out_len(ww.lens["T"][b])
                require(dim_len(o, ww, b) == want, lambda: "%s: out len %i for seq len %i, expected %i" % (kind, dim_len(o, ww, b), ww.lens["T"][b], want))
            for k in sorted(c):
                res.append(("collected " + k, c[k], rdims + [o, m.out_dim]))
            return [("out", y, rdims + [o, m.out_dim])] + res
        return [("out", m(t[0], spatial_dim=ww.T), rdims + [ww.T, model])]

    skip = (lambda b: out_len(w.lens["T"][b]) == 0) if sub is not None else None
    return M(m, [x], call, None, skip_single=skip, tags=["enc:" + kind], tol=1e-5)


@mod(min_len=1, weight=2)
def m_transformer(w, p):
    import returnn.frontend as rf
    from returnn.frontend.encoder.transformer import TransformerEncoder
    from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForwardGated

    enc = p.choice([True, False, False])
    model = w.add_static("model", 4)
    vocab = w.add_static("vocab", 50)
    norm = p.choice([rf.LayerNorm, rf.RMSNorm])
    ff = p.choice([None, rf.build_dict(FeedForwardGated, ff_dim=5)])
    kw = dict(num_layers=p.int(1, 2), num_heads=p.int(1, 2), norm=norm, ff_dim=6)
    if ff:
        kw["ff"] = ff
        kw.pop("ff_dim")
    x = w.tensor(["B", "T"] + (["S"] if p.int(0, 3) == 0 else []), dtype="int32", low=0, high=49, sparse_dim=vocab)
    x.t.raw_tensor = x.t.raw_tensor.clamp(0, 49)
    rest = [n for n in x.seq_names if n != "T"]
    if enc:
        kw.pop("ff_dim", None)
        m = TransformerEncoder(vocab, model, **kw)
        _randomize(m, w.rnd)
        return M(
            m, [x],
            lambda ww, t: [("out", m(t[0], spatial_dim=ww.T), [ww.dims[n] for n in rest] + [ww.T, model])],
            tags=["enc:transformer"], tol=1e-5,
        )
    with_enc = p.bool()
    enc_dim = w.add_static("enc", 3) if with_enc else None
    att = p.choice([None, rf.RelPosCausalSelfAttention, rf.RotaryPosCausalSelfAttention])
    if att is not None:
        kw["layer_opts"] = dict(self_att=att)
        if att is rf.RotaryPosCausalSelfAttention:
            kw["num_heads"] = 1
            kw["pos_enc"] = None
        else:
            kw["num_heads"] = p.int(1, 2)
    if p.bool():
        kw.update(share_embedding=False, logits_with_bias=p.bool(), input_embedding_scale=1.0)
        if p.bool():
            kw["embed_dim"] = w.add_static("emb", 4)
    m = TransformerDecoder(enc_dim, vocab, model, **kw)
    _randomize(m, w.rnd)
    e = w.tensor(["B", "U", "enc"], dtype="float64") if with_enc else None
    last = p.int(0, 3) == 0

    def call(ww, t):
        encoder = m.transform_encoder(t[1], axis=ww.U) if with_enc else None
        state = m.default_initial_state(batch_dims=[ww.B] + [ww.dims[n] for n in rest])
        y, _ = m(t[0], spatial_dim=ww.T, state=state, encoder=encoder, output_only_last_frame=last)
        return [("out", y, [ww.dims[n] for n in rest] + ([] if last else [ww.T]) + [vocab])]

    return M(m, [x] + ([e] if e else []), call, tags=["dec:transformer" + (":enc" if with_enc else "") + (":last" if last else "")], tol=1e-5)


# ---------------------------------------------------------------- signal


@mod(max_len=40, grad=True, weight=2)
def m_stft(w, p):
    import returnn.frontend as rf

    frame = p.int(2, 9)
    step = p.int(1, 5)
    fft = p.choice([None, frame, frame + p.int(1, 5)])
    left = p.bool()
    even = p.bool()
    use_frame = p.int(0, 2) != 0
    size = frame if use_frame else fft or frame
    if w.max_T < size:
        return None
    x = w.tensor(["B", "T"] + (["S"] if p.bool() else []), dtype="float64")
    rest = [n for n in x.seq_names if n != "T"]
    n_fft = fft or frame
    win_len = frame - frame % 2 if even else frame

    def call(ww, t):
        y, o, fd = rf.stft(t[0], in_spatial_dim=ww.T, frame_step=step, frame_length=frame, fft_length=fft, align_window_left=left, window_enforce_even=even, window_use_frame_length=use_frame)
        y = rf.abs(y)
        return [("out", y, [ww.dims[n] for n in rest] + [o, fd])]

    def ref(b):
        a = x.seq(b).transpose([x.seq_names.index(n) for n in rest + ["T"]])
        n = max(0, -(-(a.shape[-1] - size + 1) // step))
        win = 0.5 - 0.5 * numpy.cos(2 * numpy.pi * numpy.arange(win_len) / win_len)
        off = 0 if left else (n_fft - win_len) // 2
        full = numpy.zeros(n_fft)
        full[off : off + win_len] = win
        out = numpy.zeros(a.shape[:-1] + (n, n_fft // 2 + 1))
        padded = numpy.concatenate([a, numpy.zeros(a.shape[:-1] + (n_fft,))], axis=-1)
        for i in range(n):
            out[..., i, :] = numpy.abs(numpy.fft.rfft(padded[..., i * step : i * step + n_fft] * full))
        return [out]

    return M(None, [x], call, ref, skip_single=lambda b: w.lens["T"][b] < size, grad=False, tags=["stft"])


# ---------------------------------------------------------------- statistics over the batch


def run_stats(c):
    """batch norm in training, moments, running mean: statistics over exactly the real frames"""
    import torch
    import returnn.frontend as rf

    w = World(c["w"])
    p = gen.Picks(c["p"])
    kind = p.choice(["batch_norm", "batch_norm", "moments", "running_mean"])
    train = p.int(0, 2) != 0
    x = _x(w, p)
    names = x.names
    feat = names.index("F")
    mask = numpy.broadcast_to(w.mask(names), x.arr.shape)
    real = numpy.moveaxis(x.arr, feat, -1)[numpy.moveaxis(mask, feat, -1)].reshape(-1, w.num["F"])
    if real.shape[0] == 0:
        return ["skipped"]
    mean, var = real.mean(0), real.var(0)
    tags = ["stats:" + kind + (":train" if train else ":eval")]
    with rf.set_default_float_dtype_ctx("float64"):
        if train:
            rf.init_train_step_run_ctx(train_flag=True, step=0, epoch=1)
        else:
            rf.init_forward_step_run_ctx(epoch=1, step=0)
        others = [w.dims[n] for n in names if n != "F"]
        if kind == "moments":
            corr = p.choice([0, 0, 1, 0.5])
            m_, v_ = rf.moments(x.t, axis=others, correction=corr)
            assert_close(_np(m_), mean, "moments: mean")
            if real.shape[0] > corr:
                assert_close(_np(v_), var * (real.shape[0] / (real.shape[0] - corr)), "moments: variance, correction %r" % corr)
            if x.t.raw_tensor.numel() and p.bool():
                everything = numpy.moveaxis(x.t.raw_tensor.numpy(), list(x.t.dims).index(w.F), -1).reshape(-1, w.num["F"])
                m2, _ = rf.moments(x.t, axis=others, use_mask=False)
                assert_close(_np(m2), everything.mean(0), "moments: mean, use_mask=False", rtol=1e-6, atol=1e-3)
            return tags
        if kind == "running_mean":
            alpha = p.choice([0.0, 0.1, 0.5, 1.0])
            always = p.bool()
            m = rf.RunningMean(w.F, alpha=alpha, update_only_in_train=not always)
            _randomize(m, w.rnd)
            want = _np(m.mean).copy()
            for _ in range(p.int(1, 2)):
                out = m(x.t)
                if always or train:
                    want = want + alpha * (mean - want)
                assert_close(_np(out), want, "running mean")
                assert_close(_np(m.mean), want, "running mean, state")
            return tags
        m = rf.BatchNorm(
            w.F, affine=p.bool(), momentum=p.choice([0.1, 0.5, 1.0]), eps=p.choice([1e-3, 0.1]),
            track_running_stats=p.int(0, 2) != 0, use_mask=p.choice([True, True, None]),
        )
        _randomize(m, w.rnd)
        need_mask = any(d.need_masking() for d in others)
        if not need_mask and real.shape[0] == 1 and (train or m.running_mean is None):
            return ["skipped"]  # torch refuses this
        rm = _np(m.running_mean).copy() if m.running_mean is not None else None
        rv = _np(m.running_variance).copy() if m.running_mean is not None else None
        gam = _np(m.gamma) if m.affine else 1.0
        bet = _np(m.beta) if m.affine else 0.0
        out = m(x.t)
        use_mean, use_var = (mean, var) if train or rm is None else (rm, rv)
        for b in w.seqs():
            a = numpy.moveaxis(x.seq(b), x.seq_names.index("F"), -1)
            y = (a - use_mean) / numpy.sqrt(use_var + m.eps) * gam + bet
            g = out_seq(out, w, b, [w.dims[n] for n in x.seq_names if n != "F"] + [w.F])
            assert_close(g, y, "batch norm, seq %i" % b, rtol=1e-4, atol=1e-5)
        if rm is not None:
            mom = m.momentum if train else 0.0
            assert_close(_np(m.running_mean), (1 - mom) * rm + mom * mean, "batch norm: running mean", rtol=1e-5, atol=1e-6)
            if need_mask:
                assert_close(_np(m.running_variance), (1 - mom) * rv + mom * var, "batch norm: running variance", rtol=1e-5, atol=1e-6)
                tags.append("masked")
            elif not train:
                assert_close(_np(m.running_variance), rv, "batch norm: running variance")
    return tags


def _case(kind):
    f, o = MODS[kind]
    return st.fixed_dictionaries(
        {
            "kind": st.just(kind),
            "w": rfh.world(min_len=o["min_len"], max_len=o["max_len"]).map(lambda c: dict(c, garbage="big")),
            "p": gen.picks(24),
            "grad": st.booleans(),
            "reuse": st.booleans(),
            "train": st.just(False),
        }
    )


def _nontrivial(c):
    w = c["w"]
    return w["b"] >= 2 and len(set(w["t"])) > 1


SUBS = [
    Sub(k, (lambda k=k: _case(k)), run, quick=150 * o["weight"], thorough=6000 * o["weight"], nontrivial=_nontrivial)
    for k, (f, o) in MODS.items()
] + [
    Sub("stats", lambda: st.fixed_dictionaries({
        "w": rfh.world(min_len=0, max_len=7).map(lambda c: dict(c, garbage="big")), "p": gen.picks(16)}),
        run_stats, quick=200, thorough=6000, nontrivial=_nontrivial)
]
