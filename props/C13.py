"""
C13: losses, smoothing, noise/augmentation, gradient tools
"""

from __future__ import annotations
import math
import numpy
from hypothesis import strategies as st
from vlib import gen, rfh
from vlib.core import Sub, require, Violation
from vlib.rfh import World, check_seqs, assert_close, out_seq, dim_len

OPS = {}


def setup():
    rfh.setup_torch()
    import torch._dynamo  # noqa
    import gc

    gc.collect()
    gc.freeze()  # for speed of the gc.collect in the checkpointing check


def op(*, weight=1, min_len=0, t_kinds=("batch", "batch", "batch", "scalar")):
    def deco(f):
        OPS[f.__name__[3:]] = (f, weight, min_len, t_kinds)
        return f

    return deco


def _logsoftmax(a):
    a = a.astype("float64")
    m = a.max(axis=-1, keepdims=True)
    return a - m - numpy.log(numpy.exp(a - m).sum(axis=-1, keepdims=True))


def _ctc_ref(lp, labels, blank):
    """
    :param lp: [T,C] log probs
    :return: -log p, brute force DP over the state sequence blank l blank l ... blank
    """
    t_max = lp.shape[0]
    states = [blank]
    for la in labels:
        states += [la, blank]
    n = len(states)
    alpha = numpy.full((n,), -numpy.inf)
    if t_max == 0:
        return 0.0 if not len(labels) else numpy.inf
    alpha[0] = lp[0, blank]
    if n > 1:
        alpha[1] = lp[0, states[1]]
    for t in range(1, t_max):
        new = numpy.full((n,), -numpy.inf)
        for s in range(n):
            v = alpha[s]
            if s >= 1:
                v = numpy.logaddexp(v, alpha[s - 1])
            if s >= 2 and states[s] != blank and states[s] != states[s - 2]:
                v = numpy.logaddexp(v, alpha[s - 2])
            new[s] = v + lp[t, states[s]]
        alpha = new
    res = alpha[-1]
    if n > 1:
        res = numpy.logaddexp(res, alpha[-2])
    return -res


def _leaf(rt):
    """make the raw tensor of the RTensor a leaf with grad"""
    t = rt.t.copy()
    raw = rt.t.raw_tensor.detach().clone().requires_grad_(True)
    t.raw_tensor = raw
    return t, raw


def _grad_seq(w, rt, raw, b):
    """gradient for the seq b, axes as rt.seq_names; also checks that it is 0 in the padding"""
    g = raw.grad.numpy()
    order = [rt.t.dims.index(w.dims[n]) for n in rt.names]
    g = g.transpose(order)
    m = w.mask(rt.names)
    require(not numpy.any(numpy.where(m, 0.0, g)), lambda: "gradient in the padding: %r" % g)
    return rfh.RTensor(w, rt.t, rt.names, g).seq(b)


@op(weight=3, min_len=1, t_kinds=("batch", "batch", "batch", "scalar", "static"))  # empty input not supported by torch
def op_ctc(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    c = p.int(2, 5)
    w.add_static("C", c)
    blank = p.choice([c - 1, 0, p.int(0, c - 1)])
    beam = p.choice([None, None, "logits", "targets", "both"])
    if beam:
        w.add_static("K", p.int(1, 3))
    normalized = p.bool()
    dt = p.choice(["float32", "float64"])
    ln = ["B", "T"] + (["K"] if beam in ("logits", "both") else []) + ["C"]
    tn = ["B", "U"] + (["K"] if beam in ("targets", "both") else [])
    logits = w.tensor(ln, dtype=dt)
    if normalized:
        x = logits.arr
        x = _logsoftmax(numpy.where(w.mask(ln), x, 0.0)).astype(dt)
        logits = w.tensor(ln, dtype=dt, values=x)
    smaller = blank == c - 1 and p.bool()
    tdim = w.add_static("Cs", c - 1) if smaller else w.dims["C"]
    labels = [i for i in range(c) if i != blank]
    idx = w.rnd.randint(0, len(labels), tuple(w.size(n) for n in tn))
    vals = numpy.array(labels)[idx] if labels else idx
    pad_valid = numpy.where(w.mask(tn), vals, w.rnd.randint(0, tdim.dimension, vals.shape))
    targets = w.tensor(tn, dtype="int32", values=pad_valid, sparse_dim=tdim, garbage=False)
    lt, raw = _leaf(logits)
    lt.feature_dim = w.dims["C"]
    loss = rf.ctc_loss(
        logits=lt,
        logits_normalized=normalized,
        targets=targets.t,
        input_spatial_dim=w.T,
        targets_spatial_dim=w.U,
        blank_index=blank,
    )
    import torch

    ndims = [w.dims["K"]] if beam else []
    feasible = []

    def ref(b):
        la = logits.seq(b)  # [T,(K),C]
        ta = targets.seq(b)
        if not beam:
            la, ta = la[:, None], ta[:, None]
        k = w.num["K"] if beam else 1
        if la.ndim == 2:
            la = la[:, None]
        if ta.ndim == 1:
            ta = ta[:, None]
        la = numpy.broadcast_to(la, (la.shape[0], k, c))
        ta = numpy.broadcast_to(ta, (ta.shape[0], k))
        res = []
        for j in range(k):
            lp = la[:, j].astype("float64")
            if not normalized:
                lp = _logsoftmax(lp) if len(lp) else lp
            v = _ctc_ref(lp, list(ta[:, j]), blank)
            feasible.append(numpy.isfinite(v))
            res.append(v if numpy.isfinite(v) else 0.0)  # zero_infinity
        return numpy.array(res) if beam else numpy.array(res[0])

    check_seqs(loss, w, ndims, ref, "ctc_loss blank %i" % blank, rtol=1e-4, atol=1e-4)
    loss.raw_tensor.sum().backward()
    require(torch.isfinite(raw.grad).all(), "gradient is not finite")
    # gradient: finite differences for one random entry (float64 only)
    if dt == "float64" and not normalized:
        b = p.int(0, w.c["b"] - 1)
        g = _grad_seq(w, logits, raw, b)
        if g.size:
            pos = tuple(int(w.rnd.randint(0, s)) for s in g.shape)

            def total(eps):
                la = logits.seq(b).astype("float64").copy()
                la[pos] += eps
                ta = targets.seq(b)
                k = w.num["K"] if beam else 1
                if la.ndim == 2:
                    la = la[:, None]
                if ta.ndim == 1:
                    ta = ta[:, None]
                la = numpy.broadcast_to(la, (la.shape[0], k, c))
                ta = numpy.broadcast_to(ta, (ta.shape[0], k))
                vs = [_ctc_ref(_logsoftmax(la[:, j]), list(ta[:, j]), blank) for j in range(k)]
                return sum(v for v in vs if numpy.isfinite(v))

            num = (total(1e-5) - total(-1e-5)) / 2e-5
            require(abs(num - g[pos]) < 1e-4, lambda: "gradient %r, expected %r" % (g[pos], num))
    return ["ctc", "feasible" if all(feasible) else "infeasible"]


@op(weight=2)
def op_ce(w, p):
    import returnn.frontend as rf

    kind = p.choice(["logits", "log-probs", "probs"])
    sparse = p.bool()
    names = ["B", "T"] + (["S"] if p.bool() else []) + ["F"]
    x = w.tensor(names, dtype=p.choice(["float32", "float64"]))
    safe = numpy.where(w.mask(names), x.arr, 0.0)
    if kind != "logits":
        lp = _logsoftmax(safe)
        x = w.tensor(names, dtype=x.t.dtype, values=lp if kind == "log-probs" else numpy.exp(lp))
    tn = names[:-1]
    if sparse and kind != "logits" and p.choice([0, 0, 1]):
        tn = [n for n in tn if n != "S"]  # broadcast
    if sparse:
        vals = w.rnd.randint(0, w.num["F"], tuple(w.size(n) for n in tn))
        y = w.tensor(tn, dtype=p.choice(["int32", "int64"]), values=vals, sparse_dim=w.F, garbage=False)
    else:
        y = w.tensor(
            names,
            dtype=x.t.dtype,
            values=numpy.exp(_logsoftmax(w.rnd.uniform(-2, 2, tuple(w.size(n) for n in names)))),
            garbage=False,
        )
    xt, raw = _leaf(x)
    ce = rf.cross_entropy(estimated=xt, estimated_type=kind, target=y.t, axis=w.F)

    def lp_seq(b):
        a = x.seq(b).astype("float64")
        if kind == "logits":
            return _logsoftmax(a) if a.size else a
        return a if kind == "log-probs" else numpy.log(a)

    def ref(b):
        lp = lp_seq(b)
        ya = y.seq(b)
        if sparse:
            if ya.ndim < lp.ndim - 1:
                ya = numpy.broadcast_to(ya[:, None], lp.shape[:-1])
            return -numpy.take_along_axis(lp, ya[..., None].astype(int), axis=-1)[..., 0]
        return -(ya * lp).sum(-1)

    check_seqs(ce, w, names[1:-1], ref, "cross_entropy %s sparse=%s" % (kind, sparse), rtol=1e-4, atol=1e-4)
    # gradient of the sum over the real frames
    loss = rf.reduce_sum(ce, axis=ce.dims)
    if loss.raw_tensor.requires_grad:
        loss.raw_tensor.backward()
        for b in w.seqs():
            g = _grad_seq(w, x, raw, b)
            lp = lp_seq(b)
            ya = y.seq(b)
            if sparse:
                if ya.ndim < lp.ndim - 1:
                    ya = numpy.broadcast_to(ya[:, None], lp.shape[:-1])
                ya = numpy.eye(w.num["F"])[ya.astype(int)]
            want = {"logits": numpy.exp(lp) - ya, "log-probs": -ya, "probs": -ya / numpy.exp(lp)}[kind]
            assert_close(g, want.reshape(g.shape), "cross entropy gradient", rtol=1e-3, atol=1e-4)
    return [kind]


@op(weight=2)
def op_smooth(w, p):
    import returnn.frontend as rf

    f = p.int(2, 5)
    d = w.add_static("C", f)
    s = p.choice([0.1, 0.3, 0.0, 0.5])
    kind = p.choice(["dense", "sparse", "grad", "grad", "grad_ce"])
    if kind == "sparse":
        vals = w.rnd.randint(0, f, (w.c["b"], w.max_T))
        y = w.tensor(["B", "T"], dtype="int32", values=vals, sparse_dim=d, garbage=False)
        out = rf.label_smoothing(y.t, s)
        check_seqs(
            out, w, ["T", d], lambda b: numpy.where(numpy.eye(f)[y.seq(b)] > 0, 1 - s, s / (f - 1)), "label_smoothing sparse"
        )
        return [kind]
    probs = numpy.exp(_logsoftmax(w.rnd.uniform(-2, 2, (w.c["b"], w.max_T, f))))
    x = w.tensor(["B", "T", "C"], values=probs, dtype="float64")
    if kind == "dense":
        out = rf.label_smoothing(x.t, s, axis=d)
        fl = s / (f - 1)
        check_seqs(out, w, ["T", d], lambda b: x.seq(b) * (1 - f * fl) + fl, "label_smoothing dense")
        for b in w.seqs():
            o = out_seq(out, w, b, [w.T, d])
            assert_close(o.sum(-1), numpy.ones(o.shape[:-1]), "sum")
        return [kind]
    excl = p.subset(list(range(f)))
    if len(excl) > f - 2:
        excl = excl[: f - 2]
    lp = w.tensor(["B", "T", "C"], values=numpy.log(probs), dtype="float64", garbage=False)
    xt, raw = _leaf(lp)
    out = rf.label_smoothed_log_prob_gradient(xt, s, axis=d, exclude_labels=excl or None)
    assert_close(out.copy_compatible_to_dims_raw([w.B, w.T, d]).detach().numpy(), lp.arr, "forward value")
    scale = p.choice([1.0, 0.5, 3.0])
    if kind == "grad":
        tgt = w.tensor(
            ["B", "T", "C"],
            values=numpy.exp(_logsoftmax(w.rnd.uniform(-2, 2, (w.c["b"], w.max_T, f)))),
            dtype="float64",
            garbage=False,
        )
        ce = -rf.reduce_sum(tgt.t * out, axis=d)
        tp = lambda b: tgt.seq(b)
    else:
        vals = w.rnd.randint(0, f, (w.c["b"], w.max_T))
        tgt = w.tensor(["B", "T"], dtype="int32", values=vals, sparse_dim=d, garbage=False)
        ce = rf.cross_entropy(estimated=out, estimated_type="log-probs", target=tgt.t, axis=d)
        tp = lambda b: numpy.eye(f)[tgt.seq(b)]
    (rf.reduce_sum(ce, axis=ce.dims) * scale).raw_tensor.backward()
    n = f - len(excl)
    for b in w.seqs():
        t = tp(b)
        fl = s / (n - 1)
        want = t * (1 - n * fl) + fl
        if excl:
            want = numpy.where(numpy.isin(numpy.arange(f), excl), t, want)
        if s == 0:
            want = t
        else:
            # the floor is relative to the whole mass of the gradient
            want = numpy.where(numpy.isin(numpy.arange(f), excl), t, t * (1 - n * fl) + fl)
        g = _grad_seq(w, lp, raw, b)
        assert_close(g, -want.reshape(g.shape) * scale, "smoothed gradient (exclude %s)" % excl, rtol=1e-4, atol=1e-6)
    return [kind]


def _train_ctx(flag, step=0):
    import returnn.frontend as rf

    rf.init_train_step_run_ctx(train_flag=flag, step=step, epoch=1)


@op(weight=2)
def op_dropout(w, p):
    import returnn.frontend as rf

    train = p.bool()
    _train_ctx(train)
    names = ["B", "T", "F"]
    x = w.tensor(names, low=1, high=2)
    axis_names = p.choice([None, False, ["F"], ["B", "F"], ["T", "F"], ["F", "B", "T"], "F", ["T"], ["B"]])
    prob = p.choice([0.0, 0.1, 0.5, 0.9])
    on_fwd = p.choice([False, False, True])
    axis = axis_names
    if isinstance(axis, str):
        axis = w.dims[axis]
        axis_names = [axis_names]
    elif axis:
        axis = [w.dims[n] for n in axis]
    rf.set_random_seed(w.c["seed"])
    out = rf.dropout(x.t, prob, axis=axis, on_forward=on_fwd)
    active = (train or on_fwd) and prob > 0
    factors = {}
    for b in w.seqs():
        o = out_seq(out, w, b, [w.T, w.F])
        xs = x.seq(b)
        if not active:
            require(numpy.array_equal(o, xs), lambda: "dropout changes values, train=%s prob=%s" % (train, prob))
            continue
        fac = o / xs
        ok = numpy.isclose(fac, 0) | numpy.isclose(fac, 1 / (1 - prob), rtol=1e-4)
        require(ok.all(), lambda: "dropout factors %r, prob %r" % (fac, prob))
        if axis:
            for (t, f), v in numpy.ndenumerate(fac):
                key = tuple({"B": b, "T": t, "F": f}[n] for n in sorted(axis_names))
                v = round(float(v), 3)
                require(factors.setdefault(key, v) == v, lambda: "not broadcasted over other axes: %s" % axis_names)
    return ["active" if active else "inactive"]


@op(weight=2, min_len=1)
def op_specaugment(w, p):
    import returnn.frontend as rf

    f = p.choice([5, 8, 10])
    d = w.add_static("C", f)
    kind = p.choice(["specaug", "specaug", "random_mask", "mask"])
    train = p.choice([True, True, False])
    step = p.choice([0, 500, 1000, 2500])
    _train_ctx(train, step)
    rf.set_random_seed(w.c["seed"])
    names = ["B", "T", "C"]
    x = w.tensor(names, low=1, high=2)
    x.t.feature_dim = d
    mask_value = 0.0
    if kind == "specaug":
        mct, mcf = p.int(1, 3), p.int(1, 2)
        kw = {}
        only = p.choice([True, True, False])
        dep = p.bool()
        out = rf.audio.specaugment(
            x.t,
            spatial_dim=w.T,
            feature_dim=d,
            max_consecutive_spatial_dims=mct,
            max_consecutive_feature_dims=mcf,
            only_on_train=only,
            global_train_step_dependent=dep,
        )
        active = train or not only
        s = [1, 1, 1] if not dep else [int(step >= v) for v in (0, 1000, 2000)]
        max_t = 2 * (s[0] + s[1] + 2 * s[2])
        max_f = s[0] * 2 + s[1] + s[2] * 2
        min_f = s[1] + s[2]
    for b in w.seqs():
        if kind != "specaug":
            break
        o, xs = out_seq(out, w, b, [w.T, d]), x.seq(b)
        if not active:
            require(numpy.array_equal(o, xs), "specaugment active outside of training")
            continue
        masked = o == 0
        require(numpy.array_equal(o[~masked], xs[~masked]), "specaugment changes unmasked values")
        # masked == rows | cols
        rows, cols = masked.all(axis=1), masked.all(axis=0)
        if not masked.all():
            require(
                numpy.array_equal(masked, rows[:, None] | cols[None, :]),
                lambda: "mask is not a union of frames and features:\n%r" % masked,
            )
            require(rows.sum() <= max_t * mct, lambda: "too many frames masked: %s" % rows)
            require(cols.sum() <= max_f * mcf, lambda: "too many features masked: %s" % cols)
            require(cols.sum() >= min(min_f, 1), lambda: "nothing masked in features, min num %i" % min_f)
    if kind == "specaug":
        return [kind, "active" if active else "inactive"]
    if kind == "random_mask":
        ax = p.choice(["T", "C"])
        other = "C" if ax == "T" else "T"
        n = w.size(ax) if ax == "C" else min(w.lens["T"])
        mn = p.int(0, min(2, n))
        mx = p.int(mn, min(4, n))
        md = p.int(1, 3)
        out = rf.audio.random_mask(
            x.t, mask_axis=w.dims[ax], broadcast_axis=w.dims[other], min_num=mn, max_num=mx, max_dims=md, mask_value=-5.0
        )
        for b in w.seqs():
            o, xs = out_seq(out, w, b, [w.T, d]), x.seq(b)
            m = o == -5.0
            require(numpy.array_equal(o[~m], xs[~m]), "random_mask changes unmasked values")
            line = m.all(axis=1) if ax == "T" else m.all(axis=0)
            full = numpy.broadcast_to(line[:, None] if ax == "T" else line[None, :], m.shape)
            require(numpy.array_equal(m, full), "random_mask not broadcasted")
            require(line.sum() <= mx * md, lambda: "masked %i > %i * %i" % (line.sum(), mx, md))
            require(line.sum() >= mn or line.sum() >= 1 or not mn, lambda: "masked %i, min %i" % (line.sum(), mn))
        return [kind]
    ax = p.choice(["T", "C"])
    md = p.int(1, 3)
    pos = w.tensor(["B"], dtype="int32", values=[w.rnd.randint(0, w.lens["T"][b] if ax == "T" else f) for b in w.seqs()])
    out = rf.audio.mask(x.t, mask_axis=w.dims[ax], pos=pos.t, max_amount=md, mask_value=-5.0)
    for b in w.seqs():
        o, xs = out_seq(out, w, b, [w.T, d]), x.seq(b)
        m = o == -5.0
        require(numpy.array_equal(o[~m], xs[~m]), "mask changes unmasked values")
        line = m.all(axis=1) if ax == "T" else m.all(axis=0)
        where = numpy.nonzero(line)[0]
        p0 = int(pos.arr[b])
        require(len(where) >= 1 and where[0] == p0 and len(where) <= md, lambda: "masked %s, pos %i, max %i" % (where, p0, md))
        require(list(where) == list(range(p0, p0 + len(where))), lambda: "not consecutive %s" % where)
    return [kind]


@op(weight=2)
def op_grad_tools(w, p):
    import returnn.frontend as rf

    names = ["B", "T", "F"]
    x = w.tensor(names, dtype="float64", garbage=False)
    xt, raw = _leaf(x)
    kind = p.choice(["stop", "scope", "scaled", "scaled_t", "ext"])
    wt = w.tensor(names, dtype="float64", garbage=False)
    if kind == "stop":
        y = rf.stop_gradient(xt) * 2.0 + xt * 3.0
        fac = lambda b: 3.0
        val = lambda b: x.seq(b) * 5.0
    elif kind == "scope":
        with rf.stop_gradient_scope():
            z = xt * 2.0
            z = z + 1.0
        y = z * xt
        fac = lambda b: x.seq(b) * 2.0 + 1.0
        val = lambda b: (x.seq(b) * 2.0 + 1.0) * x.seq(b)
    elif kind == "scaled":
        s = p.choice([0.0, -1.0, 0.3, 2.0])
        y = rf.scaled_gradient(xt, s) * 2.0
        fac = lambda b: 2.0 * s
        val = lambda b: x.seq(b) * 2.0
    elif kind == "scaled_t":
        st_ = w.tensor(p.choice([["B"], ["F"], []]), dtype="float64")
        y = rf.scaled_gradient(xt, st_.t) * 2.0
        fac = lambda b: 2.0 * st_.seq(b)
        val = lambda b: x.seq(b) * 2.0
    else:
        s = p.choice([-1.0, 0.3, 2.0])
        sh = p.choice([None, 0.5, -0.2])
        ax = p.choice([None, w.F]) if sh is not None else None
        y = rf.scaled_gradient_ext(xt, scale=s, shift=sh, scale_shift_by_sum_over_axis=ax) * 2.0

        def fac(b):
            g = 2.0 * wt.seq(b)
            r = g * s
            if sh is not None:
                r = r + sh * (numpy.abs(g).sum(axis=-1, keepdims=True) if ax else 1.0)
            return r / wt.seq(b)

        val = lambda b: x.seq(b) * 2.0
    check_seqs(y, w, ["T", "F"], val, "%s value" % kind)
    total = (y * wt.t).raw_tensor.sum()
    if kind == "scaled" and s == 0.0:
        require(not total.requires_grad, "scale 0 stops the gradient")
        return [kind]
    total.backward()
    g = raw.grad.numpy().transpose([x.t.dims.index(w.dims[n]) for n in names])
    for b in w.seqs():
        gs = rfh.RTensor(w, x.t, names, g).seq(b)
        assert_close(gs, numpy.broadcast_to(fac(b) * wt.seq(b), gs.shape), "%s gradient" % kind, rtol=1e-6, atol=1e-8)
    return [kind]


@op(weight=2, min_len=1)
def op_parametrize(w, p):
    """weight noise, weight dropout"""
    import torch
    import returnn.frontend as rf

    rf.set_random_seed(w.c["seed"] % 1000)
    _train_ctx(False)
    o = w.add_static("C", 3)
    kind = p.choice(["noise", "dropout"])
    lin = rf.Linear(w.F, o)
    ref = rf.Linear(w.F, o)
    names0 = [n for n, _ in lin.named_parameters()]
    for (n, a), (_, b) in zip(lin.named_parameters(), ref.named_parameters()):
        b.raw_tensor.data = a.raw_tensor.data.clone()
    x = w.tensor(["B", "T", "F"], garbage=False)
    if kind == "noise":
        rf.weight_noise(lin, "weight", std=0.5)
    else:
        rf.weight_dropout(lin, "weight", drop_prob=0.5)
    p.bool()
    n_params = len(list(lin.parameters()))
    require(n_params == len(names0), "number of params %i" % n_params)
    y_ref = ref(x.t)

    def dense(y):
        return y.copy_compatible_to_dims_raw([w.B, w.T, o])

    require(torch.equal(dense(lin(x.t)), dense(y_ref)), "parametrization active outside of training")
    _train_ctx(True)
    state = rf.get_random_state()
    y1 = lin(x.t)
    y2 = lin(x.t)
    rf.set_random_state(state)
    y3 = lin(x.t)
    require(torch.equal(dense(y1), dense(y3)), "random state not restored")
    if kind == "noise":
        require(not torch.equal(dense(y1), dense(y2)), "same noise in the next call")
        require(not torch.equal(dense(y1), dense(y_ref)), "no noise in training")
    # gradient: d/dW sum(y) = sum_x (outer), times the mask for dropout
    rf.set_random_state(state)
    for q in list(lin.parameters()):
        q.raw_tensor.grad = None
    y = lin(x.t)
    dense(y).sum().backward()
    (wp,) = [q for n, q in lin.named_parameters() if len(q.dims) == 2]
    g = wp.raw_tensor.grad.numpy()
    if wp.dims[0] is o:
        g = g.T
    want = numpy.broadcast_to(x.arr.astype("float64").sum(axis=(0, 1))[:, None], g.shape)
    if kind == "noise":
        assert_close(g, want, "weight noise gradient", rtol=1e-3, atol=1e-3)
    else:
        ok = numpy.isclose(g, 0, atol=1e-3) | numpy.isclose(g, want * 2, rtol=1e-3, atol=1e-3)
        require(ok.all(), lambda: "weight dropout gradient %r, %r" % (g, want))
    _train_ctx(False)
    require(torch.equal(dense(lin(x.t)), dense(y_ref)), "eval after training")
    name = [n for n in ["weight"]][0]
    rf.remove_parametrization(lin, name)
    _train_ctx(True)
    require(torch.equal(dense(lin(x.t)), dense(y_ref)), "after remove_parametrization")
    require([n for n, _ in lin.named_parameters()] == names0, "param names after remove")
    return [kind]


@op(weight=2)
def op_piecewise(w, p):
    import returnn.frontend as rf

    n = p.int(2, 5)
    keys = sorted(set(float(v) for v in w.rnd.randint(-6, 7, (n,))))
    if len(keys) < 2:
        keys.append(keys[-1] + 2.0)
    values = [float(v) for v in w.rnd.randint(-5, 6, (len(keys),))]
    pts = list(zip(keys, values))
    w.rnd.shuffle(pts)
    mod = rf.PiecewiseLinear(dict((float(k), float(v)) for k, v in pts))
    names = p.choice([[], ["B"], ["B", "T"]])
    x = w.tensor(names, low=-9, high=9, ints=p.bool(), garbage=False)
    y = mod(x.t)
    check_seqs(y, w, names[1:], lambda b: numpy.interp(x.seq(b), keys, values), "PiecewiseLinear %s" % sorted(pts), rtol=1e-4, atol=1e-4)
    return ["%i" % len(keys)]


@op(weight=1)
def op_random(w, p):
    import torch
    import returnn.frontend as rf

    dims = [w.dims[n] for n in p.choice([["B", "T"], ["F"], ["T", "F", "B"], []])]
    kind = p.choice(["uniform", "uniform_int", "normal", "trunc", "choice", "static"])
    seed = w.c["seed"]

    def draw():
        if kind == "uniform":
            return rf.random_uniform(dims, minval=-1.5, maxval=2.5)
        if kind == "uniform_int":
            return rf.random_uniform(dims, minval=-2, maxval=3, dtype="int32")
        if kind == "normal":
            return rf.random_normal(dims, mean=3.0, stddev=0.1)
        if kind == "trunc":
            return rf.random_truncated_normal(dims, mean=1.0, stddev=0.5)
        if kind == "static":
            return rf.random(dims, distribution="uniform", minval=0.0, maxval=1.0, static=True, seed=seed)
        lp = w.tensor(["B", "F"], dtype="float32", high=0)
        k = rf.random_choice_without_replacement(
            log_probs=lp.t, axis=w.F, num_samples_dim=w.dims.get("K") or w.add_static("K", min(2, w.num["F"]))
        )
        return k

    rf.set_random_seed(seed)
    st0 = w.rnd.get_state()
    a = draw()
    state = rf.get_random_state()
    w.rnd.set_state(st0)
    b = draw()
    rf.set_random_state(state)
    w.rnd.set_state(st0)
    b2 = draw()
    rf.set_random_seed(seed)
    w.rnd.set_state(st0)
    a2 = draw()
    require(torch.equal(a.raw_tensor, a2.raw_tensor), lambda: "%s not reproducible with same seed" % kind)
    require(torch.equal(b.raw_tensor, b2.raw_tensor), lambda: "%s not reproducible with same state" % kind)
    raw = a.raw_tensor.numpy()
    require(a.dims == tuple(dims) if kind != "choice" else True, "dims")
    require(raw.shape == tuple(int(d.get_dim_value()) for d in a.dims), "shape")
    if kind == "uniform":
        require(((raw >= -1.5) & (raw < 2.5)).all(), "uniform range")
    elif kind == "uniform_int":
        require(((raw >= -2) & (raw < 3)).all() and raw.dtype == numpy.int32, "uniform int range")
    elif kind == "normal":
        require((numpy.abs(raw - 3.0) < 1.0).all(), "normal: 10 sigma")
    elif kind == "trunc":
        require((numpy.abs(raw - 1.0) <= 1.0 + 1e-5).all(), "truncated normal: 2 sigma")
    elif kind == "choice":
        k = a.copy_compatible_to_dims_raw([w.B, w.dims["K"]]).numpy()
        for row in k:
            require(len(set(row)) == len(row) and all(0 <= v < w.num["F"] for v in row), lambda: "samples %s" % row)
    return [kind]


UNARY = {
    "exp": numpy.exp,
    "expm1": numpy.expm1,
    "log": numpy.log,
    "log1p": numpy.log1p,
    "sqrt": numpy.sqrt,
    "rsqrt": lambda x: 1 / numpy.sqrt(x),
    "square": numpy.square,
    "abs": numpy.abs,
    "tanh": numpy.tanh,
    "sigmoid": lambda x: 1 / (1 + numpy.exp(-x)),
    "log_sigmoid": lambda x: -numpy.log1p(numpy.exp(-x)),
    "sin": numpy.sin,
    "cos": numpy.cos,
    "ceil": numpy.ceil,
    "floor": numpy.floor,
    "round": numpy.round,
    "relu": lambda x: numpy.maximum(x, 0),
    "relu_square": lambda x: numpy.maximum(x, 0) ** 2,
    "elu": lambda x: numpy.where(x > 0, x, numpy.expm1(x)),
    "selu": lambda x: 1.0507009873554805 * numpy.where(x > 0, x, 1.6732632423543772 * numpy.expm1(x)),
    "silu": lambda x: x / (1 + numpy.exp(-x)),
    "swish": lambda x: x / (1 + numpy.exp(-x)),
    "gelu": lambda x: x * 0.5 * (1 + numpy.vectorize(math.erf, otypes=[float])(x / math.sqrt(2))),
    "neg": lambda x: -x,
    "reciprocal": lambda x: 1 / x,
    "identity": lambda x: x,
    "is_finite": numpy.isfinite,
    "is_infinite": numpy.isinf,
    "is_neg_infinite": lambda x: x == -numpy.inf,
    "safe_log": lambda x: numpy.log(numpy.maximum(x, 1.4012985e-45)),
    "logical_not": numpy.logical_not,
    "stop_gradient": lambda x: x,
}
POS = {"log", "sqrt", "rsqrt", "log1p", "reciprocal", "safe_log"}


@op(weight=2)
def op_unary(w, p):
    import returnn.frontend as rf

    name = p.choice(sorted(UNARY))
    names = p.choice([["B", "T", "F"], ["B", "T"], ["F"], []])
    dt = "bool" if name == "logical_not" else p.choice(["float32", "float64"])
    kw = dict(low=0.1, high=3) if name in POS else {}
    x = w.tensor(names, dtype=dt, inf=2 if name.startswith("is_") else False, **kw)
    with numpy.errstate(all="ignore"):
        y = getattr(rf, name)(x.t)
        want_dt = "bool" if name.startswith("is_") else dt
        require(y.dtype == want_dt, lambda: "%s dtype %s" % (name, y.dtype))
        check_seqs(y, w, [n for n in names if n != "B"], lambda b: UNARY[name](x.seq(b)), name, rtol=1e-4, atol=1e-5)
    require(set(y.dims) == set(x.t.dims), "dims")
    return [name]


@op(weight=2)
def op_misc_math(w, p):
    import returnn.frontend as rf

    kind = p.choice(["clip", "lerp", "gating", "sparse_to_dense", "seq_mask", "opt_logical", "range_strided", "frac"])
    names = ["B", "T", "F"]
    if kind == "clip":
        x = w.tensor(names)
        lo = w.tensor(p.choice([["B"], [], ["F"]]), low=-2, high=-1)
        scal = p.bool()
        y = rf.clip_by_value(x.t, -1.0 if scal else lo.t, 1.5)
        check_seqs(y, w, ["T", "F"], lambda b: numpy.clip(x.seq(b), -1.0 if scal else lo.seq(b), 1.5), kind)
    elif kind == "lerp":
        x, y_ = w.tensor(names), w.tensor(["B", "F"])
        wt = w.tensor(p.choice([["B"], [], ["F"], ["B", "T"]]), low=0, high=1)
        y = rf.lerp(x.t, y_.t, wt.t, allow_broadcast_all_sources=True)

        def ref(b):
            ws = wt.seq(b)
            if wt.names == ["B", "T"]:
                ws = ws[:, None]
            return x.seq(b) + ws * (y_.seq(b) - x.seq(b))

        check_seqs(y, w, ["T", "F"], ref, kind)
    elif kind == "gating":
        n = p.int(1, 3)
        d = w.add_static("C", 2 * n)
        x = w.tensor(["B", "T", "C"])
        y, od = rf.gating(x.t, axis=d)
        require(od.dimension == n, "gating dim")
        check_seqs(y, w, ["T", od], lambda b: x.seq(b)[:, :n] / (1 + numpy.exp(-x.seq(b)[:, n:])), kind)
    elif kind == "sparse_to_dense":
        vals = w.rnd.randint(0, w.num["F"], (w.c["b"], w.max_T))
        x = w.tensor(["B", "T"], dtype="int32", values=vals, sparse_dim=w.F, garbage=False)
        y = rf.sparse_to_dense(x.t, label_value=2.0, other_value=-1.0)
        check_seqs(y, w, ["T", "F"], lambda b: numpy.where(numpy.eye(w.num["F"])[x.seq(b)] > 0, 2.0, -1.0), kind)
    elif kind == "seq_mask":
        dims = p.choice([[w.B, w.T], [w.T], [w.B, w.T, w.U]])
        if not all(d.dimension is None for d in dims):
            return []
        m = rf.sequence_mask(dims)
        raw = rf.cast(m, "int32")
        for b in w.seqs():
            # over the full raw axis: true exactly for the real frames
            full = m.copy_compatible_to_dims_raw(
                [w.B] + [d for d in dims if d is not w.B]
            ).numpy() if w.B in m.dims else m.copy_compatible_to_dims_raw([d for d in dims if d is not w.B]).numpy()[None]
            row = full[b if full.shape[0] > 1 else 0]
            idx = [numpy.arange(s) for s in row.shape]
            want = numpy.ones(row.shape, bool)
            for ax, d in enumerate([d for d in dims if d is not w.B]):
                n = dim_len(d, w, b)
                sh = [1] * row.ndim
                sh[ax] = -1
                if row.shape[ax] == 1 and max(dim_len(d, w, bb) for bb in w.seqs()) != 1:
                    continue
                want &= (numpy.arange(row.shape[ax]) < n).reshape(sh)
            require(numpy.array_equal(row, want), lambda: "sequence_mask %r: %r" % (dims, row))
    elif kind == "opt_logical":
        x, y_ = w.tensor(["B", "T"], dtype="bool"), w.tensor(["B"], dtype="bool")
        a = p.choice(["x", True, False])
        b_ = p.choice(["y", True, False])
        f, r = (rf.opt_logical_and, numpy.logical_and) if p.bool() else (rf.opt_logical_or, numpy.logical_or)
        res = f(x.t if a == "x" else a, y_.t if b_ == "y" else b_)
        for b in w.seqs():
            av = x.seq(b) if a == "x" else a
            bv = y_.seq(b) if b_ == "y" else b_
            want = r(av, bv)
            if isinstance(res, bool):
                require(bool(numpy.all(want == res)), "opt_logical %s" % res)
            else:
                order = [w.T] if w.T in res.dims else []
                got = out_seq(res, w, b, order)
                require(numpy.array_equal(numpy.broadcast_to(got, want.shape if want.ndim else got.shape), numpy.broadcast_to(want, got.shape)), "opt_logical")
    elif kind == "range_strided":
        stride = p.int(1, 3)
        y, d = rf.range_over_dim_strided(w.T, stride=stride)
        check_seqs(y, w, [d], lambda b: numpy.arange(0, dim_len(w.T, w, b), stride), kind)
    else:
        dims = p.choice([[w.B, w.T], [w.T, w.B], [w.B, w.T, w.F]])
        total = w.c["b"] * w.max_T
        if w.T.dimension is not None or total == 0:
            return []
        y = rf.masked_fraction_of_shape(dims)
        y = float(y.raw_tensor) if not isinstance(y, (int, float)) else y
        want = sum(w.lens["T"]) / total
        require(abs(y - want) < 1e-5, lambda: "masked_fraction_of_shape %r, expected %r" % (y, want))
    return [kind]


@op(weight=2, min_len=1)
def op_mel(w, p):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    sr = p.choice([8000, 16000, 1000])
    nfft = p.choice([16, 32, 14])
    nf = p.int(1, 6)
    i, o = w.add_static("I", nfft // 2 + 1), w.add_static("O", nf)
    fmin, fmax = p.choice([(None, None), (20, None), (0, sr / 4), (50.0, sr / 2)])
    x = w.tensor(["B", "T", "I"], low=0, high=2)
    y = rf.audio.mel_filterbank(x.t, in_dim=i, out_dim=o, sampling_rate=sr, f_min=fmin, f_max=fmax)
    lo, hi = fmin or 0, fmax or sr / 2

    def mel(f):
        return 1125.0 * math.log(1 + f / 700.0)

    def inv(m):
        return 700.0 * (math.exp(m / 1125.0) - 1)

    cent = numpy.array([inv(mel(lo) + k * (mel(hi) - mel(lo)) / (nf + 1)) * nfft / sr for k in range(nf + 2)])
    mat = numpy.zeros((nfft // 2 + 1, nf))
    for k in range(nf):
        mat[:, k] = numpy.interp(numpy.arange(nfft // 2 + 1), cent[k : k + 3], [0, 1, 0])
    check_seqs(y, w, ["T", o], lambda b: x.seq(b) @ mat, "mel_filterbank", rtol=1e-3, atol=1e-3)
    # twice: cached matrix, other dim objects
    i2, o2 = Dim(nfft // 2 + 1, name="i2"), Dim(nf, name="o2")
    x2 = rf.replace_dim(x.t, in_dim=i, out_dim=i2)[0]
    y2 = rf.audio.mel_filterbank(x2, in_dim=i2, out_dim=o2, sampling_rate=sr, f_min=fmin, f_max=fmax)
    check_seqs(y2, w, ["T", o2], lambda b: x.seq(b) @ mat, "mel_filterbank 2nd", rtol=1e-3, atol=1e-3)
    return ["mel"]


def run(case):
    f = OPS[case["op"]][0]
    import returnn.frontend as rf

    wc = case["w"]
    if case["op"] in ("ctc", "ce", "smooth"):
        wc = dict(wc, garbage="big")  # we check gradients, and 0 * nan would be nan
    w = World(wc)
    try:
        return f(w, gen.Picks(case["p"]))
    finally:
        rf.init_forward_step_run_ctx()


def _case(name):
    f, _, min_len, kinds = OPS[name]
    return st.fixed_dictionaries(
        {"op": st.just(name), "w": rfh.world(min_len=min_len, max_len=6, t_kinds=kinds), "p": gen.picks(14)}
    )


# ---------------------------------------------------------------- gradient checkpointing


@st.composite
def ckpt_case(draw):
    n = draw(st.integers(2, 14))
    prog = []
    for _ in range(n):
        prog.append(
            {
                "op": draw(
                    st.sampled_from(
                        ["add", "mul", "matmul", "sin", "dropout", "exp", "relu", "layer_norm", "cat", "view", "enter", "enter",
                         "exit", "exit", "del", "del", "noise", "split", "clone", "softmax", "hooks_enter", "hooks_exit", "gc"]
                    )
                ),
                "a": draw(st.integers(0, 9)),
                "b": draw(st.integers(0, 9)),
            }
        )
    return {"prog": prog, "leafs": draw(st.integers(1, 3)), "seed": draw(gen.seeds()), "rounds": draw(st.sampled_from([1, 2]))}


def _run_prog(case, ckpt):
    import contextlib
    import gc
    import torch
    from returnn.torch.util.gradient_checkpoint import gradient_checkpoint_scope

    res = []
    packs = []
    rnd = numpy.random.RandomState(case["seed"])
    leafs = [torch.tensor(rnd.uniform(-1, 1, (3, 4)), dtype=torch.float64, requires_grad=True) for _ in range(case["leafs"])]
    for rd in range(case["rounds"]):
        torch.manual_seed(case["seed"] + rd)
        pool = list(leafs)
        scopes = []
        hooks = []
        out = []
        for ins in case["prog"]:
            o = ins["op"]
            a, b = pool[ins["a"] % len(pool)], pool[ins["b"] % len(pool)]
            if o == "enter":
                if len(scopes) < 2:
                    s = gradient_checkpoint_scope() if ckpt else contextlib.nullcontext()
                    s.__enter__()
                    scopes.append((s, len(hooks)))
                continue
            if o == "exit":
                if scopes and scopes[-1][1] == len(hooks):
                    scopes.pop()[0].__exit__(None, None, None)
                continue
            if o == "hooks_enter":
                if len(hooks) < 2:
                    h = torch.autograd.graph.saved_tensors_hooks(lambda t: (packs.append(1), t)[1], lambda t: t)
                    h.__enter__()
                    hooks.append((h, len(scopes)))
                continue
            if o == "hooks_exit":
                if hooks and hooks[-1][1] == len(scopes):
                    hooks.pop()[0].__exit__(None, None, None)
                continue
            if o == "gc":
                gc.collect()
                continue
            if o == "del":
                if len(pool) > len(leafs) + 1:
                    i = len(leafs) + ins["a"] % (len(pool) - len(leafs))
                    out.append(pool[i].sum() * (ins["b"] + 1))
                    del pool[i]
                    a = b = None
                continue
            if o == "add":
                r = a + b * 0.5
            elif o == "mul":
                r = a * b
            elif o == "matmul":
                r = a @ (b.transpose(0, 1) @ b) * 0.1
            elif o == "sin":
                r = torch.sin(a)
            elif o == "dropout":
                r = torch.nn.functional.dropout(a, 0.4)
            elif o == "exp":
                r = torch.exp(-a * a)
            elif o == "relu":
                r = torch.relu(a) + b
            elif o == "layer_norm":
                r = torch.nn.functional.layer_norm(a, (4,))
            elif o == "cat":
                r = torch.cat([a[:1], b[1:]], dim=0)
            elif o == "view":
                r = (a.reshape(4, 3) * 2.0).view(3, 4)
            elif o == "noise":
                r = a + torch.randn_like(a) * b
            elif o == "split":
                u, v = torch.split(a, 2, dim=1)
                r = torch.cat([v * u, u], dim=1)
            elif o == "clone":
                r = a.clone()
            elif o == "softmax":
                r = torch.softmax(a, dim=-1)
            pool.append(r)
            a = b = r = None
        while scopes or hooks:
            if hooks and (not scopes or hooks[-1][1] >= len(scopes)):
                hooks.pop()[0].__exit__(None, None, None)
            else:
                scopes.pop()[0].__exit__(None, None, None)
        loss = sum(x.sum() * (i + 1) for i, x in enumerate(pool)) + sum(out)
        vals = [x.detach().clone() for x in pool] + [loss.detach().clone()]
        state = torch.get_rng_state()
        a = b = None
        del pool, out
        for le in leafs:
            le.grad = None
        loss.backward()
        require(torch.equal(torch.get_rng_state(), state), "backward changes the random state")
        res.append((vals, [None if le.grad is None else le.grad.clone() for le in leafs]))
        del loss
        gc.collect()
    # all hooks are gone again: a tensor saved now is not packed by anything of ours
    seen = []
    with torch.autograd.graph.saved_tensors_hooks(lambda t: (seen.append(1), t)[1], lambda t: t):
        x = torch.ones(2, requires_grad=True)
        y = (x * x).sum()
    y.backward()
    require(len(seen) >= 1, "hooks stack is broken: own saved_tensors_hooks not called")
    return res, len(packs)


def run_ckpt(case):
    import torch

    ref, _ = _run_prog(case, False)
    got, _ = _run_prog(case, True)
    for rd, ((v0, g0), (v1, g1)) in enumerate(zip(ref, got)):
        for i, (a, b) in enumerate(zip(v0, v1)):
            require(torch.equal(a, b), lambda: "round %i value %i: %s, without checkpointing %s" % (rd, i, b, a))
        for i, (a, b) in enumerate(zip(g0, g1)):
            require((a is None) == (b is None), "gradient missing")
            if a is not None:
                require(
                    torch.allclose(a, b, rtol=1e-9, atol=1e-9),
                    lambda: "round %i gradient of leaf %i: %s, without checkpointing %s" % (rd, i, b, a),
                )
    ops = [i["op"] for i in case["prog"]]
    return ["ckpt" if "enter" in ops else "plain"] + sorted(set(ops))


SUBS = [
    Sub(
        k,
        (lambda k=k: _case(k)),
        run,
        quick=220 * o[1],
        thorough=10000 * o[1],
        nontrivial=lambda c: c["w"]["b"] > 1 and len(set(c["w"]["t"])) > 1,
    )
    for k, o in OPS.items()
] + [
    Sub(
        "checkpointing",
        ckpt_case,
        run_ckpt,
        quick=1500,
        thorough=60000,
        nontrivial=lambda c: any(i["op"] == "enter" for i in c["prog"][:-1]),
    )
]
