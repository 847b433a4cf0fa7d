"""C15: TF layers: each sequence alone defines its output; templates describe the runtime"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen


def setup():
    import os

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    import returnn.tf.compat as tf_compat

    tf_compat.v1.disable_v2_behavior() if False else None
    import returnn.tf.network  # noqa
    import returnn.tf.layers.basic  # noqa
    import returnn.tf.layers.rec  # noqa
    from returnn.util.basic import BehaviorVersion
    from returnn.log import log

    log.initialize(verbosity=[1])
    if BehaviorVersion.get_if_set() is None:
        BehaviorVersion.set(21)


class V:
    """labelled array"""

    def __init__(self, arr, dims):
        self.arr = numpy.asarray(arr)
        self.dims = list(dims)
        assert self.arr.ndim == len(self.dims), (self.arr.shape, self.dims)

    def axis(self, d):
        ls = [i for i, x in enumerate(self.dims) if x is d] or [i for i, x in enumerate(self.dims) if x == d]
        assert len(ls) == 1, (self.dims, d)
        return ls[0]

    def has(self, d):
        return any(x is d or x == d for x in self.dims)

    def to(self, dims):
        """transpose, add size-1 axes"""
        idx = [self.axis(d) for d in dims if self.has(d)]
        assert len(idx) == len(self.dims), (self.dims, dims)
        a = self.arr.transpose(idx)
        return a.reshape([self.arr.shape[self.axis(d)] if self.has(d) else 1 for d in dims])

    def last(self, d):
        """:return: (array with d as last axis, other dims)"""
        i = self.axis(d)
        return numpy.moveaxis(self.arr, i, -1), [x for j, x in enumerate(self.dims) if j != i]


class G:
    def __init__(self, c, tf):
        from returnn.config import Config
        from returnn.tf.network import TFNetwork, ExternData
        from returnn.tensor import Dim, batch_dim

        self.c = c
        self.p = gen.Picks(c["p"])
        self.rnd = numpy.random.RandomState(c["seed"])
        self.time = Dim(kind=Dim.Types.Spatial, description="time", dimension=None)
        self.time2 = Dim(kind=Dim.Types.Spatial, description="time2", dimension=None)
        self.feat = Dim(kind=Dim.Types.Feature, description="feat", dimension=c["feat"])
        self.sp = Dim(kind=Dim.Types.Spatial, description="static", dimension=c["n_sp"])
        self.cls = Dim(kind=Dim.Types.Feature, description="classes", dimension=5)
        ord_ = [batch_dim, self.time, self.feat]
        if c["tm"]:
            ord_ = [self.time, batch_dim, self.feat]
        elif c["bft"]:
            ord_ = [batch_dim, self.feat, self.time]
        self.decl = {
            "data": {"dims": ord_, "time_dim_axis": ord_.index(self.time), "feature_dim_axis": 2 if not c["bft"] or c["tm"] else 1},
            "vec": {"dims": [batch_dim, self.feat], "time_dim_axis": None},
            "cls": {"dims": [batch_dim, self.time], "sparse_dim": self.cls, "dtype": "int32"},
            "data2": {"dims": [batch_dim, self.time2, self.feat]},
            "grid": {"dims": [batch_dim, self.time, self.sp, self.feat]},
            "pair": {"dims": [batch_dim, self.time2, self.time], "feature_dim_axis": None, "time_dim_axis": 1 + c["tm"]},
        }
        ext = {k: dict({"dtype": "float32", "version": 1, "available_for_inference": True}, **v) for k, v in self.decl.items()}
        self.ext = ExternData(ext)
        self.config = Config({"extern_data": ext})
        self.net = TFNetwork(config=self.config, extern_data=self.ext, train_flag=False)
        self.nd = {}
        self.refs = {}  # name -> (srcs, ref func)
        self.names = []
        self.leaky = set()
        self.infpad = set()  # the padding might be inf
        self.src = {}
        for k in self.decl:
            self.names.append("data:" + k)

    def layer(self, name):
        if name.startswith("data:"):
            return self.net.get_layer(name)
        return self.net.layers[name]

    def out(self, name):
        if name.startswith("data:"):
            return self.ext.data[name[len("data:") :]]
        return self.net.layers[name].output

    def pick(self, pred, prefer_new=True):
        cand = [n for n in self.names if pred(self.out(n))]
        if not cand:
            raise Skip
        if self.c.get("two"):
            cand = [n for n in cand if len(dyn(self.out(n))) > 1] or cand
        if prefer_new and self.p.int(0, 2):
            return cand[-1]
        return self.p.choice(cand)

    def add(self, name, opts, srcs, ref, leaky=False):
        self.nd[name] = opts
        try:
            self.net.construct_layer(self.nd, name)
        except Exception:
            raise
        self.refs[name] = (srcs, ref)
        self.src[name] = list(srcs)
        if leaky or any(s in self.leaky for s in srcs):
            self.leaky.add(name)
        if opts.get("log_space") or any(s in self.infpad for s in srcs):
            self.infpad.add(name)
        dims = self.out(name).dims
        if all(d1 != d2 for i, d1 in enumerate(dims) for d2 in dims[:i]):
            self.names.append(name)


# ---------------------------------------------------------------- catalog


def isf(o):
    return o.dtype.startswith("float")


def dense(o):
    return o.dtype == "float32" and o.sparse_dim is None and o.batch_dim_axis is not None


def has_feat(o):
    return dense(o) and o.feature_dim_axis is not None and o.feature_dim.dimension is not None


def dyn(o):
    return [d for d in o.dims if d.dimension is None and not d.is_batch_dim()]


def nonb(o):
    return [d for d in o.dims if not d.is_batch_dim()]


def axis_opt(g, o, d):
    """how to refer to that axis"""
    i = [j for j, x in enumerate(o.dims) if x is d][0]
    if i == o.time_dim_axis and g.p.bool():
        return "T"
    if i == o.feature_dim_axis and g.p.bool():
        return "F"
    return d


def minlen(g, d):
    """shortest sequence along d, as far as known"""
    if d is g.time:
        return min(g.c["lens"])
    if d is g.time2:
        return min(g.c["lens2"])
    return 0


class Skip(Exception):
    pass


def has_time(o):
    return dense(o) and bool(dyn(o))


def elem(fn):
    return lambda g, xs, out: V(fn(xs[0].arr), xs[0].dims)


def L_activation(g):
    s = g.pick(dense)
    name, fn = g.p.choice(
        [
            ("tanh", numpy.tanh),
            ("relu", lambda x: numpy.maximum(x, 0)),
            ("sigmoid", lambda x: 1 / (1 + numpy.exp(-x))),
            ("abs", numpy.abs),
            ("square", lambda x: numpy.tanh(x) ** 2),
        ]
    )
    if name == "square":
        return {"class": "eval", "eval": "tf.square(tf.tanh(source(0)))", "from": s}, [s], elem(fn)
    return {"class": "activation", "activation": name, "from": s}, [s], elem(fn)


def _softmax(x, axis=-1):
    x = x - x.max(axis=axis, keepdims=True)
    e = numpy.exp(x)
    return e / e.sum(axis=axis, keepdims=True)


def L_softmax_act(g):
    s = g.pick(lambda o: has_feat(o) and len(o.dims) < 6)
    f = g.out(s).feature_dim
    log = g.p.bool()

    def ref(g, xs, out):
        a, rest = xs[0].last(f)
        r = _softmax(a)
        return V(numpy.log(r) if log else r, rest + [f])

    return {"class": "activation", "activation": "log_softmax" if log else "softmax", "from": s}, [s], ref


def L_linear(g):
    s = g.pick(has_feat)
    f = g.out(s).feature_dim
    n = g.p.int(1, 4)
    bias = g.p.bool()
    act = g.p.choice([None, "tanh"])

    def ref(g, xs, out):
        a, rest = xs[0].last(f)
        r = a @ g.params["W"]
        if bias:
            r = r + g.params["b"]
        if act:
            r = numpy.tanh(r)
        return V(r, rest + [out.feature_dim])

    return {"class": "linear", "n_out": n, "with_bias": bias, "activation": act, "from": s}, [s], ref


def L_linear_sparse(g):
    s = g.pick(lambda o: o.sparse_dim is not None and o.sparse_dim.dimension is not None)
    n = g.p.int(1, 4)

    def ref(g, xs, out):
        return V(g.params["W"][xs[0].arr], xs[0].dims + [out.feature_dim])

    return {"class": "linear", "n_out": n, "with_bias": False, "activation": None, "from": s}, [s], ref


RED = {
    "sum": numpy.sum,
    "mean": numpy.mean,
    "max": numpy.max,
    "min": numpy.min,
    "logsumexp": lambda x, axis, keepdims=False: numpy.log(numpy.sum(numpy.exp(x), axis=axis, keepdims=keepdims)),
}


def L_reduce(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    mode = g.p.choice(list(RED))
    ds = g.p.subset(nonb(o), at_least=1)
    keep = g.p.int(0, 3) == 0
    axis = [axis_opt(g, o, d) for d in ds]
    if len(axis) == 1 and g.p.bool():
        axis = axis[0]

    def ref(g, xs, out):
        ax = tuple(xs[0].axis(d) for d in ds)
        if 0 in [xs[0].arr.shape[i] for i in ax]:
            return None
        r = RED[mode](xs[0].arr, axis=ax, keepdims=keep)
        if keep:
            require(len(out.dims) == len(xs[0].dims), "reduce keep_dims: %s" % out)
            new = iter([d for d in out.dims if not xs[0].has(d)])
            dims = [next(new) if i in ax else d for i, d in enumerate(xs[0].dims)]
            return V(r, dims)
        return V(r, [d for i, d in enumerate(xs[0].dims) if i not in ax])

    return {"class": "reduce", "mode": mode, "axis": axis, "keep_dims": keep, "from": s}, [s], ref, "leaky" if any(x.dimension is None and minlen(g, x) < 1 for x in ds) else None


def L_argmax(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    mode = g.p.choice(["argmax", "argmin"])

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        if a.shape[-1] == 0:
            return None
        srt = numpy.sort(a, axis=-1)
        if a.shape[-1] > 1 and numpy.abs(numpy.diff(srt, axis=-1)).min(initial=1) < 1e-4:
            return None  # ambiguous
        return V(a.argmax(axis=-1) if mode == "argmax" else a.argmin(axis=-1), rest)

    leaky = d.dimension is None and minlen(g, d) < 1
    return {"class": "reduce", "mode": mode, "axis": axis_opt(g, o, d), "from": s}, [s], ref, "leaky" if leaky else None


def L_reduce_bool(g):
    s = g.pick(lambda o: o.dtype == "bool" and o.batch_dim_axis is not None and nonb(o))
    o = g.out(s)
    mode = g.p.choice(["any", "all"])
    ds = g.p.subset(nonb(o), at_least=1)

    def ref(g, xs, out):
        ax = tuple(xs[0].axis(d) for d in ds)
        r = (numpy.any if mode == "any" else numpy.all)(xs[0].arr, axis=ax)
        return V(r, [d for i, d in enumerate(xs[0].dims) if i not in ax])

    return {"class": "reduce", "mode": mode, "axis": ds, "from": s}, [s], ref


def L_softmax_over_spatial(g):
    s = g.pick(lambda o: has_time(o) and len(o.dims) < 6)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    if minlen(g, d) < 1:
        return None
    fac = g.p.choice([None, 0.5])
    log = g.p.bool()

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        if a.shape[-1] == 0:
            return None
        r = _softmax(a * (fac or 1))
        return V(numpy.log(r) if log else r, rest + [d])

    return {"class": "softmax_over_spatial", "axis": axis_opt(g, o, d), "energy_factor": fac, "log_space": log, "from": s}, [s], ref


def _newdim(out, xs):
    new = [d for d in out.dims if not any(x.has(d) for x in xs)]
    require(len(new) == 1, lambda: "expected one new dim: %s from %s" % (out, [x.dims for x in xs]))
    return new[0]


def L_slice(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    st_, en, step = g.p.choice([(None, None, 2), (1, None, None), (None, -1, None), (None, 2, None), (0, None, 3), (1, -1, 2), (None, None, -1)])
    if step == -1 and d.dimension is None:
        step = 1
    if en == 2 and (d.dimension if d.dimension is not None else minlen(g, d)) < 2:
        return None
    if d.dimension is not None and len(range(*slice(st_, en, step).indices(d.dimension))) == 0:
        return None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        r = a[..., slice(st_, en, step)]
        if r.shape[-1] == a.shape[-1] and out.dims == o.dims:
            nd = d
        else:
            cand = [x for x in out.dims if not xs[0].has(x)]
            nd = cand[0] if cand else d
        return V(r, rest + [nd])

    return {"class": "slice", "axis": axis_opt(g, o, d), "slice_start": st_, "slice_end": en, "slice_step": step, "from": s}, [s], ref


def L_shift(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    amount = g.p.choice([1, -1, 2, -2])
    pad = g.p.int(0, 2) > 0
    if d.dimension is not None and (not pad and d.dimension <= abs(amount)):
        return None
    val = g.p.choice([0, 0.5])
    if not pad and d.dimension is None and minlen(g, d) <= abs(amount):
        return None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        n = a.shape[-1]
        k = min(abs(amount), n)
        fill = numpy.full(a.shape[:-1] + (k,), val, a.dtype)
        if amount > 0:
            r = numpy.concatenate([fill, a[..., : n - k]], axis=-1) if pad else a[..., : max(0, n - k)]
        else:
            r = numpy.concatenate([a[..., k:], fill], axis=-1) if pad else a[..., k:]
        cand = [x for x in out.dims if not xs[0].has(x)]
        return V(r, rest + [cand[0] if cand else d])

    leaky = d.dimension is None and (amount < 0 if pad else amount > 0)
    return (
        {"class": "shift_axis", "axis": axis_opt(g, o, d), "amount": amount, "pad": pad, "pad_value": val, "adjust_size_info": not pad, "from": s},
        [s],
        ref,
        "leaky" if leaky else None,
    )


def L_pad(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    l, r_ = g.p.int(0, 2), g.p.int(0, 2)
    if l + r_ == 0:
        return None
    val = g.p.choice([0, 1.5])

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        r = numpy.concatenate([numpy.full(a.shape[:-1] + (l,), val, a.dtype), a, numpy.full(a.shape[:-1] + (r_,), val, a.dtype)], axis=-1)
        return V(r, rest + [_newdim(out, xs)])

    return {"class": "pad", "axes": axis_opt(g, o, d), "padding": (l, r_), "mode": "constant", "value": val, "from": s}, [s], ref


def L_window(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    size = g.p.int(1, 4)
    left = g.p.choice([None] + list(range(size)))
    stride = g.p.choice([1, 1, 2, 3])
    padding = g.p.choice(["same", "same", "valid"])
    if padding == "valid" and minlen(g, d) < size:
        return None
    opts = {"class": "window", "axis": axis_opt(g, o, d), "window_size": size, "padding": padding, "stride": stride, "from": s}
    if left is not None and padding == "same":
        opts["window_left"] = left
        opts["window_right"] = size - 1 - left
    else:
        left = None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        n = a.shape[-1]
        if padding == "same":
            wl = left if left is not None else (size - 1) // 2 if False else size // 2 if size % 2 else size // 2
            wl = left if left is not None else size // 2
            if left is None and size % 2 == 0:
                return None  # which side is one larger is not documented
            ap = numpy.concatenate([numpy.zeros(a.shape[:-1] + (wl,), a.dtype), a, numpy.zeros(a.shape[:-1] + (size - 1 - wl,), a.dtype)], axis=-1)
            ts = range(0, n, stride)
        else:
            ap = a
            ts = range(0, n - size + 1, stride)
        new = [x for x in out.dims if not xs[0].has(x)]
        wd = [x for x in new if x.dimension == size]
        require(len(wd) >= 1, lambda: "window: %s" % out)
        td = [x for x in new if x.dimension is None]
        if not len(ts):
            return None
        r = numpy.stack([ap[..., t : t + size] for t in ts], axis=-2)
        return V(r, rest + [td[0] if td else d, wd[0]])

    return opts, [s], ref, "leaky" if padding == "same" and size > 1 else None


def L_cumsum(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    rev = g.p.bool()

    def ref(g, xs, out):
        i = xs[0].axis(d)
        a = xs[0].arr
        r = numpy.flip(numpy.cumsum(numpy.flip(a, i), axis=i), i) if rev else numpy.cumsum(a, axis=i)
        return V(r, xs[0].dims)

    # reversed over a padded axis: starts in the padding
    return {"class": "cumsum", "axis": axis_opt(g, o, d), "reverse": rev, "from": s}, [s], ref, "leaky" if rev and d.dimension is None else None


def L_layer_norm(g):
    s = g.pick(has_feat)
    f = g.out(s).feature_dim

    def ref(g, xs, out):
        a, rest = xs[0].last(f)
        m = a.mean(-1, keepdims=True)
        v = ((a - m) ** 2).mean(-1, keepdims=True)
        r = (a - m) / numpy.sqrt(v + 1e-6) * g.params["scale"] + g.params["bias"]
        return V(r, rest + [f])

    if f.dimension == 1:
        return None
    return {"class": "layer_norm", "from": s}, [s], ref


def L_norm(g):
    s = g.pick(lambda o: has_feat(o) and o.feature_dim.dimension > 1)
    o = g.out(s)
    ds = [o.feature_dim] + [d for d in nonb(o) if d is not o.feature_dim and g.p.int(0, 2) == 0]

    def ref(g, xs, out):
        ax = tuple(xs[0].axis(d) for d in ds)
        a = xs[0].arr
        if 0 in a.shape:
            return None
        m = a.mean(ax, keepdims=True)
        v = ((a - m) ** 2).mean(ax, keepdims=True)
        r = numpy.moveaxis((a - m) / numpy.sqrt(v + 1e-6), xs[0].axis(o.feature_dim), -1) * g.params["scale"] + g.params["bias"]
        return V(numpy.moveaxis(r, -1, xs[0].axis(o.feature_dim)), xs[0].dims)

    # over a dynamic axis it is not masked: known finding
    return {"class": "norm", "axis": ds, "from": s}, [s], ref, "leaky" if any(d.dimension is None for d in ds) else None


def L_repeat(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    k = g.p.int(1, 3)

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        cand = [x for x in out.dims if not xs[0].has(x)]
        return V(numpy.repeat(a, k, axis=-1), rest + [cand[0] if cand else d])

    return {"class": "repeat", "repetitions": k, "axis": d, "from": s}, [s], ref


def L_prefix(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    k = g.p.int(1, 3)
    val = g.p.choice([0.0, 1.25])
    post = g.p.bool()

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        fill = numpy.full(a.shape[:-1] + (k,), val, a.dtype)
        r = numpy.concatenate([a, fill] if post else [fill, a], axis=-1)
        return V(r, rest + [_newdim(out, xs)])

    if post:
        return {"class": "postfix_in_time", "postfix": val, "repeat": k, "axis": axis_opt(g, o, d), "from": s}, [s], ref
    return {"class": "prefix_in_time", "prefix": val, "repeat": k, "axis": axis_opt(g, o, d), "from": s}, [s], ref


def L_seq_len_mask(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    return {"class": "seq_len_mask", "axis": axis_opt(g, o, d), "mask_value": g.p.choice([0.0, -1.0]), "from": s}, [s], lambda g, xs, out: xs[0]


def L_range_in_axis(g):
    s = g.pick(lambda o: bool(nonb(o)))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    dt = g.p.choice(["int32", "float32"])

    def ref(g, xs, out):
        n = xs[0].arr.shape[xs[0].axis(d)]
        return V(numpy.arange(n).astype(dt), [d])

    return {"class": "range_in_axis", "axis": axis_opt(g, o, d), "dtype": dt, "from": s}, [s], ref


def L_length(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))

    def ref(g, xs, out):
        n = xs[0].arr.shape[xs[0].axis(d)]
        return V(numpy.full([1] * len(out.dims), n), list(out.dims))

    return {"class": "length", "axis": axis_opt(g, o, d), "from": s}, [s], ref


def L_merge_dims(g):
    s = g.pick(lambda o: dense(o) and len([d for d in nonb(o) if d.dimension is not None]) >= 2)
    if s is None:
        return None
    o = g.out(s)
    ds = g.p.subset([d for d in nonb(o) if d.dimension is not None], at_least=2)
    if g.p.bool():
        ds = ds[::-1]

    def ref(g, xs, out):
        rest = [d for d in xs[0].dims if not any(d is x for x in ds)]
        a = xs[0].to(rest + ds)
        return V(a.reshape(a.shape[: len(rest)] + (-1,)), rest + [_newdim(out, xs)])

    return {"class": "merge_dims", "axes": ds, "keep_order": True, "from": s}, [s], ref


def L_merge_dyn(g):
    """time and a static dim: still the same order in each sequence"""
    s = g.pick(lambda o: dense(o) and len(dyn(o)) == 1 and len(nonb(o)) >= 2)
    if s is None:
        return None
    o = g.out(s)
    ds = [dyn(o)[0], g.p.choice([d for d in nonb(o) if d.dimension is not None])]

    def ref(g, xs, out):
        rest = [d for d in xs[0].dims if not any(d is x for x in ds)]
        a = xs[0].to(rest + ds)
        return V(a.reshape(a.shape[: len(rest)] + (-1,)), rest + [_newdim(out, xs)])

    return {"class": "merge_dims", "axes": ds, "keep_order": True, "from": s}, [s], ref


def L_split_dims(g):
    s = g.pick(lambda o: dense(o) and any(d.dimension is not None for d in nonb(o)))
    o = g.out(s)
    d = g.p.choice([d for d in nonb(o) if d.dimension is not None])
    ks = [k for k in range(1, d.dimension + 1) if d.dimension % k == 0]
    k = g.p.choice(ks)
    dims = g.p.choice([(k, -1), (-1, k), (k, d.dimension // k)])

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        sh = [k, d.dimension // k] if dims[0] == k else [d.dimension // k, k]
        i = o.dims.index(d)
        require(len(out.dims) == len(o.dims) + 1, lambda: "split_dims %s from %s" % (out, o))
        new = [x for x in out.dims if not xs[0].has(x)]
        require(len(new) >= 1, "split_dims")
        j = [jj for jj, x in enumerate(out.dims) if any(x is y for y in new)]
        if len(new) != 2:
            return None  # size-1 splits may keep the dim
        require([x.dimension for x in new] == sh, lambda: "split_dims %s: %s, expected %s" % (dims, out, sh))
        return V(a.reshape(a.shape[:-1] + tuple(sh)), rest + new)

    return {"class": "split_dims", "axis": axis_opt(g, o, d), "dims": dims, "from": s}, [s], ref


def L_split_dims_time(g):
    s = g.pick(lambda o: dense(o) and bool(dyn(o)))
    o = g.out(s)
    d = g.p.choice(dyn(o))
    k = g.p.int(2, 3)
    val = g.p.choice([0, 2.5])

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        n = a.shape[-1]
        m = -(-n // k)
        a = numpy.concatenate([a, numpy.full(a.shape[:-1] + (m * k - n,), val, a.dtype)], axis=-1)
        new = [x for x in out.dims if not xs[0].has(x)]
        td = [x for x in new if x.dimension is None]
        kd = [x for x in new if x.dimension == k]
        require(len(td) == len(kd) == 1, lambda: "split_dims: %s" % out)
        return V(a.reshape(a.shape[:-1] + (m, k)), rest + [td[0], kd[0]])

    return {"class": "split_dims", "axis": axis_opt(g, o, d), "dims": (-1, k), "pad_value": val, "from": s}, [s], ref, "leaky"


def L_expand_dims(g):
    s = g.pick(dense)
    if len(g.out(s).dims) > 5:
        return None
    ax = g.p.choice(["spatial", "feature"])
    n = g.p.int(1, 2)

    def ref(g, xs, out):
        nd = _newdim(out, xs)
        require(nd.dimension == n, "expand_dims dim")
        return V(numpy.repeat(xs[0].arr[..., None], n, axis=-1), xs[0].dims + [nd])

    return {"class": "expand_dims", "axis": ax, "dim": n, "from": s}, [s], ref


def L_squeeze(g):
    s = g.pick(lambda o: dense(o) and any(d.dimension == 1 for d in nonb(o)))
    if s is None:
        return None
    o = g.out(s)
    d = g.p.choice([d for d in nonb(o) if d.dimension == 1])

    def ref(g, xs, out):
        i = xs[0].axis(d)
        return V(xs[0].arr.squeeze(i), [x for j, x in enumerate(xs[0].dims) if j != i])

    return {"class": "squeeze", "axis": axis_opt(g, o, d), "from": s}, [s], ref


COMB = {
    "add": numpy.add,
    "sub": numpy.subtract,
    "mul": numpy.multiply,
    "maximum": numpy.maximum,
    "minimum": numpy.minimum,
}


def _pair(g, pred=dense):
    """two layers, dims of one a subset of the other, or the same"""
    s1 = g.pick(pred)
    o1 = g.out(s1)
    s2 = g.pick(lambda o: pred(o) and all(any(d is x for x in o1.dims) for d in o.dims), prefer_new=False)
    return s1, s2


def _union(xs):
    dims = list(xs[0].dims)
    for x in xs[1:]:
        dims += [d for d in x.dims if not any(d == y for y in dims)]
    return dims


def L_combine(g):
    s1, s2 = _pair(g)
    kind = g.p.choice(list(COMB))
    if g.p.bool():
        s1, s2 = s2, s1

    def ref(g, xs, out):
        dims = _union(xs)
        return V(COMB[kind](xs[0].to(dims), xs[1].to(dims)), dims)

    return {"class": "combine", "kind": kind, "from": [s1, s2]}, [s1, s2], ref


def L_compare(g):
    s1, s2 = _pair(g)
    kind, fn = g.p.choice([("less", numpy.less), ("greater_equal", numpy.greater_equal)])

    def ref(g, xs, out):
        dims = _union(xs)
        a, b = xs[0].to(dims), xs[1].to(dims)
        if numpy.any(numpy.abs(a - b) < 1e-5) and s1 != s2:
            return None
        return V(fn(a, b), dims)

    return {"class": "compare", "kind": kind, "from": [s1, s2]}, [s1, s2], ref


def L_switch(g):
    s1, s2 = _pair(g)
    cond = g.pick(lambda o: o.dtype == "bool" and all(any(d is x for x in g.out(s1).dims) for d in o.dims))
    if cond is None:
        return None

    def ref(g, xs, out):
        dims = _union(xs)
        return V(numpy.where(xs[2].to(dims), xs[0].to(dims), xs[1].to(dims)) + numpy.zeros_like(xs[0].to(dims) * xs[1].to(dims)), dims)

    return {"class": "switch", "condition": cond, "true_from": s1, "false_from": s2}, [s1, s2, cond], ref


def L_concat(g):
    s1 = g.pick(has_feat)
    o1 = g.out(s1)
    f1 = o1.feature_dim
    r1 = [d for d in o1.dims if d is not f1]
    s2 = g.pick(
        lambda o: has_feat(o) and len(o.dims) == len(o1.dims) and all(any(d is x for x in r1) for d in o.dims if d is not o.feature_dim),
        prefer_new=False,
    )
    f2 = g.out(s2).feature_dim

    def ref(g, xs, out):
        rest = [d for d in xs[0].dims if d is not f1]
        return V(numpy.concatenate([xs[0].to(rest + [f1]), xs[1].to(rest + [f2])], axis=-1), rest + [out.feature_dim])

    how = g.p.choice(["concat", "copy"])
    if not (f1.is_feature_dim() and f2.is_feature_dim()) or any(d == f1 + f2 for d in r1):
        return None
    if how == "copy":
        return {"class": "copy", "from": [s1, s2]}, [s1, s2], ref
    return {"class": "concat", "from": [(s1, f1 if g.p.bool() else "F"), (s2, f2 if g.p.bool() else "F")]}, [s1, s2], ref


def L_concat_time(g):
    s1 = g.pick(has_time)
    o1 = g.out(s1)
    t1 = g.p.choice(dyn(o1))
    rest = [d for d in o1.dims if d is not t1]
    s2 = g.pick(
        lambda o: has_time(o) and len(o.dims) == len(o1.dims) and all(any(d is x for x in o.dims) for d in rest) and [d for d in dyn(o) if not any(d is x for x in rest)],
        prefer_new=False,
    )
    if s2 is None:
        return None
    t2 = [d for d in dyn(g.out(s2)) if not any(d is x for x in rest)][0]

    def ref(g, xs, out):
        return V(
            numpy.concatenate([xs[0].to(rest + [t1]), xs[1].to(rest + [t2])], axis=-1),
            rest + [[d for d in out.dims if not any(d is x for x in rest)][0]],
        )

    if len(set(g.c["lens"])) > 1 or len(set(g.c["lens2"])) > 1:
        return None  # concatenates the padded arrays: known finding
    return {"class": "concat", "from": [(s1, t1), (s2, t2)]}, [s1, s2], ref


def L_dot(g):
    s1 = g.pick(lambda o: dense(o) and nonb(o))
    o1 = g.out(s1)
    s2 = g.pick(lambda o: dense(o) and any(any(d is x for x in nonb(o1)) for d in nonb(o)), prefer_new=False)
    if s2 is None:
        return None
    o2 = g.out(s2)
    common = [d for d in nonb(o1) if any(d is x for x in nonb(o2))]
    red = list(common) if g.p.bool() else g.p.subset(common, at_least=1)
    if len(o1.dims) + len(o2.dims) > 9:
        return None
    if any(s in g.infpad for s in (s1, s2)):
        return None  # masks one of the factors with zero

    def ref(g, xs, out):
        dims = _union(xs)
        r = xs[0].to(dims) * xs[1].to(dims)
        ax = tuple(i for i, d in enumerate(dims) if any(d is x for x in red))
        return V(r.sum(axis=ax), [d for i, d in enumerate(dims) if i not in ax])

    return {"class": "dot", "reduce": red, "from": [s1, s2]}, [s1, s2], ref


def L_gather_const(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    pos = 0 if d.dimension is None else g.p.int(0, d.dimension - 1)
    if d.dimension is None and minlen(g, d) < 1:
        return None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        if a.shape[-1] == 0:
            return None
        return V(a[..., pos], rest)

    return {"class": "gather", "axis": axis_opt(g, o, d), "position": pos, "from": s}, [s], ref


def L_gather(g):
    """gather from a [.., cls-dim ..] projection with the class labels"""
    s = g.pick(lambda o: dense(o) and any(d.dimension is not None and d.dimension >= 5 for d in nonb(o)))
    if s is None:
        return None
    o = g.out(s)
    d = g.p.choice([d for d in nonb(o) if d.dimension is not None and d.dimension >= 5])

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        v = V(a, rest + [d])
        dims = rest + [x for x in xs[1].dims if not any(x == y for y in rest)]
        src = v.to(dims + [d])
        idx = xs[1].to(dims)
        sh = numpy.broadcast_shapes(src.shape[:-1], idx.shape)
        src = numpy.broadcast_to(src, sh + src.shape[-1:])
        idx = numpy.broadcast_to(idx, sh)
        return V(numpy.take_along_axis(src, idx[..., None], axis=-1)[..., 0], dims)

    return {"class": "gather", "axis": d, "position": "data:cls", "from": s}, [s, "data:cls"], ref


def L_top_k(g):
    s = g.pick(lambda o: dense(o) and nonb(o))
    o = g.out(s)
    d = g.p.choice(nonb(o))
    if d.dimension is None:
        return None
    k = g.p.int(1, d.dimension)

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        cand = [x for x in out.dims if not xs[0].has(x)]
        if len(cand) != 1:
            return None
        return V(-numpy.sort(-a, axis=-1)[..., :k], rest + cand)

    return {"class": "top_k", "axis": axis_opt(g, o, d), "k": k, "from": s}, [s], ref


def L_transpose(g):
    s = g.pick(lambda o: dense(o) and len(o.dims) > 1)
    o = g.out(s)
    a, b = g.p.choice(list(o.dims)), g.p.choice(list(o.dims))
    return {"class": "transpose", "perm": {a: b, b: a} if a is not b else {}, "from": s}, [s], lambda g, xs, out: xs[0]


def L_swap(g):
    s = g.pick(lambda o: dense(o) and len(o.dims) > 2)
    if s is None:
        return None
    kw = g.p.choice([{"enforce_time_major": True}, {"enforce_batch_major": True}])
    if "enforce_time_major" in kw and g.out(s).time_dim_axis is None:
        return None
    return dict({"class": "reinterpret_data", "from": s}, **kw), [s], lambda g, xs, out: xs[0]


def L_conv(g):
    s = g.pick(lambda o: has_feat(o) and len(dyn(o)) == 1)
    if s is None:
        return None
    o = g.out(s)
    d = dyn(o)[0]
    f = o.feature_dim
    k = g.p.int(1, 3)
    padding = g.p.choice(["same", "valid"])
    stride = g.p.choice([1, 1, 2])
    dil = g.p.choice([1, 2]) if stride == 1 else 1
    n = g.p.int(1, 3)
    bias = g.p.bool()
    if padding == "valid" and minlen(g, d) < (k - 1) * dil + 1:
        return None

    def ref(g, xs, out):
        rest = [x for x in xs[0].dims if x is not d and x is not f]
        a = xs[0].to(rest + [d, f])
        w = g.params["W"]  # k, in, out
        T = a.shape[-2]
        span = (k - 1) * dil + 1
        if padding == "same":
            T2 = -(-T // stride)
            tot = max((T2 - 1) * stride + span - T, 0)
            lo = tot // 2
        else:
            T2 = max(0, -(-(T - span + 1) // stride))
            lo = tot = 0
        if T2 == 0 or T == 0:
            return None
        ap = numpy.concatenate([numpy.zeros(a.shape[:-2] + (lo, a.shape[-1])), a, numpy.zeros(a.shape[:-2] + (tot - lo, a.shape[-1]))], axis=-2)
        fr = []
        for t in range(T2):
            y = sum(ap[..., t * stride + j * dil, :] @ w[j] for j in range(k))
            fr.append(y)
        r = numpy.stack(fr, axis=-2)
        if bias:
            r = r + g.params["bias"]
        td = [x for x in out.dims if x.dimension is None and not x.is_batch_dim()]
        return V(r, rest + [td[0], out.feature_dim])

    mask = g.p.bool()
    return (
        {"class": "conv", "filter_size": [k], "in_spatial_dims": [d], "padding": padding, "strides": stride, "dilation_rate": dil, "n_out": n, "with_bias": bias, "use_time_mask": mask, "from": s},
        [s],
        ref,
        "leaky" if padding == "same" and (not mask or stride > 1) else None,
    )


def L_pool(g):
    s = g.pick(lambda o: has_feat(o) and len(dyn(o)) == 1)
    if s is None:
        return None
    o = g.out(s)
    d = dyn(o)[0]
    f = o.feature_dim
    k = g.p.int(1, 3)
    padding = g.p.choice(["same", "valid"])
    stride = g.p.choice([None, 1, 2])
    if stride and stride > k:
        return None
    mode = g.p.choice(["max", "avg"])
    mask = g.p.bool()
    if padding == "valid" and minlen(g, d) < k:
        return None

    def ref(g, xs, out):
        rest = [x for x in xs[0].dims if x is not d and x is not f]
        a = xs[0].to(rest + [f, d])
        T = a.shape[-1]
        st = stride or k
        if padding == "same":
            T2 = -(-T // st)
            lo = max((T2 - 1) * st + k - T, 0) // 2
        else:
            T2 = max(0, -(-(T - k + 1) // st))
            lo = 0
        if T2 == 0 or T == 0:
            return None
        fr = []
        for t in range(T2):
            i0, i1 = max(0, t * st - lo), min(T, t * st - lo + k)
            y = a[..., i0:i1]
            fr.append(y.max(-1) if mode == "max" else y.mean(-1))
        r = numpy.stack(fr, axis=-1)
        td = [x for x in out.dims if x.dimension is None and not x.is_batch_dim()]
        return V(r, rest + [f, td[0]])

    return (
        {"class": "pool", "mode": mode, "pool_size": [k], "in_spatial_dims": [d], "padding": padding, "strides": stride, "use_time_mask": mask, "from": s},
        [s],
        ref,
        "leaky" if padding == "same" and (not mask or mode == "avg" or (stride or k) > 1) else None,
    )


def L_resize(g):
    s = g.pick(has_time)
    o = g.out(s)
    d = g.p.choice(dyn(o))
    k = g.p.int(1, 3)
    if any(minlen(g, x) < 1 for x in dyn(o)):
        return None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        cand = [x for x in out.dims if not xs[0].has(x)]
        return V(numpy.repeat(a, k, axis=-1), rest + [cand[0] if cand else d])

    return {"class": "resize", "factor": k, "axis": axis_opt(g, o, d), "kind": "nn", "from": s}, [s], ref


def L_rec_unit(g):
    s = g.pick(lambda o: has_feat(o) and len(o.dims) == 3 and o.time_dim_axis is not None and o.dims[o.time_dim_axis].dimension is None)
    if s is None:
        return None
    if minlen(g, g.out(s).dims[g.out(s).time_dim_axis]) < 1:
        return None
    unit = g.p.choice(["nativelstm2", "standardlstm", "gru", "lstmblock"]) if False else g.p.choice(["basiclstm", "gru"])
    return {"class": "rec", "unit": unit, "n_out": 2, "direction": g.p.choice([1, -1]), "from": s}, [s], None


def L_masked_computation(g):
    return None


def L_cast(g):
    s = g.pick(lambda o: o.dtype == "bool" or dense(o))
    dt = g.p.choice(["float32", "int32"]) if g.out(s).dtype == "bool" else "float64"
    if g.out(s).dtype == "float64":
        dt = "float32"
    return {"class": "cast", "dtype": dt, "from": s}, [s], lambda g, xs, out: V(xs[0].arr.astype(dt), xs[0].dims)


def L_time_chunking(g):
    s = g.pick(lambda o: dense(o) and len(o.dims) == 3 and o.time_dim_axis is not None and o.dims[o.time_dim_axis].dimension is None)
    if s is None:
        return None
    return None


def L_stack(g):
    s1 = g.pick(dense)
    o1 = g.out(s1)
    s2 = g.pick(lambda o: dense(o) and o.dtype == o1.dtype and len(o.dims) == len(o1.dims) and all(any(d is x for x in o1.dims) for d in o.dims), prefer_new=False)
    if len(o1.dims) > 5:
        return None

    def ref(g, xs, out):
        dims = xs[0].dims
        return V(numpy.stack([xs[0].arr, xs[1].to(dims)], axis=-1), dims + [_newdim(out, xs)])

    return {"class": "stack", "from": [s1, s2]}, [s1, s2], ref


def L_slice_nd(g):
    s = g.pick(lambda o: has_time(o) and len(o.dims) < 5 and o.dims[0].is_batch_dim() and o.dims[1].dimension is None)
    o = g.out(s)
    d = o.dims[1]
    start = g.p.int(0, 2)
    size = g.p.choice([None, 1, 2, 3])
    if minlen(g, d) < start + (size or 1) or (start == 0 and size is None) or any(x.dimension == size for x in nonb(o)):
        return None

    def ref(g, xs, out):
        a, rest = xs[0].last(d)
        new = [x for x in out.dims if not xs[0].has(x)]
        if len(new) != 1:
            return None
        if size is None:
            return V(a[..., start:], rest + new)
        r = a[..., start : start + size]
        r = numpy.concatenate([r, numpy.zeros(r.shape[:-1] + (size - r.shape[-1],), r.dtype)], axis=-1)
        return V(r, rest + new)

    return {"class": "slice_nd", "axis": axis_opt(g, o, d), "start": start, "size": size, "from": s}, [s], ref


CATALOG = {k[2:]: v for k, v in list(globals().items()) if k.startswith("L_")}
for _k in ("masked_computation", "time_chunking"):
    CATALOG.pop(_k)


# ---------------------------------------------------------------- run


def _feeds(g, seqs, pad_seed):
    """seqs: list of (data, vec, cls, data2, grid) arrays per sequence, unpadded, dims in the order time, sp, feat"""
    rnd = numpy.random.RandomState(pad_seed)
    c = g.c
    n = len(seqs)
    fd = {g.ext.get_batch_info().dim: n}

    def padded(key, arrs, tdim, dtype):
        tmax = max([a.shape[0] for a in arrs] + [0])
        if dtype == "int32":
            x = rnd.randint(0, 5, (n, tmax) + arrs[0].shape[1:]).astype(dtype)
        else:
            x = (rnd.choice([0.7, -1.3, 50.0, -30.0]) * rnd.uniform(0.5, 1, (n, tmax) + arrs[0].shape[1:])).astype(dtype)
        for i, a in enumerate(arrs):
            x[i, : a.shape[0]] = a
        return x

    for key in g.decl:
        d = g.ext.data[key]
        arrs = [s[key] for s in seqs]
        if key == "vec":
            x = numpy.stack(arrs)
        elif key == "pair":
            sh = (n, max(a.shape[0] for a in arrs), max(a.shape[1] for a in arrs))
            x = (rnd.choice([0.7, -1.3, 50.0, -30.0]) * rnd.uniform(0.5, 1, sh)).astype(d.dtype)
            for i, a in enumerate(arrs):
                x[i, : a.shape[0], : a.shape[1]] = a
        else:
            x = padded(key, arrs, None, d.dtype)
        if key == "data":
            if c["tm"]:
                x = x.swapaxes(0, 1)
            elif c["bft"]:
                x = x.transpose(0, 2, 1)
        fd[d.placeholder] = x
    fd[g.time.dyn_size_ext.raw_tensor] = numpy.array([s["data"].shape[0] for s in seqs], "int32")
    fd[g.time2.dyn_size_ext.raw_tensor] = numpy.array([s["data2"].shape[0] for s in seqs], "int32")
    return fd


def session_config(tf):
    config = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
    # Without the graph rewriting of TF itself: faster, and it can remove fetched tensors.
    config.graph_options.rewrite_options.disable_meta_optimizer = True
    return config


def run(c):
    import returnn.tf.compat as tf_compat

    tf = tf_compat.v1
    with tf.Graph().as_default() as graph:
        with tf.Session(graph=graph, config=session_config(tf)) as session:
            return _run(c, tf, session)


def _run(c, tf, session):
    g = G(c, tf)
    tags = []
    for i, kind in enumerate(c["layers"]):
        if kind not in CATALOG:
            continue
        try:
            r = CATALOG[kind](g)
        except Skip:
            continue
        if r is None:
            continue
        opts, srcs, ref = r[:3]
        if any(s is None for s in srcs):
            continue
        name = "l%i_%s" % (i, kind)
        g.add(name, opts, srcs, ref, leaky=len(r) > 3 and r[3] == "leaky")
        tags.append(kind)
    layers = [n for n in g.names if not n.startswith("data:")]
    if not layers:
        return ["none"]
    g.net.initialize_params(session)
    rnd = numpy.random.RandomState(c["seed"] % 100000)
    for v in g.net.get_params_list():
        v.load(rnd.uniform(-0.7, 0.7, v.get_shape().as_list()).astype(v.dtype.base_dtype.as_numpy_dtype), session)
    seqs = []
    for t1, t2 in zip(c["lens"], c["lens2"]):
        seqs.append(
            {
                "data": rnd.uniform(-1, 1, (t1, c["feat"])).astype("float32"),
                "vec": rnd.uniform(-1, 1, (c["feat"],)).astype("float32"),
                "cls": rnd.randint(0, 5, (t1,)).astype("int32"),
                "data2": rnd.uniform(-1, 1, (t2, c["feat"])).astype("float32"),
                "grid": rnd.uniform(-1, 1, (t1, c["n_sp"], c["feat"])).astype("float32"),
                "pair": rnd.uniform(-1, 1, (t2, t1)).astype("float32"),
            }
        )
    fetch = {}
    for n in g.names:
        o = g.out(n)
        fetch[n] = o.placeholder
        for j, d in enumerate(o.dims):
            if d.is_batch_dim() or d.dimension is not None:
                continue
            require(d.dyn_size_ext is not None and d.dyn_size_ext.raw_tensor is not None, lambda: "%s: %s has a dim without sizes: %s" % (n, o, d))
            fetch[n, j] = d.dyn_size_ext.raw_tensor
    params = {n: {k: session.run(v) for k, v in g.net.layers[n].params.items()} for n in layers}
    runs = {"batch": session.run(fetch, _feeds(g, seqs, c["seed"] % 9973))}
    for b in range(len(seqs)):
        runs[b] = session.run(fetch, _feeds(g, [seqs[b]], 1))

    def desc(n):
        return "%s %s -> %s (chain %s)" % (n, g.nd.get(n), g.out(n), {k: g.nd[k] for k in layers})

    for n in layers:
        o = g.out(n)
        for rname, res in runs.items():
            a = res[n]
            nb = len(seqs) if rname == "batch" else 1
            require(a.ndim == len(o.dims), lambda: "%s: ndim %i" % (desc(n), a.ndim))
            require(str(a.dtype) == o.dtype, lambda: "%s: dtype %s" % (desc(n), a.dtype))
            for j, d in enumerate(o.dims):
                if d.is_batch_dim():
                    want = nb
                elif d.dimension is not None:
                    want = d.dimension
                else:
                    sz = res[n, j]
                    want = int(sz.max()) if sz.size else None
                    # a size may be computed by clipping etc, but never beyond what is there
                if want is not None:
                    require(a.shape[j] == want, lambda: "%s: run %s: axis %i is %i, dim %s says %i" % (desc(n), rname, j, a.shape[j], d, want))
            if o.sparse_dim is not None and a.size:
                pass
        # definition, on the unpadded sequence
        srcs, ref = g.refs[n]
        if ref is not None:
            for b in range(len(seqs)):
                xs = [V(runs[b][s], g.out(s).dims) for s in srcs]
                if any(0 in x.arr.shape for x in xs):
                    continue
                g.params = {k.split("/")[-1]: v for k, v in params[n].items()}
                xs_ = [V(x.arr.astype("float64") if x.arr.dtype.kind == "f" else x.arr, x.dims) for x in xs]
                want = ref(g, xs_, o)
                if want is None:
                    continue
                require(
                    len(want.dims) == len(o.dims) and all(want.has(d) for d in o.dims),
                    lambda: "%s: dims %s, expected %s" % (desc(n), o.dims, want.dims),
                )
                w = want.to(list(o.dims))
                got = runs[b][n]
                require(got.shape == w.shape, lambda: "%s: shape %s, expected %s" % (desc(n), got.shape, w.shape))
                require(
                    _close(got, w),
                    lambda: "%s: seq %i alone: got %s, expected %s, inputs %s" % (desc(n), b, got.tolist(), w.tolist(), [x.arr.tolist() for x in xs]),
                )
        # the same in the batch
        if n in g.leaky:
            continue
        bi = o.batch_dim_axis
        for b in range(len(seqs)):
            a = runs["batch"][n]
            w = runs[b][n]
            if bi is not None:
                a = a.take([b], axis=bi)
            idx = []
            for j, d in enumerate(o.dims):
                if d.is_batch_dim() or d.dimension is not None:
                    idx.append(slice(None))
                    continue
                sz = runs["batch"][n, j]
                sd = d.dyn_size_ext
                if sd.dims and sd.batch_dim_axis is not None:
                    szb = sz.take([b], axis=sd.batch_dim_axis)
                    w_sz = runs[b][n, j]
                    require(
                        szb.shape == w_sz.shape and numpy.array_equal(szb, w_sz),
                        lambda: "%s: size of %s of seq %i in the batch: %s, alone: %s" % (desc(n), d, b, szb, w_sz),
                    )
                    idx.append(slice(0, int(szb.max())))
                else:
                    idx.append(slice(0, w.shape[j]))
            a = a[tuple(idx)]
            require(
                a.shape == w.shape and _close(a, w),
                lambda: "%s: seq %i of lens %s in the batch: %s, alone: %s" % (desc(n), b, (c["lens"], c["lens2"]), a.tolist(), w.tolist()),
            )
    return sorted(set(tags))


def _close(a, b):
    if a.dtype.kind in "bi" and b.dtype.kind in "bi":
        return numpy.array_equal(a, b)
    return numpy.allclose(a, b, rtol=2e-4, atol=2e-4, equal_nan=True)


@st.composite
def case(draw, kinds=None, n_max=5, two=False):
    n = draw(st.integers(1, 3))
    kinds = kinds or sorted(CATALOG)
    return {
        "lens": draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)),
        "lens2": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)),
        "feat": draw(st.integers(1, 6)),
        "n_sp": draw(st.integers(1, 3)),
        "two": two and draw(st.booleans()),
        "tm": draw(st.booleans()),
        "bft": draw(st.booleans()),
        "seed": draw(gen.seeds()),
        "layers": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=n_max)),
        "p": draw(gen.picks(60)),
    }


MASKING = ["softmax_over_spatial", "softmax_over_spatial", "seq_len_mask", "seq_len_mask", "reduce", "dot", "dot", "dot", "combine", "activation", "compare", "reduce_bool", "transpose", "argmax"]
FRAMES = ["slice", "shift", "pad", "window", "cumsum", "repeat", "prefix", "range_in_axis", "length", "conv", "pool", "resize", "slice_nd", "split_dims_time", "gather_const", "rec_unit", "seq_len_mask", "reduce", "softmax_over_spatial"]
DIMS = ["merge_dims", "merge_dyn", "split_dims", "split_dims_time", "expand_dims", "squeeze", "transpose", "swap", "stack", "concat", "gather", "top_k", "combine", "dot", "linear", "linear_sparse", "reduce", "layer_norm"]


def nontrivial(c):
    return len(set(c["lens"])) > 1


SUBS = [
    Sub("chains", case, run, quick=1200, thorough=60000, nontrivial=nontrivial),
    Sub("masking", lambda: case(kinds=MASKING, two=True, n_max=4), run, quick=2500, thorough=60000, nontrivial=nontrivial),
    Sub("frames", lambda: case(kinds=FRAMES, n_max=4), run, quick=900, thorough=40000, nontrivial=nontrivial),
    Sub("dims", lambda: case(kinds=DIMS), run, quick=900, thorough=40000, nontrivial=nontrivial),
]
