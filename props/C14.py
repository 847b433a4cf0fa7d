"""C14: Tensor/Dim containers: every element stays at its labelled place"""

from __future__ import annotations
import copy as copy_mod
import operator
import pickle
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, rfh


def setup():
    rfh.setup_torch()
    import returnn.tf.util.basic  # noqa
    import returnn.tf.util.data  # noqa  # BatchInfo


DTYPES = ["float32", "int32", "bool", "float64", "int64"]


class M:
    """model of a tensor: dims in order, numpy value, special dims"""

    def __init__(self, dims, val, feat, time, sparse, dtype):
        self.dims = list(dims)
        self.val = val
        self.feat = feat
        self.time = time
        self.sparse = sparse
        self.dtype = dtype

    def perm(self, new_dims):
        assert len(new_dims) == len(self.dims)
        idx = [next(i for i, d in enumerate(self.dims) if d is x) for x in new_dims]
        return M(new_dims, self.val.transpose(idx), self.feat, self.time, self.sparse, self.dtype)

    def moved(self, a, b):
        n = len(self.dims)
        a, b = a % n, b % n
        dims = list(self.dims)
        d = dims.pop(a)
        dims.insert(b, d)
        return self.perm(dims)


class Env:
    def __init__(self, c):
        import torch
        from returnn.tensor import Dim, Tensor, batch_dim

        self.c = c
        self.rnd = numpy.random.RandomState(c["seed"])
        self.torch = torch
        self.backend = c["backend"]
        b = c["b"]
        self.batch = batch_dim.copy() if False else Dim(kind=Dim.Types.Batch, description="batch", dimension=b if c["static_batch"] else None)
        if not c["static_batch"]:
            self.batch.dyn_size_ext = self._t("batch", [], numpy.array(b, "int32"))
        lens = numpy.array([max(1, x) for x in c["lens"][:b]], "int32")
        self.time = Dim(kind=Dim.Types.Spatial, description="time", dimension=None)
        self.time.dyn_size_ext = self._t("time", [self.batch], lens)
        self.tmax = int(max(lens)) if b else 0
        self.dyn = Dim(self._t("dyn", [], numpy.array(c["n_dyn"], "int32")), name="dynspatial")
        self.sp = Dim(c["n_sp"], name="static", kind=Dim.Types.Spatial)
        self.sp2 = Dim(c["n_sp2"], name="other")
        self.feat = Dim(c["n_feat"], name="feat", kind=Dim.Types.Feature if c["feat_kind"] else None)
        self.one = Dim(1, name="one", kind=Dim.Types.Spatial)
        self.classes = Dim(7, name="classes")
        self.size = {
            id(self.batch): b,
            id(self.time): self.tmax,
            id(self.dyn): c["n_dyn"],
            id(self.sp): c["n_sp"],
            id(self.sp2): c["n_sp2"],
            id(self.feat): c["n_feat"],
            id(self.one): 1,
        }
        self.all = [self.batch, self.time, self.dyn, self.sp, self.sp2, self.feat, self.one]

    def _t(self, name, dims, arr):
        from returnn.tensor import Tensor

        return Tensor(name, dims=dims, dtype=str(arr.dtype), raw_tensor=self.raw(arr))

    def raw(self, arr):
        if self.backend == "numpy":
            return arr
        return self.torch.tensor(arr)

    def value(self, shape, dtype):
        n = int(numpy.prod(shape))
        if dtype == "bool":
            return numpy.asarray(self.rnd.randint(0, 2, shape)).astype(bool)
        if dtype.startswith("int"):
            return numpy.asarray(self.rnd.permutation(n).reshape(shape) + 1).astype(dtype)
        return numpy.asarray(self.rnd.permutation(n).reshape(shape) - n // 2 + 0.5).astype(dtype)

    def make(self, dims, *, feat=None, time=None, sparse=None, dtype="float32", version=None, non_contiguous=False):
        from returnn.tensor import Tensor

        shape = [self.size[id(d)] for d in dims]
        val = self.value(shape, dtype)
        raw = self.raw(val)
        if non_contiguous and len(dims) > 1:
            raw = self.raw(numpy.ascontiguousarray(val.T))
            raw = raw.transpose(*reversed(range(len(dims)))) if self.backend == "numpy" else raw.permute(*reversed(range(len(dims))))
        kw = {}
        if version == 1 or time is not None:
            kw["version"] = 1
            kw["time_dim_axis"] = None if time is None else dims.index(time)
        t = Tensor(
            "x",
            dims=list(dims),
            dtype=dtype,
            sparse_dim=sparse,
            feature_dim_axis=None if feat is None else next(i for i, d in enumerate(dims) if d is feat),
            raw_tensor=raw,
            **kw,
        )
        return t, M(dims, val, feat, time, sparse, dtype)


def numpy_partial(fn):
    """the numpy backend says by NotImplementedError what it does not have"""

    def wrapped(c):
        try:
            return fn(c)
        except NotImplementedError:
            if c["backend"] != "numpy":
                raise
            return ["numpy-not-implemented"]

    return wrapped


def arr_of(raw):
    if isinstance(raw, numpy.ndarray):
        return raw
    return raw.detach().cpu().numpy()


def check(t, m, what, *, dims=True, special=True):
    require(t.dtype == m.dtype, lambda: "%s: dtype %s, expected %s" % (what, t.dtype, m.dtype))
    if dims:
        require(
            len(t.dims) == len(m.dims) and all(a is b or a == b for a, b in zip(t.dims, m.dims)),
            lambda: "%s: dims %s, expected %s" % (what, t.dims, m.dims),
        )
    if m.val is not None:
        require(t.raw_tensor is not None, lambda: "%s: no raw tensor" % what)
        got = arr_of(t.raw_tensor)
        require(got.shape == m.val.shape, lambda: "%s: raw shape %s, expected %s" % (what, got.shape, m.val.shape))
        require(numpy.array_equal(got, m.val), lambda: "%s: value %r, expected %r" % (what, got.tolist(), m.val.tolist()))
        require(str(got.dtype) == m.dtype, lambda: "%s: raw dtype %s, expected %s" % (what, got.dtype, m.dtype))
    else:
        require(t.raw_tensor is None, lambda: "%s: template has a raw tensor" % what)
    require(t.sparse_dim is m.sparse or t.sparse_dim == m.sparse, lambda: "%s: sparse_dim %s, expected %s" % (what, t.sparse_dim, m.sparse))
    if special:
        f = t.feature_dim
        require((f is None) == (m.feat is None) and (f is m.feat or f == m.feat), lambda: "%s: feature dim %s, expected %s" % (what, f, m.feat))
        if m.feat is not None:
            require(t.dims[t.feature_dim_axis] is f and t.dims[t.feature_dim_axis] == m.dims[t.feature_dim_axis], lambda: "%s: feature_dim_axis" % what)
        bi = [i for i, d in enumerate(t.dims) if d.is_batch_dim()]
        require(t.batch_dim_axis == (bi[0] if bi else None), lambda: "%s: batch_dim_axis %s, dims %s" % (what, t.batch_dim_axis, t.dims))
        if m.time != "any":
            ti = t.time_dim_axis
            require((ti is None) == (m.time is None), lambda: "%s: time_dim_axis %s, expected dim %s" % (what, ti, m.time))
            if ti is not None:
                require(t.dims[ti] == m.time, lambda: "%s: time dim %s, expected %s" % (what, t.dims[ti], m.time))
    require(t.batch_ndim == len(m.dims) and t.batch_shape == tuple(d.dimension for d in t.dims), lambda: "%s: batch_shape" % what)
    t.sanity_check(ignore_placeholder=False)


# ---------------------------------------------------------------- operation sequences


def _start(env, p, *, version=None):
    cand = [env.batch, env.time, env.dyn, env.sp, env.sp2, env.feat]
    order = []
    for d in cand:
        if p.int(0, 2) and not (d is env.time and env.batch not in order):
            order.insert(p.int(0, len(order)), d)
    sparse = p.int(0, 3) == 0
    dtype = p.choice(["int32", "int64"]) if sparse else p.choice(DTYPES)
    feat = None
    if not sparse and env.feat in order and p.int(0, 3):
        feat = env.feat
    time = None
    if version is None:
        version = p.choice([1, 2])
    if version == 1:
        sp = [d for d in order if d is not env.batch and d is not feat]
        if sp and p.int(0, 3):
            time = env.time if env.time in sp and p.bool() else p.choice(sp)
    return env.make(
        order,
        feat=feat,
        time=time,
        sparse=env.classes if sparse else None,
        dtype=dtype,
        version=version,
        non_contiguous=p.bool(),
    )


def _has_batch(m):
    return any(d.is_batch_dim() for d in m.dims)


def _apply(env, p, t, m, name):
    """:return: (tensor, model) or None if not applicable"""
    from returnn.util.basic import NotSpecified

    n = len(m.dims)
    bi = next((i for i, d in enumerate(m.dims) if d.is_batch_dim()), None)
    ti = next((i for i, d in enumerate(m.dims) if m.time is not None and d is m.time), None)
    fi = next((i for i, d in enumerate(m.dims) if m.feat is not None and d is m.feat), None)
    if name == "copy":
        return t.copy(), M(m.dims, m.val, m.feat, m.time, m.sparse, m.dtype)
    if name == "move":
        if n == 0:
            return None
        a, b = p.int(-n, n - 1), p.int(-n, n - 1)
        return t.copy_move_axis(a, b), m.moved(a, b)
    if name == "swap":
        if n < 1:
            return None
        a, b = p.int(0, n - 1), p.int(0, n - 1)
        dims = list(m.dims)
        dims[a], dims[b] = dims[b], dims[a]
        return t.copy_swap_axes(a, b), m.perm(dims)
    if name == "transpose":
        idx = list(range(n))
        env.rnd.shuffle(idx)
        dims = [m.dims[i] for i in idx]
        if p.bool():
            return t.copy_transpose(dims), m.perm(dims)
        return t.copy_transpose(idx), m.perm(dims)
    if name == "batch_major":
        if bi is None:
            return None
        return t.copy_as_batch_major(), m.moved(bi, 0)
    if name == "time_major":
        if ti is None:
            return None
        return t.copy_as_time_major(), m.moved(ti, 0)
    if name == "batch_axis":
        if bi is None:
            return None
        a = p.int(0, n - 1)
        return t.copy_with_batch_dim_axis(a), m.moved(bi, a)
    if name == "time_axis":
        if ti is None:
            return None
        a = p.int(0, n - 1)
        return t.copy_with_time_dim_axis(a), m.moved(ti, a)
    if name == "feature_axis":
        if fi is None:
            return None
        a = p.int(-n, n - 1)
        return t.copy_with_feature_dim_axis(a), m.moved(fi, a)
    if name == "feature_last":
        if fi is None:
            return None
        return t.copy_with_feature_last(), m.moved(fi, n - 1)
    if name == "bt_or_tb":
        if ti is None or bi is None:
            return None
        r = t.copy_as_bt_or_tb_major()
        require(set([r.batch_dim_axis, r.time_dim_axis]) == {0, 1}, lambda: "copy_as_bt_or_tb_major: %s" % r)
        return r, m.perm(list(r.dims))
    if name == "tb":
        if ti is None or bi is None:
            return None
        r = t.copy_as_time_batch_major()
        require((r.time_dim_axis, r.batch_dim_axis) == (0, 1), lambda: "copy_as_time_batch_major: %s" % r)
        rest = [d for d in m.dims if d is not m.time and not d.is_batch_dim()]
        return r, m.perm([m.time, m.dims[bi]] + rest)
    if name == "bf":
        if bi is None or fi is None:
            return None
        r = t.copy_as_batch_feature_major()
        require((r.batch_dim_axis, r.feature_dim_axis) == (0, 1), lambda: "copy_as_batch_feature_major: %s" % r)
        rest = [d for d in m.dims if d is not m.feat and not d.is_batch_dim()]
        return r, m.perm([m.dims[bi], m.feat] + rest)
    if name == "bs":
        if bi is None or (m.feat is not None and m.feat.dimension is None):
            return None
        r = t.copy_as_batch_spatial_major()
        rest = [d for d in m.dims if not d.is_batch_dim() and d is not m.feat]
        dyn = [d for d in rest if d.dimension is None]
        stat = [d for d in rest if d.dimension is not None]
        return r, m.perm([m.dims[bi]] + dyn + stat + ([m.feat] if m.feat is not None else []))
    if name == "add_dim":
        new = next((d for d in [env.one, env.sp2, env.sp, env.dyn, env.time, env.feat] if d not in m.dims and d is not m.sparse), None)
        if new is None or (new is env.time and bi is None):
            return None
        a = p.int(0, n)
        unb = p.bool()
        r = t.copy_add_dim_by_tag(new, unbroadcast=unb, axis=a)
        added = r.dims[a]
        size = env.size[id(new)] if unb else 1
        if unb:
            require(added == new or m.sparse is not None, lambda: "copy_add_dim_by_tag: %s" % r)
        else:
            require(added.dimension == 1, lambda: "copy_add_dim_by_tag: %s" % r)
        env.size[id(added)] = size
        val = numpy.repeat(numpy.expand_dims(m.val, a), size, axis=a)
        m2 = M(m.dims[:a] + [added] + m.dims[a:], val, m.feat, m.time, m.sparse, m.dtype)
        if m.feat is None:
            m2.feat = r.feature_dim  # default rules may apply
        if m.time is None:
            m2.time = r.dims[r.time_dim_axis] if r.time_dim_axis is not None else None
        return r, m2
    if name == "add_batch":
        if bi is not None or env.c["static_batch"] is False and env.backend == "numpy":
            return None
        a = p.int(-n - 1, n)
        r = t.copy_add_batch_dim(a, dim_tag=env.batch)
        a = a % (n + 1)
        val = numpy.repeat(numpy.expand_dims(m.val, a), env.size[id(env.batch)], axis=a)
        m2 = M(m.dims[:a] + [env.batch] + m.dims[a:], val, m.feat, m.time, m.sparse, m.dtype)
        if m.feat is None:
            m2.feat = r.feature_dim  # default rules may apply
        if m.time is None:
            m2.time = r.dims[r.time_dim_axis] if r.time_dim_axis is not None else None
        return r, m2
    if name == "split_feat":
        if fi is None or m.sparse is not None or m.feat.dimension is None:
            return None
        f = m.feat.dimension
        ks = [k for k in range(1, f + 1) if f % k == 0]
        k = p.choice(ks)
        r = t.copy_split_feature_dim(k)
        a, b = r.dims[fi], r.dims[fi + 1]
        require((a.dimension, b.dimension) == (f // k, k), lambda: "copy_split_feature_dim(%i): %s" % (k, r))
        env.size[id(a)], env.size[id(b)] = f // k, k
        sh = m.val.shape
        val = m.val.reshape(sh[:fi] + (f // k, k) + sh[fi + 1 :])
        m2 = M(m.dims[:fi] + [a, b] + m.dims[fi + 1 :], val, r.feature_dim, m.time, m.sparse, m.dtype)
        if t.feature_dim_axis_or_unspecified is not NotSpecified:
            require(r.feature_dim_axis == fi + 1, lambda: "copy_split_feature_dim(%i): feature dim axis %s, was %i" % (k, r.feature_dim_axis, fi))
        return r, m2
    if name == "squeeze":
        axes = [i for i, d in enumerate(m.dims) if d.dimension == 1 and d is not m.feat and d is not m.time]
        if not axes:
            return None
        axes = p.subset(axes, at_least=1)
        r = t.copy_squeeze_axes(axes)
        return r, M([d for i, d in enumerate(m.dims) if i not in axes], m.val.squeeze(tuple(axes)), m.feat, m.time, m.sparse, m.dtype)
    if name == "pickle":
        r = pickle.loads(pickle.dumps(t))
        return None if r is None else (r, m, "nodims")
    raise ValueError(name)


OPS = ["copy", "move", "swap", "transpose", "batch_major", "time_major", "batch_axis", "time_axis", "feature_axis", "feature_last",
       "bt_or_tb", "tb", "bf", "bs", "add_dim", "add_dim", "add_batch", "split_feat", "squeeze"]


def _check_templates(env, p, t, m):
    """templates describe the same without content"""
    from returnn.util.basic import NotSpecified

    n = len(m.dims)
    tm = t.copy_template()
    check(tm, M(m.dims, None, m.feat, m.time, m.sparse, m.dtype), "copy_template")
    if n:
        a = p.int(-n, n - 1)
        d = m.dims[a]
        r = t.copy_template_excluding_axis(a)
        rest = [x for i, x in enumerate(m.dims) if i != a % n]
        m2 = M(rest, None, m.feat if d is not m.feat else r.feature_dim, m.time if d is not m.time else "any", m.sparse, m.dtype)
        if d is m.feat or m.feat is None or t.version == 1 and t.feature_dim_axis_or_unspecified is NotSpecified:
            m2.feat = r.feature_dim  # default rule
        if m.time is None:
            m2.time = "any"
        check(r, m2, "copy_template_excluding_axis(%i) of %s" % (a, t))
        from returnn.tensor import Dim

        new = Dim(5, name="new", kind=d.kind)
        if not d.is_batch_dim():
            r = t.copy_template_replace_dim_tag(axis=a, new_dim_tag=new)
            m2 = M([new if x is d else x for x in m.dims], None, new if m.feat is d else m.feat, "any" if m.time is d or m.time is None else m.time, m.sparse, m.dtype)
            if t.version == 1 and t.feature_dim_axis_or_unspecified is NotSpecified:
                m2.feat = r.feature_dim
            check(r, m2, "copy_template_replace_dim_tag(%i) of %s" % (a, t))
    if t.version != 1:
        return
    k = p.int(0, n)
    r = t.copy_template_adding_time_dim(time_dim_axis=k)
    require(r.time_dim_axis == k and len(r.dims) == n + 1, lambda: "copy_template_adding_time_dim(%i): %s" % (k, r))
    require([x for i, x in enumerate(r.dims) if i != k] == list(m.dims), lambda: "copy_template_adding_time_dim(%i): %s" % (k, r))
    from returnn.util.basic import NotSpecified

    if m.feat is not None and t.feature_dim_axis_or_unspecified is not NotSpecified:  # otherwise by default rules
        require(r.feature_dim == m.feat, lambda: "copy_template_adding_time_dim(%i): feature dim of %s from %s" % (k, r, t))


@numpy_partial
def run_seq(c):
    from returnn.util.basic import NotSpecified

    env = Env(c)
    p = gen.Picks(c["p"])
    t, m = _start(env, p)
    check(t, m, "created")
    hist = [(t, m)]
    tags = ["v%i" % t.version, c["backend"]]
    for name in c["ops"]:
        t, m = hist[p.int(0, len(hist) - 1)] if p.int(0, 4) == 0 else hist[-1]
        r = _apply(env, p, t, m, name)
        if r is None:
            continue
        if m.time is None and r[0].time_dim_axis is not None:
            r[1].time = r[0].dims[r[0].time_dim_axis]  # old-style default rules
        if t.version == 1 and t.feature_dim_axis_or_unspecified is NotSpecified or m.feat is None and name in ("squeeze", "add_dim", "add_batch"):
            r[1].feat = r[0].feature_dim
        check(r[0], r[1], "%s of %s" % (name, t))
        hist.append(r[:2])
        tags.append(name)
    for i, (t, m) in enumerate(hist):
        check(t, m, "tensor %i afterwards" % i)  # not modified by what was derived from it
    _check_templates(env, p, *hist[-1])
    for t, m in hist[-1:]:
        if _has_batch(m) or env.time in m.dims:
            continue  # only the global batch_dim can be pickled
        # pickled / deep-copied: the template, by definition without the content
        t2 = pickle.loads(pickle.dumps(t))
        require(len(t2.dims) == len(t.dims) and t2.raw_tensor is None, "pickle: %s to %s" % (t, t2))
        require([(d.dimension, d.kind) for d in t2.dims] == [(d.dimension, d.kind) for d in t.dims], "pickle: dims changed")
        require(
            (t2.feature_dim_axis, t2.time_dim_axis, t2.batch_dim_axis, t2.dtype) == (t.feature_dim_axis, t.time_dim_axis, t.batch_dim_axis, t.dtype),
            "pickle: axes changed",
        )
        require((t2.sparse_dim is None) == (t.sparse_dim is None), "pickle: sparse dim")
        check(t, m, "after pickle")
    return tags


# ---------------------------------------------------------------- compatible to other dims


@numpy_partial
def run_compat(c):
    from returnn.tensor import Dim, Tensor

    env = Env(c)
    p = gen.Picks(c["p"])
    version = p.choice([1, 2])
    t, m = _start(env, p, version=version)
    # duplicate dims, distinguished by match_priority
    dup = None
    if p.int(0, 2) == 0 and env.sp in m.dims:
        dup = env.sp.copy(match_priority=p.choice([1, -1]))
        env.size[id(dup)] = c["n_sp"]
    tags = ["v%i" % version, c["backend"]] + (["match_priority"] if dup is not None else [])
    target = [d for d in env.all if d in m.dims or p.bool()]
    if env.time in target and env.batch not in target:
        target.append(env.batch)
    if dup is not None:
        dims = list(m.dims)
        dims.insert(p.int(0, len(dims)), dup)
        t, m = env.make(dims, feat=m.feat, sparse=m.sparse, dtype=m.dtype, version=2)
        target.append(dup)
    order = list(range(len(target)))
    env.rnd.shuffle(order)
    target = [target[i] for i in order]

    def expected():
        idx = [next(i for i, d in enumerate(m.dims) if d is x) for x in target if any(d is x for d in m.dims)]
        v = m.val.transpose(idx)
        return v.reshape([env.size[id(x)] if any(d is x for d in m.dims) else 1 for x in target])

    want = expected()
    perm = t.get_out_permutation_to_dims(target)
    want_perm = [next((i for i, d in enumerate(m.dims) if d is x), -1) for x in target]
    require(list(perm) == want_perm, lambda: "get_out_permutation_to_dims: %s, expected %s; %s to %s" % (perm, want_perm, t, target))
    raw = t.copy_compatible_to_dims_raw(target)
    require(arr_of(raw).shape == want.shape and numpy.array_equal(arr_of(raw), want), lambda: "copy_compatible_to_dims_raw %s to %s: %r, expected %r" % (t, target, arr_of(raw).tolist(), want.tolist()))
    r = t.copy_compatible_to_dims(target)
    require(len(r.dims) == len(target), lambda: "copy_compatible_to_dims %s to %s: %s" % (t, target, r))
    mdims = [d if want_perm[i] >= 0 else r.dims[i] for i, d in enumerate(target)]
    for i, d in enumerate(r.dims):
        require(want_perm[i] >= 0 or d.dimension == 1, lambda: "copy_compatible_to_dims %s to %s: %s" % (t, target, r))
    check(r, M(mdims, want, m.feat, m.time if t.version == 1 else "any", m.sparse, m.dtype), "copy_compatible_to_dims %s to %s" % (t, target))
    check(t, m, "after copy_compatible_to_dims")
    if dup is None and (m.feat is None or m.feat in target):
        tfeat = m.feat
        if tfeat is None and m.sparse is None and env.feat in target and env.feat not in m.dims and p.bool():
            tfeat = env.feat
        o, om = env.make(target, feat=tfeat, time=m.time, sparse=m.sparse, dtype=m.dtype, version=version)
        unb = p.bool()
        ex = p.choice([d for d in target]) if target and p.int(0, 2) == 0 else None
        exf = p.int(0, 3) == 0
        # dims are unique here, also by size? sizes can be the same, the dims still are to be matched by identity first
        r = t.copy_compatible_to(o, unbroadcast=unb, except_axis=ex, except_feature=exf)
        require(len(r.dims) == len(target), lambda: "copy_compatible_to: %s" % r)
        w2 = want
        for i, d in enumerate(target):
            if want_perm[i] < 0:
                do = unb and d is not ex and not (exf and d is tfeat)
                if do:
                    w2 = numpy.repeat(w2, env.size[id(d)], axis=i)
                    require(r.dims[i] == d or r.dims[i].dimension == d.dimension, lambda: "copy_compatible_to: %s" % r)
                else:
                    require(r.dims[i].dimension == 1, lambda: "copy_compatible_to: %s" % r)
            else:
                require(r.dims[i] == d, lambda: "copy_compatible_to %s to %s: %s" % (t, o, r))
        got = arr_of(r.raw_tensor)
        require(got.shape == w2.shape and numpy.array_equal(got, w2), lambda: "copy_compatible_to %s to %s (unbroadcast %s except %s): %r, expected %r" % (t, o, unb, ex, got.tolist(), w2.tolist()))
        if m.sparse is None:
            require(r.feature_dim_axis == o.feature_dim_axis, lambda: "copy_compatible_to %s to %s: %s: feature_dim_axis" % (t, o, r))
        if version == 1:
            require(r.time_dim_axis == o.time_dim_axis, lambda: "copy_compatible_to %s to %s: %s: time_dim_axis" % (t, o, r))
        require(r.sparse_dim == m.sparse and r.dtype == m.dtype, lambda: "copy_compatible_to: %s" % r)
        check(t, m, "after copy_compatible_to")
        tags.append("compatible_to")
        if len(target) > len(m.dims):
            try:
                t.copy_compatible_to(o, add_dims=False)
            except ValueError:
                pass
            else:
                require(False, "copy_compatible_to with add_dims=False added dims")
    return tags


# ---------------------------------------------------------------- operators with broadcasting by dim

BIN = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
    "==": operator.eq,
    "!=": operator.ne,
    "/": operator.truediv,
    "//": operator.floordiv,
    "%": operator.mod,
    "and": operator.and_,
    "or": operator.or_,
    "max": numpy.maximum,
    "min": numpy.minimum,
}


@numpy_partial
def run_ops(c):
    import returnn.frontend as rf

    env = Env(c)
    p = gen.Picks(c["p"])
    op = p.choice(list(BIN))
    if op in ("and", "or"):
        dtype = "bool"
    elif op == "/":
        dtype = p.choice(["float32", "float64"])
    else:
        dtype = p.choice(["float32", "float64", "int32", "int64"])
    tags = ["op:" + op, dtype, c["backend"]]
    a, am = _start(env, p, version=2)
    a, am = env.make(am.dims, feat=am.feat, dtype=dtype, version=2, non_contiguous=p.bool())
    dup = None
    if p.int(0, 3) == 0 and env.sp in am.dims:
        dup = env.sp.copy(match_priority=1)
        env.size[id(dup)] = c["n_sp"]
        dims = list(am.dims)
        dims.insert(p.int(0, len(dims)), dup)
        a, am = env.make(dims, feat=am.feat, dtype=dtype, version=2)
        tags.append("match_priority")
    rel = p.choice(["same", "perm", "subset", "scalar_t", "number", "disjoint"])
    tags.append("rel:" + rel)
    dims = list(am.dims)
    if rel in ("perm", "subset", "disjoint"):
        env.rnd.shuffle(dims)
    if rel in ("subset", "disjoint"):
        dims = [d for d in dims if p.bool()]
        if env.time in dims and env.batch not in dims and env.batch in am.dims:
            pass
    if rel == "disjoint":
        extra = [d for d in [env.sp2, env.dyn, env.sp] if d.dimension != 1 and not any(d == x for x in am.dims)]
        if dup is not None:
            return tags + ["skip"]
        if not extra:
            return tags + ["skip"]
        dims.insert(p.int(0, len(dims)), extra[0])
    if rel == "scalar_t":
        dims = []
    if dup is not None and any(d is env.sp for d in dims) != any(d is dup for d in dims):
        # only one of both: the matching is then by priority, other meaning
        dims = [d for d in dims if d is not env.sp and d is not dup]
    if rel == "number":
        v = p.choice([2, 3, 1, -1]) if dtype != "bool" else p.bool()
        if dtype.startswith("float") and p.bool():
            v = v + 0.5
        b, bm = v, None
    else:
        b, bm = env.make(dims, feat=am.feat if any(d is am.feat for d in dims) else None, dtype=dtype, version=2, non_contiguous=p.bool())
    if op in ("//", "%") and dtype.startswith("int") and bm is not None:
        pass  # values are >= 1

    all_dims = list(am.dims) + [d for d in (bm.dims if bm else []) if not any(d is x for x in am.dims)]

    def expand(m):
        idx = [next(i for i, d in enumerate(m.dims) if d is x) for x in all_dims if any(d is x for d in m.dims)]
        v = m.val.transpose(idx)
        return v.reshape([env.size[id(x)] if any(d is x for d in m.dims) else 1 for x in all_dims])

    swap = p.bool() and not (bm is None and op in ("max", "min"))
    av = expand(am)
    bv = expand(bm) if bm is not None else numpy.array(b, dtype)
    x, y, xv, yv = (b, a, bv, av) if swap else (a, b, av, bv)
    with numpy.errstate(all="ignore"):
        want = BIN[op](xv, yv)
    want = numpy.broadcast_to(want, [env.size[id(d)] for d in all_dims])
    how = p.choice(["operator", "func"]) if op not in ("max", "min") else "func"
    if swap and bm is None:
        how = "operator"
    fname = {"and": "logical_and", "or": "logical_or", "max": "maximum", "min": "minimum"}.get(op, op)
    is_cmp = op in ("<", "<=", ">", ">=", "==", "!=")

    def call(bc):
        if is_cmp:
            return rf.compare(x, op, y, allow_broadcast_all_sources=bc)
        return rf.combine(x, fname, y, allow_broadcast_all_sources=bc)

    if rel == "disjoint" and len(am.dims) and not all(any(d is e for e in bm.dims) for d in am.dims):
        # neither has all the dims: has to be allowed explicitly
        try:
            if how == "operator":
                BIN[op](x, y)
            else:
                call(False)
        except ValueError:
            pass
        else:
            # native ops of the torch backend do not refuse: known finding
            require(c["backend"] == "torch", "%s %s %s: broadcasting both sides has to be an error" % (x, op, y))
        r = call(True)
        tags.append("bc-all")
    else:
        if how == "operator" and (not swap or bm is not None or True):
            r = BIN[op](x, y)
        else:
            r = call(False)
    what = "%s %s %s" % (x, op, y)
    require(r.dims_set == set(all_dims) and len(r.dims) == len(all_dims), lambda: "%s: result %s" % (what, r))
    want_dt = "bool" if is_cmp or dtype == "bool" else dtype
    require(r.dtype == want_dt, lambda: "%s: result dtype %s" % (what, r.dtype))
    got = arr_of(r.raw_tensor)
    idx = []
    for d in all_dims:
        ex = [i for i, e in enumerate(r.dims) if e is d] or [i for i, e in enumerate(r.dims) if e == d and e.match_priority == d.match_priority]
        require(len(ex) == 1, lambda: "%s: result %s" % (what, r))
        idx.append(ex[0])
    got = got.transpose(idx)
    require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    require(
        numpy.allclose(got, want, rtol=1e-5, atol=1e-6, equal_nan=True),
        lambda: "%s (%s): got %r, expected %r" % (what, how, got.tolist(), want.tolist()),
    )
    if am.feat is not None:
        require(r.feature_dim == am.feat, lambda: "%s: feature dim %s, expected %s" % (what, r.feature_dim, am.feat))
    check(a, am, "operand afterwards")
    if bm is not None:
        check(b, bm, "operand afterwards")
    # unary
    if dtype != "bool" and p.bool():
        check(-a, M(am.dims, -am.val, am.feat, "any", None, dtype), "neg")
        r = abs(a)
        check(r, M(am.dims, abs(am.val), am.feat, "any", None, dtype), "abs")
    elif dtype == "bool":
        check(~a, M(am.dims, ~am.val, am.feat, "any", None, dtype), "invert")
    return tags


# ---------------------------------------------------------------- axis descriptions


def run_axes(c):
    env = Env(c)
    p = gen.Picks(c["p"])
    t, m = _start(env, p, version=1)
    dims = list(m.dims)
    bi = next((i for i, d in enumerate(dims) if d is env.batch), None)
    ti = dims.index(m.time) if m.time is not None else None
    fi = dims.index(m.feat) if m.feat is not None else None
    spatial = [i for i in range(len(dims)) if i != bi and i != fi]
    dyn = [i for i, d in enumerate(dims) if d.dimension is None and i != bi]
    static = [i for i, d in enumerate(dims) if d.dimension is not None and i != bi]
    exp = {"": [], "*": list(range(len(dims))), "spatial": spatial, "dyn": dyn, "static": static, "T?": [ti] if ti is not None else []}
    if bi is not None:
        exp["B"] = exp["batch"] = [bi]
        exp["except_batch"] = [i for i in range(len(dims)) if i != bi]
        exp["except_time"] = [i for i in range(len(dims)) if i not in (bi, ti)]
    if ti is not None:
        exp["T"] = exp["time"] = [ti]
        exp["spatial_except_time"] = [i for i in spatial if i != ti]
    if fi is not None:
        exp["F"] = exp["feature"] = [fi]
    if bi is not None and ti is not None:
        exp["BT"] = [bi, ti]
        exp["TB"] = [ti, bi]
    for i, d in enumerate(dims):
        if d.is_batch_dim():
            continue
        exp["tag:" + d.description] = [i]
        if i in spatial and d.is_spatial_dim():
            exp["stag:" + d.description] = [i]
    for n in {d.dimension for d in dims if d.dimension is not None}:
        w = [i for i, d in enumerate(dims) if d.dimension == n]
        if len(w) == 1:
            exp["dim:%i" % n] = w
    for k, want in exp.items():
        got = t.get_axes_from_description(k)
        require(sorted(got) == sorted(want) and (k not in ("BT", "TB") or got == want), lambda: "%s axes %r: %s, expected %s" % (t, k, got, want))
    from returnn.util.basic import BehaviorVersion

    old_bv = BehaviorVersion.get_if_set()
    BehaviorVersion._reset()
    BehaviorVersion.set(1)
    try:
        for kind, lst in (("spatial", spatial), ("dyn", dyn), ("static", static)):
            for i in range(-len(lst), len(lst)):
                got = t.get_axis_from_description("%s:%i" % (kind, i))
                require(got == lst[i], lambda: "%s axis %s:%i: %s, expected %s" % (t, kind, i, got, lst[i]))
    finally:
        BehaviorVersion._reset()
        BehaviorVersion.set(old_bv)
    for kind, lst in (("spatial", spatial), ("dyn", dyn), ("static", static)):
        if lst:
            try:
                t.get_axis_from_description("%s:0" % kind)
            except BehaviorVersion.RequirementNotSatisfied:
                pass
            else:
                require(False, "order-dependent axis %s:0 accepted with behavior version %s" % (kind, old_bv))
    for i, d in enumerate(dims):
        require(t.get_axis_from_description(d) == i and t.get_axes_from_description(d) == [i], lambda: "%s axis %s" % (t, d))
        require(t.get_dim_tag_from_description(d) is d or t.get_dim_tag_from_description(d) == d, "get_dim_tag_from_description")
        desc = t.get_description_from_axis(i)
        got = t.get_axis_from_description(desc)
        require(got == i, lambda: "%s: axis %i described as %r which is axis %s" % (t, i, desc, got))
    require(t.have_batch_axis() == (bi is not None) and t.have_time_axis() == (ti is not None) and t.have_feature_axis() == (fi is not None), "have_*_axis")
    require(t.get_dynamic_axes() == dyn and t.get_static_axes() == static, lambda: "%s: dynamic axes %s, static axes %s" % (t, t.get_dynamic_axes(), t.get_static_axes()))
    for i, d in enumerate(dims):
        wb = i if bi is None else (i - 1 if i > bi else i)
        if i != bi:
            require(t.get_batch_axis_excluding_batch(i) == wb and t.get_batch_axis(wb) == i, lambda: "%s: axis %i without batch" % (t, i))
    require(t.shape == tuple(d.dimension for i, d in enumerate(dims) if i != bi), lambda: "%s: shape %s" % (t, t.shape))
    return ["axes"] + ["ndim%i" % len(dims)]


# ---------------------------------------------------------------- strategies


@st.composite
def case(draw, ops=False):
    c = {
        "backend": draw(st.sampled_from(["torch", "torch", "numpy"])),
        "b": draw(st.integers(1, 3)),
        "static_batch": draw(st.booleans()),
        "lens": draw(st.lists(st.integers(1, 4), min_size=3, max_size=3)),
        "n_dyn": draw(st.integers(1, 3)),
        "n_sp": draw(st.integers(1, 4)),
        "n_sp2": draw(st.integers(1, 4)),
        "n_feat": draw(st.sampled_from([2, 4, 1, 3, 6])),
        "feat_kind": draw(st.booleans()),
        "seed": draw(gen.seeds()),
        "p": draw(gen.picks(30)),
    }
    if ops:
        c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=10))
    return c


SUBS = [
    Sub("copies", lambda: case(ops=True), run_seq, quick=2500, thorough=150000, nontrivial=lambda c: len(c["ops"]) > 2),
    Sub("compat", case, run_compat, quick=2500, thorough=150000, nontrivial=lambda c: c["b"] > 1),
    Sub("operators", case, run_ops, quick=3000, thorough=150000, nontrivial=lambda c: c["b"] > 1),
    Sub("axes", case, run_axes, quick=1500, thorough=60000, nontrivial=lambda c: c["b"] > 1),
]
