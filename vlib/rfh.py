"""
Helpers for the RETURNN frontend checks: ragged tensors with garbage in the padding, per-sequence views.

A World has the dims B (batch), T, U (dynamic over B, or scalar dynamic, or static), S, F (static).
Tensors get a random axis order; the raw data beyond the sequence lengths is garbage.
"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from .core import require, Violation

_ready = {}


def setup_torch():
    import torch  # noqa
    import returnn.frontend as rf
    from returnn.util.basic import BehaviorVersion

    torch.set_num_threads(1)
    rf.select_backend_torch()
    if not _ready:
        BehaviorVersion.set(24)
        _ready["torch"] = True


@st.composite
def world(draw, *, min_len=0, max_len=7, max_b=4, t_kinds=("batch", "batch", "batch", "scalar", "static")):
    b = draw(st.integers(1, max_b))
    c = {
        "b": b,
        "t_kind": draw(st.sampled_from(list(t_kinds))),
        "u_kind": draw(st.sampled_from(["batch", "batch", "scalar", "static"])),
        "t": draw(st.lists(st.integers(min_len, max_len), min_size=b, max_size=b)),
        "u": draw(st.lists(st.integers(max(min_len, 1), 4), min_size=b, max_size=b)),
        "s": draw(st.integers(1, 3)),
        "f": draw(st.integers(1, 4)),
        "b_kind": draw(st.sampled_from(["dyn", "dyn", "static"])),
        "garbage": draw(st.sampled_from(["big", "big", "nan", "inf"])),
        "seed": draw(st.integers(0, 2**20)),
        "t_extra": draw(st.sampled_from([0, 0, 0, 1])),
    }
    if c["t_kind"] != "batch":
        c["t"] = [c["t"][0]] * b
    if c["u_kind"] != "batch":
        c["u"] = [c["u"][0]] * b
    return c


class World:
    """dims"""

    def __init__(self, c):
        import torch
        from returnn.tensor import Dim, Tensor, batch_dim

        self.c = c
        self.rnd = numpy.random.RandomState(c["seed"])
        n = c["b"]
        if c["b_kind"] == "static":
            self.B = Dim(n, name="batch_static")
        else:
            self.B = Dim(Tensor("B_size", dims=[], dtype="int32", raw_tensor=torch.tensor(n, dtype=torch.int32)), name="batch_dyn")
        self.lens = {"T": list(c["t"]), "U": list(c["u"])}

        def mk(name, kind, lens):
            if kind == "static":
                return Dim(lens[0], name=name)
            if kind == "scalar":
                return Dim(Tensor(name + "_size", dims=[], dtype="int32", raw_tensor=torch.tensor(lens[0], dtype=torch.int32)), name=name)
            return Dim(
                Tensor(name + "_size", dims=[self.B], dtype="int32", raw_tensor=torch.tensor(lens, dtype=torch.int32)),
                name=name,
            )

        self.T = mk("T", c["t_kind"], c["t"])
        self.U = mk("U", c["u_kind"], c["u"])
        self.S = Dim(c["s"], name="S")
        self.F = Dim(c["f"], name="F")
        self.num = {"S": c["s"], "F": c["f"]}
        self.dims = {"B": self.B, "T": self.T, "U": self.U, "S": self.S, "F": self.F}
        self.max_T = max(c["t"])
        self.max_U = max(c["u"])

    def size(self, name):
        if name == "B":
            return self.c["b"]
        if name in self.lens:
            return max(self.lens[name])
        return self.num[name]

    def add_static(self, name, n):
        from returnn.tensor import Dim

        self.num[name] = n
        self.dims[name] = Dim(n, name=name)
        return self.dims[name]

    def garbage(self, dtype, shape):
        kind = self.c["garbage"]
        if dtype == "bool":
            return self.rnd.randint(0, 2, shape).astype(bool)
        if dtype.startswith("int"):
            return self.rnd.randint(-3, 50, shape).astype(dtype)
        g = self.rnd.choice([-1.0, 1.0], shape) * self.rnd.uniform(300, 2000, shape)
        if kind == "nan":
            g = numpy.where(self.rnd.uniform(size=shape) < 0.7, numpy.nan, g)
        if kind == "inf":
            g = numpy.where(self.rnd.uniform(size=shape) < 0.7, self.rnd.choice([numpy.inf, -numpy.inf], shape), g)
        return g.astype(dtype)

    def tensor(self, names, *, dtype="float32", low=-3, high=3, sparse_dim=None, feature=False, ints=False, name="x", values=None, garbage=True, inf=False):
        """
        :param list[str] names: subset of dims
        :return: RTensor
        """
        import torch
        from returnn.tensor import Tensor

        names = [n for n in ["B", "T", "U", "S", "F"] if n in names] + [n for n in names if n not in "BTUSF"]
        shape = tuple(self.size(n) for n in names)
        if values is not None:
            arr = numpy.array(values).reshape(shape).astype(dtype)
        elif dtype == "bool":
            arr = self.rnd.randint(0, 2, shape).astype(bool)
        elif dtype.startswith("int"):
            arr = self.rnd.randint(low, high + 1, shape).astype(dtype)
        elif ints:  # exactly representable, no rounding issues, with ties
            arr = self.rnd.randint(low, high + 1, shape).astype(dtype)
        else:
            arr = self.rnd.uniform(low, high, shape).astype(dtype)
        if inf and dtype.startswith("float"):
            arr = numpy.where(self.rnd.uniform(size=shape) < 0.6, self.rnd.choice([-numpy.inf, numpy.inf] if inf == 2 else [-numpy.inf], shape), arr).astype(dtype)
        mask = self.mask(names)
        if garbage:
            arr = numpy.where(mask, arr, self.garbage(dtype, shape)).astype(dtype)
        perm = list(self.rnd.permutation(len(names)))
        order = [names[i] for i in perm]
        raw = torch.tensor(numpy.ascontiguousarray(arr.transpose(perm)) if names else arr)
        if names and self.rnd.randint(3) == 0:  # non-contiguous raw tensor
            raw = torch.tensor(numpy.ascontiguousarray(arr)).permute(*[int(i) for i in perm])
        t = Tensor(
            name,
            dims=[self.dims[n] for n in order],
            dtype=dtype,
            raw_tensor=raw,
            sparse_dim=sparse_dim,
            feature_dim=self.F if feature and "F" in names else None,
        )
        return RTensor(self, t, names, arr)

    def mask(self, names):
        shape = tuple(self.size(n) for n in names)
        mask = numpy.ones(shape, bool)
        for n in names:
            if n in self.lens:
                ax = names.index(n)
                idx = numpy.arange(self.size(n))
                if "B" in names:
                    m = idx[None, :] < numpy.array(self.lens[n])[:, None]  # [B,T]
                    sh = [1] * len(names)
                    sh[names.index("B")] = self.c["b"]
                    sh[ax] = self.size(n)
                    if names.index("B") > ax:
                        m = m.T
                    mask &= m.reshape(sh)
        return mask

    def seqs(self):
        return range(self.c["b"])


class RTensor:
    """RETURNN tensor together with the reference data"""

    def __init__(self, w, t, names, arr):
        self.w = w
        self.t = t
        self.names = names
        self.arr = arr

    def seq(self, b):
        """
        :return: array without B, without padding, axes self.seq_names
        """
        arr = self.arr
        names = list(self.names)
        if "B" in names:
            assert names[0] == "B"
            arr = arr[b]
            names = names[1:]
        for i, n in enumerate(names):
            if n in self.w.lens:
                arr = numpy.take(arr, numpy.arange(self.w.lens[n][b]), axis=i)
        return arr

    @property
    def seq_names(self):
        return [n for n in self.names if n != "B"]


def dim_len(dim, w: World, b: int) -> int:
    """length of the dim for seq b"""
    if dim is w.B:
        return w.c["b"]
    if dim.dimension is not None:
        return dim.dimension
    s = dim.dyn_size_ext
    require(s is not None and s.raw_tensor is not None, lambda: "dim %r has no size" % dim)
    raw = s.raw_tensor.detach().cpu().numpy()
    if not s.dims:
        return int(raw)
    require(tuple(s.dims) == (w.B,), lambda: "dim %r: size over %r" % (dim, s.dims))
    return int(raw[b])


def out_seq(t, w: World, b: int, order):
    """
    :param t: RETURNN tensor
    :param order: expected dims (without B), in this order. The tensor has to have exactly those, maybe B in addition.
    :return: array for seq b
    """
    from returnn.tensor import Tensor

    require(isinstance(t, Tensor), lambda: "not a Tensor: %r" % (t,))
    dims = list(t.dims)
    exp = list(order)
    require(t.raw_tensor is not None, "no raw tensor")
    raw = t.raw_tensor.detach().cpu().numpy()
    require(
        raw.ndim == len(dims), lambda: "raw tensor shape %r, dims %r" % (raw.shape, dims)
    )
    require(
        str(raw.dtype) == t.dtype, lambda: "raw dtype %s but tensor dtype %s" % (raw.dtype, t.dtype)
    )
    require(
        set(dims) - {w.B} == set(exp) and len(dims) - (w.B in dims) == len(exp),
        lambda: "output dims %r, expected %r (+ batch)" % (dims, exp),
    )
    for ax, d in enumerate(dims):  # capacity
        want = max(dim_len(d, w, bb) for bb in w.seqs())
        if d.dimension is not None:
            require(raw.shape[ax] == want, lambda: "axis %r: raw size %i, dim %i" % (d, raw.shape[ax], want))
        else:
            require(raw.shape[ax] >= want, lambda: "axis %r: raw size %i, dim %i" % (d, raw.shape[ax], want))
    if w.B in dims:
        raw = numpy.take(raw, b, axis=dims.index(w.B))
        dims.remove(w.B)
    raw = raw.transpose([dims.index(d) for d in exp])
    for ax, d in enumerate(exp):
        raw = numpy.take(raw, numpy.arange(dim_len(d, w, b)), axis=ax)
    return raw


def assert_close(got, want, what, *, rtol=2e-5, atol=2e-5):
    got = numpy.asarray(got)
    want = numpy.asarray(want)
    require(got.shape == want.shape, lambda: "%s: shape %r, expected %r" % (what, got.shape, want.shape))
    if want.dtype.kind in "biu" and got.dtype.kind in "biu":
        ok = (got == want).all()
    else:
        ok = numpy.allclose(got.astype("float64"), want.astype("float64"), rtol=rtol, atol=atol, equal_nan=True)
    require(ok, lambda: "%s:\ngot\n%r\nexpected\n%r" % (what, got, want))


def check_seqs(t, w: World, order, ref, what, **kw):
    """
    :param t: output tensor
    :param order: list of Dim, or names in w.dims
    :param ref: func b -> expected array
    """
    order = [w.dims[d] if isinstance(d, str) else d for d in order]
    for b in w.seqs():
        got = out_seq(t, w, b, order)
        want = ref(b)
        if want is None:
            continue
        assert_close(got, want, "%s, seq %i" % (what, b), **kw)


# ---------------------------------------------------------------- single sequences, modules


def single_world(w: World, b: int, *, reuse_dims=False):
    """
    :param w:
    :param b: seq
    :param reuse_dims: same Dim objects as in w, reset and refilled, like the engine does it for each new batch
    :return: world with only the seq b, without any padding. Static dims are shared.
    """
    import torch
    from returnn.tensor import Tensor

    c = dict(w.c)
    c["b"] = 1
    c["t"] = [w.lens["T"][b]]
    c["u"] = [w.lens["U"][b]]
    c["seed"] = w.c["seed"] + 17 * (b + 1)
    if c["b_kind"] == "static" and c["b"] == w.c["b"]:
        pass
    ws = World(c)
    for n, d in w.dims.items():
        if n in ("B", "T", "U"):
            if d.dimension is not None and n != "B":
                ws.dims[n] = d
            elif reuse_dims and d.dimension is None:
                d.reset_eager()
                new = ws.dims[n].dyn_size_ext
                d.dyn_size_ext = Tensor(
                    new.name, dims=[w.B] if new.dims else [], dtype=new.dtype, raw_tensor=new.raw_tensor.clone()
                )
                ws.dims[n] = d
        else:
            ws.dims[n] = d
            ws.num[n] = w.num[n]
    if reuse_dims and ws.dims["B"] is not w.B:  # static batch: cannot reuse
        for n in ("T", "U"):
            if w.dims[n].dimension is None and w.c[n.lower() + "_kind"] == "batch":
                raise AssertionError("reuse needs a dynamic batch dim")
    ws.B, ws.T, ws.U, ws.S, ws.F = [ws.dims[n] for n in "BTUSF"]
    return ws


def single_tensor(x: RTensor, ws: World, b: int) -> RTensor:
    """the seq b of x, as a tensor in ws"""
    import torch
    from returnn.tensor import Tensor

    seq = x.seq(b)
    names = list(x.names)
    arr = seq[None] if "B" in names else seq
    perm = list(ws.rnd.permutation(len(names)))
    order = [names[i] for i in perm]
    raw = torch.tensor(numpy.ascontiguousarray(arr.transpose(perm)) if names else arr)
    t = Tensor(
        x.t.name,
        dims=[ws.dims[n] for n in order],
        dtype=x.t.dtype,
        raw_tensor=raw,
        sparse_dim=x.t.sparse_dim,
        feature_dim=x.t.feature_dim,
    )
    return RTensor(ws, t, names, arr)


def out_seq_torch(t, w: World, b: int, order):
    """like out_seq, but differentiable (only call it after out_seq did all the checks)"""
    dims = list(t.dims)
    raw = t.raw_tensor
    if w.B in dims:
        raw = raw.select(dims.index(w.B), b)
        dims.remove(w.B)
    raw = raw.permute(*[dims.index(d) for d in order]) if order else raw
    for ax, d in enumerate(order):
        raw = raw.narrow(ax, 0, dim_len(d, w, b))
    return raw
