"""C09: stepwise == whole sequence; search histories; loops; caches"""

from __future__ import annotations
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen, rfh
from vlib.rfh import World, assert_close, out_seq
from props import C08
from props.C08 import _np, _randomize, make_self_att


def setup():
    rfh.setup_torch()


def _tensor(name, dims, arr, dtype, **kw):
    import torch
    from returnn.tensor import Tensor

    raw = torch.tensor(numpy.array(arr)).to(getattr(torch, dtype))
    return Tensor(name, dims=dims, dtype=dtype, raw_tensor=raw, **kw)


# ---------------------------------------------------------------- models with state

VOCAB = 6


class Model:
    """label -> logits, with state; reference by the module itself on the whole history, single sequence"""

    def __init__(self, p, rnd, num_b, batch):
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim
        from returnn.frontend.decoder.transformer import TransformerDecoder

        self.kind = p.choice(["plain", "rope", "relpos", "lstm", "zlstm", "decoder", "decoder", "decoder"])
        self.vocab = Dim(VOCAB, name="vocab")
        self.num_b = num_b
        self.batch = batch
        self.enc = None
        self.out_dim = None

        class W:  # minimal world
            pass

        w = World({"b": 1, "t_kind": "static", "u_kind": "static", "t": [1], "u": [1], "s": 1, "f": 4, "b_kind": "static", "garbage": "big", "seed": int(rnd.randint(1000)), "t_extra": 0})
        if self.kind in ("plain", "rope", "relpos"):
            m, _, fn, out = make_self_att(w, p, causal=True, kind=self.kind)
            feat = w.dims[fn]
            self.emb = rf.Embedding(self.vocab, feat)
            _randomize(self.emb, rnd)
            self.m = m
            self.out_dim = out
        elif self.kind in ("lstm", "zlstm"):
            feat = Dim(3, name="emb")
            self.emb = rf.Embedding(self.vocab, feat)
            self.out_dim = Dim(p.int(1, 3), name="out")
            if self.kind == "lstm":
                self.m = rf.LSTM(feat, self.out_dim)
            else:
                self.m = rf.ZoneoutLSTM(feat, self.out_dim, zoneout_factor_cell=0.15, zoneout_factor_output=p.choice([0.0, 0.1]), use_zoneout_output=p.bool())
            _randomize(self.emb, rnd)
            _randomize(self.m, rnd)
        else:
            model = Dim(4, name="model")
            kw = dict(num_layers=p.int(1, 2), num_heads=p.int(1, 2), ff_dim=5, norm=p.choice([rf.LayerNorm, rf.RMSNorm]))
            att = p.choice([None, rf.RelPosCausalSelfAttention, rf.RotaryPosCausalSelfAttention])
            if att is not None:
                kw["layer_opts"] = dict(self_att=att)
                if att is rf.RotaryPosCausalSelfAttention:
                    kw["num_heads"] = 1
                    if p.bool():
                        kw["pos_enc"] = None
            if p.bool():
                kw.update(share_embedding=False, logits_with_bias=True)
            enc_dim = None
            if p.bool():
                enc_dim = Dim(2, name="enc")
                self.enc_len = [int(rnd.randint(1, 4)) for _ in range(num_b)]
                self.enc_arr = rnd.uniform(-2, 2, (num_b, max(self.enc_len), 2))
                self.enc_spatial = Dim(_tensor("u", [batch], self.enc_len, "int32"), name="U")
                self.enc_dim = enc_dim
            self.m = TransformerDecoder(enc_dim, self.vocab, model, **kw)
            _randomize(self.m, rnd)
            self.out_dim = self.vocab
            if enc_dim is not None:
                self.enc = self.m.transform_encoder(_tensor("enc", [batch, self.enc_spatial, enc_dim], self.enc_arr, "float64"), axis=self.enc_spatial)
                self.kind = "decoder:enc"
        self._cache = {}

    def init(self, batch_dims):
        return self.m.default_initial_state(batch_dims=batch_dims)

    def __call__(self, labels, axis, state, enc=None):
        if self.kind.startswith("decoder"):
            return self.m(labels, spatial_dim=axis, state=state, encoder=enc)
        x = self.emb(labels)
        if self.kind in ("lstm", "zlstm"):
            return self.m(x, spatial_dim=axis, state=state)
        return self.m(x, axis=axis, state=state)

    def ref(self, hist, b):
        """
        :param tuple[int] hist: labels, nonempty
        :return: [len, out]
        """
        from returnn.tensor import Dim

        key = (hist, b if self.enc is not None else 0)
        if key not in self._cache:
            t = Dim(len(hist), name="t")
            enc = None
            if self.enc is not None:
                u = Dim(self.enc_len[b], name="u")
                enc = self.m.transform_encoder(_tensor("enc", [u, self.enc_dim], self.enc_arr[b, : self.enc_len[b]], "float64"), axis=u)
            y, _ = self(_tensor("labels", [t], list(hist), "int32", sparse_dim=self.vocab), t, self.init([]), enc)
            self._cache[key] = y.copy_transpose([t, self.out_dim]).raw_tensor.detach().numpy()
        return self._cache[key]


def run_hist(c):
    """a search-like history of single steps, beam selections, masked updates, packed partial steps"""
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, single_step_dim

    p = gen.Picks(c["p"])
    rnd = numpy.random.RandomState(c["seed"])
    nb = c["b"]
    tags = []
    with rf.set_default_float_dtype_ctx("float64"), torch.no_grad():
        rf.init_forward_step_run_ctx(epoch=1, step=0)
        batch = Dim(_tensor("b", [], nb, "int32"), name="batch")
        m = Model(p, rnd, nb, batch)
        tags.append("model:" + m.kind)
        k = c["beam"]
        beam = Dim(k, name="beam0")
        hist = [[() for _ in range(k)] for _ in range(nb)]
        state = m.init([batch, beam])

        def check(y, what, which=None):
            g = y.copy_transpose([batch, beam, m.out_dim]).raw_tensor.numpy()
            for b in range(nb):
                for i in range(k):
                    if which is not None and not which[b][i]:
                        continue
                    assert_close(g[b, i], m.ref(hist[b][i], b)[-1], "%s %s: seq %i, hyp %i, labels %r, stepwise vs whole sequence" % (m.kind, what, b, i, hist[b][i]), rtol=1e-6, atol=1e-7)

        if c["prefix"]:
            lens = [1 + v % 3 for v in c["prefix"][:nb]]
            lab = rnd.randint(0, VOCAB, (nb, k, max(lens)))
            t = Dim(_tensor("t", [batch], lens, "int32"), name="T")
            lab_t = _tensor("labels", [batch, beam, t], lab, "int32", sparse_dim=m.vocab)
            if m.kind == "zlstm" and False:
                pass
            y, new_state = m(lab_t, t, state, m.enc)
            g = y.copy_transpose([batch, beam, t, m.out_dim]).raw_tensor.numpy()
            for b in range(nb):
                for i in range(k):
                    hist[b][i] = tuple(int(v) for v in lab[b, i, : lens[b]])
                    assert_close(g[b, i, : lens[b]], m.ref(hist[b][i], b), "%s: prefix, seq %i hyp %i: in batch vs alone" % (m.kind, b, i), rtol=1e-6, atol=1e-7)
            state = new_state
            tags.append("prefix" + (":ragged" if len(set(lens)) > 1 else ""))
        for n, op in enumerate(c["ops"]):
            kind = op[0]
            lab = rnd.randint(0, VOCAB, (nb, k))
            lab_t = _tensor("labels", [batch, beam], lab, "int32", sparse_dim=m.vocab)
            if kind in ("step", "mask"):
                y, new_state = m(lab_t, single_step_dim, state, m.enc)
                old = [list(h) for h in hist]
                for b in range(nb):
                    for i in range(k):
                        hist[b][i] = hist[b][i] + (int(lab[b, i]),)
                check(y, "op %i" % n)
                if kind == "mask":
                    mask = rnd.randint(0, 3, (nb, k)) > 0
                    mask_t = _tensor("mask", [batch, beam], mask, "bool")
                    new_state = rf.nested.mask_nested(new_state, mask=mask_t, mask_value=state)
                    for b in range(nb):
                        for i in range(k):
                            if not mask[b, i]:
                                hist[b][i] = old[b][i]
                    if len({len(h) for hh in hist for h in hh}) > 1:
                        tags.append("diff-lens")
                state = new_state
                tags.append("op:" + kind)
            elif kind == "gather":
                nk = op[1] % 3 + 1
                new_beam = Dim(nk, name="beam%i" % (n + 1))
                back = rnd.randint(0, k, (nb, nk))
                back_t = _tensor("backrefs", [batch, new_beam], back, "int32", sparse_dim=beam)
                state = rf.nested.gather_nested(state, indices=back_t)
                hist = [[hist[b][back[b, i]] for i in range(nk)] for b in range(nb)]
                beam, k = new_beam, nk
                tags.append("op:gather")
            elif kind == "select":
                mask = rnd.randint(0, 2, (nb, k)).astype(bool)
                if not mask.any():
                    mask[0, 0] = True
                mask_t = _tensor("mask", [batch, beam], mask, "bool")
                (st_, lab_, enc_), packed, dim_map = rf.nested.masked_select_nested(
                    (state, lab_t, m.enc) if m.enc is not None else (state, lab_t, rf.State()), mask=mask_t, mask_cpu=mask_t, dims=[batch, beam]
                )
                y, new_state = m(lab_, single_step_dim, st_, enc_ if m.enc is not None else None)
                backup = rf.zeros([batch, beam, m.out_dim])
                y, state = rf.nested.masked_scatter_nested(
                    (y, new_state), (backup, state), mask=mask_t, mask_cpu=mask_t, dims=[batch, beam], in_dim=packed, masked_select_dim_map=dim_map
                )
                for b in range(nb):
                    for i in range(k):
                        if mask[b, i]:
                            hist[b][i] = hist[b][i] + (int(lab[b, i]),)
                check(y, "op %i (packed)" % n, which=mask)
                tags.append("op:select")
                if len({len(h) for hh in hist for h in hh}) > 1:
                    tags.append("diff-lens")
        # final step for all: the state is complete
        lab = rnd.randint(0, VOCAB, (nb, k))
        y, _ = m(_tensor("labels", [batch, beam], lab, "int32", sparse_dim=m.vocab), single_step_dim, state, m.enc)
        for b in range(nb):
            for i in range(k):
                hist[b][i] = hist[b][i] + (int(lab[b, i]),)
        check(y, "final")
    return tags


def hist_case():
    op = st.one_of(
        st.tuples(st.just("step")), st.tuples(st.just("gather"), st.integers(0, 5)), st.tuples(st.just("mask")), st.tuples(st.just("select"))
    )
    return st.fixed_dictionaries(
        {
            "b": st.integers(1, 3),
            "beam": st.integers(1, 3),
            "p": gen.picks(20),
            "seed": gen.seeds(),
            "prefix": st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=3, max_size=3)),
            "ops": st.lists(op, min_size=0, max_size=6).map(lambda v: [list(x) for x in v]),
        }
    )


# ---------------------------------------------------------------- scan / while_loop / cond


def run_scan(c):
    """scan over ragged sequences, with nested states"""
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, Tensor

    w = World(c["w"])
    p = gen.Picks(c["p"])
    tags = []
    with rf.set_default_float_dtype_ctx("float64"), torch.no_grad():
        rf.init_forward_step_run_ctx(epoch=1, step=0)
        kind = p.choice(["xs", "cond", "while", "arrays"])
        tags.append("scan:" + kind)
        x = w.tensor(["B", "T", "F"], dtype="float64")
        h0 = w.tensor(["B", "F"], dtype="float64")
        arrays = p.bool()
        if kind in ("xs", "arrays"):
            if w.T.dimension == 0 or w.max_T == 0:
                return ["skipped"]
            with_none = p.bool()
            steps = []

            def body(xs_, s):
                steps.append(1)
                h = s["h"] * 0.5 + xs_["x"]
                n = s["n"] + 1
                y = {"y": h * 2.0, "z": rf.reduce_sum(xs_["x"], axis=w.F)}
                return y, {"h": h, "n": n, "none": None} if with_none else {"h": h, "n": n}

            init = {"h": h0.t, "n": rf.zeros([w.B], dtype="int32")}
            if with_none:
                init["none"] = None
            ys = {"y": Tensor("y", dims=[w.B, w.F], dtype="float64"), "z": Tensor("z", dims=[w.B], dtype="float64")}
            ys_out, final, dim = rf.scan(spatial_dim=w.T, initial=init, xs={"x": x.t}, ys=ys, body=body, return_tensor_arrays=arrays)
            require(dim is w.T or dim == w.T, "scan: spatial dim changed")
            require(len(steps) == w.max_T, lambda: "scan: %i iterations for max len %i" % (len(steps), w.max_T))
            if arrays:
                for t in range(w.max_T):
                    require(
                        bool((ys_out["y"][t].raw_tensor == ys_out["y"][t - w.max_T].raw_tensor).all()), "tensor array item %i" % t
                    )
                ys_out = {k_: v.stack(axis=w.T) for k_, v in ys_out.items()}
            for b in w.seqs():
                h = h0.seq(b)
                xs_ = x.seq(b)
                want = []
                for t in range(w.lens["T"][b]):
                    h = h * 0.5 + xs_[t]
                    want.append(h * 2.0)
                assert_close(out_seq(ys_out["y"], w, b, [w.T, w.F]), numpy.array(want).reshape(-1, w.num["F"]), "scan ys, seq %i" % b)
                assert_close(out_seq(ys_out["z"], w, b, [w.T]), xs_.sum(1), "scan ys z, seq %i" % b)
                assert_close(out_seq(final["h"], w, b, [w.F]), h, "scan: final state, seq %i" % b)
                n = int(out_seq(final["n"], w, b, []))
                require(n == w.lens["T"][b], lambda: "scan: final counter %i for seq len %i" % (n, w.lens["T"][b]))
        elif kind == "cond":
            # stops per entry
            limit = [int(v) for v in w.rnd.randint(0, 6, w.c["b"])]
            before = p.bool()
            max_len = p.choice([None, None, 1, 2, 3])
            lim = _tensor("lim", [w.B], limit, "int32")

            def cond(_, s):
                return s["n"] < lim

            def body(_, s):
                h = s["h"] * 0.5 + 1.0
                return h, {"h": h, "n": s["n"] + 1, "t": s["t"] + 1}

            ys_out, final, dim = rf.scan(
                cond=cond, cond_dims=[w.B], cond_before_body=before, max_seq_len=max_len,
                initial={"h": h0.t, "n": rf.zeros([w.B], dtype="int32"), "t": rf.zeros([], dtype="int32")},
                ys=Tensor("y", dims=[w.B, w.F], dtype="float64"), body=body,
            )
            total = 0
            for b in w.seqs():
                h = h0.seq(b)
                n = 0
                want = []
                while max_len is None or len(want) < max_len:
                    if before and not n < limit[b]:
                        break
                    h = h * 0.5 + 1.0
                    n += 1
                    want.append(h)
                    if not before and not n < limit[b]:
                        break
                total = max(total, n)
                got = out_seq(ys_out, w, b, [dim, w.F]) if dim.get_dim_value() else numpy.zeros((0, w.num["F"]))
                assert_close(got, numpy.array(want).reshape(-1, w.num["F"]), "scan with cond, limit %i, seq %i" % (limit[b], b))
                assert_close(out_seq(final["h"], w, b, [w.F]), h, "scan with cond (%s body): final state, seq %i, limit %i" % ("before" if before else "after", b, limit[b]))
                require(int(out_seq(final["n"], w, b, [])) == n, lambda: "scan with cond: final counter %r, expected %i" % (final["n"].raw_tensor, n))
            require(int(final["t"].raw_tensor) == total, lambda: "scan: %s iterations, expected %i" % (final["t"].raw_tensor, total))
            if max_len is not None:
                tags.append("max_seq_len")
        else:
            n = p.int(0, 5)
            grow = p.bool()
            if grow:
                d0 = Dim(p.int(0, 2), name="acc")
                init = (rf.zeros([], dtype="int32"), d0, rf.ones([w.B, d0]))

                def body2(s):
                    i, d, acc = s
                    acc, d = rf.cum_concat_step(rf.cast(i, "float64") if False else rf.expand_dim(rf.cast(i, "float64"), w.B), prev_accum=acc, axis=d)
                    return i + 1, d, acc

                i, d, acc = rf.while_loop(lambda s: s[0] < n, body2, init)
                require(int(i.raw_tensor) == n and d.get_dim_value() == n + d0.dimension, lambda: "while_loop: %r %r" % (i.raw_tensor, d))
                want = numpy.concatenate([numpy.ones(d0.dimension), numpy.arange(n)])
                for b in w.seqs():
                    assert_close(out_seq(acc, w, b, [d]), want, "while_loop with growing dim")
                tags.append("grow")
            else:
                h, i = h0.t, rf.zeros([], dtype="int32")
                h, i = rf.while_loop(lambda s: s[1] < n, lambda s: (s[0] * 0.5 + x_mean(w, x), s[1] + 1), (h, i))
                for b in w.seqs():
                    r = h0.seq(b)
                    for _ in range(n):
                        r = r * 0.5 + x.seq(b).sum(0)
                    assert_close(out_seq(h, w, b, [w.F]), r, "while_loop, seq %i" % b)
                # cond
                v = rf.cond(_tensor("c", [], bool(n % 2), "bool"), lambda: h, lambda: h0.t)
                for b in w.seqs():
                    assert_close(out_seq(v, w, b, [w.F]), out_seq(h if n % 2 else h0.t, w, b, [w.F]), "cond")
    return tags


def x_mean(w, x):
    import returnn.frontend as rf

    return rf.reduce_sum(x.t, axis=w.T)


# ---------------------------------------------------------------- positional encoding caches


def _sin_enc(pos, dim, base=1e4):
    half = dim // 2
    div = numpy.exp(numpy.arange(half) * -(numpy.log(base) / (half - 1)))
    a = numpy.asarray(pos, "float64")[..., None] * div
    return numpy.concatenate([numpy.sin(a), numpy.cos(a)], axis=-1)


def _rel_enc(pos, dim):
    div = numpy.exp(numpy.arange(dim // 2) * -(2.0 * numpy.log(1e4) / dim))
    a = numpy.asarray(pos, "float64")[..., None] * div
    return numpy.concatenate([numpy.sin(a), numpy.cos(a)], axis=-1)


def run_cache(c):
    """a history of positional encoding calls with dims which are created, re-used, reset and deleted"""
    import gc
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, single_step_dim

    rnd = numpy.random.RandomState(c["seed"])
    feats = {n: Dim(n, name="feat%i" % n) for n in (4, 6)}
    batch = Dim(_tensor("b", [], 2, "int32"), name="batch")
    dims = {}
    tags = []

    def size_tensor(kind, n):
        if kind == "scalar":
            return _tensor("s", [], n, "int32")
        return _tensor("s", [batch], [n, max(n - 1, 0)], "int32")

    with rf.set_default_float_dtype_ctx("float64"):
        for op in c["ops"]:
            name, slot, kind, n, fn, off, qo, alt = op
            n = n + 1
            dt = "float32" if alt & 1 else None
            base = 500 if alt & 2 else 1e4
            tol = dict(rtol=1e-4, atol=1e-5) if dt else dict(rtol=1e-6, atol=1e-7)
            feat = feats[fn]
            if name == "del":
                if slot in dims:
                    del dims[slot]
                    gc.collect()
                    tags.append("del")
                continue
            if name == "reset":
                if slot in dims and dims[slot][1] != "static":
                    d, kind, _ = dims[slot]
                    d.reset_eager()
                    d.dyn_size_ext = size_tensor(kind, n)
                    dims[slot] = (d, kind, n)
                    tags.append("reset")
                continue
            if slot not in dims:
                if kind == "static":
                    d = Dim(n, name="d")
                else:
                    d = Dim(size_tensor(kind, n), name="d")
                dims[slot] = (d, kind, n)
            d, kind, n = dims[slot]
            if name == "sin":
                offset = None if off == 0 else off
                if off == 3:
                    offset = _tensor("off", [batch], [0, 5], "int32")
                y = rf.sinusoidal_positional_encoding(spatial_dim=d, feat_dim=feat, offset=offset, dtype=dt, base=base)
                order = ([batch] if off == 3 else []) + [d, feat]
                pos = numpy.arange(n)
                if off == 3:
                    pos = pos[None, :] + numpy.array([0, 5])[:, None]
                else:
                    pos = pos + off
                require(y.dims_set == set(order) and len(y.dims) == len(order), lambda: "sinusoidal_positional_encoding: %s for %s" % (y, order))
                assert_close(y.copy_transpose(order).raw_tensor.numpy(), _sin_enc(pos, fn, base), "sinusoidal positional encoding, %s len %i" % (kind, n), **tol)
            elif name == "sin_step":
                y = rf.sinusoidal_positional_encoding(spatial_dim=single_step_dim, feat_dim=feat, offset=n, dtype=dt, base=base)
                require(list(y.dims) == [feat], lambda: "sinusoidal_positional_encoding, single step: %s" % y)
                assert_close(y.raw_tensor.numpy(), _sin_enc(n, fn, base), "sinusoidal positional encoding, single step %i" % n, **tol)
            elif name == "rel_step":
                if kind == "batch":
                    continue
                y, o = rf.relative_positional_encoding(query_spatial_dim=single_step_dim, key_value_spatial_dim=d, feat_dim=feat, dtype=dt)
                require(o.get_dim_value() == n and set(y.dims) == {o, feat}, lambda: "relative_positional_encoding, single step: %s" % y)
                assert_close(y.copy_transpose([o, feat]).raw_tensor.numpy(), _rel_enc(numpy.arange(n) - (n - 1), fn), "relative pos enc, single step", **tol)
            else:
                d2, _, n2 = dims.get(off, (d, kind, n))
                y, o = rf.relative_positional_encoding(query_spatial_dim=d, key_value_spatial_dim=d2, feat_dim=feat, query_offset=qo, dtype=dt)
                total = n + n2 - 1
                require(int(o.get_dim_value()) == total and set(y.dims) == {o, feat}, lambda: "relative_positional_encoding: %s, %i + %i - 1" % (y, n, n2))
                assert_close(y.copy_transpose([o, feat]).raw_tensor.numpy(), _rel_enc(numpy.arange(total) - (n - 1) - qo, fn), "relative pos enc %i %i, offset %i" % (n, n2, qo), **tol)
            require(y.dtype == (dt or "float64") and str(y.raw_tensor.dtype) == "torch." + y.dtype, lambda: "%s: dtype %s" % (name, y))
            tags.append(name)
            tags.append("dim:" + kind)
            y = o = d = d2 = None  # noqa
    return tags


def cache_case():
    return st.fixed_dictionaries(
        {
            "seed": st.just(0),
            "ops": st.lists(
                st.tuples(
                    st.sampled_from(["sin", "rel", "sin_step", "rel_step", "reset", "del", "sin", "rel"]),
                    st.integers(0, 2),
                    st.sampled_from(["static", "scalar", "batch"]),
                    st.integers(0, 3),
                    st.sampled_from([4, 6]),
                    st.integers(0, 3),
                    st.integers(0, 2),
                    st.sampled_from([0, 0, 1, 2, 3]),
                ).map(list),
                min_size=2,
                max_size=14,
            ),
        }
    )


# ---------------------------------------------------------------- dim algebra over resets


def run_dims(c):
    """sizes of derived dims always follow from the current sizes of their base dims"""
    import torch
    from returnn.tensor import Dim

    nb = c["b"]
    batch = Dim(_tensor("b", [], nb, "int32"), name="batch")
    rnd = numpy.random.RandomState(c["seed"])
    base = {}
    val = {}

    def fresh(kind):
        if kind == "static":
            return int(rnd.randint(1, 6))
        if kind == "scalar":
            return int(rnd.randint(1, 6))
        return rnd.randint(1, 6, nb)

    def size(kind, v):
        return _tensor("s", [] if kind == "scalar" else [batch], v, "int32")

    for i, kind in enumerate(c["kinds"]):
        v = fresh(kind)
        val[i] = v
        base[i] = Dim(v, name="D%i" % i) if kind == "static" else Dim(size(kind, v), name="D%i" % i)

    def ev(e):
        """:return: dim or int, value"""
        if e[0] == "base":
            i = e[1] % len(base)
            return base[i], val[i]
        if e[0] == "int":
            return e[1], e[1]
        a, av = ev(e[1])
        b, bv = ev(e[2])
        if not isinstance(a, Dim) and not isinstance(b, Dim):
            b, bv = base[0], val[0]
        op = e[0]
        if op == "+":
            return a + b, av + bv
        if op == "*":
            return a * b, av * bv
        if op == "-":  # keep it non-negative
            if isinstance(a, int):
                return b + a, bv + av
            if isinstance(b, Dim) and e[2][0] != "base":
                # only subtract atoms: the terms of a compound dim are subtracted one by one,
                # in an order where a partial sum can be negative, and those are clipped at 0
                b, bv = base[0], val[0]
            s = a + b
            return s - b, av
        if op == "-1":
            s = a + 1 if isinstance(a, Dim) else b + 1
            sv = (av if isinstance(a, Dim) else bv) + 1
            return s - 1, sv - 1
        if isinstance(a, int):
            a, av, b, bv = b, bv, a, av
        if isinstance(b, Dim):
            b, bv = 2, 2
        b = max(b, 1)
        bv = max(bv, 1)
        if op == "//":
            return a // b, av // bv
        if op == "ceil":
            return a.ceildiv_right(b), -(-av // bv)
        raise ValueError(op)

    tags = []
    for rd, exprs in enumerate(c["rounds"]):
        if rd:
            # as the engine for a new batch
            nb_new = nb
            for i, kind in enumerate(c["kinds"]):
                if kind != "static":
                    v = fresh(kind)
                    val[i] = v
                    base[i].reset_eager()
                    base[i].dyn_size_ext = size(kind, v)
            tags.append("round")
        seen = {}
        for e in exprs:
            d, v = ev(e)
            if not isinstance(d, Dim):
                continue
            got = d.dimension
            if got is None:
                d.complete_dyn_size()
                require(d.dyn_size_ext is not None and d.dyn_size_ext.raw_tensor is not None, lambda: "%s: size not known, expr %r" % (d, e))
                got = d.dyn_size_ext.raw_tensor.numpy()
                if d.dyn_size_ext.dims:
                    require(list(d.dyn_size_ext.dims) == [batch], "%s: size dims %s" % (d, d.dyn_size_ext.dims))
                else:
                    got = int(got)
                    if not numpy.isscalar(v) and numpy.ndim(v):
                        # merged with a max over the batch is not expected for + - // of per-batch dims
                        v = numpy.max(v) if "*" in repr(e) else v
                tags.append("dyn")
            ok = numpy.array_equal(numpy.broadcast_to(numpy.asarray(got), numpy.shape(v) or ()), v) if numpy.ndim(got) <= numpy.ndim(v) else False
            if not ok and "*" in repr(e):
                # product dims (merged axes) have no per-sequence size, but only the overall size
                ok = numpy.ndim(got) == 0
                tags.append("product")
            require(ok, lambda: "round %i: dim %s for %r has size %r, expected %r (base %r)" % (rd, d, e, got, v, val))
            key = repr(e)
            if key in seen:
                require(seen[key] == d, lambda: "%r evaluated twice gives different dims %s %s" % (e, seen[key], d))
            seen[key] = d
    return tags


def dims_case():
    leaf = st.one_of(
        st.tuples(st.just("base"), st.integers(0, 2)).map(list), st.tuples(st.just("int"), st.integers(1, 4)).map(list)
    )
    expr = st.recursive(
        leaf, lambda ch: st.tuples(st.sampled_from(["+", "+", "*", "-", "-1", "//", "ceil"]), ch, ch).map(list), max_leaves=5
    )
    return st.fixed_dictionaries(
        {
            "b": st.integers(1, 3),
            "seed": gen.seeds(),
            "kinds": st.lists(st.sampled_from(["static", "batch", "batch", "scalar"]), min_size=1, max_size=3),
            "rounds": st.lists(st.lists(expr, min_size=1, max_size=4), min_size=1, max_size=3),
        }
    )


SUBS = [
    Sub("history", hist_case, run_hist, quick=900, thorough=30000, nontrivial=lambda c: len(c["ops"]) >= 2 and c["b"] > 1),
    Sub(
        "loops",
        lambda: st.fixed_dictionaries({"w": rfh.world(min_len=0, max_len=6).map(lambda c: dict(c, garbage="big")), "p": gen.picks(10)}),
        run_scan, quick=500, thorough=10000, nontrivial=C08._nontrivial,
    ),
    Sub("pos_enc_cache", cache_case, run_cache, quick=500, thorough=20000, nontrivial=lambda c: len(c["ops"]) >= 4),
    Sub("dim_algebra", dims_case, run_dims, quick=800, thorough=30000, nontrivial=lambda c: len(c["rounds"]) >= 2 and "batch" in c["kinds"]),
]
