"""C03: wrapping/combining datasets deliver exactly the data of the wrapped datasets, for any access pattern"""

from __future__ import annotations
import gzip
import os
import pickle
import tempfile
import json
import numpy
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen

DIM, NCLS = 2, 7


def setup():
    import returnn.datasets.meta  # noqa
    import returnn.datasets.map  # noqa
    import returnn.datasets.postprocessing  # noqa
    import returnn.datasets.generating  # noqa
    import returnn.datasets.hdf  # noqa


# ---- functions used inside the generated dataset definitions (module level: picklable) ----


def map_seq_double(tdict, **_kwargs):
    """map_seq"""
    from returnn.tensor import TensorDict

    res = TensorDict(tdict.data.copy())
    x = tdict.data["data"].copy()
    x.raw_tensor = tdict.data["data"].raw_tensor * numpy.float32(2)
    res.data["data"] = x
    return res


def map_seq_meta(tdict, *, epoch, seq_idx, rng, **_kwargs):
    """map_seq, uses the epoch and the seq idx, and drops the meta entries (seq tag, complete frac)"""
    from returnn.tensor import TensorDict

    assert rng is not None
    res = TensorDict({k: v for k, v in tdict.data.items() if k not in ("seq_tag", "complete_frac")})
    x = tdict.data["data"].copy()
    x.raw_tensor = tdict.data["data"].raw_tensor + numpy.float32(100 * epoch + seq_idx)
    res.data["data"] = x
    return res


class StreamNegate:
    """one to one"""

    def __call__(self, it, *, epoch, **_kwargs):
        for tdict in it:
            x = tdict.data["data"].copy()
            x.raw_tensor = tdict.data["data"].raw_tensor + numpy.float32(100 * epoch)
            tdict.data["data"] = x
            yield tdict


class StreamMap:
    """drop every seq with odd data length, repeat those with length divisible by 4"""

    def __call__(self, it, **_kwargs):
        for tdict in it:
            n = tdict.data["data"].raw_tensor.shape[0]
            if n % 2 == 1:
                continue
            yield tdict
            if n % 4 == 0:
                yield tdict


def stream_ref(seqs):
    """reference of StreamMap"""
    res = []
    for tag, d in seqs:
        n = d["data"].shape[0]
        if n % 2 == 1:
            continue
        res += [(tag, d)] * (2 if n % 4 == 0 else 1)
    return res


class GetDataset:
    """for VariableDataset"""

    def __init__(self, dicts):
        self.dicts = dicts

    def get(self_, *, epoch, **_kwargs):  # noqa
        self = self_
        return self.dicts[(epoch - 1) % len(self.dicts)]


def _unknown_num_seqs_dataset_cls():
    """a dataset which does not know its number of seqs in advance (as for example ExternSprintDataset)"""
    if "UnknownNumSeqsDataset" in globals():
        return globals()["UnknownNumSeqsDataset"]
    from returnn.datasets.basic import DatasetSeq, init_dataset
    from returnn.datasets.cached2 import CachedDataset2

    class UnknownNumSeqsDataset(CachedDataset2):
        """harness"""

        def __init__(self, inner, **kwargs):
            super().__init__(**kwargs)
            self.inner_def = inner
            self._inner = init_dataset(inner)
            self.num_inputs, self.num_outputs = self._inner.num_inputs, self._inner.num_outputs

        def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
            """order"""
            super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
            assert seq_list is None and seq_order is None
            self._inner.init_seq_order(epoch=epoch)
            return True

        def get_data_keys(self):
            """keys"""
            return self._inner.get_data_keys()

        def get_target_list(self):
            """targets"""
            return self._inner.get_target_list()

        def get_data_dtype(self, key):
            """dtype"""
            return self._inner.get_data_dtype(key)

        def _collect_single_seq(self, seq_idx):
            if not self._inner.is_less_than_num_seqs(seq_idx):
                return None
            self._inner.load_seqs(seq_idx, seq_idx + 1)
            return DatasetSeq(
                seq_idx=seq_idx,
                seq_tag=self._inner.get_tag(seq_idx),
                features={k: self._inner.get_data(seq_idx, k) for k in self._inner.get_data_keys()},
            )

    UnknownNumSeqsDataset.__qualname__ = "UnknownNumSeqsDataset"
    globals()["UnknownNumSeqsDataset"] = UnknownNumSeqsDataset
    return UnknownNumSeqsDataset


class DataList:
    """sized container"""

    def __init__(self, data):
        self.data = data

    def __len__(self):
        return len(self.data)

    def __getitem__(self, item):
        return self.data[item]


# ---- generation ----

LEAF = ("static", "map", "hdf")
ORDERS = ["default", "default", "reverse", "random", "sorted", "sorted_reverse", "laplace:.3"]


def _leaf(n=None, plain=False, types=LEAF):
    @st.composite
    def f(draw):
        nn = n if n is not None else draw(gen.sizes(1, 9))
        part, rep = (None, None) if plain else draw(st.sampled_from([(None, None)] * 3 + [(2, None), (3, 1), (1, 2), (None, 2)]))
        if part and part > nn:
            part = None
        return {
            "t": draw(st.sampled_from(types)),
            "n": nn,
            "lens": draw(st.lists(st.integers(0, 6), min_size=nn, max_size=nn)),
            "tlens": draw(st.lists(st.integers(0, 4), min_size=nn, max_size=nn)),
            "order": "default" if plain else draw(st.sampled_from(ORDERS)),
            "part": part,
            "rep": rep,
            "seed": draw(gen.seeds()),
        }

    return f()


@st.composite
def _meta(draw):
    n = draw(gen.sizes(1, 8))
    control = draw(st.booleans())
    sub0 = draw(_leaf(n, types=("map", "hdf") if control else LEAF))  # StaticDataset does not tell its current order
    return {
        "t": "meta",
        "subs": [sub0, draw(_leaf(n, plain=True))],
        "control": control,
        "perm": draw(st.one_of(st.none(), st.permutations(list(range(n))))),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted", "sorted_reverse"])),
        "part": draw(st.sampled_from([None, None, 2])),
        "swap": draw(st.booleans()),
        "list_fmt": draw(st.sampled_from(["pkl", "pkl.gz", "files", "files.gz"])),
    }


@st.composite
def tree(draw, max_depth=2):
    if max_depth == 0:
        return draw(_leaf())
    t = draw(
        st.sampled_from(
            ["leaf", "meta", "combined", "combined", "concat", "concat_seqs", "multi_epoch", "variable", "post", "stream",
             "laplace", "post_meta", "stream_keep"]
        )
    )  # fmt: skip
    if t == "leaf":
        return draw(_leaf())
    if t == "meta":
        return draw(_meta())
    if t == "combined":
        k = draw(st.integers(1, 3))
        sampling = draw(st.sampled_from([None, None, 2, 4, 7]))
        order = draw(st.sampled_from(ORDERS + ["random_dataset"] if not sampling else ["default", "random", "sorted"]))
        by_len = order.startswith("sorted") or order.startswith("laplace")
        if not sampling and draw(st.integers(0, 3)) == 0:  # num seqs not known in advance
            subs = [draw(_leaf()) for _ in range(k)]
            which = draw(st.integers(0, k - 1))
            subs = [{"t": "unknown", "subs": [s], "est": draw(st.integers(0, 12))} if i == which or draw(st.booleans()) else s for i, s in enumerate(subs)]
            return {"t": t, "subs": subs, "order": draw(st.sampled_from(["default", "random_dataset"])), "part": None,
                    "sampling": None, "other_key": draw(st.booleans())}  # fmt: skip
        return {
            "t": t,
            "subs": [draw(_leaf(types=("hdf",) if by_len else LEAF)) for _ in range(k)],
            "order": order,
            "part": None if sampling or order == "random_dataset" else draw(st.sampled_from([None, None, 2])),
            "sampling": sampling,
            "other_key": draw(st.booleans()),
        }
    if t == "concat":
        lt = draw(st.sampled_from(LEAF))
        return {"t": t, "subs": [draw(_leaf(types=(lt,))) for _ in range(draw(st.integers(1, 3)))]}
    if t == "concat_seqs":
        sub = draw(_leaf(plain=True))
        sub["postfix"] = draw(st.booleans())
        pad = draw(st.sampled_from([None, None, 1, 2]))
        if pad:
            sub["lens"] = [max(x, 1) for x in sub["lens"]]
        return {
            "t": t,
            "pad": pad,
            "filter": draw(
                st.lists(
                    st.tuples(
                        st.sampled_from([(1, 1), (1, 2), (2, 3), (2, None), (3, -1), (5, 5)]),
                        st.integers(0, 14).map(lambda x: x + 0.123),
                    ),
                    max_size=2,
                    unique_by=lambda x: x[0][0] or 1,
                )
            ),
            "subs": [sub],
            "groups": draw(
                st.lists(st.lists(st.integers(0, sub["n"] - 1), min_size=1, max_size=3), min_size=1, max_size=6)
            ),
            "order": draw(st.sampled_from(ORDERS)),
            "part": draw(st.sampled_from([None, None, 2])),
            "delim": draw(st.sampled_from([";", "@", "||"])),
            "mult": draw(st.sampled_from([None, None, 2, 3])),
        }
    sub = draw(tree(max_depth=max_depth - 1))
    if sub["t"] in ("combined", "concat"):  # their meta info is only available after loading, cannot be wrapped
        sub = sub["subs"][0]
    if t == "multi_epoch":
        return {"t": t, "subs": [sub], "k": draw(st.integers(1, 3))}
    if t == "variable":
        # the definition must be hashable, so no in-memory data
        return {"t": t, "subs": [draw(_leaf(types=("hdf",))) for _ in range(draw(st.integers(1, 3)))],
                "lru": draw(st.integers(1, 2))}  # fmt: skip
    if t == "laplace":
        return {"t": t, "subs": [sub], "bin": draw(st.integers(1, 4))}
    return {"t": t, "subs": [sub]}


# ---- reference ----


def _leaf_data(node):
    rnd = numpy.random.RandomState(node["seed"])
    return [
        {
            "data": rnd.normal(size=(node["lens"][i], DIM)).astype("float32"),
            "classes": numpy.concatenate(
                [rnd.randint(0, NCLS, size=(node["tlens"][i],)), [NCLS - 2] if node.get("postfix") else []]
            ).astype("int32"),
        }
        for i in range(node["n"])
    ]


def _order(lens, epoch, order, part=None, rep=None):
    """the order itself is the subject of C01, here we take it as given"""
    from returnn.datasets.generating import StaticDataset

    if not lens:
        return []
    ds = StaticDataset(
        [{"data": numpy.zeros((n, 1), "float32")} for n in lens], seq_ordering=order, partition_epoch=part, repeat_epoch=rep
    )
    ds.init_seq_order(epoch=epoch)
    return [int(ds.get_corpus_seq_idx(i)) for i in range(ds.num_seqs)]


def _filter_max_mean(order, lens, max_mean):
    """keep the shortest seqs, as many as possible such that the mean does not exceed the max, but at least one"""
    by_len = sorted(order, key=lambda i: (lens[i], i))
    num = 1
    for k in range(1, len(by_len) + 1):
        if sum(lens[i] for i in by_len[:k]) <= max_mean * k:
            num = k
    keep = set(by_len[:num])
    return [i for i in order if i in keep]


class Ref:
    """what the dataset has to deliver"""

    def __init__(self, node, dirname):
        self.node = node
        self.subs = [Ref(s, dirname) for s in node.get("subs", ())]
        self.dirname = dirname

    def seqs(self, epoch, seq_list=None, seq_order=None):
        """:return: list of (tag, data)"""
        node = self.node
        t = node["t"]
        if t in LEAF:
            data = _leaf_data(node)
            if seq_list is not None:
                seq_order = [int(s[len("seq-") :]) for s in seq_list]
            if seq_order is None:
                seq_order = _order(node["lens"], epoch, node["order"], node["part"], node["rep"])
            return [("seq-%i" % i, data[i]) for i in seq_order]
        if t == "meta":
            a, b = self.subs
            n = a.node["n"]
            perm = node["perm"] or list(range(n))  # seq i of a belongs to seq perm[i] of b
            da, db = _leaf_data(a.node), _leaf_data(b.node)
            if seq_list is not None:
                seq_order = [int(s[len("seq-") :]) for s in seq_list]
            if seq_order is None:
                if node["control"]:
                    seq_order = [int(tag[len("seq-") :]) for tag, _ in a.seqs(epoch)]
                else:
                    seq_order = _order(a.node["lens"], epoch, node["order"], node["part"])
            res = []
            for i in seq_order:
                x, y = da[i], db[perm[i]]
                res.append(("seq-%i" % i, {"data": x["data"], "classes": (y if node["swap"] else x)["classes"], "extra": y["data"]}))
            return res
        if t == "combined":
            subs = [s.seqs(epoch) for s in self.subs]
            if node["sampling"]:
                k = node["sampling"]
                subs = [[s[((epoch - 1) * k + i) % len(s)] for i in range(k)] for s in subs]
            flat = [(si, tag, d) for si, s in enumerate(subs) for tag, d in s]
            if node["order"] == "random_dataset":
                seq_order = None
            else:
                lens = [d["data"].shape[0] for _, _, d in flat]
                seq_order = _order(lens, epoch, node["order"], node["part"])
            res = []
            for i in seq_order if seq_order is not None else range(len(flat)):
                si, tag, d = flat[i]
                if node["other_key"] and si == 1:
                    d = {"data": d["data"], "classes": numpy.zeros((0,), "int32"), "classes1": d["classes"]}
                elif node["other_key"] and len(subs) > 1:
                    d = {"data": d["data"], "classes": d["classes"], "classes1": numpy.zeros((0,), "int32")}
                res.append((tag, d))
            return res
        if t == "concat":
            return [x for s in self.subs for x in s.seqs(epoch)]
        if t == "concat_seqs":
            data = _leaf_data(self.subs[0].node)
            lens = [sum(data[i]["data"].shape[0] for i in g) for g in node["groups"]]
            res = []
            group_order = _order(lens, epoch, node["order"], node["part"])
            for (start, end), max_mean in sorted(node.get("filter", ()), key=lambda x: x[0][0] or 1):
                if (start or 1) <= epoch <= (end if end not in (None, -1) else epoch):
                    group_order = _filter_max_mean(group_order, lens, max_mean)
            for gi in group_order:
                g = node["groups"][gi]
                x, c = [], []
                for j, i in enumerate(g):
                    y, z = data[i]["data"], data[i]["classes"]
                    if j < len(g) - 1:
                        if node["mult"] and len(y) % node["mult"]:
                            y = numpy.concatenate([y] + [y[-1:]] * (-len(y) % node["mult"]))
                        if node.get("pad"):
                            y = numpy.concatenate([y] + [y[-1:]] * (len(z) * node["pad"]))[: len(z) * node["pad"]]
                        if self.subs[0].node.get("postfix"):
                            z = z[:-1]
                    x.append(y)
                    c.append(z)
                res.append(
                    (
                        node["delim"].join("seq-%i" % i for i in g),
                        {"data": numpy.concatenate(x), "classes": numpy.concatenate(c)},
                    )
                )
            return res
        if t == "multi_epoch":
            if seq_list is not None or seq_order is not None:
                return self.subs[0].seqs((epoch - 1) * node["k"] + 1, seq_list=seq_list, seq_order=seq_order)
            return [x for e in range((epoch - 1) * node["k"] + 1, epoch * node["k"] + 1) for x in self.subs[0].seqs(e)]
        if t == "variable":
            return self.subs[(epoch - 1) % len(self.subs)].seqs(epoch, seq_list=seq_list, seq_order=seq_order)
        if t == "post":
            return [
                (tag, dict(d, data=d["data"] * numpy.float32(2)))
                for tag, d in self.subs[0].seqs(epoch, seq_list=seq_list, seq_order=seq_order)
            ]
        if t == "unknown":
            return self.subs[0].seqs(epoch)
        if t == "post_meta":
            return [
                (tag, dict(d, data=d["data"] + numpy.float32(100 * epoch + i)))
                for i, (tag, d) in enumerate(self.subs[0].seqs(epoch, seq_list=seq_list, seq_order=seq_order))
            ]
        if t == "stream_keep":
            return [(tag, dict(d, data=d["data"] + numpy.float32(100 * epoch))) for tag, d in self.subs[0].seqs(epoch)]
        if t == "stream":
            return stream_ref(self.subs[0].seqs(epoch))
        if t == "laplace":
            seqs = self.subs[0].seqs(epoch)
            res = []
            for bi in range(0, len(seqs), node["bin"]):
                res += sorted(
                    seqs[bi : bi + node["bin"]], key=lambda x: x[1]["data"].shape[0], reverse=bool((bi // node["bin"]) % 2)
                )
            return res
        raise ValueError(t)

    def fixed_order(self):
        """whether the order is fully specified by the reference (otherwise: only within each sub-dataset)"""
        return not (self.node["t"] == "combined" and self.node["order"] == "random_dataset") and all(
            s.fixed_order() for s in self.subs
        )

    def predefined(self):
        """supports predefined seq_list/seq_order"""
        t = self.node["t"]
        if t in LEAF + ("meta",):
            return True
        if t in ("post", "post_meta", "multi_epoch"):
            return self.subs[0].predefined()
        return t == "variable"

    def known_num_seqs(self):
        """num_seqs must be known already after init_seq_order"""
        t = self.node["t"]
        if t in LEAF + ("meta", "concat_seqs"):
            return True
        if t in ("post", "post_meta", "stream_keep", "laplace", "combined"):
            return all(s.known_num_seqs() for s in self.subs)
        return False

    def keys(self):
        """data keys"""
        if self.node["t"] == "meta":
            return ["classes", "data", "extra"]
        if self.node["t"] == "combined":
            return ["classes", "classes1", "data"] if self.node["other_key"] and len(self.subs) > 1 else ["classes", "data"]
        if self.node["t"] in LEAF:
            return ["classes", "data"]
        return self.subs[0].keys()


# ---- construction of the real dataset ----


def build(node, d, counter=None):
    """:return: dataset dict"""
    counter = counter if counter is not None else [0]
    counter[0] += 1
    uid = counter[0]
    t = node["t"]
    o = {}
    if node.get("order"):
        o["seq_ordering"] = node["order"]
    if node.get("part"):
        o["partition_epoch"] = node["part"]
    if node.get("rep"):
        o["repeat_epoch"] = node["rep"]
    if t == "static":
        return {"class": "StaticDataset", "data": _leaf_data(node),
                "output_dim": {"data": (DIM, 2), "classes": (NCLS, 1)}, **o}  # fmt: skip
    if t == "map":
        from returnn.datasets.map import FromListDataset

        return {
            "class": "MapDatasetWrapper",
            "map_dataset": FromListDataset(
                _leaf_data(node),
                sort_data_key="data",
                data_types={"data": {"dim": DIM, "shape": (None, DIM)},
                            "classes": {"dim": NCLS, "sparse": True, "shape": (None,)}},
            ),
            **o,
        }  # fmt: skip
    if t == "hdf":
        from returnn.datasets.hdf import SimpleHDFWriter

        fn = "%s/leaf%i.hdf" % (d, uid)
        writer = SimpleHDFWriter(fn, dim=DIM, ndim=2, extra_type={"classes": (NCLS, 1, "int32")})
        for i, x in enumerate(_leaf_data(node)):
            writer.insert_batch(
                x["data"][None], seq_len=[x["data"].shape[0]], seq_tag=["seq-%i" % i], extra={"classes": x["classes"][None]}
            )
        writer.close()
        return {"class": "HDFDataset", "files": [fn], **o}
    subs = [build(s, d, counter) for s in node["subs"]]
    if t == "meta":
        if node["perm"]:
            lists = {"a": ["seq-%i" % i for i in range(node["subs"][0]["n"])], "b": ["seq-%i" % i for i in node["perm"]]}
            fmt = node.get("list_fmt", "pkl")
            open_ = gzip.open if fmt.endswith(".gz") else open
            if fmt.startswith("pkl"):
                fn = "%s/seq_list%i.%s" % (d, uid, fmt)
                with open_(fn, "wb") as f:
                    pickle.dump(lists, f)
                o["seq_list_file"] = fn
            else:
                o["seq_list_file"] = {k: "%s/seq_list%i.%s.%s" % (d, uid, k, fmt.replace("files", "txt")) for k in lists}
                for k, fn in o["seq_list_file"].items():
                    with open_(fn, "wb") as f:
                        f.write("".join(x + "\n" for x in lists[k]).encode("utf8"))
        if node["control"]:
            o["seq_order_control_dataset"] = "a"
            o.pop("partition_epoch", None)
            o.pop("seq_ordering", None)
        return {
            "class": "MetaDataset",
            "datasets": dict(zip("ab", subs)),
            "data_map": {"data": ("a", "data"), "classes": ("b" if node["swap"] else "a", "classes"), "extra": ("b", "data")},
            **o,
        }
    if t == "combined":
        data_map = {}
        for i in range(len(subs)):
            data_map[("d%i" % i, "data")] = "data"
            data_map[("d%i" % i, "classes")] = "classes1" if i == 1 and node["other_key"] else "classes"
        return {"class": "CombinedDataset", "datasets": {"d%i" % i: s for i, s in enumerate(subs)}, "data_map": data_map,
                "sampling_sizes": node["sampling"], **o}  # fmt: skip
    if t == "concat":
        return {"class": "ConcatDataset", "datasets": subs}
    if t == "concat_seqs":
        sub = node["subs"][0]
        with open("%s/cs_list%i" % (d, uid), "w") as f:
            f.write("".join(node["delim"].join("seq-%i" % i for i in g) + "\n" for g in node["groups"]))
        with open("%s/cs_lens%i" % (d, uid), "w") as f:
            f.write(repr({"seq-%i" % i: n for i, n in enumerate(sub["lens"])}))
        if node["mult"]:
            o["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": node["mult"]}
        if sub.get("postfix"):
            o["remove_in_between_postfix"] = {"classes": NCLS - 2}
        if node.get("pad"):
            o["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", node["pad"])}
        if node.get("filter"):
            o["epoch_wise_filter"] = {tuple(r): {"max_mean_len": x} for r, x in node["filter"]}
        return {"class": "ConcatSeqsDataset", "dataset": subs[0], "seq_list_file": "%s/cs_list%i" % (d, uid),
                "seq_len_file": "%s/cs_lens%i" % (d, uid), "seq_tag_delim": node["delim"], **o}  # fmt: skip
    if t == "multi_epoch":
        return {"class": "MultiEpochDataset", "dataset": subs[0], "multi_epoch": node["k"]}
    if t == "variable":
        # the dicts get hashed
        return {"class": "VariableDataset", "get_dataset": GetDataset(subs).get, "dataset_lru_cache_size": node["lru"]}
    if t == "post":
        return {"class": "PostprocessingDataset", "dataset": subs[0], "map_seq": map_seq_double}
    if t == "unknown":
        return {"class": _unknown_num_seqs_dataset_cls(), "inner": subs[0], "estimated_num_seqs": node["est"]}
    if t == "post_meta":
        return {"class": "PostprocessingDataset", "dataset": subs[0], "map_seq": map_seq_meta}
    if t == "stream_keep":
        return {"class": "PostprocessingDataset", "dataset": subs[0], "map_seq_stream": StreamNegate(),
                "map_seq_stream_preserves_num_seqs": True}  # fmt: skip
    if t == "stream":
        return {"class": "PostprocessingDataset", "dataset": subs[0], "map_seq_stream": StreamMap()}
    if t == "laplace":
        from returnn.datasets.postprocessing import LaplaceOrdering

        return {"class": "PostprocessingDataset", "dataset": subs[0], "map_seq_stream": LaplaceOrdering(node["bin"])}
    raise ValueError(t)


def _same(got, exp):
    if got[0] != exp[0]:
        return False
    return set(got[1]) == set(exp[1]) and all(_arr_eq(got[1][k], exp[1][k]) for k in exp[1])


def _arr_eq(a, b):
    a = numpy.asarray(a)
    if a.shape[:1] == (0,) and b.shape[:1] == (0,):
        return a.dtype == b.dtype  # empty: feature dim irrelevant
    return a.shape == b.shape and a.dtype == b.dtype and bool(numpy.array_equal(a, b))


def _key(x):
    return (x[0], sorted((k, v.shape[0], v.tobytes()) for k, v in x[1].items()))


def consume(ds, keys, ops, max_seqs=None):
    """iterate over the dataset with the given access pattern. return list of (tag, data)"""
    res = []
    i = 0
    op_i = 0
    last_frac = 0.0
    while ds.is_less_than_num_seqs(i) and (max_seqs is None or i < max_seqs):
        op = ops[op_i % len(ops)] if ops else "one"
        op_i += 1
        width = 1
        if op == "len_ahead":
            ds.get_seq_length(i)
        elif op == "tag_ahead":
            ds.get_tag(i)
        elif op == "peek2":
            ds.is_less_than_num_seqs(i + 2)
        elif op == "win2":
            width = 2
        elif op == "win3":
            width = 3
        elif op == "win_over":
            width = 9
        elif op == "dtype":
            ds.get_data_dtype("data")
        while not ds.is_less_than_num_seqs(i + width - 1):
            width -= 1
        ds.load_seqs(i, i + width)
        if op == "again":
            ds.load_seqs(i, i + 1)
        for j in range(i, i + width):
            if not ds.is_less_than_num_seqs(j):
                break
            tag = ds.get_tag(j)
            d = {k: ds.get_data(j, k) for k in keys}
            lens = ds.get_seq_length(j)
            for k in keys:
                require(lens[k] == d[k].shape[0], lambda: "seq %i %s: get_seq_length %r vs data %r" % (j, tag, lens, d[k].shape))
            frac = ds.get_complete_frac(j)
            require(frac is None or 0 < frac <= 1, lambda: "complete_frac %r" % frac)
            frac = ds.get_complete_frac(j, allow_only_lr_suitable=True)
            require(frac is None or last_frac <= frac <= 1, lambda: "complete_frac %r after %r" % (frac, last_frac))
            last_frac = frac or last_frac
            res.append((tag, d))
        i += width
    i = len(res)
    if max_seqs is None:
        require(not ds.is_less_than_num_seqs(i), "is_less_than_num_seqs inconsistent at the end")
        try:
            num_seqs = ds.num_seqs
        except NotImplementedError:  # never known, see known_num_seqs()
            num_seqs = i
        require(num_seqs == i, lambda: "num_seqs %r after having iterated over %i seqs" % (num_seqs, i))
    return res


def _assert_stream(got, exp, ref, what):
    require(
        len(got) == len(exp),
        lambda: "%s: got %i seqs %r, expected %i seqs %r" % (what, len(got), [t for t, _ in got], len(exp), [t for t, _ in exp]),
    )
    if not ref.fixed_order():
        if ref.node["t"] == "combined":
            # random_dataset: the order within each sub-dataset is kept
            exp_pos = {repr(_key(x)): i for i, x in enumerate(exp)}
            if len(exp_pos) == len(exp):
                pos = [exp_pos.get(repr(_key(x)), -1) for x in got]
                start = 0
                for sub in ref.subs:
                    n = len(sub.seqs(int(what.split()[1])))
                    sub_pos = [p for p in pos if start <= p < start + n]
                    require(sub_pos == list(range(start, start + n)), lambda: "%s: order within sub-dataset: %r" % (what, pos))
                    start += n
        got, exp = sorted(got, key=_key), sorted(exp, key=_key)
    for i, (g, e) in enumerate(zip(got, exp)):
        require(_same(g, e), lambda: "%s: seq %i: got %r, expected %r" % (what, i, g, e))


OPS = ["one", "len_ahead", "tag_ahead", "peek2", "win2", "win3", "win_over", "again", "dtype"]


@st.composite
def stream_case(draw):
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(
            {
                "epoch": draw(st.sampled_from([1, 1, 2, 3, 5])),
                "ops": draw(st.lists(st.sampled_from(OPS), max_size=4)),
                "partial": draw(st.sampled_from([None, None, None, 1, 2])),
                "predef": draw(st.sampled_from([None, None, "list", "order"])),
                "finish": draw(st.booleans()),
            }
        )
    return {"tree": draw(tree()), "steps": steps, "pickle": draw(st.sampled_from([False, False, True]))}


def check_stream(case):
    from returnn.datasets.basic import init_dataset

    with tempfile.TemporaryDirectory() as d:
        ref = Ref(case["tree"], d)
        if any(not s for s in [ref.seqs(e) for e in range(1, 8)]):
            # some (inner) epoch without any seq: not supported by several of those datasets
            return ["skip_empty"]
        if _has_empty_inner(ref):
            return ["skip_empty"]
        ds = init_dataset(build(case["tree"], d))
        if case["pickle"]:
            ds = pickle.loads(pickle.dumps(ds))
        keys = ref.keys()
        labels = [case["tree"]["t"], "depth%i" % _depth(case["tree"])]
        for step in case["steps"]:
            ep = step["epoch"]
            kw = {}
            if step["predef"] and ref.predefined():
                n = _num_corpus(case["tree"], ep)
                idx = list(range(n))[::-2]
                if step["predef"] == "list":
                    kw["seq_list"] = ["seq-%i" % i for i in idx]
                else:
                    kw["seq_order"] = idx
                labels.append("predef_" + step["predef"])
            ds.init_seq_order(epoch=ep, **kw)
            require(sorted(ds.get_data_keys()) == keys, lambda: "data keys %r vs %r" % (ds.get_data_keys(), keys))
            exp = ref.seqs(ep, **kw)
            try:
                num_seqs = ds.num_seqs
            except NotImplementedError:
                num_seqs = None
            require(num_seqs is not None or not ref.known_num_seqs(), "num_seqs not known")
            if num_seqs is not None:
                require(num_seqs == len(exp), lambda: "epoch %i %r: num_seqs %i vs %i" % (ep, kw, num_seqs, len(exp)))
            got = consume(ds, keys, step["ops"], max_seqs=step["partial"])
            if step["partial"]:
                if ref.fixed_order():
                    _assert_stream(got, exp[: len(got)], ref, "epoch %i (partial)" % ep)
                labels.append("partial")
            else:
                _assert_stream(got, exp, ref, "epoch %i %r" % (ep, kw))
            if step["finish"]:
                ds.finish_epoch()
    return labels


def _num_corpus(node, epoch=1):
    while node["t"] not in LEAF:
        if node["t"] == "multi_epoch":
            epoch = (epoch - 1) * node["k"] + 1
        node = node["subs"][(epoch - 1) % len(node["subs"]) if node["t"] == "variable" else 0]
    return node["n"]


def _depth(node):
    return 1 + max([_depth(s) for s in node.get("subs", ())] or [0])


def _has_empty_inner(ref):
    return any(any(not s.seqs(e) for e in range(1, 16)) or _has_empty_inner(s) for s in ref.subs)


@st.composite
def random_dataset_case(draw):
    return {
        "ns": draw(st.lists(st.integers(1, 12), min_size=1, max_size=4)),
        "part": draw(st.integers(2, 5)),
        "full_epoch": draw(st.integers(1, 3)),
    }


def check_random_dataset(case):
    """random_dataset with partition_epoch: over the full epoch, each sub-dataset is seen completely, in its order"""
    from returnn.datasets.basic import init_dataset

    ns = case["ns"]
    part = case["part"]
    if sum(ns) < part:
        return ["skip"]
    subs = {
        "d%i" % i: {"class": "StaticDataset", "data": [{"data": numpy.array([i, j], "int32")} for j in range(n)],
                    "output_dim": {"data": (100, 1)}}
        for i, n in enumerate(ns)
    }  # fmt: skip
    ds = init_dataset(
        {"class": "CombinedDataset", "datasets": subs, "data_map": {(k, "data"): "data" for k in subs},
         "seq_ordering": "random_dataset", "partition_epoch": part}
    )  # fmt: skip
    seen = []
    sizes = []
    for ep in range((case["full_epoch"] - 1) * part + 1, case["full_epoch"] * part + 1):
        ds.init_seq_order(epoch=ep)
        got = [tuple(x[1]["data"].tolist()) for x in consume(ds, ["data"], [])]
        sizes.append(len(got))
        seen += got
    for i, n in enumerate(ns):
        require([y for x, y in seen if x == i] == list(range(n)), lambda: "sub %i: %r, sizes %r" % (i, seen, sizes))
    require(len(seen) == sum(ns), lambda: "num %r" % seen)
    require(max(sizes) - min(sizes) <= 1, lambda: "sizes of the partitions %r" % sizes)
    return ["part%i" % part]


@st.composite
def labels_case(draw):
    return {
        "kind": draw(st.sampled_from(["meta", "combined", "multi_epoch", "post", "concat_seqs"])),
        "labels": draw(st.lists(st.text("abcäß_ ", min_size=1, max_size=3), min_size=1, max_size=5, unique=True)),
        "other": draw(st.lists(st.text("xyz", min_size=1, max_size=3), min_size=1, max_size=5, unique=True)),
    }


def check_labels(case):
    """the labels of the wrapped dataset(s) are those of the wrapping dataset, with the keys mapped"""
    from returnn.datasets.basic import init_dataset

    def _mk(classes, data):
        ds = init_dataset({"class": "StaticDataset", "data": [{"data": numpy.array([0], "int32"), "classes": numpy.array([0, 0], "int32")}],
                           "output_dim": {"data": (len(data), 1), "classes": (len(classes), 1)}})  # fmt: skip
        ds.labels = {"classes": classes, "data": data}
        return ds

    la, lb = case["labels"], case["other"]
    kind = case["kind"]
    exp = {"classes": la, "data": lb}
    with tempfile.TemporaryDirectory() as d:
        sub = _mk(la, lb)
        if kind == "meta":
            opts = {"class": "MetaDataset", "datasets": {"a": sub, "b": _mk(lb, la)},
                    "data_map": {"data": ("a", "data"), "classes": ("a", "classes"), "c2": ("b", "classes"), "d2": ("b", "data")}}  # fmt: skip
            exp.update(c2=lb, d2=la)
        elif kind == "combined":
            opts = {"class": "CombinedDataset", "datasets": {"a": sub, "b": _mk(lb, la)},
                    "data_map": {("a", "data"): "data", ("a", "classes"): "classes", ("b", "classes"): "c2", ("b", "data"): "d2"}}  # fmt: skip
            exp.update(c2=lb, d2=la)
        elif kind == "multi_epoch":
            opts = {"class": "MultiEpochDataset", "dataset": sub, "multi_epoch": 2}
        elif kind == "post":
            opts = {"class": "PostprocessingDataset", "dataset": sub, "map_seq": map_seq_double}
        else:
            with open(d + "/l", "w") as f:
                f.write("seq-0\n")
            with open(d + "/n", "w") as f:
                f.write("{'seq-0': 1}")
            opts = {"class": "ConcatSeqsDataset", "dataset": sub, "seq_list_file": d + "/l", "seq_len_file": d + "/n"}
        ds = init_dataset(opts)
        ds.init_seq_order(epoch=1)
        for k, ls in exp.items():
            require(list(ds.labels.get(k, ())) == ls, lambda: "%s: labels %r, expected %r" % (k, ds.labels, exp))
            require(ds.num_outputs[k][0] == len(ls), lambda: "%s: num_outputs %r" % (k, ds.num_outputs))
            require(ds.is_data_sparse(k), lambda: "%s: not sparse" % k)
            raw = numpy.array([len(ls) - 1, 0], "int32")
            sep = "" if all(len(x) == 1 for x in ls) else " "
            require(ds.serialize_data(k, raw) == sep.join([ls[-1], ls[0]]), lambda: "serialize %r" % ds.serialize_data(k, raw))
    return [kind]


SUBS = [
    Sub("random_dataset", random_dataset_case, check_random_dataset, quick=150, thorough=1500,
        nontrivial=lambda c: len(c["ns"]) > 1),
    Sub("labels", labels_case, check_labels, quick=120, thorough=600, nontrivial=lambda c: len(c["labels"]) > 1),
    Sub("stream", stream_case, check_stream, quick=5000, thorough=20000,
        nontrivial=lambda c: c["tree"]["t"] not in LEAF and _num_corpus(c["tree"]) >= 2),
]  # fmt: skip
