"""C01: sequence order of an epoch"""

from __future__ import annotations
import os
import pickle
import gzip
import tempfile
from hypothesis import strategies as st
from vlib.core import Sub, require
from vlib import gen


def setup():
    import returnn.datasets.basic  # noqa


ORDERS = (
    ["default", "reverse", "sorted", "sorted_reverse", "random", "laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"]
    + ["random:2", "random:3", "laplace:1", "laplace:3", "laplace:.2", "laplace:.5", "laplace:.3:2", "laplace:4:3"]
    + ["sort_bin_shuffle:3", "sort_bin_shuffle:.3", "sort_bin_shuffle:.4:2", "sort_bin_shuffle_x2:3:2"]
    + ["sort_bin_shuffle_x2:.5", "default_every_n:1", "default_every_n:2", "default_every_n:3", "default_every_n:5"]
)


@st.composite
def case_strategy(draw):
    n = draw(gen.sizes(1, 60))
    order = draw(
        st.one_of(
            st.sampled_from(ORDERS),
            st.builds(lambda k, b, dot, nth: "%s:%s%i:%i" % (k, dot, b, nth),
                      st.sampled_from(["laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"]),
                      st.integers(1, 9), st.sampled_from(["", "."]), st.integers(1, 3)),
        )
    )  # fmt: skip
    if order.startswith("default_every_n:"):
        n = -(-n // int(order[16:])) * int(order[16:])  # only defined for this
    mode = draw(st.sampled_from(["plain", "partition", "partition", "shard", "both", "repeat"]))
    case = {
        "n": n,
        "order": order,
        "via_func": draw(st.booleans()),
        "lens": draw(st.lists(st.integers(0, draw(st.sampled_from([1, 5, 1000]))), min_size=n, max_size=n)),
        "partition": draw(st.integers(2, 7)) if mode in ("partition", "both") else draw(st.sampled_from([None, 1])),
        "shards": draw(st.integers(2, 5)) if mode in ("shard", "both") else 1,
        "repeat": draw(st.integers(2, 4)) if mode == "repeat" else draw(st.sampled_from([None, 1])),
        "first_epoch": draw(st.sampled_from([1, 1, 2, 3, 8, 23])),
        "fixed_seed": draw(st.sampled_from([None, None, None, 0, 1, 17])),
        "seed_offset": draw(st.sampled_from([None, 0, 1, 16127])),
        "tags": None,
        "unique": False,
        "filter": None,
        "filter_fmt": draw(st.sampled_from(["txt", "gz", "pkl", "pkl.gz"])),
        "lens_file": draw(st.sampled_from([None, None, "txt", "gz"])),
    }
    if draw(st.integers(0, 2)) == 0:
        case["unique"] = True
        case["tags"] = draw(st.lists(st.integers(0, max(1, n // 2)), min_size=n, max_size=n))
    if draw(st.integers(0, 2)) == 0:
        case["filter"] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)))
    return case


def check_order(case):
    from returnn.datasets.basic import Dataset

    n, lens = case["n"], case["lens"]
    tags = ["tag%i" % t for t in case["tags"]] if case["tags"] is not None else ["tag%i" % i for i in range(n)]

    class _Ds(Dataset):
        """minimal dataset, only for the order"""

        def get_all_tags(self):
            """tags"""
            return list(tags)

        def get_total_num_seqs(self, *, fast=False):
            """num"""
            return n

    P, S, R = case["partition"] or 1, case["shards"], case["repeat"] or 1
    order = case["order"]
    filter_tags = sorted({tags[i] for i in case["filter"]}) if case["filter"] is not None else None
    with tempfile.TemporaryDirectory() as d:
        kw = {}
        if filter_tags is not None:
            fmt = case["filter_fmt"]
            fn = d + "/filter." + fmt
            op = gzip.open if fmt.endswith("gz") else open
            if "pkl" in fmt:
                with op(fn, "wb") as f:
                    pickle.dump(filter_tags, f)
            else:
                with op(fn, "wt") as f:
                    f.write("\n".join(filter_tags) + "\n")
            kw["seq_list_filter_file"] = fn
        get_len = lambda i: lens[i]  # noqa
        if case["lens_file"] and case["tags"] is None:
            fn = d + "/lens." + case["lens_file"]
            op = gzip.open if fn.endswith("gz") else open
            with op(fn, "wt") as f:
                f.write(repr({t: lens[i] for i, t in enumerate(tags)}))
            kw["seq_order_seq_lens_file"] = fn
            get_len = lambda i: 0  # noqa

        def mk(shard, **over):
            opts = dict(
                name="t",
                seq_ordering=(lambda *, epoch, **_kw: order) if case["via_func"] else order,
                partition_epoch=case["partition"],
                repeat_epoch=case["repeat"],
                fixed_random_seed=case["fixed_seed"],
                random_seed_offset=case["seed_offset"],
                unique_seq_tags=case["unique"],
                _num_shards=S,
                _shard_index=shard,
            )
            opts.update(kw)
            opts.update(over)
            return _Ds(**opts)

        def call(ds, epoch):
            """None if nothing left (the dataset refuses that)"""
            try:
                return [int(i) for i in ds.get_seq_order_for_epoch(epoch, n, get_len)]
            except AssertionError:
                if filter_tags is None:
                    raise
                return None

        ds_per_shard = [mk(s) for s in range(S)]
        # Reference for the same full epoch: everything in one piece.
        # partition_epoch of the reference is still what determines the seed, thus use epochs accordingly.
        nth = _nth(order)
        e0 = case["first_epoch"]
        full_orders = []
        for full_idx in range(2):
            full = e0 - 1 + full_idx  # 0-based full epoch idx
            pieces = []
            for p in range(P):
                for s in range(S):
                    pieces.append(call(ds_per_shard[s], full * P + p + 1))
            full_orders.append(pieces)
            _check_full_epoch(case, pieces, tags, filter_tags, P, S, R)
            # determinism: fresh objects, other query order
            for p in reversed(range(P)):
                for s in reversed(range(S)):
                    again = call(mk(s), full * P + p + 1)
                    require(again == pieces[p * S + s], lambda: "not deterministic: %r vs %r" % (again, pieces[p * S + s]))
            # pieces together are the order of the undivided dataset, with the same seed
            if R == 1 and filter_tags is None:
                whole = call(mk(0, partition_epoch=None, _num_shards=1, _shard_index=0), full + 1)
                require([i for pc in pieces for i in pc] == whole,
                        lambda: "partitions/shards %r are not the consecutive parts of the whole order %r" % (pieces, whole))  # fmt: skip
        # seed dependence
        is_rnd = any(order.startswith(x) for x in ("random", "laplace", "sort_bin"))
        if not is_rnd or case["fixed_seed"] is not None:
            require(full_orders[0] == full_orders[1], "order must not depend on the epoch")
        elif (e0 - 1) // nth == e0 // nth:
            require(full_orders[0] == full_orders[1], "order must stay the same for the configured number of epochs")
        elif order.startswith("random") and n >= 30 and filter_tags is None and not case["unique"]:
            require(full_orders[0] != full_orders[1], "order must change with the epoch")
            other = [call(mk(s, random_seed_offset=(case["seed_offset"] or 0) + 5), (e0 - 1) * P + p + 1)
                     for p in range(P) for s in range(S)]  # fmt: skip
            require(other != full_orders[0], "order must depend on the random seed offset")
    labels = [order.split(":")[0]]
    labels += [k for k, v in dict(partition=P > 1, shard=S > 1, repeat=R > 1, filter=filter_tags is not None,
                                  unique=case["unique"], more_parts_than_seqs=P * S > n).items() if v]  # fmt: skip
    return labels


def _nth(order):
    parts = order.split(":")
    if parts[0] == "random":
        return int(parts[1]) if len(parts) > 1 else 1
    return int(parts[2]) if len(parts) > 2 else 1


def _num_bins(order, n):
    parts = order.split(":")[1:]
    if not parts:
        return 2
    if parts[0].startswith("."):
        return max(n // int(parts[0][1:]), 2)
    return int(parts[0])


def _check_full_epoch(case, pieces, tags, filter_tags, P, S, R):
    n, lens, order = case["n"], case["lens"], case["order"]
    # sizes of parts as balanced as possible
    if filter_tags is None:
        szs = [len(p) // R for p in pieces]
        require(max(szs) - min(szs) <= 1, lambda: "unbalanced partition sizes %r" % szs)
        for p in pieces:
            require(R == 1 or p == p[: len(p) // R] * R, "repeat_epoch should repeat the seqs in the same order")
        seqs = [i for p in pieces for i in p[: len(p) // R]]
    else:
        for p in pieces:
            if p is not None and R > 1:
                require(p == p[: len(p) // R] * R, "repeat_epoch should repeat the seqs in the same order")
        seqs = [i for p in pieces for i in (p or [])[: len(p or []) // R]]
    allowed = [i for i in range(n) if filter_tags is None or tags[i] in filter_tags]
    if case["unique"]:
        require(len({tags[i] for i in seqs}) == len(seqs), "duplicate tag despite unique_seq_tags")
        require({tags[i] for i in seqs} == {tags[i] for i in allowed}, lambda: "tags lost: %r" % seqs)
        require(set(seqs) <= set(allowed), "filtered seq contained")
    else:
        require(sorted(seqs) == allowed, lambda: "not every seq exactly once: %r, expected a permutation of %r" % (seqs, allowed))
    kind = order.split(":")[0]
    ls = [lens[i] for i in seqs]
    if kind == "default":
        require(seqs == sorted(seqs), "default order must be corpus order")
    elif kind == "default_every_n" and not case["unique"]:
        # n parallel streams, interleaved
        k = int(order.split(":")[1])
        exp = [i * (n // k) + j for j in range(n // k) for i in range(k)]
        exp = [i for i in exp if i in set(allowed)]
        require(seqs == exp, lambda: "default_every_n: %r, expected %r" % (seqs, exp))
    elif kind == "reverse":
        require(seqs == sorted(seqs, reverse=True), "reverse order")
    elif kind in ("sorted", "sorted_reverse"):
        sign = 1 if kind == "sorted" else -1
        exp = sorted(seqs, key=lambda i: (sign * lens[i], i))
        require(seqs == exp, lambda: "%s: got lens %r" % (kind, ls))
    elif kind == "laplace" and not case["unique"] and filter_tags is None:
        bins = _num_bins(order, n)
        for b in range(bins):
            part = ls[b * n // bins : (b + 1) * n // bins]
            require(part == sorted(part, reverse=b % 2 == 1), lambda: "laplace: bin %i of %i not sorted: %r" % (b, bins, part))
    elif kind.startswith("sort_bin_shuffle") and not case["unique"] and filter_tags is None:
        # bins are consecutive parts of the sorted list; each bin sorted for the non-x2 variant
        bins = _num_bins(order, n)
        srt = sorted(ls)
        parts = [tuple(srt[b * n // bins : (b + 1) * n // bins]) for b in range(bins)]
        require(_is_concat_of_bins(ls, parts, x2=kind.endswith("x2")),
                lambda: "%s: got lens %r, bins %r" % (order, ls, parts))  # fmt: skip
        if kind.endswith("x2") and _num_orders(parts) > 1e10:  # otherwise it could be sorted by chance
            require(not _is_concat_of_bins(ls, parts, x2=False), lambda: "%s: not shuffled within the bins, lens %r" % (order, ls))


def _num_orders(parts):
    """number of distinguishable orders within the bins"""
    import math

    res = 1
    for p in parts:
        res *= math.factorial(len(p))
        for x in set(p):
            res //= math.factorial(p.count(x))
    return res


def _is_concat_of_bins(ls, parts, x2):
    """whether ls is the concatenation of the parts in some order (each one sorted unless x2)"""
    from collections import Counter

    todo = Counter(p for p in parts if p)
    fail = set()

    def rec(pos):
        if pos == len(ls):
            return True
        key = (pos, tuple(sorted(todo.items())))
        if key in fail:
            return False
        for p in list(todo):
            if todo[p] <= 0:
                continue
            seg = tuple(ls[pos : pos + len(p)])
            if (tuple(sorted(seg)) if x2 else seg) == p:
                todo[p] -= 1
                if rec(pos + len(p)):
                    return True
                todo[p] += 1
        fail.add(key)
        return False

    return rec(0)


SUBS = [
    Sub("order", case_strategy, check_order, quick=4000, thorough=60000,
        nontrivial=lambda c: c["n"] >= 2 and ((c["partition"] or 1) > 1 or c["shards"] > 1 or c["order"] != "default")),
]  # fmt: skip
