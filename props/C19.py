"""C19: text to labels: vocabularies, subword units, text corpora"""

from __future__ import annotations
import ast
import contextlib
import gzip
import json
import os
import pickle
import re
import tempfile
import numpy
from xml.sax.saxutils import escape as xml_escape
from hypothesis import strategies as st
from vlib.core import Sub, require


def setup():
    import returnn.datasets.lm  # noqa
    import returnn.datasets.text_dict  # noqa
    import returnn.datasets.util.vocabulary  # noqa


def literal_eval(s):
    from returnn.util.literal_py_to_pickle import literal_eval as f

    return f(s)


CHARS = "abcdé中😀'\"\\{}<>#-_"
word_st = st.one_of(
    st.text("ab", min_size=1, max_size=3),
    st.text(CHARS, min_size=1, max_size=4),
)


def write(fn, text):
    data = text if isinstance(text, bytes) else text.encode("utf8")
    with (gzip.open if fn.endswith(".gz") else open)(fn, "wb") as f:
        f.write(data)
    return fn


def uniq(xs):
    return list(dict.fromkeys(xs))


# ---------------------------------------------------------------- vocab


def write_vocab(d, labels, fmt, name="vocab"):
    """-> kwargs for Vocabulary"""
    if fmt == "list":
        return {"vocab_file": None, "labels": list(labels)}
    if fmt == "func":
        return {"vocab_file": None, "labels": lambda: list(labels)}
    fn = d + "/" + name + "." + fmt
    m = {v: i for i, v in enumerate(labels)}
    if fmt == "pkl":
        with open(fn, "wb") as f:
            pickle.dump(m, f)
    elif fmt.startswith("py"):
        write(fn, repr(dict(reversed(list(m.items())))))
    else:
        write(fn, "".join(v + "\n" for v in labels))
    return {"vocab_file": fn}


def run_vocab(c):
    from returnn.datasets.util.vocabulary import Vocabulary

    labels = c["labels"]
    index = {v: i for i, v in enumerate(labels)}
    tags = set()
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        kw = write_vocab(d, labels, c["fmt"])
        kind = c["kind"]
        if kind != "Vocabulary" or c["explicit"]:
            kw["class"] = kind
        if kind == "Utf8ByteTargets":
            kw = {"class": kind}
            labels = [chr(i) for i in range(256)]
            index = {v: i for i, v in enumerate(labels)}
        else:
            unk = c["unk"]
            kw["unknown_label"] = None if unk is None else (labels[unk % len(labels)] if not c["unk_id"] else unk % len(labels))
            unk = None if unk is None else unk % len(labels)
        spec, via_file = {}, {}
        for i, (k, pos, as_id, in_file) in enumerate(c["special"]):
            v = pos % len(labels)
            if k in ("control_symbols", "user_defined_symbols"):
                x = {"n%i" % i: v if as_id else labels[v]}
                spec.setdefault(k, {})["n%i" % i] = v
                (via_file if in_file else kw).setdefault(k, {}).update(x)
            else:
                if in_file and k in via_file or not in_file and k in kw:
                    continue
                if in_file:
                    via_file[k] = v if as_id else labels[v]
                    if k not in kw:
                        spec[k] = v
                else:
                    kw[k] = v if as_id else labels[v]
                    spec[k] = v  # takes precedence
        if via_file and kind != "Utf8ByteTargets":
            kw["special_symbols_via_file"] = write(d + "/special.txt", repr(via_file))
        elif via_file:
            for k, v in via_file.items():
                if isinstance(v, dict):
                    kw.setdefault(k, {}).update(v)
                elif k not in kw:
                    kw[k] = v
        if c["num_labels"]:
            kw["num_labels"] = len(labels)
        postfix = [p % len(labels) for p in c["postfix"]]
        if postfix:
            kw["seq_postfix"] = list(postfix)
        kw0 = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
        vocabs = [Vocabulary.create_vocab(**kw) for _ in range(2)]
        require(kw == kw0, lambda: "options were modified: %r -> %r" % (kw0, kw))
        sentences = list(c["sentences"])
        for v in vocabs:
            info = lambda what: "%s: %r, labels %r, %r" % (what, v, labels, c)
            require(v.num_labels == len(labels) and list(v.labels) == labels, lambda: info("labels %r" % (v.labels,)))
            for i, lab in enumerate(labels):
                require(v.label_to_id(lab) == i and v.id_to_label(i) == lab and v.to_id(lab) == i and v.to_id(i) == i, lambda: info("label %r <-> id %i" % (lab, i)))
                require(v.is_id_valid(i), "valid id")
            for i in (-1, len(labels), len(labels) + 3):
                require(not v.is_id_valid(i) and v.id_to_label(i, default=None) is None, lambda: info("id %i" % i))
                with raises(KeyError, "id_to_label(%i)" % i):
                    v.id_to_label(i)
            for lab in ("nope nope", "", "\x00z"):
                if lab not in index:
                    require(v.label_to_id(lab, default=None) is None and v.label_to_id(lab, default=-7) == -7, lambda: info("unknown label"))
                    with raises(KeyError, "label_to_id(%r)" % lab):
                        v.label_to_id(lab)
            for k in ("bos_label", "eos_label", "pad_label"):
                require(getattr(v, k + "_id") == spec.get(k), lambda: info("%s %r, expected %r" % (k, getattr(v, k + "_id"), spec.get(k))))
            for k, a in (("control_symbols", "control_symbol_ids"), ("user_defined_symbols", "user_defined_symbol_ids")):
                require(getattr(v, a) == spec.get(k, {}), lambda: info("%s %r, expected %r" % (k, getattr(v, a), spec.get(k, {}))))
            for words in sentences:
                if kind == "Vocabulary":
                    text, units = " ".join(words), words
                else:
                    text = "".join(words)
                    units = list(text) if kind == "CharacterTargets" else [chr(b) for b in text.encode("utf8")]
                if kind != "Utf8ByteTargets":
                    missing = [u for u in units if u not in index]
                    require(v.unknown_label_id == unk and v.unknown_label == (None if unk is None else labels[unk]), lambda: info("unknown label %r %r" % (v.unknown_label, v.unknown_label_id)))
                    if unk is None and missing:
                        with raises(KeyError, "unknown label without unknown_label"):
                            v.get_seq(text)
                        continue
                    if missing:
                        tags.add("unknown")
                ids = [index.get(u, None if kind == "Utf8ByteTargets" else unk) for u in units]
                res = v.get_seq(text)
                require(list(res) == ids + postfix, lambda: info("%r -> %r, expected %r" % (text, res, ids + postfix)))
                if kind == "Utf8ByteTargets":
                    back = v.get_seq_labels(ids)
                    back2 = v.get_seq_labels(numpy.array(ids, dtype=c["dtype"]))
                    require(back == text and back2 == text, lambda: info("%r -> %r -> %r" % (text, ids, back)))
            if kind != "Utf8ByteTargets":
                for ids in c["ids"]:
                    ids = [i % len(labels) for i in ids]
                    text = v.get_seq_labels(ids)
                    text2 = v.get_seq_labels(numpy.array(ids, dtype=c["dtype"]))
                    require(text == text2, lambda: info("list %r, numpy %r" % (text, text2)))
                    res = v.get_seq(text)
                    require(list(res) == ids + postfix, lambda: info("ids %r -> %r -> %r" % (ids, text, res)))
            require(v.seq_postfix == postfix, lambda: info("postfix modified: %r" % v.seq_postfix))
        m = Vocabulary.create_vocab_dict_from_labels(labels)
        require(m == index, "create_vocab_dict_from_labels")
        v = Vocabulary.create_vocab_from_labels(list(labels))
        require(list(v.labels) == labels, "create_vocab_from_labels")
        t = type(v).__name__
        if any(len(x) != 1 for x in labels):
            require(t == "Vocabulary", t)
        else:
            require(t == ("Utf8ByteTargets" if labels == [chr(i) for i in range(256)] else "CharacterTargets"), t)
    return tags | {kind, "fmt:" + c["fmt"]}


@contextlib.contextmanager
def raises(cls, what):
    try:
        yield
    except cls:
        return
    require(False, "no %s: %s" % (cls.__name__, what))


@st.composite
def case_vocab(draw):
    kind = draw(st.sampled_from(["Vocabulary", "Vocabulary", "CharacterTargets", "Utf8ByteTargets"]))
    if kind == "Vocabulary":
        labels = draw(st.lists(word_st, min_size=1, max_size=12, unique=True))
    else:
        labels = draw(st.lists(st.sampled_from(CHARS + " xyz"), min_size=1, max_size=12, unique=True))
    fmts = ["list", "func", "pkl", "py", "py.gz"]
    if not labels[0].startswith("{"):
        fmts += ["txt", "txt", "gz"]
    unit = st.one_of(st.sampled_from(labels), st.sampled_from(labels), word_st if kind == "Vocabulary" else st.sampled_from(CHARS))
    return {
        "kind": kind,
        "labels": labels,
        "fmt": draw(st.sampled_from(fmts)),
        "explicit": draw(st.booleans()),
        "unk": draw(st.sampled_from([None, 0, 1, 5])),
        "unk_id": draw(st.booleans()),
        "special": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["bos_label", "eos_label", "pad_label", "control_symbols", "user_defined_symbols"]),
                    st.integers(0, 11), st.booleans(), st.booleans(),
                ).map(list),
                max_size=5,
            )
        ),
        "num_labels": draw(st.booleans()),
        "postfix": draw(st.lists(st.integers(0, 11), max_size=2)),
        "sentences": draw(st.lists(st.lists(unit, max_size=6), min_size=1, max_size=3)),
        "ids": draw(st.lists(st.lists(st.integers(0, 11), max_size=6), min_size=1, max_size=3)),
        "dtype": draw(st.sampled_from(["int32", "uint8", "int64"])),
    }  # fmt: skip


# ---------------------------------------------------------------- standard BPE


def ref_bpe(word, codes, version, labels):
    syms = list(word[:-1]) + [word[-1] + "</w>"] if version == 2 else list(word) + ["</w>"]
    while True:
        best = min((codes[p] for p in zip(syms, syms[1:]) if p in codes), default=None)
        if best is None:
            break
        out, i = [], 0
        while i < len(syms):
            if i + 1 < len(syms) and codes.get((syms[i], syms[i + 1])) == best:
                out.append(syms[i] + syms[i + 1])
                i += 2
            else:
                out.append(syms[i])
                i += 1
        syms = out
    if syms[-1] == "</w>":
        syms = syms[:-1]
    else:
        syms[-1] = syms[-1][: -len("</w>")]
    rev = {}
    for (a, b), r in sorted(codes.items(), key=lambda x: -x[1]):
        rev[a + b] = (a, b)

    def split(s, final):
        if (s if final else s + "@@") in labels:
            return [s]
        k = s + "</w>" if final else s
        if k not in rev:
            return [s]
        a, b = rev[k]
        return split(a, False) + split(b[:-4] if final else b, final)

    if labels and len(word) > 1:
        syms = [x for i, s in enumerate(syms) for x in split(s, i == len(syms) - 1)]
    return [s + "@@" for s in syms[:-1]] + [syms[-1]]


def run_bpe(c):
    from returnn.datasets.util.vocabulary import Vocabulary
    from returnn.util.bpe import StandardBytePairEncoder

    tags = set()
    version = c["version"]
    pairs = []
    alphabet = c["alphabet"]
    pool = [(a, False) for a in alphabet] + [(a + "</w>", True) for a in alphabet] if version == 2 else [(a, False) for a in alphabet] + [("</w>", True)]
    for i, j in c["merges"]:
        left = [s for s, fin in pool if not fin]
        a, (b, fin) = left[i % len(left)], pool[j % len(pool)]
        if len(a + b) > 12:
            continue
        pairs.append((a, b))
        if (a + b, fin) not in pool:
            pool.append((a + b, fin))
    codes = {}
    for i, p in enumerate(pairs):
        codes.setdefault(p, i)
    full = []
    for s, fin in pool:
        s = s[:-4] if s.endswith("</w>") else s
        full += [s, s + "@@"]
    full = [s for s in uniq(full) if s not in ("", "@@")]
    keep = [s for i, s in enumerate(full) if version == 1 or len(s.replace("@@", "")) == 1 or i not in c["drop"]]
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        head = {1: c["head"] and "#version: 0.1\n" or "", 2: "#version: 0.2\n"}[version]
        fn = write(d + "/codes", head + "".join("%s %s\n" % p for p in pairs))
        labels = keep + ["UNK"]
        kw = write_vocab(d, labels, c["fmt"])
        v = Vocabulary.create_vocab(bpe_file=fn, seq_postfix=[1] if c["postfix"] else None, **kw)
        plain = StandardBytePairEncoder(bpe_codes_file=fn)
        for text in c["texts"] + c["texts"][:1]:
            words = [w for w in text.split()]
            exp = [x for w in words for x in ref_bpe(w, codes, version, set(labels))]
            exp_plain = [x for w in words for x in ref_bpe(w, codes, version, None)]
            info = lambda what: "%s: text %r, codes %r version %r, labels %r" % (what, text, pairs, version, labels)
            segs = plain.segment_sentence(text)
            require(segs == exp_plain, lambda: info("segments %r, expected %r" % (segs, exp_plain)))
            segs2 = v.bpe.segment_sentence(text)
            require(segs2 == exp, lambda: info("with vocab: segments %r, expected %r" % (segs2, exp)))
            require(" ".join(segs2).replace("@@ ", "") == " ".join(words), lambda: info("%r is not the text" % segs2))
            ids = v.get_seq(text)
            exp_ids = [labels.index(x) if x in labels else len(labels) - 1 for x in exp] + [1] * bool(c["postfix"])
            require(list(ids) == exp_ids, lambda: info("ids %r, expected %r" % (ids, exp_ids)))
            if exp != exp_plain:
                tags.add("split")
            if any(x not in labels for x in exp):
                tags.add("unknown")
            if any(x.endswith("@@") and len(x) > 3 for x in exp):
                tags.add("merged")
    return tags


@st.composite
def case_bpe(draw):
    alphabet = draw(st.sampled_from(["ab", "abc", "aé中"]))
    extra = draw(st.sampled_from(["", "", "z"]))
    words = st.text(alphabet + extra, min_size=1, max_size=8)
    texts = st.lists(words, max_size=4).map(" ".join)
    return {
        "alphabet": alphabet,
        "merges": draw(st.lists(st.tuples(st.integers(0, 11), st.integers(0, 15)).map(list), max_size=10)),
        "version": draw(st.sampled_from([1, 2, 2])),
        "head": draw(st.booleans()),
        "drop": draw(st.lists(st.integers(0, 20), max_size=5)),
        "fmt": draw(st.sampled_from(["py", "pkl", "txt"])),
        "postfix": draw(st.booleans()),
        "texts": draw(st.lists(texts, min_size=1, max_size=3)),
    }


# ---------------------------------------------------------------- sampling BPE


def all_splits(word, labels, prefix):
    """all possible splits"""
    labels = set(labels)
    res = []

    def rec(s, hist):
        for n in range(1, len(s) + 1):
            a, rest = s[:n], s[n:]
            if not rest:
                if a in labels:
                    res.append(hist + [a])
            elif prefix:
                if a in labels:
                    rec(rest, hist + [a])
            elif a + "@@" in labels:
                rec(rest, hist + [a + "@@"])

    if prefix:
        # the first label starts with the prefix
        s = prefix + word
        for n in range(1, len(s) + 1):
            a, rest = s[:n], s[n:]
            if a in labels:
                if rest:
                    rec(rest, [a])
                else:
                    res.append([a])
    else:
        rec(word, [])
    return res


def run_sampling(c):
    from returnn.datasets.util.vocabulary import Vocabulary
    from returnn.util.bpe import CharSyncSearch

    tags = set()
    prefix = "▁" if c["mode"] == "prefix" else None
    labels = uniq([x for x in c["labels"]] + ["<unk>"])
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        kw = write_vocab(d, labels, c["fmt"])
        kw.update({"class": "SamplingBytePairEncoding", "breadth_prob": c["prob"], "unknown_label": "<unk>" if c["unk"] else None})
        if prefix:
            kw["word_prefix_symbol"] = prefix
        elif c["mode"] == "explicit":
            kw["label_postfix_merge_symbol"] = "@@"
        v = Vocabulary.create_vocab(**kw)
        info = lambda what: "%s: labels %r, %r" % (what, labels, c)
        exp = {w: all_splits(w, labels, prefix) for t in c["texts"] for w in t}
        outs = []
        for seed in c["seeds"] + c["seeds"][:1]:
            v.set_random_seed(seed)
            out = []
            for words in c["texts"]:
                text = " ".join(words)
                missing = [w for w in words if not exp[w]]
                if missing and not c["unk"]:
                    with raises(Exception, "no split"):
                        v.get_seq(text)
                    continue
                segs = v.bpe.segment_sentence(text)
                # check it word by word
                rest = list(segs)
                for w in words:
                    if not exp[w]:
                        require(rest[:1] == ["<unk>"], lambda: info("word %r has no split, got %r" % (w, segs)))
                        rest = rest[1:]
                        tags.add("unknown")
                        continue
                    cands = [x for x in exp[w] if rest[: len(x)] == x]
                    require(cands, lambda: info("%r -> %r: nothing of %r for word %r" % (text, segs, exp[w], w)))
                    # unique, as no complete word split can be a prefix of some other one
                    rest = rest[len(max(cands, key=len)) :]
                    if len(exp[w]) > 1:
                        tags.add("choice")
                    if len(words) == 1 and c["prob"] == 0.0:
                        greedy = max(exp[w], key=lambda x: [len(y.replace("@@", "")) for y in x])
                        require(segs == greedy, lambda: info("depth first: %r, expected %r" % (segs, greedy)))
                require(not rest, lambda: info("%r -> %r: too much: %r" % (text, segs, rest)))
                out.append(segs)
                ids = v.get_seq(text)
                require(all(0 <= i < len(labels) for i in ids), "ids")
                out.append(list(ids))
            outs.append(out)
        require(outs[0] == outs[-1], lambda: info("same seed, different result: %r vs %r" % (outs[0], outs[-1])))
        for w, x in exp.items():
            tree = v.bpe._bpe_prefix_tree
            if prefix and prefix not in tree.arcs:
                continue
            res = CharSyncSearch(bpe=tree, word=w).search()
            require(sorted(res) == sorted(x), lambda: info("all splits of %r: %r, expected %r" % (w, res, x)))
    return tags


@st.composite
def case_sampling(draw):
    mode = draw(st.sampled_from(["default", "explicit", "prefix"]))
    piece = st.text("abc", min_size=1, max_size=3)
    if mode == "prefix":
        lab = st.tuples(st.sampled_from(["", "▁"]), piece).map("".join)
        labels = draw(st.lists(lab, min_size=1, max_size=12)) + draw(st.sampled_from([[], ["▁"], ["▁a", "a", "b"], ["▁", "▁a", "▁ab", "▁b", "▁c", "a", "b", "c", "ab", "bc", "abc", "aa"]]))
    else:
        lab = st.tuples(piece, st.sampled_from(["", "@@"])).map("".join)
        labels = draw(st.lists(lab, min_size=1, max_size=12)) + draw(st.sampled_from([[], ["a", "a@@", "b", "b@@"], [x + y for x in ["a", "b", "c", "ab", "bc", "abc", "aa"] for y in ["", "@@"]]]))
    return {
        "mode": mode,
        "labels": labels,
        "fmt": draw(st.sampled_from(["py", "list"])),
        "prob": draw(st.sampled_from([0.0, 0.0, 0.3, 0.9, 1.0])),
        "unk": draw(st.booleans()),
        "texts": draw(st.lists(st.lists(st.text("abc", min_size=1, max_size=5), min_size=1, max_size=3), min_size=1, max_size=3)),
        "seeds": draw(st.lists(st.integers(0, 100), min_size=1, max_size=2)),
    }


# ---------------------------------------------------------------- literal


def run_literal(c):
    text = render(c["v"], c["ws"])
    value = ast.literal_eval(text)
    supported = not re.search(r"\d[eE]|[(]|\b(True|False|b['\"])", strip_strings(text))
    arg = text.encode("utf8") if c["bytes"] else text
    try:
        res = literal_eval(arg)
    except Exception as exc:
        require(not supported, lambda: "%s: %s for %r" % (type(exc).__name__, str(exc)[:200], text))
        return {"unsupported"}
    require(same(res, value), lambda: "%r -> %r" % (text, res))
    return set()


def strip_strings(text):
    return re.sub(r"'(\\.|[^'\\])*'|\"(\\.|[^\"\\])*\"", "''", text, flags=re.S)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(x, y) for x, y in zip(a, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, float):
        return a == b and numpy.signbit(a) == numpy.signbit(b)
    return a == b


def render(v, ws):
    """v: JSON description, -> Python literal"""
    k, x = v
    sp = ["", " ", "\n  "][ws]
    if k == "v":
        return repr(x)
    if k == "neg":
        return repr(-x)
    if k == "list":
        return "[" + sp + ("," + sp).join(render(y, ws) for y in x) + ("," if ws and x else "") + "]"
    if k == "tuple":
        return "(" + ", ".join(render(y, ws) for y in x) + ("," if x else "") + ")"
    if k == "set":
        return "{" + sp + ("," + sp).join(render(y, ws) for y in x) + "}" if x else "[]"
    if k == "dict":
        return "{" + sp + ("," + sp).join(render(a, ws) + ":" + " " * bool(ws) + render(b, ws) for a, b in x) + ("," if ws and x else "") + "}"
    if k == "many":
        return "[" + ",".join([render(x[0], ws)] * x[1]) + "]"
    raise Exception(k)


@st.composite
def case_literal(draw):
    s = st.one_of(st.text(max_size=6), st.text("ab\n\t\r\\'\"é中😀\x00\x7f\xa0\u2028\ue000", max_size=6), st.integers(250, 300).map(lambda n: "x" * n))
    ints = st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 2**63 - 1, 2**63, 2**70]), st.integers(0, 2**66))
    floats = st.one_of(st.sampled_from([0.0, 0.5, 1.25, 1e20, 1e-7, 123456.75]), st.floats(0, 1e6, allow_nan=False))
    nums = st.one_of(ints, floats)
    leaf = st.one_of(
        s.map(lambda x: ["v", x]), s.map(lambda x: ["v", x]), nums.map(lambda x: ["v", x]), nums.map(lambda x: ["neg", x]),
        st.just(["v", None]), st.sampled_from([["v", True], ["v", False]]) if draw(st.integers(0, 9)) == 0 else st.just(["v", 7]),
    )  # fmt: skip
    key = st.one_of(s.map(lambda x: ["v", x]), ints.map(lambda x: ["v", x]))

    def ext(x):
        opts = [
            st.lists(x, max_size=4).map(lambda y: ["list", y]),
            st.lists(st.tuples(key, x).map(list), max_size=4).map(lambda y: ["dict", y]),
            st.lists(key, min_size=1, max_size=4).map(lambda y: ["set", y]),
        ]
        if draw(st.integers(0, 9)) == 0:
            opts.append(st.lists(x, max_size=3).map(lambda y: ["tuple", y]))
        return st.one_of(opts)

    v = draw(st.one_of(st.recursive(leaf, ext, max_leaves=8), st.tuples(st.one_of(leaf, st.sampled_from([["list", []], ["v", 0.5]])), st.sampled_from([1, 300, 2000])).map(lambda x: ["many", list(x)])))
    if draw(st.booleans()) and v[0] != "dict":
        v = ["dict", [[["v", "k"], v]]]
    return {"v": v, "ws": draw(st.sampled_from([1, 0, 2])), "bytes": draw(st.booleans())}


# ---------------------------------------------------------------- orthography, allophones


def run_orth(c):
    from returnn.util.basic import parse_orthography

    text = ""
    exp_words, exp_chars = [], []
    for i, (k, w, sp) in enumerate(c["words"]):
        if i:
            text += " " * sp
            exp_chars.append(" ")
        sym = "[%s]" % w if k else w
        text += sym
        clean = re.sub("[(){}]", "", sym)
        if k:
            clean = clean.upper() if c["upper"] else clean
            exp_words.append(clean)
            exp_chars.append(clean)
        else:
            exp_words.append(clean)
            exp_chars += list(clean)
    text = " " * c["pad"] + text + " " * c["pad"]
    kw = {"word_based": c["word_based"], "upper_case_special": c["upper"]}
    post, pre = ["[END]"], []
    if c["postfix"] is not None:
        kw["postfix"] = post = c["postfix"]
    if c["prefix"]:
        kw["prefix"] = pre = c["prefix"]
    res = parse_orthography(text, **kw)
    exp = pre + (exp_words if c["word_based"] else exp_chars) + post
    require(res == exp, lambda: "%r, %r -> %r, expected %r" % (text, kw, res, exp))
    return set()


@st.composite
def case_orth(draw):
    w = st.tuples(st.text("abXé", min_size=1, max_size=4), st.sampled_from(["", "", "(", "}"])).map("".join)
    return {
        "words": draw(st.lists(st.tuples(st.sampled_from([0, 0, 1]), w, st.integers(1, 3)).map(list), max_size=5)),
        "pad": draw(st.integers(0, 2)),
        "word_based": draw(st.booleans()),
        "upper": draw(st.booleans()),
        "prefix": draw(st.sampled_from([[], ["[START]"]])),
        "postfix": draw(st.sampled_from([None, [], ["</s>", "x"]])),
    }


def run_allophone(c):
    from returnn.datasets.lm import AllophoneState

    phones = c["phones"]
    idxs = {p: i for i, p in enumerate(phones)}
    ids = {i: p for p, i in idxs.items()}
    L, S = c["context"], c["states"]
    seen = {}
    for ph, hist, fut, boundary, state in c["allos"]:
        a = AllophoneState(id=phones[ph % len(phones)], state=state % S)
        a.context_history = tuple(phones[i % len(phones)] for i in hist[:L])
        a.context_future = tuple(phones[i % len(phones)] for i in fut[:L])
        a.boundary = boundary
        index = a.index(idxs, num_states=S, context_length=L)
        require(0 <= index < (len(phones) + 1) ** (2 * L + 1) * S * 4, "index range")
        if index in seen:
            require(seen[index] == a, lambda: "%s and %s have the same index" % (seen[index], a))
        seen[index] = a
        b = AllophoneState.from_index(index, ids, num_states=S, context_length=L)
        require(b == a and b.format() == a.format() and hash(a) == hash(b), lambda: "%s -> %i -> %s" % (a, index, b))
        require(b.index(idxs, num_states=S, context_length=L) == index, "index")
        cp = a.copy()
        require(cp == a and cp.format() == a.format(), lambda: "copy %s -> %s" % (a, cp))
        cp.mark_initial()
        require(cp.boundary == boundary | 1 and a.boundary == boundary, "mark_initial")
        allos = {7: a}
        for st_ in range(3):
            e = AllophoneState.from_classic_index(7 + (st_ << 26), allos)
            require(e.state == st_ and e.id == a.id and e.boundary == a.boundary and e.context_future == a.context_future, "classic index")
        require(a.state == state % S, "modified")
    return {"context%i" % L}


@st.composite
def case_allophone(draw):
    ctx = st.lists(st.integers(0, 4), max_size=2)
    return {
        "phones": draw(st.lists(st.text("abc", min_size=1, max_size=2), min_size=1, max_size=5, unique=True)),
        "context": draw(st.integers(0, 2)),
        "states": draw(st.integers(1, 4)),
        "allos": draw(st.lists(st.tuples(st.integers(0, 4), ctx, ctx, st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=5)),
    }


# ---------------------------------------------------------------- LmDataset


def norm_line(s):
    return " ".join(s.split())


def write_corpus(d, i, f):
    """-> filename, list of the lines as they should be read"""
    fmt, lines = f["fmt"], f["lines"]
    fn = "%s/corpus%i.%s" % (d, i, fmt)
    if "xml" in fmt:
        out = ['<?xml version="1.0" encoding="UTF-8"?>\n<corpus name="c">\n']
        for j, line in enumerate(lines):
            if j == 0 or f["eol"] and j % 2 == 0:
                out.append((" </recording>\n" if j else "") + ' <recording audio="/dev/null" name="rec%i">\n' % j)
            out.append('  <segment name="%i" start="0" end="1">\n   <orth>\n     %s\n   </orth>\n  </segment>\n' % (j, xml_escape(line)))
        if lines:
            out.append(" </recording>\n")
        out.append("</corpus>\n")
        write(fn, "".join(out))
        return fn, [norm_line(x) for x in lines]
    eol = "\r\n" if f["eol"] else "\n"
    text = eol.join(lines) + (eol if f["final"] and lines else "")
    write(fn, text)
    # the reference for what a line is
    return fn, [x.strip() for x in text.split("\n")[: -1 if text.endswith("\n") or not text else None]]


def collect(ds, **kw):
    """whole epoch, tag -> {key: data} in order"""
    ds.init_seq_order(**kw)
    res = []
    i = 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + 1)
        res.append((ds.get_tag(i), {k: numpy.array(ds.get_data(i, k)) for k in ds.get_data_keys()}))
        i += 1
    return res


def compare(name, got, exp, info):
    require([t for t, _ in got] == [t for t, _ in exp], lambda: info("%s: tags %s, expected %s" % (name, [t for t, _ in got], [t for t, _ in exp])))
    for (t, a), (_, b) in zip(got, exp):
        require(set(a) == set(b), lambda: info("%s, %s: keys %s, expected %s" % (name, t, sorted(a), sorted(b))))
        for k in b:
            require(a[k].tolist() == list(b[k]), lambda: info("%s, %s, %s: %s, expected %s" % (name, t, k, a[k].tolist(), list(b[k]))))


def run_lm(c):
    from returnn.datasets.lm import LmDataset, read_corpus

    tags = set()
    info = lambda what: "%s: %r" % (what, c)
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        files, lines, per_file = [], [], []
        for i, f in enumerate(c["files"]):
            fn, ls = write_corpus(d, i, f)
            if "xml" not in f["fmt"] and c["skip_empty"]:
                ls = [x for x in ls if x]
            read = read_corpus(fn, skip_empty_lines=c["skip_empty"])
            require(read == ls, lambda: info("read_corpus %s: %r, expected %r" % (fn, read, ls)))
            files.append(fn)
            lines += ls
            per_file.append(len(ls))
        kw = {"corpus_file": files[0] if len(files) == 1 and c["single"] else list(files), "skip_empty_lines": c["skip_empty"]}
        if c["callable"]:
            corpus_file = kw["corpus_file"]
            kw["corpus_file"] = lambda: corpus_file
        all_tags = ["line-%i" % i for i in range(len(lines))]
        if c["seq_list"]:
            all_tags = ["seq/%i" % (i * 7 % 1009) for i in range(len(lines))]
            if c["seq_list"] == "list" and isinstance(kw["corpus_file"], list):
                fns, pos = [], 0
                for i, n in enumerate(per_file):
                    fns.append(write(d + "/tags%i.txt" % i, "".join(t + "\n" for t in all_tags[pos : pos + n])))
                    pos += n
                kw["seq_list_file"] = fns
            elif c["seq_list"] == "pkl":
                kw["seq_list_file"] = d + "/tags.pkl"
                with open(kw["seq_list_file"], "wb") as f:
                    pickle.dump(all_tags, f)
            else:
                fmt = "txt.gz" if c["seq_list"] == "gz" else "txt"
                kw["seq_list_file"] = write(d + "/tags." + fmt, "".join(t + "\n" for t in all_tags))
        mode = c["mode"]
        valid = [True] * len(lines)
        if mode.startswith("vocab"):
            labels = c["labels"] + ["UNK"]
            labels = uniq(labels)
            index = {v: i for i, v in enumerate(labels)}
            unk = index["UNK"]
            vocab = write_vocab(d, labels, "py")
            if mode == "vocab-char":
                vocab.update({"class": "CharacterTargets", "unknown_label": "UNK"})
                data = [[index.get(x, unk) for x in s] for s in lines]
            elif mode == "vocab-utf8":
                vocab = {"class": "Utf8ByteTargets"}
                labels = [chr(i) for i in range(256)]
                data = [list(s.encode("utf8")) for s in lines]
            else:
                data = [[index.get(x, unk) for x in s.split()] for s in lines]
            kw["orth_vocab"] = vocab
        else:
            word_based = mode == "word"
            base = c["labels"] if word_based else sorted({x for w in c["labels"] for x in w}) + [" "]
            labels = uniq(base + ["[END]", "[UNKNOWN]", "[START]", "<w>"] + ["x%i" % i for i in range(c["pad_labels"])])
            index = {v: i for i, v in enumerate(labels)}
            if c["map_fmt"] == "file":
                labels_ok = all("\n" not in x for x in labels)
                assert labels_ok
                kw["orth_symbols_file"] = write(d + "/syms", "".join(x + "\n" for x in labels))
            elif c["map_fmt"] == "pkl":
                kw["orth_symbols_map_file"] = d + "/syms.pkl"
                with open(kw["orth_symbols_map_file"], "wb") as f:
                    pickle.dump(index, f)
            elif c["map_fmt"] == "txt" and word_based:
                kw["orth_symbols_map_file"] = write(d + "/syms.txt", "".join("%s %i\n" % x for x in reversed(list(index.items()))))
            else:
                kw["orth_symbols_map_file"] = write(d + "/syms.py", repr(dict(reversed(list(index.items())))))
            if mode == "char-end":
                kw["word_end_symbol"] = "<w>"
            kw["word_based"] = word_based
            kw["seq_end_symbol"] = "[END]" if c["seq_end"] else None
            kw["error_on_invalid_seq"] = False
            kw["unknown_symbol"] = "[UNKNOWN]" if c["unknown"] else None
            kw["auto_replace_unknown_symbol"] = c["auto_replace"]
            replace = {}
            if c["replace"]:
                replace = {a: b for a, b in c["replace"]}
                kw["orth_replace_map_file"] = d + "/replace.json"
                with open(kw["orth_replace_map_file"], "w") as f:
                    json.dump(replace, f)
            data = []
            for i, s in enumerate(lines):
                for x in "(){}":
                    s = s.replace(x, "")
                s = " ".join(s.split())
                sym = s.split() if word_based else list(s)
                if mode == "char-end":
                    sym += ["<w>"]
                sym += ["[END]"] * c["seq_end"]
                out = []
                for x in sym:
                    if mode == "char-end" and x == " ":
                        out.append("<w>")
                    elif x in replace:
                        out += replace[x].split() if word_based else list(replace[x])
                    else:
                        out.append(x)
                if c["auto_replace"]:
                    if any(x not in index for x in out):
                        tags.add("unknown")
                    out = [x for y in out for x in ([y] if y in index else ["[UNKNOWN]"] * c["unknown"])]
                space = "<w>" if mode == "char-end" else " "
                out = [x for j, x in enumerate(out) if not (x == space and j and out[j - 1] == space)]
                if any(x not in index for x in out):
                    valid[i] = False
                    tags.add("invalid")
                data.append([index.get(x) for x in out])
            if c["delayed"]:
                kw["add_delayed_seq_data"] = True
        expect = {}
        for i, (t, x) in enumerate(zip(all_tags, data)):
            expect[i] = (t, {"data": x})
            if kw.get("add_delayed_seq_data"):
                expect[i][1]["delayed"] = ([index["[START]"]] + x[:-1]) if x else None
        if kw.get("add_delayed_seq_data") and any(valid[i] and e[1]["delayed"] is None for i, e in expect.items()):
            return {"empty-delayed"}  # not defined
        if c["dtype"] and len(labels) <= 128:
            kw["dtype"] = c["dtype"]
        if not lines:
            return {"empty"}
        P = c["partition"]
        if not any(valid):
            return {"invalid"}
        ds = LmDataset(seq_ordering=c["order"], partition_epoch=P, **kw)
        ds.initialize()
        require(ds.num_outputs["data"][0] == len(labels) and list(ds.labels["data"]) == labels, lambda: info("labels %r, expected %r" % (ds.labels["data"], labels)))
        seen = {}
        for kind, arg in c["history"]:
            if kind == "tags":
                order = [i % len(lines) for i in arg]
                order = [i for i in order if valid[i]]
                if not order:
                    continue
                got = collect(ds, epoch=1, seq_list=[all_tags[i] for i in order])
                ds.error_on_invalid_seq = kw.get("error_on_invalid_seq", True)
            elif kind == "order":
                order = [i % len(lines) for i in arg]
                if not any(valid[i] for i in order):
                    continue
                got = collect(ds, epoch=1, seq_order=order)
            else:
                ds.init_seq_order(epoch=arg)
                order = list(ds.get_current_seq_order())
                if order and not any(valid[i] for i in order):
                    continue
                got = collect(ds, epoch=arg)
                require(list(ds.get_current_seq_order()) == order, lambda: info("order %s, then %s" % (order, ds.get_current_seq_order())))
                require(len(set(order)) == len(order) and set(order) <= set(range(len(lines))), lambda: info("epoch %i: order %s" % (arg, order)))
            compare("%s %s" % (kind, arg), got, [expect[i] for i in order if valid[i]], info)
            for t, x in got:
                for k, y in x.items():
                    require(y.ndim == 1 and str(y.dtype) == ds.get_data_dtype(k), lambda: info("dtype %s" % y.dtype))
        if c["order"] != "random:3":
            full = []
            for e in range(1, P + 1):
                ds.init_seq_order(epoch=e)
                full += list(ds.get_current_seq_order())
            require(sorted(full) == list(range(len(lines))), lambda: info("full epoch: %s of %i lines" % (full, len(lines))))
        require(list(ds.get_all_tags()) == all_tags and ds.get_total_num_seqs() == len(lines), lambda: info("all tags %s" % ds.get_all_tags()))
    return tags | {mode} | {"fmt:" + f["fmt"] for f in c["files"]}


@st.composite
def case_lm(draw):
    mode = draw(st.sampled_from(["vocab-word", "vocab-char", "vocab-utf8", "word", "word", "char", "char", "char-end"]))
    labels = draw(st.lists(st.text("abcé中", min_size=1, max_size=3), min_size=1, max_size=6, unique=True))
    if mode in ("vocab-char",):
        labels = uniq([x for w in labels for x in w] + [" "])
    word = st.one_of(st.sampled_from([x for x in labels if x.strip()] or ["a"]), st.sampled_from([x for x in labels if x.strip()] or ["a"]), st.sampled_from(["q", "a(", "zz"]))
    line = st.one_of(
        st.lists(word, min_size=1, max_size=5).map(" ".join), st.lists(word, min_size=1, max_size=5).map(" ".join),
        st.lists(word, min_size=1, max_size=3).map("  ".join), st.sampled_from(["", " ", "  \t"]),
    )  # fmt: skip
    f = st.fixed_dictionaries(
        {
            "fmt": st.sampled_from(["txt", "txt", "txt.gz", "xml", "xml.gz"]),
            "lines": st.lists(line, max_size=6),
            "final": st.sampled_from([True, True, False]),
            "eol": st.sampled_from([0, 0, 1]),
        }
    )
    rep = st.sampled_from(["a", "b", "c", "q", "é"] if mode != "word" else labels + ["q", "zz"])
    hist = st.one_of(
        st.tuples(st.just("epoch"), st.sampled_from([1, 2, 3, 1, 7])),
        st.tuples(st.just("tags"), st.lists(st.integers(0, 9), min_size=1, max_size=5)),
        st.tuples(st.just("order"), st.lists(st.integers(0, 9), min_size=1, max_size=5)),
    ).map(list)
    return {
        "mode": mode,
        "labels": labels,
        "files": draw(st.lists(f, min_size=1, max_size=3)),
        "skip_empty": draw(st.booleans()),
        "single": draw(st.booleans()),
        "callable": draw(st.sampled_from([False, False, True])),
        "seq_list": draw(st.sampled_from([None, None, "txt", "gz", "pkl", "list"])),
        "map_fmt": draw(st.sampled_from(["file", "pkl", "py", "txt"])),
        "pad_labels": draw(st.sampled_from([0, 0, 120, 125, 126, 130, 252, 260])),
        "seq_end": draw(st.booleans()),
        "unknown": draw(st.booleans()),
        "auto_replace": draw(st.booleans()),
        "replace": draw(st.lists(st.tuples(rep, st.lists(rep, min_size=1, max_size=2).map((" " if mode == "word" else "").join)).map(list), max_size=3)),
        "delayed": draw(st.booleans()),
        "dtype": draw(st.sampled_from([None, None, "int32"])),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted", "laplace:2"])),
        "partition": draw(st.sampled_from([1, 1, 2, 3])),
        "history": draw(st.lists(hist, min_size=1, max_size=4)),
    }


def run_lmsample(c):
    """sampled subword units: an epoch is always the same, and is always the text"""
    from returnn.datasets.lm import LmDataset
    from returnn.datasets.text_dict import TextDictDataset

    pieces = uniq(list("abc") + c["pieces"])
    labels = [x + y for x in pieces for y in ("", "@@")] + ["<unk>"]
    lines = c["lines"]
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        vocab = dict(write_vocab(d, labels, "py"), breadth_prob=c["prob"], unknown_label="<unk>", **{"class": "SamplingBytePairEncoding"})
        if c["cls"] == "lm":
            fn = write(d + "/x.txt", "".join(x + "\n" for x in lines))
            mk = lambda: LmDataset(corpus_file=fn, orth_vocab=dict(vocab), seq_ordering=c["order"], partition_epoch=c["partition"])
            tag = "line-%i"
        else:
            fn = write(d + "/x.py", repr({"seq-%i" % i: x for i, x in enumerate(lines)}))
            mk = lambda: TextDictDataset(filename=fn, item_format="single", vocab=dict(vocab), seq_ordering=c["order"], partition_epoch=c["partition"])
            tag = "seq-%i"
        text = {tag % i: " ".join(x.split()) for i, x in enumerate(lines)}
        ds = mk()
        ds.initialize()
        for epoch in c["epochs"]:
            got = collect(ds, epoch=epoch)
            ds2 = mk()
            ds2.initialize()
            exp = collect(ds2, epoch=epoch)
            compare("epoch %i" % epoch, got, [(t, {k: v.tolist() for k, v in x.items()}) for t, x in exp], lambda what: "history changes epoch: %s, %r" % (what, c))
            for t, x in got:
                s = " ".join(labels[i] for i in x["data"]).replace("@@ ", "")
                require(s == text[t], lambda: "%s: %r, expected %r, %r" % (t, s, text[t], c))
    return {c["cls"]}


@st.composite
def case_lmsample(draw):
    return {
        "cls": draw(st.sampled_from(["lm", "textdict"])),
        "pieces": draw(st.lists(st.text("abc", min_size=2, max_size=3), max_size=6)),
        "lines": draw(st.lists(st.lists(st.text("abc", min_size=1, max_size=6), min_size=1, max_size=3).map(" ".join), min_size=1, max_size=5)),
        "prob": draw(st.sampled_from([0.5, 0.2, 0.9])),
        "order": draw(st.sampled_from(["default", "random"])),
        "partition": draw(st.sampled_from([1, 2])),
        "epochs": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
    }


# ---------------------------------------------------------------- Translation


def run_translation(c):
    from returnn.datasets.lm import TranslationDataset, TranslationFactorsDataset
    import time

    tags = set()
    info = lambda what: "%s: %r" % (what, c)
    n = len(c["lines"])
    sides = ["source"] if c["source_only"] else ["source", "target"]
    main = {"source": "data", "target": "classes"}
    factors = {"source": c["src_factors"], "target": c["tgt_factors"]} if c["factored"] else {"source": 0, "target": 0}
    keys = {s: [main[s]] + ["%s_f%i" % (s, i) for i in range(factors[s])] for s in sides}
    vocabs = {}
    expect = [{} for _ in range(n)]
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        for s in sides:
            for i, k in enumerate(keys[s]):
                words = ["%s%i" % ("abc"[i], j) for j in range(c["vocab_size"][0 if s == "source" else 1] + i)]
                voc = {w: j for j, w in enumerate(words)}
                voc["</S>"] = len(voc)
                voc["<S>"] = len(voc) - 1
                voc["UNK"] = len(set(voc.values()))
                vocabs[k] = voc
                with open("%s/%s.vocab.pkl" % (d, s if i == 0 else k), "wb") as f:
                    pickle.dump(voc, f)
            out = []
            postfix = " </S>" if c["postfix"] else ""
            for i, line in enumerate(c["lines"]):
                ids = line[0 if s == "source" else 1]
                words = []
                for x in ids:
                    words.append("|".join("%s%i" % ("abc"[j], (x + j) % len(vocabs[k]) if x < 90 else x) for j, k in enumerate(keys[s])))
                out.append((" " if line[2] else "") + " ".join(words) + (" " if line[2] else ""))
                for j, k in enumerate(keys[s]):
                    w = [x.split("|")[j] for x in words] + (["</S>"] if postfix else [])
                    if any(x not in vocabs[k] for x in w):
                        tags.add("unknown")
                    expect[i][k] = [vocabs[k].get(x, vocabs[k]["UNK"]) for x in w]
            write("%s/%s.train%s" % (d, s, ".gz" if c["gz"] else ""), "".join(x + "\n" for x in out) if c["final"] else "\n".join(out))
        if not c["final"]:
            require(out == [] or out[-1] != "" or True, "")
            # last line could be empty without newline -> no line
            text_lines = []
            for s in sides:
                with (gzip.open if c["gz"] else open)("%s/%s.train%s" % (d, s, ".gz" if c["gz"] else ""), "rb") as f:
                    text_lines.append(len(f.readlines()))
            if text_lines != [n] * len(sides):
                return {"skip"}
        if not n:
            return {"empty"}
        opts = {}
        seq_list = None
        if c["seq_list"]:
            seq_list = [i % n for i in c["seq_list"]]
            opts["seq_list_file"] = write(d + "/list", "".join("%i\n" % i for i in seq_list))
        if c["factored"]:
            cls = TranslationFactorsDataset
            opts["source_factors"] = keys["source"][1:]
            if not c["source_only"]:
                opts["target_factors"] = keys["target"][1:]
        else:
            cls = TranslationDataset
        unk = {k: "UNK" for s in sides for k in keys[s]} if c["unk_dict"] else "UNK"
        no_ref = c["no_ref"] and not c["source_only"]
        real_sleep = time.sleep
        time.sleep = lambda _: real_sleep(0.0005)
        try:
            ds = cls(
                path=d, file_postfix="train", source_postfix=" </S>" if c["postfix"] else "", target_postfix=" </S>" if c["postfix"] else "",
                source_only=c["source_only"], search_without_reference=no_ref, unknown_label=unk,
                seq_ordering=c["order"], partition_epoch=c["partition"], **opts
            )  # fmt: skip
            ds.initialize()
            all_tags = ["line-%i" % i for i in range(n)]
            if c["tags_first"]:
                t = ds.get_all_tags()
                require(t == all_tags, lambda: info("all tags (while loading): %s" % t))
            for s in sides:
                for k in keys[s]:
                    num = len(set(vocabs[k].values()))
                    require(ds.num_outputs[k][0] == num and ds.get_data_dim(k) == num and len(ds.labels[k]) == num, lambda: info("%s: dim %s %s, labels %s, expected %i" % (k, ds.num_outputs[k], ds.get_data_dim(k), ds.labels[k], num)))
                    for i, lab in enumerate(ds.labels[k]):
                        require(vocabs[k][lab] == i, lambda: info("label %s %i" % (lab, i)))
            use = keys["source"] if no_ref else [k for s in sides for k in keys[s]]
            for kind, arg in c["history"]:
                if kind == "tags":
                    order = [i % n for i in arg]
                    kw = {"epoch": 1, "seq_list": [all_tags[i] for i in order]}
                elif kind == "order":
                    order = [i % n for i in arg]
                    kw = {"epoch": 1, "seq_order": order}
                else:
                    kw, order = {"epoch": arg}, seq_list
                ds.init_seq_order(**kw)
                if order is None:
                    order = [ds.get_corpus_seq_idx(i) for i in range(ds.num_seqs)]
                    require(len(set(order)) == len(order), lambda: info("order %s" % order))
                require(ds.num_seqs == len(order), lambda: info("num seqs %i, expected %i" % (ds.num_seqs, len(order))))
                for i, j in enumerate(order):
                    ds.load_seqs(i, i + 1)
                    require(ds.get_tag(i) == all_tags[j], lambda: info("tag %s, expected %s" % (ds.get_tag(i), all_tags[j])))
                    for k in use:
                        x = ds.get_data(i, k).tolist()
                        require(x == expect[j][k], lambda: info("%s %s: seq %i, line %i, %s: %s, expected %s" % (kind, arg, i, j, k, x, expect[j][k])))
            ds._thread.join(10)
            require(ds.get_all_tags() == all_tags, lambda: info("all tags %s" % ds.get_all_tags()))
        finally:
            time.sleep = real_sleep
    if c["factored"]:
        tags.add("factors")
    return tags


@st.composite
def case_translation(draw):
    ids = st.lists(st.one_of(st.integers(0, 8), st.integers(0, 8), st.just(99)), max_size=5)
    hist = st.one_of(
        st.tuples(st.just("epoch"), st.sampled_from([1, 2, 3, 1, 7])),
        st.tuples(st.just("epoch"), st.sampled_from([1, 2, 3, 1, 7])),
        st.tuples(st.just("tags"), st.lists(st.integers(0, 9), min_size=1, max_size=5)),
        st.tuples(st.just("order"), st.lists(st.integers(0, 9), min_size=1, max_size=5)),
    ).map(list)
    return {
        "lines": draw(st.lists(st.tuples(ids, ids, st.booleans()).map(list), min_size=1, max_size=draw(st.sampled_from([3, 8])))),
        "vocab_size": draw(st.tuples(st.integers(1, 6), st.integers(1, 6)).map(list)),
        "source_only": draw(st.sampled_from([False, False, True])),
        "no_ref": draw(st.sampled_from([False, False, True])),
        "factored": draw(st.booleans()),
        "src_factors": draw(st.integers(0, 2)),
        "tgt_factors": draw(st.integers(0, 2)),
        "postfix": draw(st.booleans()),
        "gz": draw(st.booleans()),
        "final": draw(st.booleans()),
        "unk_dict": draw(st.booleans()),
        "tags_first": draw(st.booleans()),
        "seq_list": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=6))),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted", "sorted_reverse"])),
        "partition": draw(st.sampled_from([1, 1, 2])),
        "history": draw(st.lists(hist, min_size=1, max_size=3)),
    }


# ---------------------------------------------------------------- TextDict


def run_textdict(c):
    from returnn.datasets.text_dict import TextDictDataset

    info = lambda what: "%s: %r" % (what, c)
    labels = c["labels"] + ["UNK"]
    index = {v: i for i, v in enumerate(labels)}
    enc = lambda words: [index.get(w, index["UNK"]) for w in words]
    content, expect = {}, {}
    for i, entry in enumerate(c["seqs"]):
        tag = "seq-%i" % (i * 7 % 1009)
        hyps = [(float(s) if s is not None else float("-inf"), " ".join(w)) for s, w in entry]
        if c["single"]:
            content[tag] = hyps[0][1]
            expect[i] = (tag, {"data": enc(entry[0][1])})
        else:
            content[tag] = hyps
            best = max(range(len(hyps)), key=lambda j: (hyps[j][0], -j))
            flat = [enc(w) for _, w in entry]
            expect[i] = (tag, {
                "data": flat[best], "data_flat": sum(flat, []), "data_seq_lens": [len(x) for x in flat],
                "scores": [float(numpy.float32(s)) for s, _ in hyps],
            })  # fmt: skip
    n = len(content)
    with tempfile.TemporaryDirectory(prefix="vf_c19_") as d:
        text = repr(content)
        if any(s is None for e in c["seqs"] for s, _ in e):
            text = text.replace("-inf", "-1e999")
        fn = write(d + "/x.py" + (".gz" if c["gz"] else ""), text)
        P = c["partition"]
        ds = TextDictDataset(filename=fn, item_format="single" if c["single"] else "list_with_scores", vocab=dict(write_vocab(d, labels, "py")), seq_ordering=c["order"], partition_epoch=P)
        ds.initialize()
        for kind, arg in c["history"]:
            if kind == "order":
                order = [i % n for i in arg]
                got = collect(ds, epoch=1, seq_order=order)
            else:
                got = collect(ds, epoch=arg)
                order = list(ds.get_current_seq_order())
            compare("%s %s" % (kind, arg), got, [expect[i] for i in order], info)
            require([ds.get_corpus_seq_idx(i) for i in range(len(order))] == order, "corpus seq idx")
            for t, x in got:
                for k, y in x.items():
                    require(y.ndim == 1 and str(y.dtype) == ds.get_data_dtype(k), lambda: info("%s: dtype %s, expected %s" % (k, y.dtype, ds.get_data_dtype(k))))
        full = []
        for e in range(1, P + 1):
            ds.init_seq_order(epoch=e)
            full += list(ds.get_current_seq_order())
        require(sorted(full) == list(range(n)), lambda: info("full epoch: %s" % full))
        require(list(ds.get_all_tags()) == list(content) and ds.get_total_num_seqs() == n, "all tags")
    return {"single"} if c["single"] else {"hyps"}


@st.composite
def case_textdict(draw):
    labels = draw(st.lists(word_st, min_size=1, max_size=5, unique=True))
    words = st.lists(st.one_of(st.sampled_from(labels), st.sampled_from(["q'", 'z"', "中"])), max_size=4)
    score = st.one_of(st.integers(-5, 5), st.floats(-100, 10, width=32), st.sampled_from([-1e-5, 0.0, -1e20] + [None] * draw(st.sampled_from([0, 0, 1]))))
    hist = st.one_of(
        st.tuples(st.just("epoch"), st.sampled_from([1, 2, 3, 1, 7])),
        st.tuples(st.just("order"), st.lists(st.integers(0, 9), min_size=1, max_size=5)),
    ).map(list)
    return {
        "labels": labels,
        "single": draw(st.booleans()),
        "seqs": draw(st.lists(st.lists(st.tuples(score, words).map(list), min_size=1, max_size=4), min_size=1, max_size=6)),
        "gz": draw(st.booleans()),
        "order": draw(st.sampled_from(["default", "reverse", "random", "sorted"])),
        "partition": draw(st.sampled_from([1, 1, 2])),
        "history": draw(st.lists(hist, min_size=1, max_size=3)),
    }


SUBS = [
    Sub("vocab", case_vocab, run_vocab, quick=1500, thorough=40000, nontrivial=lambda c: len(c["labels"]) > 2),
    Sub("bpe", case_bpe, run_bpe, quick=1500, thorough=60000, nontrivial=lambda c: len(c["merges"]) > 1),
    Sub("sampling", case_sampling, run_sampling, quick=1500, thorough=60000, nontrivial=lambda c: len(c["labels"]) > 2),
    Sub("literal", case_literal, run_literal, quick=2500, thorough=100000, nontrivial=lambda c: c["v"][0] != "v"),
    Sub("orth", case_orth, run_orth, quick=800, thorough=30000, nontrivial=lambda c: len(c["words"]) > 1),
    Sub("allophone", case_allophone, run_allophone, quick=600, thorough=20000, nontrivial=lambda c: c["context"] > 0),
    Sub("lm", case_lm, run_lm, quick=1200, thorough=40000, nontrivial=lambda c: sum(len(f["lines"]) for f in c["files"]) > 2),
    Sub("lmsample", case_lmsample, run_lmsample, quick=300, thorough=10000, nontrivial=lambda c: len(c["epochs"]) > 1),
    Sub("translation", case_translation, run_translation, quick=800, thorough=20000, nontrivial=lambda c: len(c["lines"]) > 1),
    Sub("textdict", case_textdict, run_textdict, quick=600, thorough=20000, nontrivial=lambda c: len(c["seqs"]) > 1),
]
