"""C20: configuration: sources, precedence, typed access, transfer to other processes"""

from __future__ import annotations
import ast
import json
import os
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
from vlib.core import Sub, require, REPO


def setup():
    import returnn.config  # noqa
    import returnn.__main__  # noqa
    import returnn.util.task_system  # noqa
    from returnn.log import log

    log.initialize(verbosity=[0])


MISSING = "<default>"
KEYS = ["ka", "kb", "kc", "batch_size", "task", "model"]

scalar_st = st.one_of(
    st.integers(-3, 10),
    st.booleans(),
    st.sampled_from([0.5, -1.25, 1e-5, 3.0]),
    st.sampled_from(["", "x", "a b", "5", "0.5", "true", "a,b", "中", "it's"]),
    st.none(),
)
value_st = st.one_of(
    scalar_st,
    st.lists(scalar_st, max_size=3),
    st.lists(st.integers(0, 9), min_size=1, max_size=3).map(tuple),
    st.dictionaries(st.sampled_from(["u", "v"]), scalar_st, max_size=2),
).map(repr)
text_st = st.one_of(
    st.sampled_from(
        ["5", "-3", "0", "1", "0.5", "1e-3", "inf", "true", "False", "yes", "off", "abc", "a,b", "1,2", "1.5,2", "3:4", "5:6:7", "a b", "[1,2]", "None", "'s'", "(1,2)", "1+2", "a,"]
    ),
    st.text("ab1,. -", min_size=1, max_size=4).filter(lambda s: s.strip() == s and s[0] != ","),
)


# ---------------------------------------------------------------- model


class Model:
    """what the documentation says"""

    def __init__(self):
        self.typed = {}
        self.text = {}

    def assign(self, k, v):
        self.typed[k] = v

    def line(self, k, s):
        if k in self.typed:  # override of a typed option: keeps to be typed
            if isinstance(self.typed[k], str):
                self.typed[k] = s
                return
            try:
                self.typed[k] = eval(s, {})
            except SyntaxError:
                self.typed[k] = s
            return
        self.text[k] = s.split(",") if "," in s[1:] else [s]

    def evaluable(self, k, s):
        if k not in self.typed or isinstance(self.typed[k], str):
            return True
        try:
            eval(s, {})
        except SyntaxError:
            return True
        except Exception:
            return False
        return True

    def access(self, kind, k, default, index):
        """-> value, or Error"""
        typed = k in self.typed
        if not typed and k not in self.text:
            if kind == "list" and default is None:
                return []
            if kind in ("int_list", "float_list"):
                return [] if default is None else [{"int_list": int, "float_list": float}[kind](x) for x in default]
            if kind == "int_pair" and default is None:
                return (0, 0)
            if kind == "float" and default is not None:
                return float(default) if isinstance(default, str) else default
            if kind == "typed_value":
                assert not index
            return default
        if typed:
            v = self.typed[k]
            if kind in ("value", "opt_typed_value"):
                if kind == "opt_typed_value":
                    return v
                if index is not None:
                    return str(v[index])
                if v is None:
                    return default
                return ",".join(map(str, v)) if isinstance(v, (list, tuple)) else str(v)
            if kind in ("list", "int_list", "float_list"):
                if v is None:
                    return [] if default is None else default
                v = list(v) if isinstance(v, (list, tuple)) else [v]
                ok = {"list": object, "int_list": int, "float_list": (int, float)}[kind]
                assert all(isinstance(x, ok) for x in v)
                return v
            if kind == "int_pair":
                v = tuple(v) if isinstance(v, (list, tuple)) else (v, v)
                assert len(v) == 2 and all(isinstance(x, int) for x in v)
                return v
            if kind == "is_true":
                return bool(v)
            index_ = index if kind == "typed_value" else (index or 0)
            if index_ is not None:
                if isinstance(v, (list, tuple)):
                    v = v[index_]
                else:
                    assert index_ == 0
            if kind in ("typed_value", "bool_or_other") or v is None:
                return v
            if kind == "int":
                assert isinstance(v, int)
                return v
            if kind == "bool":
                assert isinstance(v, int)
                return bool(v)
            if kind == "float":
                if isinstance(v, str):
                    v = float(v)
                assert isinstance(v, (int, float))
                return v
            raise AssertionError(kind)
        ls = self.text[k]
        if kind == "typed_value":  # only typed
            assert not index
            return default
        if kind in ("value", "opt_typed_value"):
            return ",".join(ls) if index is None or kind == "opt_typed_value" else ls[index]
        if kind == "list":
            return ls
        if kind == "int_list":
            return [int(x) for x in ls]
        if kind == "float_list":
            return [float(x) for x in ls]
        if kind == "int_pair":
            s = ",".join(ls)
            return (int(s.split(":")[0]), int(s.split(":")[1])) if ":" in s else (int(s), int(s))
        s = ls[(index or 0) if kind != "is_true" else 0]
        if kind == "int":
            return int(s)
        if kind == "float":
            return float(s)
        if not s:
            return default
        b = {"true": True, "yes": True, "on": True, "false": False, "no": False, "off": False}.get(s.lower())
        if b is None:
            try:
                b = bool(int(s))
            except ValueError:
                if kind == "bool_or_other":
                    return s
                raise
        return b


ACCESS = ["value", "typed_value", "opt_typed_value", "int", "float", "bool", "bool_or_other", "list", "int_list", "float_list", "int_pair", "is_true"]
DEFAULTS = {
    "value": [None, "dd"], "typed_value": [None, 7], "opt_typed_value": [None, "dd"], "int": [None, 5], "float": [None, 0.25],
    "bool": [None, True, False], "bool_or_other": [None, "x"], "list": [None, ["q"]], "int_list": [None, [4]], "float_list": [None, [0.5]],
    "int_pair": [None, (3, 4)], "is_true": [False, True],
}  # fmt: skip
INDEXED = {"value", "typed_value", "int", "float", "bool", "bool_or_other"}


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


def attempt(f):
    try:
        return "ok", f()
    except Exception as exc:
        return "error", exc


def compare(config, model, reads):
    import returnn.config

    def access(kind, k, default, index):
        kw = {}
        if kind in INDEXED and index is not None:
            kw["index"] = index
        return getattr(config, kind)(k, default, **kw)

    for k in KEYS + ["kz"]:
        require(config.has(k) == (k in model.typed or k in model.text), lambda: "has %r" % k)
        require(config.is_typed(k) == (k in model.typed), lambda: "is_typed %r" % k)
        for t in (int, str, (list, tuple)):
            is_t = k in model.typed and isinstance(model.typed[k], t)
            require(config.is_of_type(k, t) == is_t, lambda: "is_of_type %r" % k)
            require(same(config.get_of_type(k, t, "dflt"), model.typed[k] if is_t else "dflt"), lambda: "get_of_type %r" % k)
    for k in sorted(set(model.typed) | set(model.text)):
        if k in model.typed:
            require(same(config.typed_value(k), model.typed[k]), lambda: "typed %r is %r, not %r" % (k, config.typed_value(k), model.typed[k]))
        else:
            require(config.list(k) == model.text[k], lambda: "%r is %r, not %r" % (k, config.list(k), model.text[k]))
    for kind, k, d, index in reads:
        d = DEFAULTS[kind][d % len(DEFAULTS[kind])]
        if kind not in INDEXED:
            index = None
        want = attempt(lambda: model.access(kind, k, d, index))
        got = attempt(lambda: access(kind, k, d, index))
        require(
            want[0] == got[0] and (want[0] == "error" or same(want[1], got[1])),
            lambda: "%s(%r, %r, index=%r) gives %r, expected %r. typed %r, text %r" % (kind, k, d, index, got, want, model.typed.get(k), model.text.get(k)),
        )


# ---------------------------------------------------------------- sources


def comment(i):
    return ["", " // it's \"x\"", " /* a\n */", "\n//\n"][i % 4]


def to_json(items, style):
    """JSON with comments"""
    parts = []
    for i, (k, v) in enumerate(items):
        parts.append("%s%s:%s%s" % (json.dumps(k), " " * (style % 2), "\n" * (style % 3 == 0), json.dumps(v, ensure_ascii=bool(style % 5))))
    sep = "," + ("" if style % 4 != 1 else " // c, \"\n") + " " * (style % 3)
    c = comment(style)
    if c.startswith(" //"):
        c += "\n"
    return "{" + c + sep.join(parts) + ("/* end */" if style % 3 == 1 else "") + "}" + "\n" * (style % 2)


def literal(s):
    return ast.literal_eval(s)


def write_source(d, i, op, model):
    """
    writes a file, updates the model

    :return: filename
    """
    kind, items, style = op
    fn = "%s/f%i" % (d, i)
    if kind == "py":
        text = "".join("%s = %s\n" % (k, v) for k, v in items)
        text += "".join("def get_%s():\n  return %s\n" % (k, k) for k, _ in items)
        if style % 3 == 0:
            fn += ".py"
        else:
            text = "#!rnn.py\n" + text
        if style % 2:
            text = "\n" * (style % 3 != 0) + text.rstrip("\n")
        for k, v in items:
            model.assign(k, literal(v))
        text = text or "#!"
    elif kind == "json":
        items = [(k, literal(v)) for k, v in items]
        items = list(dict(items).items())
        text = to_json(items, style)
        for k, v in items:
            model.assign(k, json.loads(json.dumps(v)))
    else:
        text = ""
        for j, (k, v) in enumerate(items):
            text += [" ", "", "\t"][(style + j) % 3] + k + [" ", "\t", "   "][style % 3] + v + ["", "  # c 1", " "][(style + j) % 3] + "\n" * (1 + (style + j) % 2)
            if (style + j) % 4 == 3:
                text += "# comment\n"
            model.line(k, v)
    with open(fn, "w") as f:
        f.write(text)
    return fn


def to_args(model, items, style):
    """-> command line"""
    args = []
    order = []
    for j, (k, v) in enumerate(items):
        if k in ("batch_size", "task") and (style + j) % 2 and not any(o[0] == k for o in order):
            args += {"batch_size": [["-b", v], ["--batch_size", v]], "task": [["-x", v], ["--task", v]]}[k][style % 2]
            order.append((k, v, 0))
    for j, (k, v) in enumerate(items):
        if any(o == (k, v, 0) for o in order):
            continue
        args += ["++" + k, ("+" + v if v.startswith("-") else v)]
        order.append((k, v, 1))
    return args, [(k, v) for k, v, _ in order]


def usable(model, items):
    """evaluation of overrides not defined otherwise"""
    import copy

    m = copy.deepcopy(model)
    for k, v in items:
        if not m.evaluable(k, v):
            return False
        m.line(k, v)
    return True


def cmd_ok(items):
    # optparse: values of options cannot start with -, and -b/-x are ordered by option name
    return all(v and not v.startswith("-") for k, v in items if k in ("batch_size", "task"))


def run_history(c):
    from returnn.config import Config

    model = Model()
    tags = set()
    with tempfile.TemporaryDirectory(prefix="vf_c20_") as d:
        init = {k: literal(v) for k, v in c["init"]}
        config = Config(init) if init else Config()
        for k, v in init.items():
            model.assign(k, v)
        for i, op in enumerate(c["ops"]):
            kind, items, style = op
            tags.add(kind)
            if kind in ("txt", "include", "args", "line") and not usable(model, items):
                continue
            if kind in ("py", "json"):
                fn = write_source(d, i, op, model)
                if style % 2 or fn.endswith(".py"):
                    config.load_file(fn)
                else:
                    with open(fn) as f:
                        config.load_file(f)
            elif kind == "txt":
                if not items:
                    continue
                fn = write_source(d, i, op, model)
                config.load_file(fn)
            elif kind == "include":
                if not items:
                    continue
                h = len(items) // 2
                fn1 = write_source(d, i * 100, ["txt", items[:h], style], model) if h else None
                fn2 = write_source(d, i * 100 + 1, ["txt", items[h:], style], model)
                fn = d + "/inc%i" % i
                with open(fn, "w") as f:
                    f.write("include " + ",".join(x for x in (fn1, fn2) if x) + "\n")
                config.load_file(fn)
            elif kind == "line":
                for k, v in items:
                    config.add_line(k, v)
                    model.line(k, v)
            elif kind == "args":
                if not cmd_ok(items):
                    continue
                args, order = to_args(model, items, style)
                if not usable(model, order):
                    continue
                config.parse_cmd_args(args)
                for k, v in order:
                    model.line(k, v)
            elif kind == "set":
                for k, v in items:
                    config.set(k, literal(v))
                    model.assign(k, literal(v))
            else:
                assert kind == "update"
                config.update({k: literal(v) for k, v in items})
                for k, v in items:
                    model.assign(k, literal(v))
            compare(config, model, c["reads"][i % len(c["reads"]) :])
            for k in KEYS:  # functions of the config see the current values
                f = config.typed_dict.get("get_" + k)
                if f is not None:
                    require(same(f(), model.typed[k]), lambda: "function sees %s = %r, but is %r" % (k, f(), model.typed[k]))
        compare(config, model, c["reads"])
    return tags


typed_items = st.lists(st.tuples(st.sampled_from(KEYS), value_st).map(list), max_size=4)
text_items = st.lists(st.tuples(st.sampled_from(KEYS), text_st.filter(lambda s: "#" not in s)).map(list), max_size=4)


def json_able(items):
    return [[k, v] for k, v in items if not isinstance(literal(v), tuple)]


op_st = st.one_of(
    st.tuples(st.just("py"), typed_items, st.integers(0, 59)),
    st.tuples(st.just("json"), typed_items.map(json_able), st.integers(0, 59)),
    st.tuples(st.just("txt"), text_items, st.integers(0, 59)),
    st.tuples(st.just("include"), text_items, st.integers(0, 59)),
    st.tuples(st.just("args"), text_items, st.integers(0, 59)),
    st.tuples(st.just("line"), text_items, st.integers(0, 59)),
    st.tuples(st.just("set"), typed_items, st.just(0)),
    st.tuples(st.just("update"), typed_items, st.just(0)),
).map(list)
read_st = st.tuples(st.sampled_from(ACCESS), st.sampled_from(KEYS + ["kz"]), st.integers(0, 2), st.sampled_from([None, None, 0, 1])).map(list)


@st.composite
def case_history(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True))
    ops = draw(st.lists(op_st, min_size=1, max_size=5))
    if draw(st.booleans()):  # concentrate
        ops = [[k, [[keys[i % len(keys)], x[1]] for i, x in enumerate(items)], s] for k, items, s in ops]
    return {
        "init": draw(st.one_of(st.just([]), typed_items)),
        "ops": ops,
        "reads": draw(st.lists(read_st, min_size=4, max_size=14)),
    }


# ---------------------------------------------------------------- init_config


def run_init(c):
    import returnn.__main__ as rnn
    from returnn.util.basic import BehaviorVersion

    model = Model()
    if not cmd_ok(c["args"]):
        return ["skip"]
    prev = rnn.config, BehaviorVersion._get_state()
    with tempfile.TemporaryDirectory(prefix="vf_c20_") as d:
        try:
            for k, v in c["default"]:
                model.assign(k, literal(v))
            for k, v in c["extra"]:
                model.assign(k, literal(v))
            args, order = to_args(model, c["args"], c["style"])
            if not usable(model, order):
                return ["skip"]
            for k, v in order:
                model.line(k, v)
            fns = []
            for i, op in enumerate(c["files"]):
                if op[0] == "txt" and (not usable(model, op[1]) or not op[1]):
                    continue
                fns.append(write_source(d, i, op, model))
            for k, v in c["extra"]:
                model.assign(k, literal(v))
            if not usable(model, order):
                return ["skip"]
            for k, v in order:
                model.line(k, v)
            if model.access("value", "task", "train", None) == "server":
                return ["skip"]
            kw = {}
            if fns and c["first_separate"]:
                kw["config_filename"] = fns.pop(0)
            rnn.init_config(
                command_line_options=fns + args,
                default_config={k: literal(v) for k, v in c["default"]},
                extra_updates={k: literal(v) for k, v in c["extra"]},
                **kw,
            )
            compare(rnn.config, model, c["reads"])
        finally:
            rnn.config = prev[0]
            BehaviorVersion._reset(prev[1])
    return ["files%i" % len(c["files"])]


@st.composite
def case_init(draw):
    return {
        "default": draw(st.one_of(st.just([]), typed_items)),
        "extra": draw(st.one_of(st.just([]), typed_items)),
        "files": [list(x) for x in draw(st.lists(op_st.filter(lambda o: o[0] in ("py", "json", "txt")), max_size=3))],
        "first_separate": draw(st.booleans()),
        "args": draw(text_items),
        "style": draw(st.integers(0, 9)),
        "reads": draw(st.lists(read_st, min_size=4, max_size=14)),
    }


# ---------------------------------------------------------------- JSON with comments


def run_json(c):
    from returnn.util.basic import load_json

    v = c["v"]
    text = ""
    for i, tok in enumerate(c["tokens"]):
        text += tok
        text += ["", " ", "\n", "/* a \"b' // */", "// x \" /* y\n", "\t\r\n", "/**/"][c["gaps"][i % len(c["gaps"])]]
    got = load_json(content=text)
    require(repr(got) == repr(v), lambda: "load_json of %r: %r, expected %r" % (text, got, v))


def json_tokens(v):
    if isinstance(v, dict):
        res = ["{"]
        for i, (k, x) in enumerate(v.items()):
            res += ([","] if i else []) + [json.dumps(k), ":"] + json_tokens(x)
        return res + ["}"]
    if isinstance(v, list):
        res = ["["]
        for i, x in enumerate(v):
            res += ([","] if i else []) + json_tokens(x)
        return res + ["]"]
    return [json.dumps(v)]


json_str = st.one_of(st.text('ab"\\/ *\n', max_size=6), st.sampled_from(["//", "/*", "*/", "\\", "a // b", "é\t中"]))
json_st = st.recursive(
    st.one_of(json_str, st.integers(-5, 5), st.sampled_from([None, True, False, 0.5, -1e-5])),
    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(json_str, x, max_size=3)),
    max_leaves=6,
)


@st.composite
def case_json(draw):
    v = draw(st.dictionaries(json_str, json_st, max_size=3))
    toks = json_tokens(v)
    return {"v": v, "tokens": toks, "gaps": draw(st.lists(st.integers(0, 6), min_size=1, max_size=max(1, min(len(toks), 12))))}


# ---------------------------------------------------------------- transfer

_HELPER = r"""
import sys, struct, pickle, os
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
import returnn.config as rc

def ev(config, exprs):
    res = []
    for e in exprs:
        try:
            res.append(repr(eval(e, config.typed_dict)))
        except Exception as exc:
            res.append("!%s" % type(exc).__name__)
    return res

while True:
    h = sys.stdin.buffer.read(8)
    if len(h) < 8:
        break
    msg = sys.stdin.buffer.read(struct.unpack("<q", h)[0])
    rc.set_global_config(None)
    sys.modules.pop("__returnn_config__", None)
    try:
        data, funcs, exprs, lines, queries, as_global = pickle.loads(msg)
        cfg = pickle.loads(data)
        res = {"global": rc.get_global_config(raise_exception=False) is cfg}
        if as_global:
            res["funcs"] = [pickle.loads(f) is cfg.typed_dict[n] for n, f in funcs]
        res["q"] = [repr(getattr(cfg, m)(*a)) for m, a in queries]
        res["first"] = ev(cfg, exprs)
        if as_global and lines:
            import __returnn_config__ as m
            for k, v in lines:
                res.setdefault("proxy", []).append(repr(getattr(m, k)))
        again = pickle.dumps(cfg)
        for k, v in lines:
            cfg.add_line(k, v)
        res["second"] = ev(cfg, exprs)
        res["again"] = ev(pickle.loads(again), exprs)
    except Exception as exc:
        import traceback
        res = {"error": traceback.format_exc()}
    res = pickle.dumps(res)
    out.write(struct.pack("<q", len(res)) + res)
    out.flush()
"""
_proc = None


def remote(msg):
    """run in another process"""
    import pickle
    import struct

    global _proc
    if _proc is None or _proc.poll() is not None:
        _proc = subprocess.Popen(
            [sys.executable, "-c", _HELPER, REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=REPO)
        )
    _proc.stdin.write(struct.pack("<q", len(msg)) + msg)
    _proc.stdin.flush()
    h = _proc.stdout.read(8)
    require(len(h) == 8, "process which loads the config died")
    return pickle.loads(_proc.stdout.read(struct.unpack("<q", h)[0]))


def program(defs):
    """-> Python source, names of functions, expressions"""
    src = ["#!rnn.py", "import math", "import functools", "import os.path as osp", "from math import sqrt", "import numpy", "from returnn.tensor import Dim, batch_dim"]
    exprs, funcs = [], []
    callables = []  # names, called with one arg

    def call_of(r):
        return callables[r % len(callables)] if callables else "abs"

    for i, (kind, v, r, w) in enumerate(defs):
        n = "n%i" % i
        g = "n%i" % (r % i) if i else "math"  # some other global
        if kind == "var":
            src.append("%s = %s" % (n, v))
            exprs.append(n)
        elif kind == "alias":
            src.append("%s = [%s, %s]\n%s_b = %s\n%s_c = {'x': %s}" % (n, v, i, n, n, n, n))
            exprs += [n, "%s is %s_b and %s is %s_c['x']" % (n, n, n, n)]
        elif kind == "func":
            src.append("def %s(x, a=%s, *args, k=%s, **kw):\n  'doc'\n  return [x, a, args, k, sorted(kw), repr(%s) if isinstance(%s, (int, str, float)) else 0, type(%s).__name__]" % (n, v, w, g, g, g))
            exprs += ["%s(1)" % n, "%s(1, 2, 3, k=4, z=5)" % n, n + ".__name__", n + ".__doc__"]
            callables.append(n)
            funcs.append(n)
        elif kind == "kwonly":
            src.append("def %s(*, k=%s):\n  return k" % (n, v))
            exprs += ["%s()" % n, "%s(k=9)" % n]
            funcs.append(n)
        elif kind == "chain":
            src.append("def %s(x):\n  return ['%s', %s(x), sqrt(4), math.floor(2.5), osp.join('a', 'b')]" % (n, n, call_of(r)))
            exprs.append("%s(-3)" % n)
            callables.append(n)
            funcs.append(n)
        elif kind == "lambda":
            src.append("%s = lambda x, y=%s: (x, y, repr(%s) if isinstance(%s, (int, str, float)) else None)" % (n, v, g, g))
            exprs += ["%s(5)" % n, "%s(5, 6)" % n]
            callables.append(n)
        elif kind == "closure":
            src.append("def make_%s(p, q):\n  z = [p]\n  def inner(x):\n    return (x, p, q, z)\n  return inner\n%s = make_%s(%s, %s)" % (n, n, n, v, w))
            exprs += ["%s(1)" % n, "make_%s(1, 2)(3)" % n]
            callables.append(n)
        elif kind == "recursive":
            src.append("def %s(x):\n  return [x] + (%s(x - 1) if isinstance(x, int) and x > 0 else [])" % (n, n))
            exprs.append("%s(3)" % n)
            funcs.append(n)
        elif kind == "attr":
            src.append("def %s(x):\n  return %s.count\n%s.count = %s" % (n, n, n, v))
            exprs.append("%s(1)" % n)
        elif kind == "partial":
            src.append("def f_%s(a, b, *, c=0):\n  return a, b, c\n%s = functools.partial(f_%s, %s, c=%s)" % (n, n, n, v, w))
            exprs.append("%s(1)" % n)
            callables.append(n)
        elif kind == "class":
            src.append(
                "class %s:\n  attr = %s\n  def __init__(self, p=%s):\n    self.p = p\n  def m(self, x=2):\n    return ['%s', x, self.p, self.attr, %s.attr]\n"
                "  def s(self, x):\n    return ('s', x)" % (n, v, w, n, n)
            )
            exprs += ["%s().m()" % n, "%s(3).m(1)" % n, "%s().s(1)" % n, "%s.__name__" % n]
            src.append("i_%s = %s(%s)\nb_%s = i_%s.m" % (n, n, w, n, n))
            exprs += ["i_%s.m()" % n, "isinstance(i_%s, %s)" % (n, n), "b_%s(4)" % n]
            if r % 2:
                src.append("class d_%s(%s):\n  extra = %s\n  def m(self, x=7):\n    return ('sub', %s.m(self, x), self.extra)" % (n, n, v, n))
                exprs += ["d_%s().m()" % n, "isinstance(d_%s(), %s)" % (n, n)]
        elif kind == "array":
            dt = ["float32", "int64", "uint8", "bool", "<U3", ">f4", "complex64"][r % 7]
            sh = ["()", "(2,)", "(0, 3)", "(2, 3)"][(r // 7) % 4]
            src.append("%s = numpy.array(numpy.arange(numpy.prod(%s, dtype=int)).reshape(%s) %% 3, dtype=%r)%s" % (n, sh, sh, dt, [".T", ""][r % 2]))
            exprs += ["(%s.dtype.str, %s.shape, %s.tolist())" % (n, n, n)]
        elif kind == "dims":
            src.append(
                "%s_t = Dim(None, name='time%i')\n%s_f = Dim(%i, name='feat')\n%s = {'data': {'dims': [batch_dim, %s_t, %s_f]}, 'c': {'dims': (batch_dim, %s_t), 'sparse_dim': %s_f}}"
                % (n, i, n, r % 7 + 1, n, n, n, n, n)
            )
            exprs += [
                "%s['data']['dims'][1] is %s_t and %s['c']['dims'][1] is %s_t" % (n, n, n, n),
                "%s['data']['dims'][0] == batch_dim and %s['c']['sparse_dim'] is %s_f" % (n, n, n),
                "(%s_f.dimension, %s_t.dimension, %s_f.name, %s_t.name, %s_t == %s_f)" % ((n,) * 6),
            ]
        elif kind == "config":
            src.append("def %s(x):\n  return type(config.typed_value(%r, 'dflt')).__name__, config.value('txt', None)" % (n, "n%i" % (r % (i + 1))))
            exprs.append("%s(1)" % n)
            callables.append(n)
        elif kind == "dict":
            src.append("%s = {'f': %s, 'v': %s, 's': {1, 2}, 'n': [%s]}" % (n, call_of(r), v, call_of(r)))
            exprs += ["%s['f'](-1)" % n, "%s['v'], %s['s']" % (n, n), "%s['n'][0] is %s['f']" % (n, n)]
        elif kind == "module":
            src.append("from returnn.util.basic import NumbersDict as nd_%s\n%s = nd_%s({'a': %i})" % (n, n, n, r % 9))
            exprs += ["%s['a']" % n, "type(%s).__module__, math.pi" % n]
    return "\n".join(src) + "\n", funcs, exprs


def run_transfer(c):
    import io
    import pickle
    from returnn.config import Config, global_config_ctx

    src, funcs, exprs = program(c["defs"])
    vars_ = ["n%i" % i for i, x in enumerate(c["defs"]) if x[0] == "var"]
    lines = [["n%i" % i, str(o)] for (i, x), o in zip([(i, x) for i, x in enumerate(c["defs"]) if x[0] == "var"], c["override"])]
    lines = [x for x in lines if not isinstance(literal(c["defs"][int(x[0][1:])][1]), str)]

    def ev(config):
        res = []
        for e in exprs:
            try:
                res.append(repr(eval(e, config.typed_dict)))
            except Exception as exc:
                res.append("!%s" % type(exc).__name__)
        return res

    def make():
        config = Config()
        config.load_file(io.StringIO(src))
        for k, v in c["text"]:
            config.add_line(k, v)
        return config

    config = make()
    ref = make()
    first = ev(ref)
    require(ev(config) == first, "two loads of the same config differ")
    for k, v in lines:
        ref.add_line(k, v)
    second = ev(ref)
    queries = [("has", ["txt"]), ("list", ["txt"]), ("value", ["txt", "dflt"]), ("has", ["ka"]), ("list", ["ka", ["q"]]), ("has", ["n0"])]
    queries_res = [repr(getattr(config, m)(*a)) for m, a in queries]
    for as_global in (True, False):
        fs = []
        if as_global:
            with global_config_ctx(config):
                data = pickle.dumps(config)
                fs = [(n, pickle.dumps(config.typed_dict[n])) for n in funcs]
                for n, f in fs:
                    require(pickle.loads(f) is config.typed_dict[n], "function by reference")
        else:
            data = pickle.dumps(config)
        require(ev(config) == first, "changed by pickling")
        proxies = [repr(config.typed_dict[k]) for k, _ in lines]
        for where in ("here", "remote"):
            if where == "here":
                cfg = pickle.loads(data)
                require(cfg is not config and cfg.typed_dict is not config.typed_dict, "not a copy")
                r = {"first": ev(cfg), "q": [repr(getattr(cfg, m)(*a)) for m, a in queries]}
                for k, v in lines:
                    cfg.add_line(k, v)
                r["second"] = ev(cfg)
                require(ev(config) == first, "change of the copy changes the original")
            else:
                r = remote(pickle.dumps((data, fs, exprs, lines, queries, as_global)))
                require("error" not in r, lambda: "loading the config failed:\n%s\n%s" % (src, r["error"]))
                require(not as_global or r["global"], "is not the global config in the other process")
                require(as_global or not r["global"], "became the global config in the other process")
                require(all(r.get("funcs", [])), "function by reference, other process")
                require(r.get("proxy", proxies) == proxies, lambda: "values via module: %s, expected %s" % (r["proxy"], proxies))
                require(r["again"] == first, lambda: info("second transfer", r["again"], first))

            def info(what, a, b):
                return "%s (%s):\n%s\n" % (what, where, src) + "\n".join("%s -> %s, expected %s" % x for x in zip(exprs, a, b) if x[1] != x[2])

            require(r["first"] == first, lambda: info("after transfer", r["first"], first))
            require(r["second"] == second, lambda: info("after overriding %s" % lines, r["second"], second))
            require(r["q"] == queries_res, lambda: "%s: line-based options: %s, expected %s" % (where, r["q"], queries_res))
    return {x[0] for x in c["defs"]}


KINDS = ["var", "var", "alias", "func", "kwonly", "chain", "lambda", "closure", "recursive", "attr", "partial", "class", "array", "dims", "config", "dict", "module"]


@st.composite
def case_transfer(draw):
    v = st.one_of(st.integers(0, 9), st.sampled_from([0.5, "s", None, True]), st.lists(st.integers(0, 3), max_size=2), st.dictionaries(st.sampled_from("ab"), st.integers(0, 2), max_size=2)).map(repr)
    d = st.tuples(st.sampled_from(KINDS), v, st.integers(0, 27), v).map(list)
    return {
        "defs": draw(st.lists(d, min_size=1, max_size=6)),
        "text": [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(["txt", "ka"]), st.sampled_from(["1", "a,b", "x"])), max_size=2))],
        "override": draw(st.lists(st.integers(10, 20), max_size=2)),
    }


# ---------------------------------------------------------------- global config


def run_globalctx(c):
    from returnn.config import Config, global_config_ctx, get_global_config, set_global_config
    import returnn.config as rc
    import contextlib

    configs = [Config({"i": i}) for i in range(3)] + [None]
    graphs = [contextlib.nullcontext()]
    graph_of = {}
    tf_used = c["tf"]
    if tf_used:
        from returnn.tf.compat import v1 as tf_v1

    class Err(Exception):
        pass

    def cur():
        return get_global_config(raise_exception=False)

    def run(ops):
        for op in ops:
            kind, i, body = op
            before = cur()
            if kind == "ctx":
                try:
                    with global_config_ctx(configs[i % 4]):
                        require(cur() is configs[i % 4], "in the context: the given config")
                        run(body)
                        if i >= 4:
                            raise Err
                except Err:
                    pass
                require(cur() is before, lambda: "after the context: %r, before %r" % (cur() and cur().typed_dict, before and before.typed_dict))
            elif kind == "set":
                set_global_config(configs[i % 4])
                require(cur() is configs[i % 4], "set")
            elif kind == "graph" and tf_used:
                with tf_v1.Graph().as_default():
                    run(body)
            elif kind == "read":
                e = get_global_config(raise_exception=False, return_empty_if_none=True)
                require(isinstance(e, Config) and (cur() is None or e is cur()), "return_empty_if_none")
                require(cur() is before, "read does not change")
                if before is None:
                    try:
                        get_global_config()
                    except Exception:
                        pass
                    else:
                        require(False, "no exception without config")
                    x = get_global_config(auto_create=True)
                    require(get_global_config() is x and cur() is x, "auto_create")
                    set_global_config(None)

    import returnn.__main__ as rnn

    prev, prev_main = rc._global_config, rnn.config
    rnn.config = None
    try:
        with (tf_v1.Graph().as_default() if tf_used else contextlib.nullcontext()):
            set_global_config(None)
            run(c["ops"])
            set_global_config(None)
    finally:
        rc._global_config = prev
        rnn.config = prev_main
    return ["tf"] if tf_used else ["plain"]


gop_st = st.recursive(
    st.one_of(st.tuples(st.just("set"), st.integers(0, 3), st.just([])), st.tuples(st.just("read"), st.just(0), st.just([]))),
    lambda x: st.tuples(st.sampled_from(["ctx", "ctx", "graph"]), st.integers(0, 7), st.lists(x, max_size=3)),
    max_leaves=6,
).map(list)


@st.composite
def case_globalctx(draw):
    return {"tf": draw(st.booleans()), "ops": draw(st.lists(gop_st, min_size=1, max_size=4))}


# ---- Python configs: what the config code sees, and the config as a module ----


@st.composite
def case_pymodule(draw):
    names = draw(st.lists(st.sampled_from("abcde"), min_size=1, max_size=4, unique=True))
    return {
        "vals": {n: draw(st.one_of(st.integers(-9, 9), st.booleans(), st.text("xyz", max_size=3))) for n in names},
        "pre": draw(st.one_of(st.none(), st.integers(0, 9))),
        "package": draw(st.sampled_from([0, 0, 1, 2])),
        "helper": draw(st.integers(-99, 99)),
        "shebang": draw(st.booleans()),
        "update": draw(st.lists(st.tuples(st.sampled_from("abcde"), st.integers(10, 99)), max_size=3)),
        "set_via_module": draw(st.booleans()),
    }


def run_pymodule(case):
    import sys
    import importlib
    import tempfile
    from returnn.config import Config, global_config_ctx

    vals = dict(case["vals"])
    first = sorted(vals)[0]
    pkg_depth = case["package"]
    _py_counter[0] += 1
    uid = "vcfgpkg%i_%i" % (os.getpid(), _py_counter[0])
    lines = ["%s = %r" % kv for kv in vals.items()]
    lines += ["def get_first():", "    return %s" % first]
    if pkg_depth:
        lines.insert(0, "from .helper import value as helper_value")
    else:
        lines += [
            "cfg_file = __file__",
            "cfg_name = __name__",
            "pre_seen = config.typed_value('pre', -1)",
            "pre_seen2 = config.int('pre', -1)",
        ]
    text = ("#!returnn/rnn.py\n" if case["shebang"] else "") + "\n".join(lines) + "\n"
    old_path = list(sys.path)
    with tempfile.TemporaryDirectory() as d:
        cur = d
        for i in range(pkg_depth):
            cur = "%s/%s" % (cur, uid if i == 0 else "sub")
            os.mkdir(cur)
            with open(cur + "/__init__.py", "w"):
                pass
        if pkg_depth:
            with open(cur + "/helper.py", "w") as f:
                f.write("value = %r\n" % case["helper"])
        fn = cur + "/conf.py"
        with open(fn, "w") as f:
            f.write(text)
        importlib.invalidate_caches()
        try:
            config = Config()
            if case["pre"] is not None:
                config.typed_dict["pre"] = case["pre"]
            config.load_file(fn)
        finally:
            sys.path[:] = old_path
            for name in [m for m in sys.modules if m.split(".")[0] == uid]:
                del sys.modules[name]
        for k, v in vals.items():
            require(config.typed_value(k) == v and type(config.typed_value(k)) is type(v), lambda: "%s = %r" % (k, config.typed_value(k)))
        func = config.typed_value("get_first")
        require(func() == vals[first], lambda: "function sees %r" % func())
        if pkg_depth:
            require(config.typed_value("helper_value") == case["helper"], lambda: "helper %r" % config.typed_value("helper_value"))
            return ["package%i" % pkg_depth]
        require(config.typed_value("cfg_file") == fn, lambda: "__file__ %r" % config.typed_value("cfg_file"))
        require(config.typed_value("pre_seen") == (case["pre"] if case["pre"] is not None else -1), "earlier options not seen")
        require(config.typed_value("pre_seen2") == (case["pre"] if case["pre"] is not None else -1), "earlier options not seen (int)")
        # later changes (e.g. command line) are what the functions of the config see
        for k, v in case["update"]:
            config.set(k, v)
            vals[k] = v
        require(func() == vals[first], lambda: "function sees %r after update, expected %r" % (func(), vals[first]))
        mod_name = config.typed_value("cfg_name")
        with global_config_ctx(config):
            mod = importlib.import_module(mod_name)
            if case["set_via_module"]:
                setattr(mod, first, 12345)
                vals[first] = 12345
            for k, v in vals.items():
                require(getattr(mod, k) == v, lambda: "module %s: %r vs %r" % (k, getattr(mod, k), v))
                require(config.typed_value(k) == v, lambda: "config %s: %r vs %r" % (k, config.typed_value(k), v))
                require(k in dir(mod), lambda: "dir %r" % dir(mod))
            require(getattr(mod, "get_first") is func and func() == vals[first], "function via module")
            require(getattr(mod, "not_defined", None) is None, "undefined attribute")
            other = Config({first: "other"})
            with global_config_ctx(other):
                require(getattr(mod, first) == "other", "module must be the current global config")
    return ["plain"]


_py_counter = [0]


SUBS = [
    Sub("history", case_history, run_history, quick=3000, thorough=100000, nontrivial=lambda c: len(c["ops"]) > 1),
    Sub("init", case_init, run_init, quick=2000, thorough=60000, nontrivial=lambda c: len(c["files"]) + len(c["args"]) > 1),
    Sub("pymodule", case_pymodule, run_pymodule, quick=400, thorough=6000, nontrivial=lambda c: len(c["vals"]) > 1),
    Sub("json", case_json, run_json, quick=1500, thorough=60000, nontrivial=lambda c: len(c["tokens"]) > 4),
    Sub("transfer", case_transfer, run_transfer, quick=1200, thorough=30000, nontrivial=lambda c: len(c["defs"]) > 1),
    Sub("globalctx", case_globalctx, run_globalctx, quick=800, thorough=20000, nontrivial=lambda c: len(c["ops"]) > 1),
]
