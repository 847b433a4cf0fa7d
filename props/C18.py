"""C18: compile cache and lock files: shared by processes, under any schedule and crash"""

from __future__ import annotations
import contextlib
import hashlib
import io
import os
import shutil
import sys
import tempfile
from hypothesis import strategies as st
from vlib.core import Sub, require, Violation
from vlib import sched


def setup():
    import platform
    import returnn.util.native_code_compiler  # noqa
    import returnn.util.basic  # noqa

    platform.platform()  # cached, calls other things
    sched.install()


# ---------------------------------------------------------------- lock file


def run_lock(c):
    from returnn.util.basic import LockFile

    base = os.path.realpath(tempfile.mkdtemp(prefix="vf_c18_"))
    world = sched.World(base, c["events"], atomic=("remove",), max_time=100000.0)
    inside = {}
    tags = set()

    def process(box, ops):
        me = box[0]
        for i, op in enumerate(ops):
            lock = LockFile(base + "/d/e" if op["deep"] else base + "/d", name="lock%i" % op["name"], lock_timeout=c["timeout"])
            t0 = world.clock
            ctx = contextlib.suppress(KeyError) if op["raises"] else contextlib.nullcontext()
            with ctx:
                with lock:
                    key = lock.lockfile
                    others = [p for p in inside.setdefault(key, []) if not p.dead]
                    require(not others, lambda: "%s got the lock while %s has it; %s" % (me, others, world.history()))
                    dead = [p for p in inside[key] if p.dead]
                    if dead:
                        tags.add("stale")
                    inside[key] = [me]
                    for s in op["work"]:
                        world.point("work")
                        world.sleep(s * c["timeout"])
                    world.point("work")
                    inside[key] = []
                    if op["raises"]:
                        raise KeyError("in the critical section")
            tags.add("got")
            if op["pause"]:
                world.sleep(op["pause"])

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for i, ops in enumerate(c["procs"]):
                box = []
                box.append(world.proc("P%i" % i, lambda box=box, ops=ops: process(box, ops)))
            world.run()
        for root, _, files in sched._real_walk(base):
            for fn in files:
                who = inside.get(root + "/" + fn, [])
                require(
                    any(e.startswith("kill") for e in world.applied),
                    lambda: "%s is left over, although no process crashed; %s" % (fn, world.history()),
                )
        return tags | {e.split(" ")[0] for e in world.applied}
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def case_lock(draw):
    def op():
        return {
            "name": draw(st.sampled_from([0, 0, 0, 1])),
            "deep": draw(st.booleans()),
            "raises": draw(st.sampled_from([False, False, True])),
            "work": draw(st.lists(st.sampled_from([0.0, 0.1, 0.4]), max_size=2)),
            "pause": draw(st.sampled_from([0, 0.5, 3])),
        }

    return {
        "timeout": draw(st.sampled_from([20, 20, 100, 5])),
        "procs": [[op() for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(2, 4)))],
        "events": draw(events(["switch"] * 6 + ["kill"], 25)),
    }


@st.composite
def events(draw, actions, max_gap):
    res = []
    for _ in range(draw(st.integers(0, 8))):
        a = draw(st.sampled_from(actions))
        arg = draw(st.sampled_from([0.5, 5, 100])) if a == "delay" else draw(st.integers(0, 5))
        res.append([draw(st.one_of(st.integers(0, 6), st.integers(0, max_gap))), a, arg])
    return res


# ---------------------------------------------------------------- compiler


def make_lib(source, args, deps):
    """what the compiler makes out of it"""
    opts = [a for a in args if a.startswith("-D") or a.startswith("-l") or a in ("gcc", "g++")]
    txt = "%s;%s;%s" % (source, sorted(opts), deps)
    return ("LIB " + hashlib.md5(txt.encode()).hexdigest() + " END").encode()


class Compiler:
    def __init__(self, sim, args):
        self.sim, self.args = sim, args
        self.returncode = None

    def communicate(self):
        w = self.sim.world
        src = [a for a in self.args if a.endswith((".c", ".cc"))]
        out = self.args[self.args.index("-o") + 1]
        require(len(src) == 1, "args %s" % (self.args,))
        w.point("compile")
        with open(src[0]) as f:
            source = f.read()
        self.sim.n_compiled += 1
        deps = self.sim.dep_version
        if "syntax error" in source:
            self.returncode = 1
            return b"error", None
        lib = make_lib(source, self.args, deps if "dep.h" in source else None)
        if os.path.exists(out):
            os.remove(out)
        w.point("compile")
        with open(out, "wb") as f:
            f.write(lib)
        w.point("compile")
        self.returncode = 0
        return b"log", None


class Sim:
    def __init__(self, c, base):
        self.c, self.base = c, base
        self.cache = base + "/cache"
        os.makedirs(self.cache)
        self.world = sched.World(base, c["events"], atomic=("remove",), max_time=1e9, max_ops=200000)
        self.world.compiler = lambda args: Compiler(self, args)
        self.n_compiled = 0
        self.active = []
        self.dep_version = 0
        self.dep = base + "/dep.h"
        self.write_dep(self.world.clock - 1e6)
        self.tags = set()

    def write_dep(self, mtime):
        with sched._real["file"](self.dep, "w") as f:
            f.write("// %i" % self.dep_version)
        sched._real["utime"](self.dep, (mtime, mtime))

    def args_of(self, op):
        kw = {
            "base_name": "mod%i" % op["base"],
            "code_version": op["version"],
            "code": "// code %i%s%s" % (op["code"], " #include dep.h" if op["dep"] else "", " syntax error" if op["code"] == 9 else ""),
            "is_cpp": op["cpp"],
            "should_cleanup_old_all": op["cleanup"],
            "should_cleanup_old_mydir": op["cleanup_my"],
            "c_macro_defines": {"A": op["macro"]} if op["macro"] else None,
            "ld_flags": ["-lm"] if op["ld"] else None,
            "log_stream": sys.stdout,
        }
        if op["dep"]:
            kw["include_deps"] = [self.dep]
        return kw

    def process(self, box, ops):
        from returnn.util.native_code_compiler import NativeCodeCompiler

        me = box[0]
        for op in ops:
            if op.get("touch_dep"):
                self.world.point("modify")
                while any(not p.dead for p in self.active):  # not while it might be compiled
                    self.world.sleep(1)
                self.dep_version += 1
                with sched.outside():
                    self.write_dep(self.world.clock)
                continue
            if op.get("sleep"):
                self.world.sleep(op["sleep"])
                continue
            kw = self.args_of(op)
            dep = self.dep_version
            n = self.n_compiled
            with self.world.quiet():
                comp = NativeCodeCompiler(**kw)
            self.active.append(me)
            try:
                fn = comp.get_lib_filename()
            except sched.Killed:
                raise
            except Exception as exc:
                if op["code"] == 9 and "returned non-zero" in str(exc):
                    self.tags.add("compile-error")
                    continue
                raise Violation("%s: %s %s: %s; %s" % (me, op, type(exc).__name__, exc, self.world.history())) from exc
            finally:
                self.active.remove(me)
            require(op["code"] != 9, lambda: "no error for code with an error")
            self.world.point("load", fn)
            self.world.point("load", fn)
            try:
                with sched._real["file"](fn, "rb") as f:
                    got = f.read()
            except FileNotFoundError:
                raise Violation("%s: %s is gone before it can be loaded; %s" % (me, fn, self.world.history()))
            bin_ = "g++" if op["cpp"] else "gcc"
            opts = [bin_, "-D_GLIBCXX_USE_CXX11_ABI=0"] + (["-DA=%s" % op["macro"]] if op["macro"] else []) + (["-lm"] if op["ld"] else [])
            if op["dep"]:
                # the version at the call or later
                wants = [make_lib(kw["code"], opts, d) for d in range(dep, self.dep_version + 1)]
            else:
                wants = [make_lib(kw["code"], opts, None)]
            require(
                got in wants,
                lambda: "%s: %s: got a library %r, expected %s; %s" % (me, op, got, wants, self.world.history()),
            )
            self.tags.add("compiled" if self.n_compiled > n else "reused")

    def run(self):
        if self.c["age"]:
            # all was already used earlier
            box = []
            with self.world.quiet():
                box.append(self.world.proc("W", lambda: self.process(box, [op for ops in self.c["procs"] for op in ops if "code" in op])))
                self.world.run()
            self.world.clock += self.c["age"]
        for i, ops in enumerate(self.c["procs"]):
            box = []
            box.append(self.world.proc("P%i" % i, lambda box=box, ops=ops: self.process(box, ops)))
        self.world.run()


def run_compile(c):
    base = os.path.realpath(tempfile.mkdtemp(prefix="vf_c18_"))
    old = os.environ.get("RETURNN_CACHE_DIR")
    try:
        os.environ["RETURNN_CACHE_DIR"] = base + "/cache"
        with contextlib.redirect_stdout(io.StringIO()):
            sim = Sim(c, base)
            sim.run()
        return sim.tags | {e.split(" ")[0] for e in sim.world.applied}
    finally:
        if old is None:
            del os.environ["RETURNN_CACHE_DIR"]
        else:
            os.environ["RETURNN_CACHE_DIR"] = old
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def case_compile(draw, alone=False):
    main = []

    def op():
        k = draw(st.integers(0, 15))
        if k == 15:
            return {"touch_dep": True}
        if k == 14:
            return {"sleep": draw(st.sampled_from([1, 100, 5000, 61 * 86400]))}
        if k < 11 and main:
            return dict(main[0], cleanup_my=draw(st.sampled_from([False, False, True])), cleanup=draw(st.booleans()))
        main.append(variant())
        return main[-1]

    def variant():
        return {
            "base": draw(st.sampled_from([0, 0, 0, 1])),
            "version": draw(st.sampled_from([1, 1, 1, 2])),
            "code": draw(st.sampled_from([0, 0, 0, 0, 1, 9])),
            "dep": draw(st.booleans()),
            "cpp": draw(st.sampled_from([True, True, True, False])),
            "cleanup": draw(st.sampled_from([True, True, False])),
            "cleanup_my": draw(st.sampled_from([False, False, True])),
            "macro": draw(st.sampled_from([None, None, 1, 2])),
            "ld": draw(st.sampled_from([False, False, True])),
        }

    return {
        "age": draw(st.sampled_from([0, 0, 10000.0, 61 * 86400.0])),
        "procs": [[op() for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(2, 3)))],
        "events": draw(events(["switch"] * 6 + ["kill", "delay", "delay"], 50)),
    }


def nontrivial(c):
    return any(e[1] in ("switch", "kill", "delay") for e in c["events"])


SUBS = [
    Sub("lock", case_lock, run_lock, quick=2500, thorough=200000, nontrivial=nontrivial),
    Sub("compile", case_compile, run_compile, quick=2500, thorough=200000, nontrivial=nontrivial),
]
