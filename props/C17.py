"""C17: file cache: shared by processes, under any schedule, crash and full disk"""

from __future__ import annotations
import contextlib
import io
import os
import shutil
import tempfile
from hypothesis import strategies as st
from vlib.core import Sub, require, Violation
from vlib import sched

PAGE = 4096


def setup():
    import returnn.util.file_cache  # noqa
    import returnn.util.basic  # noqa

    sched.install()


def content(f, version, pages, extra):
    n = pages * PAGE - extra if pages else 0
    pat = b"<file %i version %i>" % (f, version)
    return (pat * (n // len(pat) + 1))[:n]


class Sim:
    def __init__(self, c, base):
        self.c, self.base = c, base
        self.src_dir, self.cache_dir = base + "/src", base + "/cache"
        os.makedirs(self.src_dir)
        os.makedirs(self.cache_dir)
        self.versions = [0] * len(c["files"])
        self.data = {}
        self.held = []  # (proc, path, f, version)
        self.world = sched.World(base, c["events"], atomic=("remove",), disk_pages=c["disk"], disk_dir=self.cache_dir, max_time=3000.0)
        self.world.on_point = self.invariant
        self.tags = set()
        self.waiting = set()
        self.finale_done = False
        for f, (pages, extra) in enumerate(c["files"]):
            self.write_src(f, pages, extra, self.world.clock - 100000.0 + f)
        for f, age in enumerate(c["cached"]):
            if age is not None:
                self.pre_cache(f, age)

    def src(self, f):
        return self.src_dir + "/%s" % ("a/f%i" % f if f % 2 else "f%i" % f)

    def write_src(self, f, pages, extra, mtime):
        fn = self.src(f)
        v = self.versions[f]
        real_makedirs(os.path.dirname(fn))
        self.data[f, v] = content(f, v, pages, min(extra, pages))
        with sched._real["file"](fn + ".new", "wb") as fh:
            fh.write(self.data[f, v])
        sched._real["utime"](fn + ".new", (mtime, mtime))
        sched._real["replace"](fn + ".new", fn)

    def pre_cache(self, f, age):
        """as left by an earlier run"""
        dst = self.cache_dir + self.src(f)
        real_makedirs(os.path.dirname(dst))
        t = self.world.clock - age
        with sched._real["file"](dst, "wb") as fh:
            fh.write(self.data[f, self.versions[f]])
        with sched._real["file"](dst + ".returnn-info", "w") as fh:
            fh.write('{"mtime_ns": %i}' % sched._real["stat"](self.src(f)).st_mtime_ns)
        for fn in (dst, dst + ".returnn-info"):
            sched._real["utime"](fn, (t, t))

    def modify(self, f, pages, extra, older=False):
        self.world.point("modify")
        self.versions[f] += 1
        old = len(self.data[f, self.versions[f] - 1])
        mtime = self.world.clock
        if older and pages * PAGE - min(extra, pages) != old:
            mtime -= 200000.0  # e.g. some older file moved there; of different size
        with sched.outside():
            self.write_src(f, pages, extra, mtime)

    def read(self, fn):
        try:
            with sched._real["file"](fn, "rb") as fh:
                return fh.read()
        except FileNotFoundError:
            return None

    def invariant(self):
        """what a process holds is there"""
        for proc, path, f, v in self.held:
            if proc.dead or self.versions[f] != v:
                continue
            try:
                size = sched._real["stat"](path).st_size
            except FileNotFoundError:
                size = None
            require(
                size == len(self.data[f, v]),
                lambda: "%s uses %s, but this file is %s now; %s"
                % (proc.name, path[len(self.base) :], "missing" if size is None else "of size %i" % size, self.world.history()),
            )

    def process(self, proc, ops):
        from returnn.util.file_cache import FileCache

        opts = dict(self.c["opts"])
        cache = FileCache(cache_directory=self.cache_dir, **opts)
        mine = []
        for op in ops:
            if op[0] == "get":
                f = op[1] % len(self.versions)
                v = self.versions[f]
                n_ev = sched.cur().faults
                try:
                    path = cache.get_file(self.src(f))
                except sched.Killed:
                    raise
                except Exception as exc:
                    if v != self.versions[f] and isinstance(exc, FileNotFoundError):
                        continue  # the source was changed meanwhile, and another process replaces the copy right now
                    if self.may_fail(exc, f, n_ev):
                        self.tags.add("no-space")
                        continue
                    raise Violation(
                        "%s: get_file(f%i) raised %s: %s (disk: %i pages, %i free); %s"
                        % (proc.name, f, type(exc).__name__, exc, self.c["disk"], self.world.disk_free() // PAGE, self.world.history())
                    ) from exc
                self.tags.add("got")
                require(
                    path.startswith(self.cache_dir + "/"), lambda: "get_file(%s) returned %s" % (self.src(f), path)
                )
                if v == self.versions[f]:
                    got = self.read(path)
                    require(
                        got == self.data[f, v],
                        lambda: "%s: cached copy of f%i version %i: %s; %s"
                        % (proc.name, f, v, "missing" if got is None else "%i bytes, %r ..., expected %i bytes" % (len(got), got[:30], len(self.data[f, v])), self.world.history()),
                    )
                    mine.append((proc, path, f, v))
                    self.held.append(mine[-1])
                else:
                    mine.append((proc, path, f, None))
            elif op[0] == "release":
                if mine:
                    h = mine.pop(op[1] % len(mine))
                    if h[3] is not None:
                        self.held.remove(h)
                        if self.versions[h[2]] == h[3]:
                            require(self.read(h[1]) == self.data[h[2], h[3]], lambda: "content of %s changed while in use; %s" % (h[1], self.world.history()))
                    cache.release_files(h[1])
            elif op[0] == "sleep":
                self.world.sleep(op[1])
            elif op[0] == "modify":
                f = op[1] % len(self.versions)
                self.modify(f, op[2], op[3], op[4])
            elif op[0] == "cleanup":
                cache.cleanup()
        self.waiting.add(proc)
        while mine and not self.finale_done:
            self.world.sleep(1)
        for h in mine:
            if h in self.held:
                self.held.remove(h)
        cache._touch_files_thread.stop.set()

    def may_fail(self, exc, f, n_ev):
        """if there is really no space"""
        injected = sched.cur().faults - n_ev
        is_space = isinstance(exc, OSError) and exc.errno == 28
        if is_space and injected >= self.c["opts"]["num_tries"]:
            return True
        if not is_space and "cannot free enough space" not in str(exc):
            return False
        # Everything which is not in use can be removed
        removable = 0
        for root, _, files in sched._real_walk(self.cache_dir):
            for fn in files:
                s = sched._real["stat"](root + "/" + fn)
                if self.world.clock - s.st_mtime > 15:
                    removable += s.st_blocks * 512
        need = (len(self.data[f, self.versions[f]]) // PAGE + 3) * PAGE  # also info, lock
        return self.world.disk_free() + removable < need + 2 * PAGE

    def run(self):
        for i, ops in enumerate(self.c["procs"]):
            box = []
            box.append(self.world.proc("P%i" % i, lambda ops=ops, box=box: self.process(box[0], ops)))
        if self.c["finale"]:
            self.world.proc("F", self.finale).protected = True
        else:
            self.finale_done = True
        self.world.run()

    def finale(self):
        """later, another process needs all the space which it can get"""
        from returnn.util.file_cache import FileCache

        while not all(p.dead or p in self.waiting for p in self.world.procs[:-1]):
            self.world.sleep(1)
        self.world.sleep(30)
        try:
            FileCache(cache_directory=self.cache_dir).cleanup(need_at_least_free_space_size=self.c["disk"] * PAGE)
        except Exception as exc:
            if "cannot free enough space" not in str(exc):
                raise
        self.world.point("end")
        self.finale_done = True


def real_makedirs(d):
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)


def run(c):
    base = tempfile.mkdtemp(prefix="vf_c17_")
    base = os.path.realpath(base)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sim = Sim(c, base)
            sim.run()
        return sim.tags | {e.split(" ")[0] for e in sim.world.applied}
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def case(draw, kinds=("get", "get", "get", "release", "sleep", "modify", "cleanup"), full=False):
    n = draw(st.integers(1, 3))
    files = [[draw(st.integers(0, 3)), draw(st.integers(0, 2))] for _ in range(n)]

    def op():
        k = draw(st.sampled_from(kinds))
        if k == "modify":
            return [k, draw(st.integers(0, n - 1)), draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.sampled_from([False, False, True]))]
        if k in ("get", "release"):
            return [k, draw(st.integers(0, 2))]
        if k == "sleep":
            return [k, draw(st.sampled_from([0, 1.5, 12, 30, 650]))]
        return [k]

    procs = [[["get", draw(st.integers(0, n - 1))]] + [op() for _ in range(draw(st.integers(0, 4)))] for _ in range(draw(st.integers(2, 3)))]
    events = []
    for _ in range(draw(st.integers(0, 8))):
        a = draw(st.sampled_from(["switch"] * 5 + ["delay"] * 2 + ["kill", "enospc"]))
        arg = draw(st.sampled_from([0.5, 5, 25])) if a == "delay" else draw(st.integers(0, 5))
        events.append([draw(st.one_of(st.integers(0, 6), st.integers(0, 45))), a, arg])
    return {
        "files": files,
        "cached": [draw(st.sampled_from([None, None, 5.0, 3600.0, 3600.0 * 24 * 2, 3600.0 * 24 * 40])) for _ in range(n)],
        "procs": procs,
        "events": events,
        "finale": draw(st.booleans()),
        "disk": draw(st.integers(3, 10)) if full else 1000,
        "opts": {
            "num_tries": draw(st.sampled_from([3, 3, 1, 2])),
            "cleanup_disk_usage_wanted_free_ratio": draw(st.sampled_from([0.2, 0.0, 0.9])),
            "cleanup_disk_usage_wanted_multiplier": draw(st.sampled_from([1.0, 2.0])),
        },
    }


def nontrivial(c):
    return any(e[1] in ("switch", "kill", "delay") for e in c["events"])


# ---------------------------------------------------------------- cleanup


def run_cleanup(c):
    """what cleanup removes, alone"""
    from returnn.util.file_cache import FileCache

    base = os.path.realpath(tempfile.mkdtemp(prefix="vf_c17_"))
    cdir = base + "/cache"
    try:
        os.makedirs(cdir)
        world = sched.World(base, [], disk_pages=c["disk"], disk_dir=cdir)
        now = world.clock
        files = {}
        for i, (pages, age, sub, info) in enumerate(c["files"]):
            fn = cdir + "/" + "/".join(["d%i" % j for j in range(sub)] + ["f%i" % i])
            real_makedirs(os.path.dirname(fn))
            with open(fn, "wb") as f:
                f.write(b"x" * (pages * PAGE))
            files[fn] = now - age - i * 1e-2
            if info:
                with open(fn + ".returnn-info", "wb") as f:
                    pass  # no blocks
            for x in [fn] + [fn + ".returnn-info"] * info:
                os.utime(x, (files[fn], files[fn]))
        if c["recent"] is not None:
            with open(cdir + "/.recent_full_cleanup", "wb") as f:
                pass
            os.utime(cdir + "/.recent_full_cleanup", (now - c["recent"], now - c["recent"]))
        for root, dirs, _ in os.walk(cdir):
            os.utime(root, (now - c["dir_age"], now - c["dir_age"]))
        os.makedirs(cdir + "/e/now")  # some other process is about to copy a file to there
        os.utime(cdir + "/e/now", (now - 1, now - 1))
        sizes = {fn: os.stat(fn).st_blocks * 512 for fn in files}
        blocks = sum(sizes.values())
        total = c["disk"] * PAGE
        free = max(total - blocks, 0)
        need = c["need"] * PAGE // 2
        box = {}

        def process():
            cache = FileCache(cache_directory=cdir, **c["opts"])
            try:
                cache.cleanup(need_at_least_free_space_size=need)
            except Exception as exc:
                box["exc"] = exc

        with contextlib.redirect_stdout(io.StringIO()):
            world.proc("P", process)
            world.run()
        exc = box.get("exc")
        if exc is not None and "cannot free enough space" not in str(exc):
            raise exc
        require(os.path.isdir(cdir + "/e/now"), "removed a dir which was just created")
        left = {fn for fn in files if os.path.exists(fn)}
        gone = [fn for fn in sorted(files, key=files.get) if fn not in left]
        order = sorted(files, key=files.get)
        o = c["opts"]
        want = max(int(o["cleanup_disk_usage_wanted_multiplier"] * need), int(o["cleanup_disk_usage_wanted_free_ratio"] * total))
        always, wanted = [o["cleanup_files_%s_older_than_days" % k] * 86400 for k in ("always", "wanted")]
        info = lambda: "free %i, need %i, want %i, files (age, size): %s, removed: %s, error %s, %r" % (
            free, need, want, [(now - files[f], sizes[f]) for f in order], [order.index(f) for f in gone], exc, c
        )
        require(gone == order[: len(gone)], lambda: "not the oldest files were removed: %s" % info())
        tags = set()
        if free >= want and c["recent"] is not None and c["recent"] < 590:
            require(not gone and exc is None, lambda: "removed files although there was a full cleanup recently and there is enough space: %s" % info())
            return {"recent"}
        cur = free
        for fn in gone:
            age = now - files[fn]
            require(age > 9.9, lambda: "removed a file in use: %s" % info())
            require(
                age > always - 1 or cur < need or (cur < want and age > wanted - 1),
                lambda: "removed file %i without need: %s" % (order.index(fn), info()),
            )
            cur += sizes[fn]
            require(not os.path.exists(fn + ".returnn-info"), lambda: "info file is left over: %s" % info())
        rest = [now - files[f] for f in order if f in left]
        if exc is not None:
            tags.add("error")
            require(cur < need, lambda: "error although there is enough space: %s" % info())
            require(all(a <= 11 for a in rest), lambda: "error although more files could be removed: %s" % info())
        else:
            require(cur >= need, lambda: "not enough space, and no error: %s" % info())
            require(all(a <= always + 1 for a in rest), lambda: "too old files are left: %s" % info())
            require(cur >= want or all(a <= wanted + 1 for a in rest), lambda: "want more space, but old files are left: %s" % info())
        for fn in left:
            require(os.path.getsize(fn) in (0, *[p * PAGE for p, _, _, _ in c["files"]]), "size")
            require(os.path.exists(fn + ".returnn-info") == bool(c["files"][int(fn.rsplit("f", 1)[1])][3]), lambda: "info file of a kept file is gone: %s" % info())
        if gone:
            tags.add("removed")
        # another one, which fits, is possible at any time
        return tags
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def case_cleanup(draw):
    ages = st.sampled_from([0.0, 5.0, 13.0, 300.0, 3600.0, 86400 * 0.7, 86400 * 1.5, 86400 * 5.0, 86400 * 20.0, 86400 * 30.5, 86400 * 32.0, 86400 * 100.0])
    return {
        "files": draw(st.lists(st.tuples(st.integers(0, 4), ages, st.integers(0, 2), st.integers(0, 1)).map(list), min_size=1, max_size=6)),
        "disk": draw(st.integers(3, 30)),
        "need": draw(st.integers(0, 24)),
        "recent": draw(st.sampled_from([None, None, 10.0, 580.0, 620.0, 1e6])),
        "dir_age": draw(st.sampled_from([0.0, 1e6])),
        "opts": {
            "cleanup_disk_usage_wanted_free_ratio": draw(st.sampled_from([0.2, 0.0, 0.5, 0.9])),
            "cleanup_disk_usage_wanted_multiplier": draw(st.sampled_from([1.0, 2.0, 3.0])),
            "cleanup_files_always_older_than_days": draw(st.sampled_from([31.0, 10.0])),
            "cleanup_files_wanted_older_than_days": draw(st.sampled_from([1.0, 3.0, 0.5])),
        },
    }


# ---------------------------------------------------------------- config


def run_config(c):
    from returnn.util.file_cache import FileCache, CachedFile

    base = os.path.realpath(tempfile.mkdtemp(prefix="vf_c17_"))
    try:
        os.makedirs(base + "/src")
        for i in range(3):
            with open(base + "/src/f%i" % i, "w") as f:
                f.write("content %i" % i)
        n = [0]

        def build(x):
            if isinstance(x, dict) and "file" in x:
                n[0] += 1
                return CachedFile(base + "/src/f%i" % x["file"])
            if isinstance(x, dict):
                return {k: build(v) for k, v in x.items()}
            if isinstance(x, list):
                r = [build(v) for v in x]
                return tuple(r) if len(r) == 2 else r
            return x

        def check(x, y, path="config"):
            if isinstance(x, CachedFile):
                require(isinstance(y, str) and y.startswith(base + "/cache/"), lambda: "%s: %r -> %r" % (path, x, y))
                with open(y) as f, open(x.filename) as g:
                    require(f.read() == g.read(), lambda: "%s: wrong file %r for %r" % (path, y, x))
                require(y in files, lambda: "%s is not in the list of used files %s" % (y, files))
                return
            require(type(x) is type(y), lambda: "%s: %r -> %r" % (path, x, y))
            if isinstance(x, dict):
                require(list(x) == list(y), lambda: "%s: %r -> %r" % (path, x, y))
                for k in x:
                    check(x[k], y[k], path + "[%r]" % k)
            elif isinstance(x, (list, tuple)):
                require(len(x) == len(y), lambda: "%s: %r -> %r" % (path, x, y))
                for i, (a, b) in enumerate(zip(x, y)):
                    check(a, b, path + "[%i]" % i)
            else:
                require(x == y, lambda: "%s: %r -> %r" % (path, x, y))

        cfg = build(c["config"])
        box = {}
        world = sched.World(base, [])

        def process():
            cache = FileCache(cache_directory=base + "/cache")
            box["res"] = cache.handle_cached_files_in_config(cfg)
            cache.release_files(box["res"][1])

        with contextlib.redirect_stdout(io.StringIO()):
            world.proc("P", process)
            world.run()
        res, files = box["res"]
        require(len(files) == n[0], lambda: "files %s for %r" % (files, cfg))
        check(cfg, res)
        return {"files"} if n[0] else set()
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def case_config(draw):
    leaf = st.one_of(st.integers(0, 3), st.sampled_from(["a", "/x/y", ""]), st.booleans(), st.none(), st.integers(0, 2).map(lambda i: {"file": i}), st.integers(0, 2).map(lambda i: {"file": i}))
    tree_ = st.recursive(leaf, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["b", "a", "c", "d"]), x, max_size=3)), max_leaves=8)
    return {"config": draw(tree_)}


SUBS = [
    Sub("cleanup", case_cleanup, run_cleanup, quick=1500, thorough=50000, nontrivial=lambda c: len(c["files"]) > 1),
    Sub("config", case_config, run_config, quick=300, thorough=5000, nontrivial=lambda c: isinstance(c["config"], (dict, list))),
    Sub("share", lambda: case(), run, quick=2000, thorough=200000, nontrivial=nontrivial),
    Sub("full", lambda: case(full=True), run, quick=2000, thorough=200000, nontrivial=nontrivial),
]
