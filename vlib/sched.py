"""
Deterministic simulation of several processes which share a directory.

Each process is a set of threads ("tasks") of which exactly one runs at any time. Every file system operation, sleep and
compiler call of a task is a scheduling point. Between the points, a task runs undisturbed; at which points another task goes on,
a process is killed, an operation is slow or a write fails is given by the generated list of events, so that a case is replayed exactly.
Time is virtual: sleeping costs nothing, and mtimes follow the virtual clock.

A killed process never runs again, and nothing it does while its Python stack is unwound (at the end of the case) reaches the disk.
Operations which would change anything outside of the scratch directory are refused.
"""

from __future__ import annotations
import builtins
import contextlib
import errno
import os
import shutil
import subprocess
import threading
import time
from .core import Violation, HarnessError


class Killed(BaseException):
    """unwinds a task of a killed process"""


class _Task:
    def __init__(self, world, fn, proc, name, daemon):
        self.world, self.fn, self.proc, self.name, self.daemon = world, fn, proc, name, daemon
        self.go = threading.Semaphore(0)
        self.wake = world.clock
        self.done = False
        self.exc = None
        self.last_op = None
        self.fault = None
        self.faults = 0
        self.slow = 0
        self.thread = _real["Thread"](target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        _local.task = self
        try:
            if not self.proc.dead:
                self.fn()
        except Killed:
            pass
        except BaseException as exc:
            self.exc = exc
        finally:
            self.done = True
            _local.task = None
            self.world.control.release()


class Proc:
    """simulated process"""

    def __init__(self, name):
        self.name = name
        self.dead = False
        self.protected = False
        self.tasks = []

    def __repr__(self):
        return "<proc %s%s>" % (self.name, " dead" if self.dead else "")


_local = threading.local()
_real = {}


@contextlib.contextmanager
def outside():
    """what is done in here is not part of the task"""
    me, _local.task = cur(), None
    try:
        yield
    finally:
        _local.task = me


def cur() -> _Task:
    return getattr(_local, "task", None)


class World:
    def __init__(self, directory, events, *, start_time=1.7e9, atomic=(), max_ops=200000, max_time=20000.0, disk_pages=None, disk_dir=None):
        """
        :param str directory: all changes must be in there
        :param list events: (gap, action, arg), after `gap` more scheduling points
        :param atomic: kinds of operations without a scheduling point before, if the operation before was a stat or also such an operation
        :param int|None disk_pages: size of the disk, in pages of 4096 bytes
        :param str|None disk_dir: what is on that disk
        """
        self.dir = os.path.realpath(directory)
        self.events = [tuple(e) for e in events]
        self.clock = start_time
        self.start_time = start_time
        self.atomic = set(atomic)
        self.max_ops, self.max_time = max_ops, max_time
        self.disk_pages, self.disk_dir = disk_pages, disk_dir
        self.control = threading.Semaphore(0)
        self.tasks = []
        self.procs = []
        self.ops = 0
        self.gap = 0
        self.failure = None
        self.want = None
        self.on_point = None
        self.log = []
        self.applied = []
        self.closing = False
        self._quiet = 0

    # ------------------------------------------------ controller

    def proc(self, name, fn):
        p = Proc(name)
        self.procs.append(p)
        self._spawn(fn, p, name, False)
        return p

    def _spawn(self, fn, proc, name, daemon):
        t = _Task(self, fn, proc, name, daemon)
        proc.tasks.append(t)
        self.tasks.append(t)
        with outside():
            _real["start"](t.thread)
        return t

    def _resume(self, t):
        t.go.release()
        self.control.acquire()

    def run(self):
        try:
            while self.failure is None:
                for p in self.procs:
                    if not p.dead and all(t.done for t in p.tasks if not t.daemon):
                        p.dead = True  # normal exit
                live = [t for t in self.tasks if not t.done and not t.proc.dead]
                if not live:
                    break
                if self.clock - self.start_time > self.max_time or self.ops > self.max_ops:
                    self.failure = Violation("no progress after %i operations, %.0f s; %s" % (self.ops, self.clock - self.start_time, self.history()))
                    break
                ready = [t for t in live if t.wake <= self.clock]
                if not ready:
                    self.clock = max(self.clock, min(t.wake for t in live))
                    continue
                if self.want is not None and self.want in ready:
                    t = self.want
                else:
                    t = min(ready, key=lambda x: (x.wake, self.tasks.index(x)))
                self.want = None
                self._resume(t)
                if t.done and t.exc is not None:
                    if isinstance(t.exc, (Violation, HarnessError)):
                        self.failure = t.exc
                    elif t.daemon:
                        pass  # like a thread which dies
                    else:
                        self.failure = t.exc
        finally:
            self.closing = True
            for p in self.procs:
                p.dead = True
            for t in self.tasks:
                while not t.done:
                    self._resume(t)
        if self.failure is not None:
            raise self.failure

    def history(self):
        return "last operations: %s; events: %s" % (" | ".join(self.log[-25:]), self.applied)

    # ------------------------------------------------ called by tasks

    def point(self, kind, path=None):
        t = cur()
        if t.proc.dead:
            raise Killed
        if self.failure is not None:
            raise Killed
        self.ops += 1
        self.clock += 1e-3
        if self.ops > self.max_ops:
            self._yield(t)
        skip = kind in self.atomic and t.last_op in ("stat", "remove") or kind == "stat" and t.last_op == "remove" and kind in self.atomic
        t.last_op = kind
        if t.slow and kind in ("read", "write", "fallocate", "compile"):
            secs, t.slow = t.slow, 0
            self.sleep(secs)
        if not skip and not self._quiet:
            self._maybe_event(t, kind, path)
            if self.on_point:
                try:
                    self.on_point()
                except BaseException as exc:
                    self.failure = exc
                    raise Killed
        if len(self.log) > 400:
            del self.log[:200]
        self.log.append("%s %s %s" % (t.name, kind, os.path.basename(path) if isinstance(path, str) else ""))

    def _maybe_event(self, t, kind, path):
        if not self.events:
            return
        self.gap += 1
        gap, action, arg = self.events[0]
        if self.gap <= gap:
            return
        self.events.pop(0)
        self.gap = 0
        self.applied.append("%s before %s of %s(%s)" % (action, t.name, kind, os.path.basename(path) if isinstance(path, str) else path))
        if action == "switch":
            others = [x for x in self.tasks if not x.done and not x.proc.dead and x is not t]
            ready = [x for x in others if x.wake <= self.clock] or others
            if ready:
                x = ready[arg % len(ready)]
                x.wake = min(x.wake, self.clock)  # a sleep can also be over just now
                self.want = x
                t.wake = self.clock
                self._yield(t)
        elif action == "kill":
            procs = [p for p in self.procs if not p.dead and not p.protected]
            if arg == 0 and t.proc in procs:
                procs = [t.proc]
            if procs and len([p for p in self.procs if not p.dead]) > 1:
                p = procs[arg % len(procs)]
                p.dead = True
                if p is t.proc:
                    self._yield(t)
        elif action == "delay":
            t.slow = arg  # the next transfer of data
        elif action == "enospc":
            t.fault = errno.ENOSPC
        else:
            raise HarnessError("action %r" % action)

    def _yield(self, t):
        self.control.release()
        t.go.acquire()
        if t.proc.dead:
            raise Killed

    def sleep(self, secs):
        t = cur()
        if t.proc.dead:
            raise Killed
        t.wake = self.clock + max(secs, 0)
        t.last_op = "sleep"
        self._yield(t)

    @contextlib.contextmanager
    def quiet(self):
        """no event in here"""
        self._quiet += 1
        try:
            yield
        finally:
            self._quiet -= 1

    def write_fault(self, need_pages=0):
        t = cur()
        if t.fault:
            e, t.fault = t.fault, None
            t.faults += 1
            raise OSError(e, os.strerror(e))
        if self.disk_pages is not None and need_pages > 0 and need_pages > self.disk_free() // 4096:
            t.faults += 1
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))

    def disk_free(self):
        used = 0
        for root, _, files in _real_walk(self.disk_dir):
            for fn in files:
                used += _real["stat"](root + "/" + fn).st_blocks * 512
        return max(self.disk_pages * 4096 - used, 0)

    def inside(self, path):
        if isinstance(path, int):
            return True
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return os.path.abspath(os.fspath(path)).startswith(self.dir + "/")

    def touch(self, path):
        try:
            _real["utime"](path, (self.clock, self.clock))
        except OSError:
            pass

    def touch_parent(self, path):
        if not isinstance(path, int):
            self.touch(os.path.dirname(os.path.abspath(os.fspath(path))))


def _real_walk(d):
    dirs = [d]
    while dirs:
        d = dirs.pop()
        with _real["scandir"](d) as it:
            files = []
            for e in it:
                if e.is_dir(follow_symlinks=False):
                    dirs.append(e.path)
                else:
                    files.append(e.name)
        yield d, [], files


class _File:
    """file object of a task; nothing is buffered"""

    def __init__(self, world, f, path, writable):
        self._w, self._f, self._path, self._writable = world, f, path, writable

    def __getattr__(self, item):
        return getattr(self._f, item)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def write(self, data):
        n = len(data)
        for part in (data[: n // 2], data[n // 2 :]):
            self._w.point("write", self._path)
            if not len(part):
                continue
            fd = self._f.fileno()
            size = _real["fstat"](fd).st_size
            end = self._f.tell() + len(part)
            self._w.write_fault(max(0, -(-end // 4096) - -(-size // 4096)))
            self._f.write(part)
            self._f.flush()
            self._w.touch(fd)
        return n

    def truncate(self, *args):
        self._w.point("truncate", self._path)
        r = self._f.truncate(*args)
        self._w.touch(self._f.fileno())
        return r

    def read(self, *args):
        self._w.point("read", self._path)
        return self._f.read(*args)

    def readinto(self, *args):
        self._w.point("read", self._path)
        return self._f.readinto(*args)

    def close(self):
        if self._f.closed:
            return
        t = cur()
        if t is not None and not t.proc.dead and self._writable:
            self._w.point("close", self._path)
        self._f.close()


def install():
    """patches the primitives; without effect outside of tasks"""
    if _real:
        return
    for name in ["stat", "lstat", "fstat", "open", "remove", "unlink", "rename", "replace", "utime", "listdir", "scandir", "mkdir", "rmdir", "link", "symlink", "posix_fallocate", "access", "chmod"]:
        _real[name] = getattr(os, name)
    _real.update(Thread=threading.Thread, file=builtins.open, time=time.time, sleep=time.sleep, Popen=subprocess.Popen, disk_usage=shutil.disk_usage, start=threading.Thread.start, wait=threading.Event.wait)

    def guard(world, *paths):
        for p in paths:
            if not world.inside(p):
                raise HarnessError("refused: change of %r, outside of the scratch directory" % (p,))

    def reading(name, kind):
        real = _real[name]

        def f(path=".", *args, **kwargs):
            t = cur()
            if t is not None and (kwargs.get("dir_fd") is not None or t.world.inside(path)):
                t.world.point(kind, path)
            return real(path, *args, **kwargs)

        return f

    def changing(name, kind, two=False):
        real = _real[name]

        def f(path, *args, **kwargs):
            t = cur()
            if t is None:
                return real(path, *args, **kwargs)
            w = t.world
            paths = [path] + ([args[0] if args else kwargs.get("dst")] if two else [])
            if kwargs.get("dir_fd") is None:
                guard(w, *paths)
            w.point(kind, path)
            r = real(path, *args, **kwargs)
            if kwargs.get("dir_fd") is None:
                for p in paths:
                    w.touch_parent(p)
                if kind == "mkdir":
                    w.touch(path)
            return r

        return f

    def utime(path, times=None, **kwargs):
        t = cur()
        if t is None:
            return _real["utime"](path, times, **kwargs)
        guard(t.world, path)
        t.world.point("utime", path)
        if times is None and "ns" not in kwargs:
            times = (t.world.clock, t.world.clock)
        return _real["utime"](path, times, **kwargs)

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        t = cur()
        if t is None or (dir_fd is None and not t.world.inside(path)):
            if t is not None and flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR):
                guard(t.world, path)
            return _real["open"](path, flags, mode, dir_fd=dir_fd)
        t.world.point("open", path)
        existed = dir_fd is not None or _lexists(path)
        fd = _real["open"](path, flags, mode, dir_fd=dir_fd)
        if flags & os.O_CREAT and not existed:
            t.world.touch(fd)
            t.world.touch_parent(path)
        return fd

    def file_open(file, mode="r", *args, **kwargs):
        t = cur()
        writable = isinstance(mode, str) and any(x in mode for x in "wax+")
        if t is None or isinstance(file, int):
            return _real["file"](file, mode, *args, **kwargs)
        w = t.world
        if not w.inside(file):
            if writable and os.fspath(file) != os.devnull:
                guard(w, file)
            return _real["file"](file, mode, *args, **kwargs)
        w.point("fopen" if writable else "fread", file)
        existed = _lexists(file)
        f = _real["file"](file, mode, *args, **kwargs)
        if writable:
            w.touch(f.fileno())
            if not existed:
                w.touch_parent(file)
        return _File(w, f, file, writable)

    def fallocate(fd, offset, length):
        t = cur()
        if t is None:
            return _real["posix_fallocate"](fd, offset, length)
        t.world.point("fallocate", None)
        st = _real["fstat"](fd)
        t.world.write_fault(-(-(offset + length) // 4096) - st.st_blocks * 512 // 4096)
        r = _real["posix_fallocate"](fd, offset, length)
        t.world.touch(fd)
        return r

    def now():
        t = cur()
        return _real["time"]() if t is None else t.world.clock

    def sleep(secs):
        t = cur()
        return _real["sleep"](secs) if t is None else t.world.sleep(secs)

    def start(self):
        t = cur()
        if t is None:
            return _real["start"](self)
        self._started.set()
        t.world._spawn(self.run, t.proc, "%s.thread" % t.proc.name, True)

    def wait(self, timeout=None):
        t = cur()
        if t is None:
            return _real["wait"](self, timeout)
        if not self.is_set():
            t.world.sleep(3600.0 if timeout is None else timeout)
        return self.is_set()

    def disk_usage(path):
        t = cur()
        if t is None or t.world.disk_pages is None:
            return _real["disk_usage"](path)
        t.world.point("disk_usage", path)
        total, free = t.world.disk_pages * 4096, t.world.disk_free()
        return shutil._ntuple_diskusage(total, total - free, free)

    class popen(_real["Popen"]):
        """a task calls the simulated compiler"""

        def __new__(cls, args, *a, **kwargs):
            t = cur()
            if t is None:
                return super().__new__(cls)
            if not getattr(t.world, "compiler", None):
                raise HarnessError("unexpected process %r" % (args,))
            return t.world.compiler(args)

    for name in ["stat", "lstat", "listdir", "scandir", "access"]:
        setattr(os, name, reading(name, "stat" if name in ("stat", "lstat", "access") else "list"))
    for name, kind in [("remove", "remove"), ("unlink", "remove"), ("mkdir", "mkdir"), ("rmdir", "rmdir"), ("chmod", "chmod")]:
        setattr(os, name, changing(name, kind))
    for name in ["rename", "replace", "link", "symlink"]:
        setattr(os, name, changing(name, "rename", two=True))
    os.utime = utime
    os.open = os_open
    os.posix_fallocate = fallocate
    builtins.open = file_open
    time.time = now
    time.sleep = sleep
    threading.Thread.start = start
    threading.Event.wait = wait
    shutil.disk_usage = disk_usage
    subprocess.Popen = popen


def _lexists(path):
    try:
        _real["lstat"](path)
    except OSError:
        return False
    return True
