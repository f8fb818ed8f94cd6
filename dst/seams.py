"""Seams: locks, thread start/join, clock, files, import locks.

Everything is a pass-through unless a scheduler is active and the calling
thread is one of its simulated threads.
"""
from __future__ import annotations

import _thread
import builtins
import errno
import io
import os
import sys
import threading
import time as _time

from . import boot

SCHED = [None]          # active scheduler or None

_real_allocate = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real = {}


def sim():
    """The scheduler, if the calling thread is simulated right now."""
    s = SCHED[0]
    if s is None or s.closed:
        return None
    if s.tid_of.get(_thread.get_ident()) is None:
        return None
    return s


# ----------------------------------------------------------------- environment
class Environ(os._Environ):
    """Environment variables: one value for all that the library asks for."""

    def __getitem__(self, key):
        f = sys._getframe(1)
        while f is not None and f.f_globals.get("__name__") in ("os", "_collections_abc", "collections.abc"):
            f = f.f_back
        if (f is not None and f.f_code.co_filename.startswith(boot.PKGDIR) and f.f_code.co_name != "<module>"
                and sim() is not None):
            return _env_value[0]
        return os._Environ.__getitem__(self, key)


_env_value = [""]


def env_value(v):
    """From now on (in this process) the library sees this value."""
    _env_value[0] = v
    os.environ.__class__ = Environ


# ----------------------------------------------------------------- locks
def _repo_on_stack(depth=60) -> bool:
    f = sys._getframe(2)
    while f is not None and depth:
        if f.f_code.co_filename.startswith(boot.PKGDIR):
            return True
        f = f.f_back
        depth -= 1
    return False


class SimLock:
    """A lock that parks its waiters in the simulator."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = sim()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if s is None:
                # outside the simulation nobody else can release it
                if timeout is not None and timeout >= 0:
                    return False
                raise RuntimeError("deadlock outside the simulation")
            until = None
            if timeout is not None and timeout >= 0:
                until = s.clock + timeout
            if not s.block(("lock", id(self)), lambda: self._owner is None, until):
                return False
            if until is not None and s.clock >= until and self._owner is not None:
                return False

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0 or not self._reentrant:
            self._count = 0
            self._owner = None

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        return c, o

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


class _PlainSimLock(SimLock):
    # threading.Condition probes for these attributes; a plain lock has none
    _is_owned = property(lambda self: (_ for _ in ()).throw(AttributeError()))


SIM_LOCKS = []


def _mk_lock(*a, **k):
    if _repo_on_stack():
        lk = _PlainSimLock()
        SIM_LOCKS.append(lk)
        return lk
    return _real_allocate()


def _mk_rlock(*a, **k):
    if _repo_on_stack():
        lk = SimRLock()
        SIM_LOCKS.append(lk)
        return lk
    return _real_RLock(*a, **k)


# ----------------------------------------------------------------- threads
def _t_start(self):
    s = sim()
    if s is None:
        return _real["start"](self)
    s.spawn_thread(self)


def _t_join(self, timeout=None):
    s = sim()
    if s is None or getattr(self, "_dst_done", None) is None:
        return _real["join"](self, timeout)
    until = None if timeout is None else s.clock + max(0.0, timeout)
    s.block(("join", self.name), lambda: self._dst_done[0], until)


# ----------------------------------------------------------------- clock
def _clk(name, scale=1, cast=float):
    real = getattr(_time, name)
    _real[name] = real

    def f():
        s = sim()
        if s is None:
            return real()
        s.clock += 1e-6
        base = s.epoch if name in ("time", "time_ns") else 1000.0
        return cast((base + s.clock) * scale)

    f.__name__ = name
    return f


def _sleep(sec):
    s = sim()
    if s is None:
        return _real["sleep"](sec)
    s.stats["sleeps"] = s.stats.get("sleeps", 0) + 1
    s.block(("sleep", sec), lambda: False, s.clock + max(0.0, sec))


# ----------------------------------------------------------------- files
_DATA_EXT = (".toml", ".pt", ".json", ".npz", ".npy", ".csv", ".txt", ".pkl")
_data_roots = []


def tracked(path) -> str | None:
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str) or not p.endswith(_DATA_EXT):
        return None
    p = os.path.abspath(p)
    for r in _data_roots:
        if p.startswith(r):
            return p
    return None


class SimFile(io.BufferedIOBase):
    """In-memory copy of a real data file whose operations can fail."""

    def __init__(self, s, path, mode, data):
        self._s, self._path = s, path
        self.name, self.mode = path, mode
        self._b = io.BytesIO(data)
        self._dst_closed = False
        s.handles[id(self)] = path
        s.stats["opens"] = s.stats.get("opens", 0) + 1

    def _io(self, ev):
        if self._s.closed:
            return None
        return self._s.io_event(ev, self._path)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def read(self, n=-1):
        self._io("read")
        return self._b.read(n)

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, buf):
        self._io("read")
        return self._b.readinto(buf)

    def readline(self, n=-1):
        self._io("read")
        return self._b.readline(n)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def close(self):
        if not self._dst_closed:
            self._dst_closed = True
            self._s.handles.pop(id(self), None)
        super().close()

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


def _open(file, mode="r", *a, **k):
    p = tracked(file) if isinstance(file, (str, bytes, os.PathLike)) else None
    if p is None or any(c in mode for c in "wax+"):
        return _real["open"](file, mode, *a, **k)
    s = sim()
    if s is None:
        return _real["open"](file, mode, *a, **k)
    kind = s.io_event("open", p)
    with _real["open"](p, "rb") as fp:
        data = fp.read()
    if kind in ("torn", "garbage"):
        data = s.corrupt(kind, p, data)
    f = SimFile(s, p, mode if "b" in mode else mode + "b", data)
    if "b" in mode:
        return f
    # buffering, encoding, errors, newline
    enc = k.get("encoding", a[1] if len(a) > 1 else None) or "utf-8"
    return io.TextIOWrapper(f, encoding=enc)


def _stat(path, *a, **k):
    if isinstance(path, (str, os.PathLike)):
        p = tracked(path)
        if p is not None:
            s = sim()
            if s is not None:
                s.io_event("stat", p)
    return _real["stat"](path, *a, **k)


# ----------------------------------------------------------------- imports
def _install_module_lock():
    import importlib._bootstrap as B

    ML = B._ModuleLock
    BOM = B._BlockingOnManager
    DE = B._DeadlockError
    real_acquire = ML.acquire

    def acquire(self):
        s = sim()
        if s is None:
            return real_acquire(self)
        tid = _thread.get_ident()
        with BOM(tid, self):
            while True:
                with self.lock:
                    if self.count == [] or self.owner == tid:
                        self.owner = tid
                        self.count.append(True)
                        return True
                    if self.has_deadlock():
                        raise DE(f"deadlock detected by {self!r}")
                s.stats["import_waits"] = s.stats.get("import_waits", 0) + 1
                s.block(("import", self.name), lambda: self.count == [], None)

    ML.acquire = acquire


def install():
    _data_roots.append(boot.PKGDIR)
    import importlib.util

    for d in ("tad_mctc", "tad_multicharge"):
        sp = importlib.machinery.PathFinder.find_spec(d)
        if sp and sp.submodule_search_locations:
            _data_roots.append(list(sp.submodule_search_locations)[0])
    # locks
    threading.Lock = _mk_lock
    threading._allocate_lock = _mk_lock
    threading.RLock = _mk_rlock
    _thread.allocate_lock = _mk_lock
    # threads
    _real["start"], _real["join"] = threading.Thread.start, threading.Thread.join
    threading.Thread.start = _t_start
    threading.Thread.join = _t_join
    # clock
    _real["sleep"] = _time.sleep
    for n, sc, c in (
        ("time", 1, float), ("monotonic", 1, float), ("perf_counter", 1, float),
        ("process_time", 1, float), ("time_ns", 10**9, int),
        ("monotonic_ns", 10**9, int), ("perf_counter_ns", 10**9, int),
    ):
        setattr(_time, n, _clk(n, sc, c))
    _time.sleep = _sleep
    # files
    _real["open"] = builtins.open
    _real["stat"] = os.stat
    builtins.open = _open
    io.open = _open
    os.stat = _stat
    _install_module_lock()


def real_time():
    return _real.get("monotonic", _time.monotonic)()


OSERR = {
    "EIO": errno.EIO, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE,
    "EACCES": errno.EACCES, "ENOMEM": errno.ENOMEM, "EINTR": errno.EINTR,
}
