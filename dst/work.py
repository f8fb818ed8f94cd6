"""Worker processes: every simulated run is a fork of a pristine template."""
from __future__ import annotations

import gc
import importlib
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from . import boot, seams

DEBUG = os.environ.get("DST_DEBUG")
NW = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 8)


def warm_up():
    for name in boot.LAZY:
        try:
            importlib.import_module(name)
        except ImportError:
            pass


def _readn(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        left = deadline - seams.real_time()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        x = os.read(fd, min(1 << 20, n - len(buf)))
        if not x:
            return b""
        buf += x
    return buf


def in_child(fn, *args, timeout=30.0):
    """Run fn(*args) in a forked child.

    -> ("ok", value) | ("hang", None) | ("died", status) | ("error", text)
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if not DEBUG:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                os.dup2(null, 1)
            try:
                val = ("ok", fn(*args))
            except BaseException as e:  # noqa
                val = ("error", "".join(traceback.format_exception(e))[-3000:])
            seams.SCHED[0] = None
            data = pickle.dumps(val, protocol=4)
            data = struct.pack("<Q", len(data)) + data
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv[: 1 << 16]):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    deadline = seams.real_time() + timeout
    try:
        h = _readn(r, 8, deadline)
        if h is None:
            return "hang", None
        if len(h) < 8:
            _, st = os.waitpid(pid, 0)
            pid = None
            return "died", st
        body = _readn(r, struct.unpack("<Q", h)[0], deadline)
        if body is None:
            return "hang", None
        if not body:
            return "died", -1
        return pickle.loads(body)
    finally:
        os.close(r)
        if pid is not None:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)


class Pool:
    """Persistent results collector over forked workers."""

    def __init__(self):
        self.flag = mmap.mmap(-1, 8)     # shared: stop flag

    def stop(self):
        self.flag[0:1] = b"\1"

    def stopped(self):
        return self.flag[0:1] == b"\1"

    def map(self, worker, nw=None, on_msg=None, deadline=None):
        """Fork nw workers running worker(w, nw, send); yields messages."""
        nw = nw or NW
        fds = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nw):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for f in fds:
                        os.close(f)

                    def send(obj, wr=wr):
                        data = pickle.dumps(obj, protocol=4)
                        data = struct.pack("<Q", len(data)) + data
                        mv = memoryview(data)
                        while mv:
                            mv = mv[os.write(wr, mv[: 1 << 16]):]

                    try:
                        worker(w, nw, send)
                        send(("done", w))
                    except BaseException as e:  # noqa
                        send(("fail", "".join(traceback.format_exception(e))[-3000:]))
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            fds[r] = pid
        bufs = {r: b"" for r in fds}
        done = {r: False for r in fds}
        out = []
        while bufs:
            rs, _, _ = select.select(list(bufs), [], [], 1.0)
            if deadline is not None and seams.real_time() > deadline and not rs:
                self.stop()
            for r in rs:
                x = os.read(r, 1 << 20)
                if not x:
                    if not done[r]:
                        out.append(("fail", "worker died"))
                    os.close(r)
                    os.waitpid(fds[r], 0)
                    bufs.pop(r)
                    continue
                b = bufs[r] + x
                while len(b) >= 8:
                    n = struct.unpack("<Q", b[:8])[0]
                    if len(b) < 8 + n:
                        break
                    msg = pickle.loads(b[8: 8 + n])
                    b = b[8 + n:]
                    if msg[0] == "done":
                        done[r] = True
                        continue
                    if msg[0] == "fail":
                        done[r] = True
                    if on_msg is not None:
                        on_msg(msg)
                    else:
                        out.append(msg)
                bufs[r] = b
        return out


def settle():
    gc.collect()
    gc.freeze()
