"""Scheduler and fault injector: interprets a plan inside a child process.

One token: exactly one simulated thread executes at any time; it runs until it
ends, blocks, or reaches a step at which the plan says to switch.  A step is an
instruction event of CPython's monitoring interface in an instrumented code
object.
"""
from __future__ import annotations

import _thread
import dis
import gc
import hashlib
import os
import sys
import threading
import types

import torch

from . import boot, seams

MON = sys.monitoring
TOOL = 3
EV = MON.events

# ------------------------------------------------------------ code analysis
_MUT = {
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update",
    "setdefault", "add", "discard", "move_to_end", "sort", "reverse", "set",
    "acquire", "release", "wait", "notify", "put", "get_nowait", "setattr",
    "__setattr__", "delattr", "copy_", "type", "cache_clear", "register",
    "deregister", "start", "join", "manual_seed", "seed", "simplefilter",
    "filterwarnings", "chdir", "write", "close", "open", "enter_context",
}
_HOT_OPS = {
    "STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_ATTR",
    "DELETE_GLOBAL", "DELETE_SUBSCR", "IMPORT_NAME", "IMPORT_FROM",
    "BEFORE_WITH", "STORE_DEREF",
}
_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW"}
_ALLOC = _CALLS | {"BINARY_OP", "BUILD_LIST", "BUILD_MAP", "BUILD_TUPLE",
                   "BUILD_STRING", "FORMAT_VALUE", "UNARY_NEGATIVE",
                   "IMPORT_NAME", "MAKE_FUNCTION", "COMPARE_OP"}


def cleanup(code, ins):
    """Offsets of clean-up code, which no program can protect from faults.

    The body of a `finally` (both copies of it), the call of `__exit__` at the
    end of a `with`, calls of `release`, and the point between the return of
    `acquire` and the `try` that follows it.
    """
    if code.co_name == "__exit__":
        return {i.offset for i in ins}
    out, lines = set(), set()
    line_of = {}
    for n, i in enumerate(ins):
        if i.positions and i.positions.lineno:
            line_of[i.offset] = i.positions.lineno
        if i.opname in _CALLS:
            if i.arg == 2 and n >= 3 and all(
                    x.opname == "LOAD_CONST" and x.argval is None for x in ins[n - 3:n]):
                out.add(i.offset)
            nm = None
            for x in reversed(ins[max(0, n - 8):n]):
                if x.opname in ("LOAD_ATTR", "LOAD_METHOD"):
                    nm = x.argval
                if nm or x.opname in _CALLS:
                    break
            if nm == "release":
                out.add(i.offset)
            elif nm == "acquire" and n + 1 < len(ins):
                out.add(ins[n + 1].offset)
        elif i.opname == "PUSH_EXC_INFO" and n + 1 < len(ins):
            body = []
            for x in ins[n + 1:]:
                if x.opname in ("CHECK_EXC_MATCH", "CHECK_EG_MATCH", "WITH_EXCEPT_START"):
                    body = []
                    break
                if x.opname == "RERAISE":
                    break
                body.append(x)
            else:
                body = []
            if body and body[0].opname != "POP_TOP":
                lines.update(x.positions.lineno for x in body if x.positions and x.positions.lineno)
    out.update(o for o, ln in line_of.items() if ln in lines)
    return out


class CodeInfo:
    __slots__ = ("hot", "ki", "alloc", "name", "lines", "clean")

    def __init__(self, code):
        hot, ki, alloc = set(), set(), set()
        prev = None
        callee = []
        lines = {}
        line = code.co_firstlineno
        try:
            ins = list(dis.get_instructions(code))
        except Exception:
            ins = []
        for i in ins:
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            off, op = i.offset, i.opname
            if prev is not None:
                po, parg, pname = prev
                if po in _HOT_OPS:
                    hot.add(off)
                elif po == "BINARY_OP" and parg is not None and parg >= 13:
                    hot.add(off)
                elif po in _CALLS:
                    ki.add(off)
                    nm = pname
                    if nm and (nm in _MUT or nm.startswith("set_")
                               or (nm.endswith("_") and not nm.endswith("__"))
                               or "cache" in nm or "lock" in nm):
                        hot.add(off)
                if po == "RESUME":
                    ki.add(off)
            if op in ("JUMP_BACKWARD",):
                ki.add(off)
            if op in _ALLOC:
                alloc.add(off)
            if op in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL", "LOAD_NAME",
                      "LOAD_SUPER_ATTR"):
                # the name most recently loaded as a callee
                if op in ("LOAD_ATTR", "LOAD_GLOBAL") and not (i.arg & 1):
                    pass
                elif isinstance(i.argval, str):
                    callee.append(i.argval)
            nm = None
            if op in _CALLS:
                nm = callee.pop() if callee else None
            prev = (op, i.arg, nm)
            lines[off] = line
        self.hot = frozenset(hot)
        self.clean = frozenset(cleanup(code, ins))
        self.ki = frozenset(ki) - self.clean
        self.alloc = frozenset(alloc) - self.clean
        fn = code.co_filename
        for r in (boot.SRC + os.sep,):
            if fn.startswith(r):
                fn = fn[len(r):]
        if "site-packages" in fn:
            fn = fn.split("site-packages" + os.sep)[-1]
        self.name = f"{fn}:{code.co_qualname}"
        self.lines = lines


INFO: dict = {}
_alive: list = []


def info(code) -> CodeInfo:
    # keyed by identity: hashing a code object is linear in its size
    ci = INFO.get(id(code))
    if ci is None:
        ci = INFO[id(code)] = CodeInfo(code)
        _alive.append(code)
    return ci


def walk(code, out):
    out.append(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            walk(k, out)


_repo_codes: list = []
_dep_codes: list = []
_big: set = set()


def prepare() -> None:
    """Analyse the code objects once, in the template process."""
    for mi in boot.REPO_CODES.values():
        tmp = []
        walk(mi.code, tmp)
        _repo_codes.extend(tmp)
    for c in boot.DEP_CODES:
        walk(c, _dep_codes)
    for c in _repo_codes:
        info(c)


def site(code, off) -> str:
    ci = info(code)
    return f"{ci.name}:{ci.lines.get(off, 0)}+{off}"


# ------------------------------------------------------------ faults
class Fatal(Exception):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


def mk_fault(kind):
    if kind == "KI":
        return KeyboardInterrupt("dst: injected interrupt")
    if kind == "MEM":
        return MemoryError("dst: injected allocation failure")
    if kind == "RT":
        return RuntimeError(
            "[enforce fail at alloc_cpu.cpp:118] dst: DefaultCPUAllocator: "
            "can't allocate memory")
    if kind == "OOM":
        return torch.OutOfMemoryError("dst: injected out of memory")
    if kind == "LINALG":
        return torch.linalg.LinAlgError("dst: injected numerical failure")
    if kind == "REC":
        return RecursionError("dst: injected recursion limit")
    if kind == "IMPORT":
        return ImportError("dst: injected import failure")
    if kind in seams.OSERR:
        n = seams.OSERR[kind]
        return OSError(n, "dst: injected " + os.strerror(n))
    raise KeyError(kind)


STEP_FAULTS = ("KI", "MEM", "REC")
CALL_FAULTS = ("RT", "OOM", "LINALG")
IO_FAULTS = ("EIO", "ENOENT", "EMFILE", "EACCES", "ENOMEM", "torn", "garbage", "KI", "MEM")
IMPORT_FAULTS = ("EIO", "IMPORT", "MEM", "KI", "EMFILE")


class OpCtx:
    __slots__ = ("id", "tid", "n", "c", "k", "trig", "nxt", "sites", "calls",
                 "ios", "pending", "fired", "spec", "hot", "sitecount", "probes",
                 "nprobe", "rep", "armed", "seen", "callsites", "stick", "cstick", "iostick")

    def __init__(self, oid, tid):
        self.id, self.tid = oid, tid
        self.n = self.c = self.k = 0
        self.trig = []
        self.nxt = 1 << 60
        self.sites, self.calls, self.ios = {}, {}, {}
        self.pending = None
        self.fired = []
        self.hot = None
        self.sitecount = {}
        self.nprobe = 0
        self.armed = False
        self.spec = ""
        self.seen = {}
        self.callsites = []
        self.stick = self.cstick = self.iostick = None   # faults that persist for the call


class Scheduler:
    """Interpreter of one plan."""

    MAIN = -1

    def __init__(self, plan):
        self.plan = plan
        self.closed = False
        self.tid_of = {}
        self.gates = {}
        self.state = {}
        self.order = list(plan.get("order", []))
        self.cur = self.MAIN
        self.curop = None
        self.ops = {}
        self.total = 0
        self.clock = 0.0
        self.epoch = plan.get("epoch", 1.7e9)
        self.handles = {}
        self.stats = {}
        self.faults_fired = {}
        self.pairs = set()
        self.log = hashlib.sha1()
        self.loglist = [] if plan.get("trace") else None
        self.quantum = plan.get("quantum", 0)
        self.qleft = self.quantum
        self.fair = 0
        self.main_gate = seams._real_allocate()
        self.main_gate.acquire()
        self.fatal = None
        self.waits = {}
        self.stalled = set()
        self.trig = {}
        self.profile = plan.get("profile", False)
        self.probe_fn = None
        self.probe_every = plan.get("probe_every", 0)
        self.probe_hot = plan.get("probe_hot", False)
        self.budget = plan.get("budget", 4_000_000)
        self.switches = 0
        self.extra = []
        self.amb_fn = None
        for t in plan.get("trig", []):
            self.trig.setdefault(t["op"], []).append(t)

    # ------------------------------------------------------- logging
    def ev(self, *a):
        s = repr(a)
        self.log.update(s.encode())
        if self.loglist is not None:
            self.loglist.append(s)

    # ------------------------------------------------------- threads
    def run(self, bodies):
        """bodies: {tid: callable}; returns when all are done or fatal."""
        for tid in bodies:
            self._add(tid)
        if not self.order:
            self.order = sorted(bodies)
        for tid, b in bodies.items():
            self._launch(tid, b)
        first = self.order[0]
        self.cur = first
        self.state[first] = "run"
        self.gates[first].release()
        self.main_gate.acquire()
        self.cur = self.MAIN
        self.curop = None

    def _add(self, tid):
        g = seams._real_allocate()
        g.acquire()
        self.gates[tid] = g
        self.state[tid] = "ready"
        self.ops[tid] = None

    def _launch(self, tid, body):
        def main():
            self.gates[tid].acquire()
            self.tid_of[_thread.get_ident()] = tid
            try:
                body()
            except Fatal:
                return
            except BaseException as e:  # noqa
                self.set_fatal("harness", f"{type(e).__name__}: {e}")
                return
            self.finish(tid)

        _thread.start_new_thread(main, ())

    def spawn_thread(self, t):
        """A thread started by the code under test."""
        tid = max(self.gates) + 1
        self._add(tid)
        self.order.append(tid)
        t._dst_done = [False]
        t._started.set()
        self.stats["spawned"] = self.stats.get("spawned", 0) + 1

        def body():
            try:
                t._bootstrap_inner_sim()
            finally:
                t._dst_done[0] = True

        t._bootstrap_inner_sim = lambda: self._run_child(t)
        self._launch(tid, body)

    def _run_child(self, t):
        try:
            t.run()
        except SystemExit:
            pass
        except Fatal:
            raise
        except Exception:
            pass

    def finish(self, tid):
        self.state[tid] = "done"
        self.curop = None
        nxt = self._next(tid)
        if nxt is None:
            if any(v == "blocked" for v in self.state.values()):
                self.deadlock()
            self.main_gate.release()
            return
        self._handover(nxt)

    def set_fatal(self, kind, msg):
        if self.fatal is None:
            self.fatal = (kind, msg)
        self.closed = True
        self.main_gate.release()

    def die(self):
        raise Fatal()

    def deadlock(self):
        w = {t: self.waits.get(t) for t, v in self.state.items() if v == "blocked"}
        desc = "; ".join(
            f"thread {t} (op {getattr(self.ops.get(t), 'id', None)}) waits for {w[t][0][0]}"
            for t in sorted(w))
        self.set_fatal("deadlock", desc)

    # ------------------------------------------------------- choosing
    def _runnable(self, t):
        st = self.state[t]
        if st in ("ready", "run"):
            return True
        if st == "blocked":
            why, pred, until = self.waits[t]
            if pred():
                return True
            if until is not None and self.clock >= until:
                return True
        return False

    def _next(self, tid, to=None):
        """Next thread to run, not `tid` unless nothing else can."""
        if to is not None and to in self.state and to != tid and self._runnable(to):
            self.stalled.discard(to)
            return to
        n = len(self.order)
        i = self.order.index(tid) if tid in self.order else 0
        for stalled_ok in (False, True):
            for d in range(1, n):
                t = self.order[(i + d) % n]
                if t in self.stalled and not stalled_ok:
                    continue
                if self._runnable(t):
                    self.stalled.discard(t)
                    return t
            if not stalled_ok and tid in self.state and self._runnable(tid):
                if tid not in self.stalled:
                    return tid
        if tid in self.state and self._runnable(tid):
            return tid
        # nothing runnable: advance the clock to the earliest timeout
        ts = [w[2] for t, w in self.waits.items()
              if self.state[t] == "blocked" and w[2] is not None]
        if ts:
            self.clock = max(self.clock, min(ts))
            for t in self.order:
                if self._runnable(t):
                    return t
        return None

    def _handover(self, t):
        self.cur = t
        self.state[t] = "run"
        self.curop = self.ops.get(t)
        self.qleft = self.quantum
        self.gates[t].release()

    def _park(self, me):
        self.gates[me].acquire()
        if self.closed:
            raise Fatal()

    def switch(self, to=None, stall=False, where=""):
        me = self.cur
        if stall:
            self.stalled.add(me)
        self.state[me] = "ready"
        t = self._next(me, to)
        if t is None or t == me:
            self.stalled.discard(me)
            self.state[me] = "run"
            return
        self.switches += 1
        b = self.ops.get(t)
        a = self.ops.get(me)
        self.ev("sw", me, t, where)
        if a is not None:
            # which code position was suspended while which call ran
            self.pairs.add(hash_pair(where, a, b))
        self.observe(me)
        self._handover(t)
        self._park(me)
        self.observe(me)

    def observe(self, tid):
        if self.probe_fn is not None and self.ops.get(tid) is not None:
            self.probe_fn(self.ops[tid], "switch")

    def block(self, why, pred, until):
        """Called by seams: wait until pred() or the simulated deadline."""
        me = self.cur
        self.stats["blocks"] = self.stats.get("blocks", 0) + 1
        self.total += 50
        if self.total > self.budget:
            self.livelock()
        self.state[me] = "blocked"
        self.waits[me] = (why, pred, until)
        t = self._next(me)
        if t is None:
            self.deadlock()
            raise Fatal()
        if t == me:
            self.state[me] = "run"
            return pred() or until is not None
        self.ev("block", me, t, why[0])
        self._handover(t)
        self._park(me)
        self.state[me] = "run"
        return True

    def livelock(self):
        self.set_fatal(
            "livelock", f"no completion after {self.total} steps; threads: "
            + ", ".join(f"{t}:{s}" for t, s in sorted(self.state.items())))
        raise Fatal()

    # ------------------------------------------------------- operations
    def begin(self, oid, tid):
        op = OpCtx(oid, tid)
        steps = []
        for t in self.trig.get(oid, ()):
            if "step" in t:
                steps.append((t["step"], t))
            elif "site" in t:
                op.sites.setdefault(t["site"], []).append(t)
            elif "call" in t:
                op.calls.setdefault(t["call"], []).append(t)
            elif "io" in t:
                op.ios.setdefault(t["io"], []).append(t)
        steps.sort(key=lambda x: x[0])
        op.trig = steps[::-1]
        self._arm(op)
        if self.profile:
            op.hot = []
        self.ops[tid] = op
        self.curop = op
        self.ev("begin", tid, oid)
        return op

    def _arm(self, op):
        op.nxt = op.trig[-1][0] if op.trig else (1 << 60)
        if op.pending is not None or op.stick is not None:
            op.nxt = op.n + 1

    def end(self, op, tag=""):
        self.curop = None
        self.ops[op.tid] = None
        self.ev("end", op.tid, op.id, op.n, op.k, tag)
        for t in self.trig.get(op.id, ()):
            if t.get("end"):
                self.switch(t.get("to"), t.get("stall", False), "end")

    # ------------------------------------------------------- events
    def at_step(self, op, code, off):
        """op.n reached the next armed step."""
        if op.stick is not None and op.stick[0] is code and op.stick[1] == off and not in_del():
            op.nxt = op.n + 1
            self.raise_fault(op, op.stick[2], site(code, off))
        if op.pending is not None:
            self._try_fault(op, code, off)
            return
        while op.trig and op.trig[-1][0] <= op.n:
            _, t = op.trig.pop()
            if self._fire(op, t, code, off):
                break
        self._arm(op)

    def _fire(self, op, t, code, off):
        k = t["kind"]
        if k == "sw":
            self.switch(t.get("to"), t.get("stall", False), site(code, off))
            return False
        if k == "probe":
            if self.probe_fn is not None:
                op.nprobe = min(op.nprobe, 200)
                self.probe_fn(op, site(code, off))
            return False
        if k in ("gc", "amb", "clk"):
            self._side(k, t, op, site(code, off))
            return False
        op.pending = t
        op.nxt = op.n + 1
        self._try_fault(op, code, off)
        return True

    def _side(self, k, t, op, where):
        self.faults_fired[k] = self.faults_fired.get(k, 0) + 1
        self.ev(k, op.id, op.n, where)
        if k == "gc":
            gc.collect()
        elif k == "clk":
            self.clock += t.get("dt", 1.0)
            self.epoch += t.get("jump", 0.0)
        elif k == "amb":
            self.amb_fn(t["what"])

    def _try_fault(self, op, code, off):
        t = op.pending
        ci = info(code)
        k = t["kind"]
        ok = off in ci.ki if k == "KI" else off in ci.alloc
        if not ok or in_del():
            op.nxt = op.n + 1
            return
        op.pending = None
        if t.get("stick"):
            op.stick = (code, off, t)
        self._arm(op)
        self.raise_fault(op, t, site(code, off))

    def raise_fault(self, op, t, where):
        k = t["kind"]
        self.faults_fired[k] = self.faults_fired.get(k, 0) + 1
        op.fired.append((k, where))
        self.ev("fault", op.id, k, where)
        self.pairs.add(hash_pair(f"{k}@{where}", op, None))
        raise mk_fault(k)

    def io_event(self, what, path):
        op = self.curop
        if op is None:
            return None
        op.k += 1
        self.stats["io"] = self.stats.get("io", 0) + 1
        self.ev("io", what, os.path.basename(path))
        ts = op.ios.pop(op.k, None)
        if not ts:
            if op.iostick is None or (op.iostick[0] == "import") != (what == "import"):
                return None
            ts = [op.iostick[1]]
        t = ts[0]
        if t.get("stick"):
            op.iostick = (what, t)
        k = t["kind"]
        if k == "sw":
            self.switch(t.get("to"), t.get("stall", False), f"io:{what}:{os.path.basename(path)}")
            return None
        where = f"{what}:{os.path.basename(path)}"
        if k in ("torn", "garbage"):
            if what != "open" or not path.endswith(".toml"):
                k = "EIO"
                t = {**t, "kind": k}
            else:
                self.faults_fired[k] = self.faults_fired.get(k, 0) + 1
                op.fired.append((k, where))
                self.ev("fault", op.id, k, where)
                return k
        self.raise_fault(op, t, where)

    def corrupt(self, kind, path, data):
        """File content that no TOML parser can accept."""
        if kind == "torn":
            cut = max(1, len(data) // 2)
            return data[:cut] + b"\n= torn"
        mid = len(data) // 3
        return data[:mid] + b"\n\xff\xfe[[[\x00" + data[mid:]

    def import_hook(self, what, name, path):
        if seams.sim() is None:
            return
        self.io_event("import", path)


def in_del():
    """No fault here: inside a finaliser the interpreter itself discards
    exceptions, and clean-up code is not expected to survive them."""
    f = sys._getframe(1)
    while f is not None:
        c = f.f_code
        if c.co_name == "__del__":
            return True
        ci = INFO.get(id(c))
        if ci is not None and f.f_lasti in ci.clean:
            return True
        f = f.f_back
    return False


def hash_pair(where, a, b):
    h = hashlib.blake2b(
        f"{where}|{getattr(a, 'spec', '')}|{getattr(b, 'spec', '')}".encode(),
        digest_size=6)
    return h.hexdigest()


# ------------------------------------------------------------ monitoring
def instrument(S: Scheduler, scope: str, need_calls: bool):
    """Register the callbacks and switch on the events."""
    try:
        MON.use_tool_id(TOOL, "dst")
    except ValueError:
        pass
    hotmap = {id(c): info(c).hot for c in _repo_codes}
    watch_all = S.profile or S.probe_hot
    sites_any = any("site" in t for t in S.plan.get("trig", ()))
    quantum = S.quantum
    budget = S.budget
    pe = S.probe_every

    prof = S.profile
    repo_set = {id(c) for c in _repo_codes}

    def on_instr(code, off):
        op = S.curop
        if op is None:
            return
        op.n = n = op.n + 1
        if prof and id(code) in repo_set:
            k = (id(code), off)
            if k not in op.seen:
                op.seen[k] = n
        if n >= op.nxt:
            S.at_step(op, code, off)
        if watch_all or sites_any:
            h = hotmap.get(id(code))
            if h is not None and off in h:
                on_hot(op, code, off)
        if pe and n % pe == 0 and S.probe_fn is not None:
            S.probe_fn(op, site(code, off))
        S.total = t = S.total + 1
        if quantum:
            S.qleft -= 1
            if S.qleft <= 0:
                S.qleft = quantum
                S.switch(None, False, site(code, off))
        elif t & 0x7FFF == 0:
            # fairness: nobody is starved by a spinning thread
            S.switch(None, False, "fair")
        if t > budget:
            S.livelock()

    def on_hot(op, code, off):
        k = (id(code), off)
        c = op.sitecount.get(k, 0) + 1
        op.sitecount[k] = c
        if op.hot is not None:
            op.hot.append((op.n, site(code, off), c))
        if S.probe_hot and S.probe_fn is not None and c <= 6:
            S.probe_fn(op, site(code, off))
        if op.sites:
            key = f"{site(code, off)}#{c}"
            ts = op.sites.pop(key, None)
            if ts:
                for t in ts:
                    if S._fire(op, t, code, off):
                        break

    is_t = torch.Tensor
    MISSING = MON.MISSING

    def on_call(code, off, func, arg0):
        op = S.curop
        if op is None:
            return
        m = getattr(func, "__module__", None)
        if not ((m and m.startswith("torch"))
                or (arg0 is not MISSING and isinstance(arg0, is_t))
                or isinstance(getattr(func, "__self__", None), is_t)
                or getattr(func, "__objclass__", None) is torch._C.TensorBase):
            return
        if off in info(code).clean:
            return
        op.c += 1
        if prof and id(code) in repo_set:
            op.callsites.append((id(code), off, op.c))
        if op.calls or op.cstick is not None:
            ts = op.calls.pop(op.c, None)
            if ts and not in_del():
                if ts[0].get("stick"):
                    op.cstick = (code, off, ts[0])
                S.raise_fault(op, ts[0], site(code, off))
            if op.cstick is not None and op.cstick[0] is code and op.cstick[1] == off and not in_del():
                S.raise_fault(op, op.cstick[2], site(code, off))

    MON.register_callback(TOOL, EV.INSTRUCTION, on_instr)
    ev = EV.INSTRUCTION
    if need_calls:
        MON.register_callback(TOOL, EV.CALL, on_call)
        ev |= EV.CALL
    codes = list(_repo_codes)
    if scope == "all":
        codes += _dep_codes
    for c in codes:
        MON.set_local_events(TOOL, c, ev)
    boot.IMPORT_HOOK[0] = S.import_hook
