"""Executes one plan in a (forked, pristine) child process."""
from __future__ import annotations

import _thread
import gc
import hashlib
import logging
import os
import random
import sys
import warnings
import zlib

import numpy as np
import torch

from . import boot, ops, sched, seams, snap, work

ORACLE: dict = {}      # key(spec) -> record; filled by the parent before fork

SCALE = {"e": 1.0, "gpos": 20.0, "hvp": 2000.0, "gpar": 20.0, "gchg": 20.0,
         "gq": 20.0, "gcn": 20.0, "gwf": 50.0, "gposonly": 20.0,
         "fjac": 20.0, "fgrad": 20.0, "fvjac": 20.0, "fhess": 2000.0}


class UserError(Exception):
    """Raised by failing plug-ins."""


class UserBase(BaseException):
    """Raised by failing plug-ins; not an Exception."""


class Violation(dict):
    pass


def set_ambient(what: str):
    k, _, v = what.partition("=")
    if k == "dtype":
        torch.set_default_dtype(ops.DT[v])
    elif k == "seed":
        torch.manual_seed(int(v))
        random.seed(int(v))
        np.random.seed(int(v))
    elif k == "warn":
        warnings.simplefilter(v)
    elif k == "print":
        torch.set_printoptions(precision=int(v))
        np.set_printoptions(precision=int(v))
    elif k == "det":
        torch.use_deterministic_algorithms(v == "1", warn_only=True)
    elif k == "cwd":
        os.chdir(v)
    elif k == "grad":
        torch.set_grad_enabled(v == "1")
    elif k == "rec":
        sys.setrecursionlimit(int(v))
    elif k == "gc":
        gc.disable() if v == "0" else gc.enable()
    elif k == "env":
        os.environ["TAD_DFTD4_SOMETHING"] = v
    elif k == "envall":
        seams.env_value(v)
    elif k == "cpus":
        os.cpu_count = lambda: int(v)
    elif k == "nthr":
        torch.get_num_threads = lambda: int(v)
    elif k == "log":
        logging.disable(int(v))
    elif k == "nperr":
        np.seterr(all=v)
    elif k == "swi":
        sys.setswitchinterval(float(v))
    elif k == "threads":
        torch.set_num_threads(int(v))
    elif k == "argv":
        sys.argv = ["prog", v]
    elif k == "clock":
        s = seams.SCHED[0]
        if s is not None:
            s.epoch += float(v)
    else:
        raise KeyError(what)


class Runner:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan["prop"]
        self.checks = set(plan.get("checks", ["ref"]))
        self.S = sched.Scheduler(plan)
        self.env = ops.Env()
        self.env.callbacks = self.callback
        self.viol = []
        self.rec = {}            # op id -> record
        self.raw = {}            # op id -> raw results kept by the "caller"
        self.kept = []           # (op id, raw, canonical copy)
        self.edited = set()
        self.args = {}           # op id -> arguments owned by the caller (C06)
        self.by_id = {}
        self.failed_end = None   # global sequence number of first failed call
        self.seq = 0
        self.nest = set()
        self.disps = {}
        self.S.amb_fn = set_ambient
        self.outh = hashlib.sha1()
        self.own_snaps = {}
        self.failed = []

    # ------------------------------------------------------------- helpers
    def bad(self, cls, op, msg, cmp=None):
        """cmp: (call, part of its result, value found), if values differ."""
        if len(self.viol) < 20:
            self.viol.append({"prop": self.prop, "cls": cls,
                              "op": op if isinstance(op, str) else op.id,
                              "msg": msg[:400], "cmp": cmp})

    def oracle(self, spec):
        r = ORACLE.get(ops.key(spec))
        if r is None:
            raise RuntimeError("no oracle for " + ops.key(spec)[:300])
        return r

    # ------------------------------------------------------------- callbacks
    def callback(self, kind):
        op = self.S.curop
        if op is None or op.id in self.nest:
            return
        if self.S.probe_fn is not None:
            self.probe(op, "plug-in " + kind)
        e = self.by_id.get(op.id)
        cb = e.get("cb") if e else None
        if not cb or cb["point"] != kind:
            return
        c = e["_cbn"] = e.get("_cbn", 0) + 1
        if c != cb.get("n", 1):
            return
        act = cb["act"]
        self.S.faults_fired["cb-" + act] = self.S.faults_fired.get("cb-" + act, 0) + 1
        self.S.ev("cb", op.id, kind, act)
        if act == "nest":
            self.nest.add(op.id)
            me = _thread.get_ident()
            owned = self.env.owned.pop(me, None)
            try:
                # the environment's settings of the outer call do not apply
                with torch.inference_mode(False), torch.set_grad_enabled(True):
                    try:
                        out = ops.execute(cb["spec"], self.env, cb.get("share", ()))
                    except sched.Fatal:
                        raise
                    except BaseException as ex:  # noqa
                        out = ops.canon_exc(ex)
            finally:
                self.nest.discard(op.id)
                if owned is not None:
                    self.env.owned[me] = owned
            if "ref" in self.checks or "cb" in self.checks:
                d = ops.same(out, self.oracle(cb["spec"])["out"],
                             SCALE.get(cb["spec"].get("want", "e"), 1.0))
                if d:
                    self.bad("nested", op, f"nested call from {kind}: {d}")
        elif act == "raise":
            ex = {"user": UserError, "ki": KeyboardInterrupt,
                  "value": ValueError, "key": KeyError, "rt": RuntimeError,
                  "attr": AttributeError, "type": TypeError,
                  "import": ImportError, "os": FileNotFoundError,
                  "stop": StopIteration, "na": NotImplementedError,
                  "assert": AssertionError, "index": IndexError,
                  "exit": SystemExit, "arith": ZeroDivisionError,
                  "gen": GeneratorExit, "base": UserBase,
                  "mem": MemoryError}[cb.get("exc", "user")]("dst: plug-in failed")
            e["_exc"] = ex
            op.fired.append(("cb-raise", kind))
            raise ex
        elif act == "switch":
            self.S.switch(cb.get("to"), cb.get("stall", False), "cb:" + kind)

    # ------------------------------------------------------------- one op
    def do(self, e, tid):
        kind = e.get("do", "call")
        getattr(self, "do_" + kind)(e, tid)

    def do_amb(self, e, tid):
        set_ambient(e["what"])
        self.S.ev("amb", e["what"])

    def do_drop(self, e, tid):
        """The caller drops the objects it shared between calls."""
        self.env.shared.clear()
        self.env.buffers.clear()

    def do_gc(self, e, tid):
        gc.collect()

    def do_call(self, e, tid):
        S, spec = self.S, e["spec"]
        self.by_id[e["id"]] = e
        env = self.env
        chk = self.checks
        raw = []
        exc = None
        amb0 = None
        start = self.seq = self.seq + 1
        handles0 = set(S.handles)
        if "amb" in chk:
            ambt0 = snap.ambient_thread()
        op = S.begin(e["id"], tid)
        op.spec = spec["k"]
        if "args" in chk:
            st = {"owned": [], "snaps": [], "bad": False}
            env.owned[_thread.get_ident()] = self.own_snaps[op.id] = st
        elif "keep" in chk:
            st = {"owned": [], "snaps": None}
            env.owned[_thread.get_ident()] = st
        try:
            out = ops.execute(spec, env, e.get("share", ()), e.get("buf"), raw)
        except sched.Fatal:
            raise
        except BaseException as ex:  # noqa
            exc = ex
            out = ops.canon_exc(ex)
        if "args" in chk:
            self.check_args(op, "at the end of the call")
            self.own_snaps.pop(op.id, None)
        same_exc = exc is e.get("_exc") if e.get("_exc") is not None else None
        if exc is not None:
            exc.__traceback__ = None
            exc.__context__ = exc.__cause__ = None
            exc = None
        env.owned.pop(_thread.get_ident(), None)
        self.seq += 1
        rec = {"id": e["id"], "out": out, "fired": list(op.fired), "n": op.n,
               "c": op.c, "k": op.k, "hot": op.hot, "start": start, "end": self.seq,
               "same_exc": same_exc, "op": op}
        self.rec[e["id"]] = rec
        ops.digest(out, self.outh)
        S.end(op, out[0])
        if "files" in chk:
            left = set(S.handles) - handles0
            if left and not any(self._overlaps()):
                self.bad("files", op, "file left open: " + ", ".join(
                    os.path.basename(S.handles[x]) for x in left))
        if "amb" in chk:
            d = snap.diff_amb(ambt0, snap.ambient_thread())
            if d:
                self.bad("ambient", op, f"thread setting changed by the call: {d}")
            self.check_global(op, "after the call")
        if "keep" in chk and raw:
            self.kept.append((e["id"], raw, [ops.canon(x) for x in raw]))
            if "rawattrs" not in spec.get("what", ()):
                self.args[e["id"]] = st["owned"]
        self.judge(e, rec)
        if e.get("keepraw"):
            self.raw[e["id"]] = raw
        del raw

    def _overlaps(self):
        return [o for o in self.S.ops.values() if o is not None]

    # ------------------------------------------------------------- judging
    def judge(self, e, rec):
        chk = self.checks
        spec = e["spec"]
        if rec["out"][0] == "X":
            if self.failed_end is None:
                self.failed_end = rec["end"]
            self.failed.append(e["id"])
        if rec["fired"]:
            if "surface" in chk:
                self.judge_fault(e, rec)
            if "cb" in chk and e.get("_exc") is not None:
                if rec["same_exc"] is not True:
                    self.bad("callback", e["id"],
                             "exception of the plug-in did not reach the caller "
                             f"unchanged: {ops.brief(rec['out'])}")
            return
        if "ref" in chk or ("after" in chk and self.failed_end is not None
                            and rec["start"] > self.failed_end):
            want = self.oracle(spec)["out"]
            d = ops.same(rec["out"], want, SCALE.get(spec.get("want", "e"), 1.0))
            if d and rec["out"][0] == "X" and self.beside_fault(rec):
                # it may share the failure of a call in progress at the time
                # (one loads data for both), but not return anything wrong
                return
            if d:
                self.bad("result", e["id"], f"{describe(spec)}: {d}", (spec, None, rec["out"]))

    def beside_fault(self, rec):
        """Did a fault strike another call while this one was in progress?"""
        if any(o is not None and o.fired for o in self.S.ops.values()):
            return True
        return any(r["fired"] and r["end"] > rec["start"]
                   for r in self.rec.values() if r is not rec and "end" in r)

    def judge_fault(self, e, rec):
        kinds = [k for k, _ in rec["fired"]]
        where = rec["fired"][0][1]
        if rec["out"][0] == "X":
            if "KI" in kinds and rec["out"][1] != "KeyboardInterrupt":
                self.bad("interrupt", e["id"],
                         f"interrupt at {where} turned into {ops.brief(rec['out'])}")
            return
        if "KI" in kinds:
            self.bad("interrupt", e["id"], f"interrupt at {where} was swallowed")
            return
        d = ops.same(rec["out"], self.oracle(e["spec"])["out"],
                     SCALE.get(e["spec"].get("want", "e"), 1.0))
        if d:
            self.bad("masked", e["id"],
                     f"{kinds[0]} at {where} masked; {describe(e['spec'])}: {d}",
                     (e["spec"], None, rec["out"]))

    # ------------------------------------------------------------- C05
    def check_args(self, op, where):
        st = self.own_snaps.get(op.id)
        if st is None or st["bad"]:
            return
        ow, sn = st["owned"], st["snaps"]
        for i, s0 in enumerate(sn):
            name, obj = ow[i]
            d = snap.diff(s0, snap.snap(obj), name)
            if d:
                st["bad"] = True
                self.bad("args", op, f"argument modified ({where}): {d}")
                return

    # ------------------------------------------------------------- C07
    def start_global(self):
        self.amb0 = snap.ambient_global(True)
        self.tables = snap.Tables()

    def check_global(self, op, where, full=False):
        if getattr(self, "_gbad", False):
            return
        a = snap.ambient_global()
        d = snap.diff_amb({k: v for k, v in self.amb0.items() if k in a}, a)
        if d is None:
            d = self.tables.check(full)
        if d:
            self._gbad = True
            self.bad("ambient", op, f"process-wide state changed ({where}): {d}")

    def probe(self, op, where):
        op.nprobe += 1
        if op.nprobe > 250:
            return
        self.S.stats["probes"] = self.S.stats.get("probes", 0) + 1
        if "args" in self.checks:
            self.check_args(op, "during the call at " + where)
        if "amb" in self.checks:
            self.check_global(op, "during the call at " + where)

    # ------------------------------------------------------------- C06
    def do_edit(self, e, tid):
        """The caller overwrites a result it owns."""
        before = {o: [snap.snap(x) for _, x in a] for o, a in self.args.items()}
        for oid, raw, can in self.kept:
            if oid == e["of"] and oid not in self.edited:
                self.edited.add(oid)
                for x in raw:
                    scribble(x)
        self.S.ev("edit", e["of"])
        for o, sn in before.items():
            for s0, (name, x) in zip(sn, self.args[o]):
                d = snap.diff(s0, snap.snap(x), name)
                if d:
                    self.bad("aliased", e["of"], f"overwriting a result changed an argument: {d}")
                    return

    def do_editarg(self, e, tid):
        """The caller reuses the memory of the tensors it passed."""
        for _, x in self.args.pop(e["of"], ()):
            for y in x if isinstance(x, (list, tuple)) else (x,):
                if isinstance(y, torch.Tensor):
                    scribble(y)
        self.S.ev("editarg", e["of"])
        self.final_kept()

    def final_kept(self):
        for oid, raw, can in self.kept:
            if oid in self.edited:
                continue
            for x, c in zip(raw, can):
                d = ops.same(ops.canon(x), c)
                if d:
                    self.bad("aliased", oid, f"result changed after it was returned: {d}")
                    break

    # ------------------------------------------------------------- C15
    def do_eval(self, e, tid):
        S, spec = self.S, e["spec"]
        self.by_id[e["id"]] = e
        op = S.begin(e["id"], tid)
        op.spec = spec["k"]
        raised = None
        try:
            res, leaves = ops.evaluate(spec, self.env, e.get("share", ()), None)
            out = ops.canon(res)
            self.env.pending[e["id"]] = (spec, res, leaves)
        except sched.Fatal:
            raise
        except BaseException as ex:  # noqa
            raised = ops.canon_exc(ex)
        self.seq += 1
        rec = {"fired": list(op.fired), "n": op.n, "start": self.seq, "end": self.seq}
        self.rec[e["id"]] = rec
        S.end(op)
        if raised is not None:
            self.env.pending[e["id"]] = None
            want = self.oracle(spec)["out"]
            if not rec["fired"]:
                d = ops.same(raised, want)
                if d:
                    self.bad("result", e["id"], f"{describe(spec)}: {d}")
            return
        ops.digest(out, self.outh)
        want = self.oracle(spec)["out"]
        if rec["fired"]:
            return
        if want[0] == "L" and len(want[1]) == 2 and want[1][1][0] == "L":
            d = ops.same(out, want[1][0])
            if d:
                self.bad("result", e["id"], f"{describe(spec)}: {d}", (spec, 0, out))

    def do_diff(self, e, tid):
        p = self.env.pending.pop(e["of"], None)
        if p is None:
            return
        spec, res, leaves = p
        op = self.S.begin(e["id"], tid)
        op.spec = "diff"
        try:
            d = ops.derive(spec, res, leaves)
            out = ("L", [ops.canon(x) for x in d])
        except sched.Fatal:
            raise
        except BaseException as ex:  # noqa
            out = ops.canon_exc(ex)
        self.S.end(op)
        ops.digest(out, self.outh)
        want = self.oracle(spec)["out"]
        w = want[1][1] if want[0] == "L" else want
        x = ops.same(out, w, SCALE.get(spec.get("want", "e"), 1.0))
        if x:
            self.bad("derivative", e["id"], f"{describe(spec)} differentiated later: {x}",
                     (spec, 1 if want[0] == "L" else None, out))

    # ------------------------------------------------------------- C11
    def do_new(self, e, tid):
        """Create a dispersion object."""
        from . import terms

        terms.new(self, e, tid)

    def do_conv(self, e, tid):
        from . import terms

        terms.conv(self, e, tid)

    def do_other(self, e, tid):
        from . import terms

        terms.other(self, e, tid)

    def do_reg(self, e, tid):
        from . import terms

        terms.reg(self, e, tid)

    def do_dereg(self, e, tid):
        from . import terms

        terms.dereg(self, e, tid)

    def do_calc(self, e, tid):
        from . import terms

        terms.calc(self, e, tid)

    # ------------------------------------------------------------- C09
    def do_look(self, e, tid):
        from . import params

        params.look(self, e, tid)

    def do_scrib(self, e, tid):
        from . import params

        params.scrib(self, e, tid)

    # ------------------------------------------------------------- run
    def go(self):
        plan, S = self.plan, self.S
        seams.SCHED[0] = S
        threads = plan["threads"]
        for e in plan.get("pre") or ():
            set_ambient(e["what"])
        if "amb" in self.checks:
            self.start_global()
        if plan.get("setup"):
            # objects created by the caller before the threads start
            for e in plan["setup"]:
                self.presetup(e)
        if {"args", "amb"} & self.checks:
            S.probe_fn = self.probe
        if plan.get("instr", True):
            need = any("call" in t for t in plan.get("trig", ())) or S.profile
            sched.instrument(S, plan.get("scope", "repo"), need)

        def body(tid, lst):
            def f():
                for e in lst:
                    self.do(e, tid)
            return f

        S.run({int(t): body(int(t), lst) for t, lst in threads.items()})
        seams.SCHED[0] = None
        boot.IMPORT_HOOK[0] = None
        S.closed = True
        if S.fatal is not None:
            kind, msg = S.fatal
            if kind == "harness":
                raise RuntimeError("harness: " + msg)
            self.viol.append({"prop": self.prop, "cls": kind, "op": "", "msg": msg})
        else:
            if "keep" in self.checks:
                self.final_kept()
            if "amb" in self.checks:
                self.check_global("end", "at the end of the run", True)
                a = snap.ambient_global(True)
                d = snap.diff_amb(self.amb0, a)
                if d and not getattr(self, "_gbad", False):
                    self.bad("ambient", "end", f"process-wide state changed: {d}")
        return self.result()

    def presetup(self, e):
        ops.prebuild(e["spec"], self.env, e.get("share", ()))

    def result(self):
        S = self.S
        S.log.update(self.outh.digest())
        return {
            "viol": self.viol, "log": S.log.hexdigest(), "steps": S.total,
            "switches": S.switches, "faults": S.faults_fired, "pairs": S.pairs,
            "stats": S.stats, "clock": S.clock, "ops": len(self.rec),
            "trace": S.loglist,
            "failed": self.failed, "nfailed": len(self.failed),
        }


def scribble(x):
    """Overwrite an object the caller owns."""
    if isinstance(x, torch.Tensor):
        if x.numel() == 0:
            return
        with torch.no_grad():
            try:
                if x.is_floating_point():
                    x.detach().fill_(7.75e3)
                elif x.dtype == torch.bool:
                    x.logical_not_()
                else:
                    x.fill_(3)
            except RuntimeError:
                pass
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        for k in list(x):
            if isinstance(x[k], (int, float)):
                x[k] = -1234.5
        x.pop(next(iter(x), None), None)
        x["dst"] = 1.0
        return
    if isinstance(x, list):
        for v in x:
            scribble(v)
        x.clear()
        return
    if isinstance(x, tuple):
        for v in x:
            scribble(v)


def describe(spec) -> str:
    k = spec["k"]
    parts = [k]
    if "mol" in spec:
        parts.append(f"Z={spec['mol']['z']}")
    for f in ("model", "cls", "damp", "want", "ctx", "what", "f", "fn", "bad"):
        if f in spec and spec[f] not in ("e", "grad", None):
            v = spec[f]
            parts.append(f"{f}={v if isinstance(v, str) else ops.key(v)}")
    return " ".join(map(str, parts))[:200]


# ----------------------------------------------------------------- oracle
def oracle_child(spec, profile=True, scope="repo"):
    """Reference evaluation: the call alone, first in a pristine process."""
    env = ops.Env()
    env.callbacks = lambda kind: None
    try:
        out = ops.execute(spec, env)
    except Exception as ex:  # noqa
        out = ops.canon_exc(ex)
    return {"out": out}


def noise_child(spec, n=8):
    """The reference evaluation and n more, inputs changed in the last digits."""
    work.warm_up()
    outs = []
    for k in range(n + 1):
        ops.PERTURB[0] = random.Random(k) if k else None
        outs.append(oracle_child(spec)["out"])
    return outs


def profile_child(spec, cold=False):
    """Step counts and hot steps of a call made alone."""
    plan = {"prop": "-", "threads": {"0": [{"id": "p", "spec": spec}]},
            "profile": True, "checks": [], "scope": "repo"}
    r = Runner(plan)
    res = r.go()
    rec = r.rec.get("p")
    if rec is None:
        return {"n": 0, "hot": [], "c": 0, "k": 0, "sites": [], "lines": {}}
    op = rec["op"]
    hot = {}
    for n, s, c in rec["hot"]:
        hot.setdefault(s, []).append((n, c))
    hot = [(s, v[:4]) for s, v in sorted(hot.items())]
    sites = []
    lines = {}               # source line -> steps at which it may be struck
    for (cid, off), n in op.seen.items():
        ci = sched.INFO[cid]
        if off in ci.ki or off in ci.alloc:
            sites.append(n)
            ln = lines.setdefault(line_id(ci, off), [[], []])
            if len(ln[0]) < 6:
                ln[0].append(n)
    for cid, off, c in op.callsites:
        ln = lines.setdefault(line_id(sched.INFO[cid], off), [[], []])
        if len(ln[1]) < 4:
            ln[1].append(c)
    sites.sort()
    return {"out": rec["out"], "n": rec["n"], "c": rec["c"], "k": rec["k"],
            "hot": hot, "sites": sites, "lines": lines}


def line_id(ci, off):
    """A number naming a source line, the same in every process."""
    return zlib.crc32(ci.name.encode()) << 16 | (ci.lines.get(off, 0) & 0xFFFF)
