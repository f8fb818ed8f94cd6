"""C12: what stays alive after many calls."""
from __future__ import annotations

import collections
import gc
import os
import sys
import warnings

import torch

from . import boot, ops, run, sched, seams


def fresh(spec, i):
    """The same kind of call on input never used before."""
    s = dict(spec)
    if "mol" in s:
        m = dict(s["mol"])
        m["g"] = 10_000 + i
        z = m["z"]

        def sh(a):
            return a if a == 0 else 1 + (a * 7 + i * 11 + a * i) % 54

        if s.get("vary", True) and not isinstance(z[0], list):
            m["z"] = [sh(a) for a in z]
        s["mol"] = m
    if isinstance(s.get("par"), dict) and "v" in s["par"]:
        v = dict(s["par"]["v"])
        if "a2" in v:
            v["a2"] = round(4.5 + 0.0007 * (i % 997), 6)
        s["par"] = {**s["par"], "v": v}
    if isinstance(s.get("model"), dict) and "ga" in s["model"]:
        s["model"] = {**s["model"], "ga": 2.5 + 0.001 * i}
    if isinstance(s.get("cut"), dict):
        s["cut"] = {k: v + 0.0001 * i if isinstance(v, (int, float)) else v for k, v in s["cut"].items()}
    if isinstance(s.get("cutv"), float):
        s["cutv"] += 0.0001 * i
    if s["k"] == "params":
        s["f"] = f"{s['f']}" if i % 2 else f"nosuch{i}"
    return s


def _count():
    gc.collect()
    gc.collect()
    objs = gc.get_objects()
    nt = 0
    nb = 0
    for o in objs:
        if isinstance(o, torch.Tensor):
            nt += 1
            try:
                nb += o.untyped_storage().nbytes()
            except Exception:
                pass
    n = len(objs)
    # entries of containers: tables of plain numbers and texts are not objects
    # of their own for the collector
    ne = sum([len(o) for o in objs if type(o) in BOX])
    for m in list(sys.modules.values()):
        d = getattr(m, "__dict__", None)
        if type(d) is dict:
            ne += sum([len(v) for v in d.values() if type(v) in BOX and not gc.is_tracked(v)])
    del objs, o
    return nt, nb, n, sys.getallocatedblocks(), len(os.listdir("/proc/self/fd")), ne


BOX = {dict, list, set, frozenset, collections.deque, collections.OrderedDict, collections.defaultdict,
       collections.Counter}


def go(plan):
    """One history; returns a result like Runner.go()."""
    R = run.Runner(plan)
    S = R.S
    S.budget = 1 << 40
    seams.SCHED[0] = S
    specs = plan["specs"]
    W = plan["window"]
    nwin = plan["windows"]
    trig = plan.get("faults", {})
    if plan.get("instr"):
        S.plan["trig"] = []
        sched.instrument(S, "repo", True)
    out = {}

    def left(oid, when):
        R.bad("files", oid, f"file left open{when}: "
              + ", ".join(sorted(set(os.path.basename(x) for x in S.handles.values()))))
        S.handles.clear()

    def body():
        # as in an application: warnings are shown, once for each text
        warnings.simplefilter("default")
        i = 0
        counts = [None] * nwin
        env = ops.Env()
        env.callbacks = lambda k: None
        for w in range(nwin):
            for _ in range(W):
                spec = fresh(specs[i % len(specs)], i)
                f = trig.get(str(i % 7)) if trig else None
                oid = f"m{i}"
                if f is not None:
                    S.trig[oid] = [{**f, "op": oid}]
                op = S.begin(oid, 0)
                op.spec = spec["k"]
                S.ev("spec", ops.key(spec))
                try:
                    r = ops.execute(spec, env, plan.get("share", ()))
                except sched.Fatal:
                    raise
                except BaseException as ex:  # noqa
                    # seen by a caller that still holds the exception
                    if S.handles:
                        left(oid, " by a failed call")
                    ex.__traceback__ = None
                    r = None
                del r
                S.trig.pop(oid, None)
                S.end(op)
                if S.handles:
                    left(oid, " after the call")
                i += 1
                if plan.get("share"):
                    # the caller drops what it shared for this input
                    if i % 5 == 0:
                        env.shared.clear()
            env.shared.clear()
            op = None
            S.pairs.clear()
            counts[w] = _count()
        out["counts"] = counts
        out["n"] = i

    S.run({0: body})
    seams.SCHED[0] = None
    boot.IMPORT_HOOK[0] = None
    if S.fatal is not None:
        if S.fatal[0] == "harness":
            raise RuntimeError("harness: " + S.fatal[1])
        R.viol.append({"prop": plan["prop"], "cls": S.fatal[0], "op": "", "msg": S.fatal[1]})
    else:
        judge(R, plan, out["counts"], W)
    res = R.result()
    res["ops"] = out.get("n", 0)
    res["counts"] = out.get("counts")
    return res


NAMES = ("live tensors", "tensor bytes", "objects", "allocated blocks", "open descriptors", "entries of tables")


def growth(counts, W, lo):
    """Quantities that grow in every window from `lo` on, with their rate."""
    bad = []
    for j, name in enumerate(NAMES):
        col = [c[j] for c in counts][lo:]
        steps = [b - a for a, b in zip(col, col[1:])]
        rate = (col[-1] - col[0]) / (W * max(1, len(steps)))
        if name == "allocated blocks":
            # noisy (free lists fill up); only judged over long histories
            h = len(col) // 2
            if W * len(steps) < 400:
                continue
            halves = [(col[h] - col[0]) / (W * h), (col[-1] - col[h]) / (W * (len(col) - 1 - h))]
            if min(halves) >= 0.7:
                bad.append((name, rate))
            continue
        # at least one object per ten calls, in every window
        thr = {0: 0.1, 1: 2.0, 2: 0.1, 4: 0.05, 5: 0.1}[j]
        if steps and min(steps) > 0 and rate >= thr:
            bad.append((name, rate))
    return bad


def judge(R, plan, counts, W):
    bad = growth(counts, W, plan.get("skip", 2))
    if bad:
        names = [n for n, _ in bad]
        if plan.get("confirm") or "open descriptors" in names:
            R.bad("growth", "", "retained after the results were dropped: " + ", ".join(
                f"{r:.2f} {n} per call" for n, r in bad)
                + f" (over {W * (len(counts) - 1 - plan.get('skip', 2))} calls)")
        else:
            R.viol.append({"prop": plan["prop"], "cls": "suspect", "op": "",
                           "msg": str(bad)})
