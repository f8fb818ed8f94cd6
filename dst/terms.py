"""C11: list model of dispersion objects."""
from __future__ import annotations

import numpy as np
import torch

from . import ops, sched

INIT = {
    "Disp": [],
    "DispD4": [{"t": "two", "d": "bj", "c": True}, {"t": "atm", "d": "zero", "c": False}],
    "DispD4Exact": [{"t": "two", "d": "bj", "c": True}, {"t": "atmx", "d": "zero", "c": False}],
    "DispD3BJ": [{"t": "two", "d": "bj", "c": False}, {"t": "d3atm", "d": "zero", "c": False}],
    "DispD3Zero": [{"t": "two", "d": "zero", "c": False}, {"t": "d3atm", "d": "zero", "c": False}],
    "MyD4": [{"t": "two", "d": "bj", "c": True}, {"t": "atm", "d": "zero", "c": False}],
    "MyTwo": [{"t": "two", "d": "bj", "c": False}, {"t": "uterm", "c": False}],
}

_classes: dict = {}


def klass(name):
    if name in _classes:
        return _classes[name]
    if name == "MyD4":
        base = ops.disp_class("DispD4")
        c = type("MyD4", (base,), {})
    elif name == "MyTwo":
        from tad_dftd4.dispersion.twobody import TwoBodyTerm

        base = ops.disp_class("Disp")
        c = type("MyTwo", (base,), {"TERMS": [
            (TwoBodyTerm, {"charge_dependent": False}),
            (ops.user_term("uterm"), {"damping_fn": ops.mk_damping("bj"),
                                      "charge_dependent": False}),
        ]})
    else:
        c = ops.disp_class(name)
    _classes[name] = c
    return c


DEF = {"two": ("bj", True), "atm": ("zero", False), "atmx": ("zero", False),
       "d3atm": ("zero", False), "uterm": ("bj", False)}


def norm(t):
    d, c = DEF[t["t"]]
    return (t["t"], t.get("d") or d, t["c"] if t.get("c") is not None else c)


def term_spec(base, t):
    """Specification of the energy of one term alone."""
    k, d, c = t
    return {"k": "disp", "cls": "Disp", "terms": [{"t": k, "d": d, "c": c}], **base}


def _guard(R, e, tid, kind, f):
    S = R.S
    R.by_id[e["id"]] = e
    op = S.begin(e["id"], tid)
    op.spec = kind
    exc = res = None
    try:
        res = f()
    except sched.Fatal:
        raise
    except BaseException as ex:  # noqa
        exc = ex
        ex.__traceback__ = None
        ex.__context__ = ex.__cause__ = None
    fired = list(op.fired)
    S.end(op, kind)
    R.rec[e["id"]] = {"id": e["id"], "fired": fired}
    return res, exc, fired


def new(R, e, tid):
    dt = ops.DT[e.get("dt", "f64")]
    obj, exc, fired = _guard(
        R, e, tid, "new",
        lambda: klass(e["cls"])(model=e.get("model", "d4"), dtype=dt))
    if obj is None:
        R.disps[e["name"]] = None
        if not fired:
            R.bad("construct", e["id"], f"constructing {e['cls']} failed: {exc!r}")
        return
    R.disps[e["name"]] = {
        "obj": obj, "cand": [[norm(t) for t in INIT[e["cls"]]]], "cls": e["cls"]}


def conv(R, e, tid):
    """A new object made from another one by conversion (there and back)."""
    d = R.disps.get(e["src"])
    if d is None:
        R.disps[e["name"]] = None
        return
    dt = ops.DT[e.get("dt", "f64")]
    o = torch.float32 if dt is torch.float64 else torch.float64

    def f():
        if e["how"] == "type":
            return d["obj"].type(o).type(dt)
        if e["how"] == "to":
            return d["obj"].to(dtype=o).to(dtype=dt)
        return d["obj"].to(torch.device("cpu"), o).type(dt)

    obj, exc, fired = _guard(R, e, tid, "conv", f)
    if obj is None:
        R.disps[e["name"]] = None
        if not fired:
            R.bad("convert", e["id"], f"converting a {d['cls']} failed: {exc!r}")
        return
    R.disps[e["name"]] = {"obj": obj, "cand": [list(c) for c in d["cand"]], "cls": d["cls"]}


def other(R, e, tid):
    """A plain energy evaluation, which must not touch any object."""
    def f():
        a = ops.Args({"k": "dftd4", **e["base"]}, R.env, ())
        n, p, dt = a.mol()
        return ops.T().dftd4(n, p, a.charge(dt), a.param(dt), model=e["base"]["model"])

    _, exc, fired = _guard(R, e, tid, "other", f)
    if exc is not None and not fired:
        R.bad("calculate", e["id"], f"dftd4 raised {exc!r}")


def inst(R, e):
    """The term instance of a register/deregister operation."""
    n = e.get("inst")
    if n is not None:
        k = ("term", n)
        if k not in R.env.shared:
            R.env.shared[k] = ops.mk_term(e["term"])
        return R.env.shared[k]
    return ops.mk_term(e["term"])


def reg(R, e, tid):
    d = R.disps.get(e["name"])
    if d is None:
        return
    t = norm(e["term"])
    term = inst(R, e)
    _, exc, fired = _guard(R, e, tid, "reg", lambda: d["obj"].register(term))
    after = [c + [t] for c in d["cand"]]
    if exc is None:
        d["cand"] = after
    elif fired:
        d["cand"] = d["cand"] + after
    else:
        R.bad("register", e["id"], f"register raised {exc!r}")


def _minus(c, t):
    c = list(c)
    if t in c:
        c.remove(t)
    return c


def dereg(R, e, tid):
    d = R.disps.get(e["name"])
    if d is None:
        return
    t = norm(e["term"])
    term = inst(R, e)
    _, exc, fired = _guard(R, e, tid, "dereg", lambda: d["obj"].deregister(term))
    after = [_minus(c, t) for c in d["cand"]]
    if exc is None:
        d["cand"] = after
    elif fired:
        d["cand"] = d["cand"] + after
    else:
        # the term was absent: nothing may have changed
        d["cand"] = [c for c in d["cand"] if t not in c]
        if not d["cand"]:
            R.bad("deregister", e["id"],
                  f"deregistering the registered term {t} raised {exc!r}")


def calc(R, e, tid):
    from . import run

    d = R.disps.get(e["name"])
    if d is None:
        return
    base = e["base"]

    def f():
        a = ops.Args({"k": "disp", **base}, R.env, ())
        n, p, dt = a.mol()
        par = a.param(dt)
        return d["obj"].calculate(n, p, a.charge(dt), par)

    res, exc, fired = _guard(R, e, tid, "calc", f)
    if exc is not None:
        if not fired:
            R.bad("calculate", e["id"], f"calculate raised {exc!r}")
        return
    out = ops.canon(res)
    ops.digest(out, R.outh)
    ok = []
    msgs = []
    for c in d["cand"]:
        tot = 0.0
        mag = 0.0
        for t in c:
            r = R.oracle(term_spec(base, t))["out"]
            if r[0] != "T":
                R.S.stats["calc_skipped"] = R.S.stats.get("calc_skipped", 0) + 1
                return
            tot = tot + r[4]
            mag = mag + float(np.max(np.abs(r[4])))
        want = np.zeros_like(out[4]) if isinstance(tot, float) else tot
        tol = (1e-11 if out[1] == "torch.float64" else 3e-6) * mag
        if out[4].shape == want.shape and np.all(np.abs(out[4] - want) <= tol + 1e-300):
            ok.append(c)
        else:
            dd = float(np.max(np.abs(out[4] - want))) if out[4].shape == want.shape else None
            msgs.append(f"terms {c}: |d|={dd}")
    if not ok:
        R.bad("terms", e["id"],
              f"energy of {d['cls']} object {e['name']} is not the sum of its "
              "registered terms; " + "; ".join(msgs)[:250])
        return
    if not fired:
        d["cand"] = ok
