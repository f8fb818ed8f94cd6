"""C09: independent model of the parameter look-up."""
from __future__ import annotations

import os
import tomllib

from . import boot, ops, sched

_tables: dict = {}


def table(m):
    if m not in _tables:
        p = os.path.join(boot.PKGDIR, "damping", "parameters", f"{m}.toml")
        with open(p, "rb") as fp:
            _tables[m] = tomllib.load(fp)
    return _tables[m]


def expected(spec):
    """-> list of acceptable results; "E" stands for a lookup error."""
    m = spec.get("m", "d4")
    if m not in ("d3", "d4"):
        return ["E"]
    t = table(m)
    f, v, doi = spec.get("f"), spec.get("v"), spec.get("doi", False)

    def block(b):
        b = dict(b)
        if not doi:
            b.pop("doi", None)
        return b

    if f is None or f == "default":
        if v is None:
            v = t["default"][m][0]
        b = t["default"]["parameter"][m].get(v)
        if b is None:
            return ["E"]
        if spec.get("v") is None or spec["v"] not in t["default"][m]:
            return ["E", block(b)]
        return [block(b)]
    sec = t["parameter"].get(f.casefold())
    if sec is None or m not in sec:
        return ["E"]
    if v is None:
        v = t["default"][m][0]
    if v not in sec[m]:
        return ["E"]
    return [block(sec[m][v])]


def exact(a, b) -> bool:
    return (isinstance(a, dict) and set(a) == set(b)
            and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in b))


def look(R, e, tid):
    S, spec = R.S, e["spec"]
    R.by_id[e["id"]] = e
    op = S.begin(e["id"], tid)
    op.spec = "look"
    exc = res = None
    try:
        res, _ = ops.evaluate(spec, R.env)
    except sched.Fatal:
        raise
    except BaseException as ex:  # noqa
        exc = ex
        ex.__traceback__ = None
        ex.__context__ = ex.__cause__ = None
    fired = list(op.fired)
    S.end(op, "X" if exc is not None else "")
    R.rec[e["id"]] = {"id": e["id"], "fired": fired}
    R.outh.update(repr((type(exc).__name__, res)).encode())
    if S.handles and not any(o is not None for o in S.ops.values()):
        R.bad("files", e["id"], "parameter file left open")
    want = expected(spec)
    what = f"get_params({ops.key({k: v for k, v in spec.items() if k != 'k'})})"
    if exc is not None:
        if fired:
            if fired[0][0] == "KI" and not isinstance(exc, KeyboardInterrupt):
                R.bad("interrupt", e["id"], f"{what}: interrupt became {exc!r}")
            return
        if isinstance(exc, (LookupError, ValueError)) and "E" in want:
            return
        R.bad("lookup", e["id"],
              f"{what}: raised {type(exc).__name__}({ops.norm_msg(exc)[:120]!r}) "
              + ("" if "E" not in want else "instead of a lookup error"))
        return
    if fired and fired[0][0] == "KI":
        R.bad("interrupt", e["id"], f"{what}: interrupt swallowed")
        return
    for w in want:
        if w != "E" and exact(res, w):
            R.kept.append((e["id"], [res], dict(res)))
            return
    R.bad("lookup", e["id"], f"{what}: returned {str(res)[:150]}, "
          f"file says {str([w for w in want])[:150]}")


def scrib(R, e, tid):
    """The caller edits a dictionary it got earlier."""
    for oid, raw, _ in R.kept:
        if oid == e["of"]:
            d = raw[0]
            how = e.get("how", "set")
            if how == "set":
                for k in list(d):
                    d[k] = -99.0
            elif how == "pop":
                for k in list(d)[:2]:
                    d.pop(k)
            elif how == "add":
                d["s9"] = 0.123
                d["alp"] = 1.0
            elif how == "clear":
                d.clear()
    R.S.ev("scrib", e["of"])
