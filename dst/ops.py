"""Operations: JSON specifications of public calls of the library.

``execute(spec, env)`` builds the arguments, makes the call and returns a
canonical outcome.  Everything here only uses the public API.
"""
from __future__ import annotations

import _thread
import contextlib
import json
import re
import sys

import numpy as np
import torch

DT = {"f64": torch.float64, "f32": torch.float32}


def key(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def T():
    import tad_dftd4

    return tad_dftd4


# ------------------------------------------------------------------ geometry
def _lattice():
    pts = [
        (i, j, k)
        for i in range(-2, 3) for j in range(-2, 3) for k in range(-2, 3)
    ]
    pts.sort(key=lambda p: (p[0] ** 2 + p[1] ** 2 + p[2] ** 2, p))
    return pts


_PTS = _lattice()


def geom(n: int, g: int, sc: float = 1.0):
    x = (g * 2654435761 + 12345) & 0xFFFFFFFF

    def rnd():
        nonlocal x
        x = (x * 1664525 + 1013904223) & 0xFFFFFFFF
        return (x >> 8) / float(1 << 24)

    a = 2.6 + 0.9 * rnd()
    out = []
    for i in range(n):
        p = _PTS[i]
        out.append([
            round(sc * (a * p[d] + 0.7 * (rnd() - 0.5)), 6) for d in range(3)
        ])
    return out


def mol_values(m):
    """-> (numbers nested list, positions nested list) padded."""
    z, g, sc = m["z"], m.get("g", 0), m.get("sc", 1.0)
    if m.get("lat"):                 # distances at the edge of a cutoff
        a = m["lat"]
        row = lambda n: [[a * x for x in _PTS[i]] for i in range(n)]
        if z and isinstance(z[0], list):
            n = max(len(r) for r in z)
            return ([r + [0] * (n - len(r)) for r in z],
                    [row(len(r)) + [[0.0, 0.0, 0.0]] * (n - len(r)) for r in z])
        return z, row(len(z))
    if m.get("eps"):
        n, p = mol_values({**m, "eps": 0})
        p[0][0] = p[0][0] + m["eps"]
        return n, p
    if z and isinstance(z[0], list):
        n = max(len(r) for r in z)
        nums = [r + [0] * (n - len(r)) for r in z]
        pos = [
            geom(len(r), g + i, sc) + [[0.0, 0.0, 0.0]] * (n - len(r))
            for i, r in enumerate(z)
        ]
        return nums, pos
    return z, geom(len(z), g, sc)


# ------------------------------------------------------------------ plug-ins
def custom_count(r, r0, kcn=5.5):
    return 1.0 / (1.0 + torch.exp(-kcn * (1.1 * r0 / r - 1.0)))


def custom_cn(numbers, positions, counting_function=None):
    from tad_mctc.ncoord import cn_d4, erf_count

    cf = counting_function if counting_function is not None else erf_count
    return 0.9 * cn_d4(numbers, positions, counting_function=cf)


_user = {}


def user_damping(kind):
    """User-defined damping classes (defined once per process)."""
    if kind in _user:
        return _user[kind]
    from tad_dftd4.damping import Damping

    class UserBJ(Damping):
        radius_type = "r4r2"
        REQUIRED_BY_ORDER = {6: ("a1", "a2"), 8: ("a1", "a2")}

        def _f(self, distances, radii, order, *, a1=None, a2=None, s6=None,
               rs6=None, s8=None, rs8=None, s9=None, rs9=None, s10=None,
               alp=None, bet=None, only_damping=False):
            r = a1 * torch.sqrt(radii) + a2
            return 1.0 / (distances.pow(order) + 1.1 * r.pow(order))

    class UserPlain(Damping):
        radius_type = "rvdw"

        def _f(self, distances, radii, order, *, a1=None, a2=None, s6=None,
               rs6=None, s8=None, rs8=None, s9=None, rs9=None, s10=None,
               alp=None, bet=None, only_damping=False):
            return 1.0 / (distances.pow(order) + radii.pow(order))

    _user["userbj"], _user["userplain"] = UserBJ, UserPlain
    return _user[kind]


def mk_damping(kind):
    from tad_dftd4 import damping as D

    std = {
        "bj": D.RationalDamping, "zero": D.ZeroDamping,
        "mzero": D.MZeroDamping, "op": D.OptimisedPowerDamping,
    }
    if kind in std:
        return std[kind]()
    return user_damping(kind)()


def user_model():
    """A user-defined model."""
    if "model" not in _user:
        d4 = T()

        class UserD4Model(d4.D4Model):
            def _get_wf(self):
                return torch.tensor(5.5, **self.dd)

        _user["model"] = UserD4Model
    return _user["model"]


def user_term(kind):
    if kind in _user:
        return _user[kind]
    from tad_dftd4.dispersion.base import DispTerm

    class UserTerm(DispTerm):
        """A user-defined term: a charge-like pair energy."""

        def __init__(self, damping_fn=None, charge_dependent=False):
            super().__init__(damping_fn, charge_dependent)

        def calculate(self, numbers, positions, param, cn, model, q, r4r2,
                      rvdw, cutoff):
            w = 0.001 * cn * r4r2
            if self.charge_dependent:
                w = w + 0.01 * q
            return w + 1e-4 * (positions**2).sum(-1)

    _user["uterm"] = UserTerm
    return UserTerm


def hook_term(env):
    cls = user_term("uterm")

    class HookTerm(cls):
        def calculate(self, *x, **y):
            env.callbacks("term")
            out = super().calculate(*x, **y)
            env.callbacks("term-end")
            return out

    return HookTerm(damping_fn=mk_damping("bj"), charge_dependent=False)


def mk_term(t):
    """t: {"t": class, "d": damping, "c": charge dependent}"""
    from tad_dftd4.dispersion import d4, threebody, twobody

    k = t["t"]
    if k == "uterm":
        return user_term("uterm")(
            damping_fn=mk_damping("bj"), charge_dependent=t.get("c", False))
    if k == "two":
        cls = twobody.TwoBodyTerm
    elif k == "atm":
        cls = d4.D4ATMApprox
    elif k == "atmx":
        cls = d4.D4ATMExact
    elif k == "d3atm":
        from tad_dftd4.dispersion import d3

        cls = d3.D3ATM
    else:
        raise KeyError(k)
    kw = {}
    if t.get("d") is not None:
        kw["damping_fn"] = mk_damping(t["d"])
    if t.get("c") is not None:
        kw["charge_dependent"] = t["c"]
    return cls(**kw)


def disp_class(name):
    from tad_dftd4.dispersion import d4
    from tad_dftd4.dispersion.base import Disp

    if name == "Disp":
        return Disp
    if name == "DispD4":
        return d4.DispD4
    if name == "DispD4Exact":
        return d4.DispD4Exact
    if name == "DispD3BJ":
        from tad_dftd4.dispersion import d3

        return d3.DispD3BJ
    if name == "DispD3Zero":
        from tad_dftd4.dispersion import d3

        return d3.DispD3Zero
    if name in ("UserDisp", "SubD4"):
        if name not in _user:
            from tad_dftd4.dispersion.twobody import TwoBodyTerm

            if name == "SubD4":
                _user[name] = type(name, (d4.DispD4,), {})
            else:
                _user[name] = type(name, (Disp,), {"TERMS": [
                    (TwoBodyTerm, None),
                    (d4.D4ATMApprox, {"charge_dependent": True}),
                    (user_term("uterm"), {"damping_fn": mk_damping("bj"), "charge_dependent": True})]})
        return _user[name]
    raise KeyError(name)


# ------------------------------------------------------------------ env
class Env:
    """Objects shared between operations of one run."""

    def __init__(self):
        self.shared = {}
        self.buffers = {}
        self.pending = {}
        self.callbacks = None     # C14: hook(kind, op) called by plug-ins
        self.owned = {}           # thread id -> {"owned": [], "snaps": []}

    def own(self, name, obj):
        """Declare an object as belonging to the caller of this call."""
        if self.owned and obj is not None:
            st = self.owned.get(_thread.get_ident())
            if st is not None:
                from . import snap

                st["owned"].append((name, obj))
                if st["snaps"] is not None:
                    st["snaps"].append(snap.snap(obj))
        return obj


PERTURB = [None]


def perturb(obj, rng):
    """Change every input number by a few units in the last place."""
    if isinstance(obj, torch.Tensor) and obj.dtype.is_floating_point:
        u = 4 * torch.finfo(obj.dtype).eps
        with torch.no_grad():
            f = torch.tensor([1.0 + u * rng.uniform(-1, 1) for _ in range(obj.numel())], dtype=obj.dtype)
            obj.data.mul_(f.reshape(obj.shape))
    elif isinstance(obj, list):
        for x in obj:
            perturb(x, rng)
    elif isinstance(obj, dict):
        for k, x in obj.items():
            if isinstance(x, float) and not x.is_integer():
                obj[k] = x * (1.0 + 1e-15 * rng.uniform(-1, 1))
            else:
                perturb(x, rng)


class Args:
    """Builds arguments; `share`d ones come from the environment."""

    def __init__(self, spec, env, share=(), buf=None):
        self.s, self.env, self.share, self.buf = spec, env, set(share), buf
        if spec.get("wrap"):
            self.share -= {"disp", "damp"}

    def _get(self, name, sub, mk):
        env = self.env
        # the caller prepares its arguments outside the mode of the call
        with torch.inference_mode(False), torch.enable_grad():
            if name in self.share:
                k = (name, key(sub))
                if k not in env.shared:
                    env.shared[k] = mk()
                obj = env.shared[k]
            else:
                obj = mk()
            if PERTURB[0] is not None and name not in ("cut", "cutv", "damp", "disp", "model"):
                perturb(obj, PERTURB[0])
        return env.own(name, obj)

    def _buffer(self, name, t):
        """Return t's values inside a buffer that is reused in place."""
        if self.buf is None or t is None or self.s.get("want", "e") != "e":
            return t
        k = (self.buf, name, tuple(t.shape), t.dtype)
        b = self.env.buffers.get(k)
        with torch.inference_mode(False), torch.no_grad():
            if b is None:
                b = self.env.buffers[k] = t.detach().clone()
            else:
                b.copy_(t)
        return b

    # -- individual arguments
    def mol(self):
        m = self.s["mol"]
        dt = DT[m.get("dt", "f64")]

        def mk():
            nums, pos = mol_values(m)
            n = torch.tensor(nums)
            p = torch.tensor(pos, dtype=dt)
            if m.get("zdt"):
                n = n.to({"i32": torch.int32, "i16": torch.int16}[m["zdt"]])
            lay = m.get("lay")
            if lay == "nc":          # another memory layout
                p = p.transpose(-1, -2).contiguous().transpose(-1, -2)
            elif lay == "view":      # part of a larger tensor of the caller
                big = torch.full((*p.shape[:-2], p.shape[-2] + 2, 3), 0.5, dtype=dt)
                big[..., 1:-1, :] = p
                p = big[..., 1:-1, :]
            out = [n, p]
            if self.s.get("want") in ("gpos", "hvp", "gposonly") or m.get("rg"):
                if lay == "view":
                    p = out[1] = p.detach()
                p.requires_grad_(True)
                if m.get("pg"):
                    p.grad = torch.full_like(p, 0.25)
            return out

        n, p = self._get("mol", {**m, "w": self.s.get("want")}, mk)
        self.leaf = None
        if m.get("nl"):              # positions computed from something else
            self.leaf, p = p, p * 1.0
            return n, p, dt
        model = self.s.get("model")
        if not isinstance(model, dict) and "mol" not in self.share:
            n = self._buffer("numbers", n)
        if "mol" not in self.share and not m.get("rg"):
            p = self._buffer("positions", p)
        return n, p, dt

    def charge(self, dt):
        c = self.s.get("chg", 0)
        if isinstance(c, dict):
            def mk():
                t = torch.tensor(c["t"], dtype={**DT, "i64": torch.int64}[c["dt"]] if "dt" in c else dt)
                if self.s.get("want") == "gchg":
                    t.requires_grad_(True)
                return t

            t = self._get("chg", {**c, "w": self.s.get("want"), "dt": c.get("dt") or str(dt)}, mk)
            return self._buffer("charge", t) if "chg" not in self.share else t
        return c

    def param(self, dt):
        p = self.s["par"]

        def mk():
            if "f" in p:
                d = T().get_params(
                    method=p.get("m", "d4"), functional=p["f"],
                    keep_doi=p.get("doi", False))
                d = dict(d)
            else:
                d = dict(p["v"])
            how = p.get("as", "float")
            for k, v in list(d.items()):
                if isinstance(v, str) or how == "float":
                    continue
                if how == "np":
                    d[k] = np.float64(v)
                    continue
                if how == "int":
                    d[k] = int(v) if float(v).is_integer() else v
                    continue
                if how == "mixed" and k in ("s6", "a2", "alp"):
                    continue
                d[k] = torch.tensor(v, dtype=DT[p["dt"]] if "dt" in p else dt)
                if how == "grad":
                    d[k].requires_grad_(True)
            return d

        d = self._get("par", {**p, "dt": p.get("dt") or str(dt)}, mk)
        bad = self.s.get("bad")
        if bad in ("nopar", "unkpar", "strpar", "nonepar"):
            d = dict(d)
            if bad == "nopar":
                for k in ("a1", "rs6", "a2"):
                    d.pop(k, None)
            elif bad == "unkpar":
                d["xyz"] = 1.0
            elif bad == "strpar":
                d["s8"] = "much"
            else:
                d["s8"] = None
            return self.env.own("par", d)
        if self.buf is not None and "par" not in self.share:
            b = self.env.buffers.setdefault((self.buf, "par"), {})
            b.clear()
            b.update(d)
            self.env.own("par", b)
            return b
        return d

    def model(self, numbers, dt):
        m = self.s.get("model", "d4")
        if isinstance(m, str):
            return m

        mdt = DT[m["dt"]] if "dt" in m else dt
        share = self.share
        if "rawattrs" in self.s.get("what", ()):
            self.share = share - {"model"}

        def mk():
            d4 = T()
            cls = {"d4": d4.D4Model, "d4s": d4.D4SModel, "user": None}[m["m"]] or user_model()
            kw = {k: m[k] for k in ("ga", "gc", "ref_charges") if k in m}
            if "wf" in m:
                kw["wf"] = torch.tensor(m["wf"], dtype=mdt) if m.get("wft") else m["wf"]
            num = torch.tensor(mol_values(self.s["mol"])[0])
            if m.get("mz"):          # built from the tensor the caller passes on
                num = numbers
            if m.get("rc6"):
                kw["rc6"] = 1.25 * cls(num, dtype=mdt, **kw).rc6
            mod = cls(num, dtype=mdt, **kw)
            if m.get("rt"):          # round trip through another precision
                mod = mod.type(torch.float64).type(dt)
            if self.s.get("want") == "gwf":
                mod.wf = mod.wf.clone().requires_grad_(True)
            return mod

        if m.get("mz") and "mol" not in share:
            self.share = share - {"model"}
        try:
            return self._get(
                "model",
                {**m, "z": self.s["mol"]["z"], "dt": str(mdt), "w": self.s.get("want") == "gwf"},
                mk)
        finally:
            self.share = share

    def cutoff(self, dt):
        c = self.s.get("cut")
        if c is None:
            return None

        cdt = DT[c["dt"]] if "dt" in c else dt

        def mk():
            v = {k: x for k, x in c.items() if k not in ("dt", "as")}
            if c.get("as") == "tensor":
                v = {k: torch.tensor(x, dtype=cdt) for k, x in v.items()}
            return T().Cutoff(**v, dtype=cdt)

        return self._get("cut", {**c, "dt": str(cdt)}, mk)

    def damping(self):
        d = self.s.get("damp")
        if d is None:
            return None
        return self._get("damp", {"d": d}, lambda: mk_damping(d))

    def given(self, numbers, dt):
        out = {}
        give = self.s.get("give", ())
        dt = DT[self.s["gdt"]] if "gdt" in self.s else dt
        z = mol_values(self.s["mol"])[0]

        def per_atom(f):
            return [f(i, a) for i, a in enumerate(z)] if not isinstance(
                z[0], list) else [[f(i, a) for i, a in enumerate(r)] for r in z]

        if "q" in give:
            def mkq():
                q = torch.tensor(
                    per_atom(lambda i, a: 0.0 if a == 0 else round(
                        0.08 * ((i * 37 + a * 11) % 7 - 3) / 3, 6)), dtype=dt)
                if self.s.get("want") == "gq":
                    q.requires_grad_(True)
                return q

            q = self._get("q", {"z": z, "dt": str(dt), "w": self.s.get("want")}, mkq)
            out["q"] = self._buffer("q", q) if "q" not in self.share else q
        if "r4r2" in give:
            r = self._get("r4r2", {"z": z, "dt": str(dt)}, lambda: torch.tensor(
                per_atom(lambda i, a: 0.0 if a == 0 else 2.0 + 0.05 * (a % 40)),
                dtype=dt))
            out["r4r2"] = self._buffer("r4r2", r) if "r4r2" not in self.share else r
        if "rcov" in give:
            out["rcov"] = self._get("rcov", {"z": z, "dt": str(dt)}, lambda: torch.tensor(
                per_atom(lambda i, a: 1.0 + 0.01 * a), dtype=dt))
        if "rvdw" in give:
            def mkv():
                zt = torch.tensor(z, dtype=dt)
                v = 4.0 + 0.02 * (zt.unsqueeze(-1) + zt.unsqueeze(-2))
                return v

            v = self._get("rvdw", {"z": z, "dt": str(dt)}, mkv)
            out["rvdw"] = self._buffer("rvdw", v) if "rvdw" not in self.share else v
        return out

    def cnfs(self):
        from tad_mctc import ncoord

        out = {}
        if self.s.get("cnf"):
            out["cn_function"] = {"custom": custom_cn, "d3": ncoord.cn_d3,
                                  "d4": ncoord.cn_d4}[self.s["cnf"]]
        if self.s.get("cf"):
            out["counting_function"] = {
                "custom": custom_count, "exp": ncoord.exp_count,
                "erf": ncoord.erf_count}[self.s["cf"]]
        return out


# ------------------------------------------------------------------ calls
def call_dftd4(a: Args):
    n, p, dt = a.mol()
    kw = a.given(n, dt)
    kw.update(a.cnfs())
    c = a.cutoff(dt)
    if c is not None:
        kw["cutoff"] = c
    d = a.damping()
    if d is not None:
        kw["damping_function"] = d
    m = a.model(n, dt)
    if m != "d4":
        kw["model"] = m
    chg = a.charge(dt)
    par = a.param(dt)
    for k in a.s.get("wrap", ()):
        wrap_plugin(a, k, kw, d)
    n, p, chg = spoil(a, n, p, chg, kw)
    leaves = {"pos": p if a.leaf is None else a.leaf, "par": par, "chg": chg, "q": kw.get("q"),
              "model": m if not isinstance(m, str) else None}
    a.env.own("numbers", n), a.env.own("positions", p)
    return through(a, lambda x: T().dftd4(n, x, chg, par, **kw), p), leaves


# no forward mode: its levels are global to the process in PyTorch
FUNC = ("fjac", "fhess", "fvmap", "fvjac", "fgrad")


def through(a: Args, f, p):
    """f(p), or one of PyTorch's function transforms of it."""
    w = a.s.get("want", "e")
    if w not in FUNC:
        return f(p)
    F = torch.func
    if w == "fjac":
        return F.jacrev(f)(p)
    if w == "fhess":
        return F.jacrev(F.jacrev(lambda x: f(x).sum()))(p)
    if w == "fgrad":
        return list(F.grad_and_value(lambda x: f(x).sum())(p))
    x = torch.stack([p, 1.02 * p, 0.98 * p])
    if w == "fvmap":
        return F.vmap(f)(x)
    return F.vmap(F.jacrev(lambda y: f(y).sum()))(x)


def spoil(a: Args, n, p, chg, kw):
    """Make the call invalid in the way the specification says."""
    bad = a.s.get("bad")
    if bad is None:
        return n, p, chg
    dt = p.dtype
    if bad == "badpos":
        p = p[..., :-1, :]
    elif bad == "badchg":
        chg = torch.tensor([0.0, 1.0, 0.0, 1.0, 0.0], dtype=dt)
    elif bad == "badq":
        kw["q"] = torch.zeros(*n.shape[:-1], n.shape[-1] + 1, dtype=dt)
    elif bad == "badr4":
        kw["r4r2"] = torch.ones(*n.shape[:-1], n.shape[-1] + 1, dtype=dt)
    elif bad == "badrv":
        kw["rvdw"] = torch.ones(*n.shape[:-1], n.shape[-1] + 1, 2, dtype=dt)
    elif bad == "badrc":
        kw["rcov"] = torch.ones(*n.shape[:-1], n.shape[-1] + 1, dtype=dt)
    elif bad == "elem":
        n = n.clone()
        n[..., -1] = 150
    elif bad == "badcut":
        kw["cutoff"] = "far"
    elif bad == "nan":
        p = p.detach().clone()
        p[..., 0, 0] = float("nan")
    elif bad == "same":              # two atoms at the same place
        p = p.detach().clone()
        p[..., 1, :] = p[..., 0, :]
    elif bad not in ("nopar", "unkpar", "strpar", "nonepar"):
        raise KeyError(bad)
    return n, p, chg


def wrap_plugin(a: Args, k, kw, d):
    """Replace a plug-in by one that calls the environment's hook (C14)."""
    from tad_mctc.ncoord import cn_d4, erf_count

    env = a.env
    if k == "cf":
        base = kw.get("counting_function", erf_count)

        def cf(r, r0, *x, **y):
            env.callbacks("cf")
            out = base(r, r0, *x, **y)
            env.callbacks("cf-end")
            return out

        kw["counting_function"] = cf
    elif k == "cn":
        bcn = kw.get("cn_function", cn_d4)

        def cn(numbers, positions, **y):
            env.callbacks("cn")
            out = bcn(numbers, positions, **y)
            env.callbacks("cn-end")
            return out

        kw["cn_function"] = cn
    elif k == "damp":
        base_d = d if d is not None else mk_damping("bj")

        class Wrapped(type(base_d)):
            REQUIRED_BY_ORDER = {}

            def _f(self, *x, **y):
                env.callbacks("damp")
                out = super()._f(*x, **y)
                env.callbacks("damp-end")
                return out

        kw["damping_function"] = Wrapped()


def mk_disp(a: Args, dt, n):
    s = a.s

    def mk():
        cls = disp_class(s.get("cls", "DispD4"))
        kw = {}
        if s.get("cnf") or s.get("cf"):
            c = a.cnfs()
            for k in s.get("wrap", ()):
                if k in ("cn", "cf"):
                    wrap_plugin(a, k, c, None)
            if "cn_function" in c:
                kw["cn_fn"] = c["cn_function"]
            if "counting_function" in c:
                kw["cn_fn_kwargs"] = {"counting_function": c["counting_function"]}
        if s.get("mkw"):
            kw["model_kwargs"] = a.env.own("model_kwargs", dict(s["mkw"]))
        if "cn_fn_kwargs" in kw:
            a.env.own("cn_fn_kwargs", kw["cn_fn_kwargs"])
        m = a.model(n, dt)
        obj = cls(model=m, dtype=dt, **kw)
        for t in s.get("terms", ()):
            obj.register(mk_term(t))
        return obj

    sub = {k: s.get(k) for k in ("cls", "terms", "model", "cnf", "cf", "mkw")}
    sub["dt"] = str(dt)
    if isinstance(s.get("model"), dict):
        sub["z"] = s["mol"]["z"]
    if "term" in s.get("wrap", ()):  # the hook belongs to this call: never shared
        with torch.inference_mode(False), torch.enable_grad():
            obj = mk()
        obj.register(hook_term(a.env))
        return a.env.own("disp", obj)
    return a._get("disp", sub, mk)


def call_disp(a: Args):
    n, p, dt = a.mol()
    disp = mk_disp(a, dt, n)
    kw = a.given(n, dt)
    c = a.cutoff(dt)
    if c is not None:
        kw["cutoff"] = c
    chg = a.charge(dt)
    par = a.param(dt)
    n, p, chg = spoil(a, n, p, chg, kw)
    leaves = {"pos": p if a.leaf is None else a.leaf, "par": par, "chg": chg, "q": kw.get("q"), "model": None}
    a.env.own("numbers", n), a.env.own("positions", p)
    return through(a, lambda x: disp.calculate(n, x, chg, par, **kw), p), leaves


def call_radii(a: Args):
    """Public helpers of a dispersion object."""
    n, p, dt = a.mol()
    disp = mk_disp(a, dt, n)
    a.env.own("numbers", n)
    w = a.s["what"]
    if w == "model":
        m = disp.get_model(n)
        gw = m.weight_references()
        return [gw, m.get_atomic_c6(gw)], {}
    return {"r4r2": disp.get_r4r2, "rvdw": disp.get_rvdw, "rcov": disp.get_rcov}[w](n), {}


def call_props(a: Args):
    n, p, dt = a.mol()
    c = a.cutoff(dt)
    chg = a.charge(dt)
    kw = {} if c is None else {"cutoff": c}
    if a.s.get("nochg"):
        chg = None
    a.env.own("numbers", n), a.env.own("positions", p)
    n, p, chg = spoil(a, n, p, chg, kw)

    def f(x):
        r = T().get_properties(n, x, chg, **kw)
        return r if a.s.get("want") not in FUNC else torch.cat([r[0], r[1], r[2].flatten(-2), r[3]], -1)

    return through(a, f, p), {"pos": p if a.leaf is None else a.leaf, "chg": chg}


def call_params(a: Args):
    s = a.s
    kw = {"method": s.get("m", "d4"), "functional": s.get("f")}
    if "v" in s:
        kw["variant"] = s["v"]
    if "doi" in s:
        kw["keep_doi"] = s["doi"]
    return T().get_params(**kw), {}


def call_model(a: Args):
    n, p, dt = a.mol()
    s = a.s
    if isinstance(s.get("model"), str):
        s = {**s, "model": {"m": s["model"]}}
        a.s = s
    mod = a.model(n, dt)
    z = mol_values(s["mol"])[0]
    cn = q = None
    if s.get("cn", True):
        cn = a._get("cn", {"z": z, "dt": str(dt), "w": s.get("want")}, lambda: (
            torch.tensor(z, dtype=dt).remainder(5) * 0.61 + 0.3).requires_grad_(
                s.get("want") == "gcn"))
    q = a.given(n, dt).get("q")
    kw = {}
    if s.get("dq"):
        kw["with_dgwdq"] = True
    if s.get("dcn"):
        kw["with_dgwdcn"] = True
    w = mod.weight_references(cn, q, **kw)
    out = list(w) if isinstance(w, tuple) else [w]
    gw = out[0]
    what = s.get("what", ["c6"])
    if "c6" in what:
        out.append(mod.get_atomic_c6(gw))
    if "pol" in what and s["model"]["m"] == "d4":
        out.append(mod.get_polarizabilities(gw))
    if "wpol" in what:
        out.append(mod.get_weighted_pols(gw))
    if "attrs" in what:
        out += [mod.rc6.detach().clone(), mod.wf.detach().clone(), mod.numbers.clone()]
    if "rawattrs" in what:
        out += [mod.rc6, mod.wf]
    return out, {"cn": cn, "q": q, "model": mod}


def call_pair(a: Args):
    """dispersion2 / get_atm_dispersion with given coefficients."""
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import dispersion2

    n, p, dt = a.mol()
    s = a.s
    z = torch.tensor(mol_values(s["mol"])[0], dtype=dt)
    par = a.param(dt)
    g = a.given(n, dt)
    c6 = a.env.own("c6", 10.0 + z.unsqueeze(-1) * z.unsqueeze(-2) * 0.3)
    r4 = g.get("r4r2")
    if r4 is None:
        r4 = a.env.own("r4r2", 1.0 + 0.03 * z)
    rv = g.get("rvdw")
    d = a.damping()
    a.env.own("numbers", n), a.env.own("positions", p)
    kw = {} if d is None else {"damping_function": d}
    cv = s.get("cutv")
    if s["fn"] == "disp2":
        if cv is not None:
            kw["cutoff"] = a.env.own("cutv", torch.tensor(cv, dtype=dt))
        if rv is None and s.get("damp") in ("zero", "mzero", "userplain"):
            rv = a.env.own("rvdw", 4.0 + 0.01 * (z.unsqueeze(-1) + z.unsqueeze(-2)))
        e = dispersion2(n, p, par, c6, r4, rv, as_matrix=s.get("mat", False), **kw)
    else:
        c9 = a.env.own("c9", torch.sqrt(
            c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3)))
        radii = a.env.own("radii", 5.0 + 0.01 * (z.unsqueeze(-1) + z.unsqueeze(-2)))
        cut = a.env.own("cutv", torch.tensor(cv if cv is not None else 40.0, dtype=dt))
        for k in ("s9", "alp"):
            if k in par and s.get("usepar", True):
                kw[k] = par[k]
        e = get_atm_dispersion(n, p, c9, radii, cut, **kw)
    return e, {"pos": p, "par": par}


def call_damp(a: Args):
    s = a.s
    dt = DT[s.get("dt", "f64")]
    d = a.damping() or mk_damping("bj")
    nn = s.get("n", 3)
    r = a.env.own("r", torch.arange(1, nn * nn + 1, dtype=dt).reshape(nn, nn) * 0.83 + 2.0)
    rad = a.env.own("rad", torch.arange(1, nn * nn + 1, dtype=dt).reshape(nn, nn).flip(0) * 0.31 + 3.0)
    par = a.param(dt)
    e = d(r, rad, s["order"], only_damping=s.get("only", False), **par)
    return e, {"par": par}


def call_data(a: Args):
    from tad_dftd4 import data, utils

    if a.s["what"] == "pmodel":
        from tad_dftd4.damping.parameters.base import PARAM_MODELS, Variant

        v = a.s["v"]
        return PARAM_MODELS[Variant(v)](**a.env.own("par", dict(a.s["par"]["v"]))).model_dump(), {}

    s = a.s
    dt = DT[s.get("dt", "f64")]
    w = s["what"]
    if w == "R4R2":
        return data.R4R2(dtype=dt), {}
    if w == "GAM":
        return data.GAM(dtype=dt), {}
    if w == "ZEFF":
        return data.ZEFF(), {}
    if w == "WFPAIR":
        from tad_dftd4.data.wfpair import WFPAIR

        return WFPAIR(dtype=dt), {}
    if w == "cutoff":
        c = T().Cutoff(**s.get("cut", {}), dtype=dt)
        return [c.disp2, c.disp3, c.cn, c.cn_eeq], {}
    if w == "trapzd":
        pol = a.env.own("pol", torch.arange(1, 2 * 3 * 23 + 1, dtype=dt).reshape(2, 3, 23) * 0.01)
        return utils.trapzd(pol), {}
    if w == "trapzd2":
        pol = a.env.own("pol", torch.arange(1, 2 * 3 * 23 + 1, dtype=dt).reshape(2, 3, 23) * 0.01)
        pol2 = a.env.own("pol2", 2.0 - pol)
        return utils.trapzd(pol, pol2), {}
    if w == "trapzd_noref":
        pol = a.env.own("pol", torch.arange(1, 3 * 23 + 1, dtype=dt).reshape(3, 23) * 0.02)
        return utils.trapzd_noref(pol), {}
    if w == "trapzd_atm":
        pol = a.env.own("pol", torch.arange(1, 8 * 23 + 1, dtype=dt).reshape(2, 2, 2, 23) * 0.03)
        return utils.trapzd_atm(pol), {}
    if w == "is_exceptional":
        x = a.env.own("x", torch.tensor([1.0, float("nan"), float("inf"), -2.0], dtype=dt))
        return utils.is_exceptional(x, dt), {}
    raise KeyError(w)


def call_err(a: Args):
    """Calls that must fail (and fail the same way)."""
    d4 = T()
    w = a.s["what"]
    dt = torch.float64
    n = torch.tensor([6, 1, 1])
    p = torch.tensor(geom(3, 5), dtype=dt)
    par = {"s6": 1.0, "s8": 0.9, "s9": 1.0, "a1": 0.4, "a2": 5.0}
    if w == "shape":
        return d4.dftd4(n, p[:2], 0, par), {}
    if w == "r4r2":
        return d4.dftd4(n, p, 0, par, r4r2=torch.ones(2, dtype=dt)), {}
    if w == "rcov":
        return d4.dftd4(n, p, 0, par, rcov=torch.ones(2, dtype=dt)), {}
    if w == "rvdw":
        return d4.dftd4(n, p, 0, par, rvdw=torch.ones(2, 2, dtype=dt)), {}
    if w == "q":
        return d4.dftd4(n, p, 0, par, q=torch.ones(2, dtype=dt)), {}
    if w == "model":
        return d4.dftd4(n, p, 0, par, model="d7"), {}
    if w == "d5":
        return d4.dftd4(n, p, 0, par, model="d5"), {}
    if w == "param":
        return d4.dftd4(n, p, 0, {"s6": 1.0, "s8": 1.0}), {}
    if w == "unknownparam":
        return d4.dftd4(n, p, 0, {**par, "xyz": 1.0}), {}
    if w == "refq":
        m = d4.D4Model(n, ref_charges="nope", dtype=dt)
        return m.weight_references(), {}
    if w == "refq2":
        m = d4.D4Model(n, dtype=dt)
        m.ref_charges = "nope"
        return d4.dftd4(n, p, 0, par, model=m), {}
    if w == "noterm":
        from tad_dftd4.dispersion.base import Disp

        return Disp(dtype=dt).calculate(
            n, p, 0, par, q=torch.zeros(3, dtype=dt)), {}
    if w == "elem":
        return d4.dftd4(torch.tensor([6, 1, 400]), p, 0, par), {}
    if w == "functional":
        return d4.get_params(method="d4", functional="nosuchfunctional"), {}
    if w == "method":
        return d4.get_params(method="d9", functional="pbe"), {}
    if w == "order":
        return mk_damping("zero")(torch.ones(2, 2), torch.ones(2, 2), 7, rs6=1.0), {}
    if w == "dcn":
        m = d4.D4SModel(n, dtype=dt)
        return m.weight_references(with_dgwdcn=True), {}
    raise KeyError(w)


CALLS = {
    "dftd4": call_dftd4, "disp": call_disp, "props": call_props,
    "params": call_params, "model": call_model, "pair": call_pair,
    "damp": call_damp, "data": call_data, "err": call_err, "radii": call_radii,
}


# ------------------------------------------------------------------ outcome
_addr = re.compile(r"0x[0-9a-fA-F]+")


def norm_msg(e) -> str:
    return _addr.sub("0x", str(e))[:300]


def flat_tensors(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in flat_tensors(y)]
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in flat_tensors(x[k])]
    return []


def canon(x):
    if isinstance(x, torch.Tensor):
        a = x.detach()
        return ("T", str(x.dtype), tuple(x.shape), bool(x.requires_grad),
                np.array(a.numpy(), copy=True))
    if isinstance(x, (list, tuple)):
        return ("L", [canon(y) for y in x])
    if isinstance(x, dict):
        return ("D", [(str(k), canon(x[k])) for k in sorted(x)])
    if isinstance(x, (int, float, str, bool)) or x is None:
        return ("P", x)
    return ("O", type(x).__name__)


def canon_exc(e: BaseException):
    return ("X", type(e).__name__, norm_msg(e))


IGNORE_RG = [False]      # C08: gradient mode is ambient there

def only_noise(a, b, ns):
    """Is the difference of a and b (the reference) like that of the perturbed
    evaluations ns?  For results that are ill-conditioned for this input."""
    if a[0] != b[0] or any(n[0] != b[0] for n in ns):
        return False
    if a[0] == "T":
        if a[1:4] != b[1:4] and not (IGNORE_RG[0] and a[1:3] == b[1:3]):
            return False
        x, y = a[4], b[4]
        if x.size == 0 or not np.issubdtype(x.dtype, np.floating):
            return np.array_equal(x, y)
        if np.array_equal(x, y, equal_nan=True):
            return True
        if any(n[2] != b[2] for n in ns):
            return False
        fy = np.isfinite(y)
        if not all(np.array_equal(fy, np.isfinite(z)) for z in (x, *(n[4] for n in ns))) or not fy.any():
            return False
        d = float(np.max(np.abs(x[fy] - y[fy])))
        e = max(float(np.max(np.abs(n[4][fy] - y[fy]))) for n in ns)
        return d <= 20.0 * e and d <= 1e-4 * float(np.max(np.abs(y[fy])))
    if a[0] == "L":
        return len(a[1]) == len(b[1]) and all(
            len(n[1]) == len(b[1]) for n in ns) and all(
            only_noise(x, y, [n[1][i] for n in ns]) for i, (x, y) in enumerate(zip(a[1], b[1])))
    if a[0] == "D":
        ks = [k for k, _ in b[1]]
        return all([k for k, _ in z[1]] == ks for z in (a, *ns)) and all(
            only_noise(x[1], y[1], [n[1][i][1] for n in ns]) for i, (x, y) in enumerate(zip(a[1], b[1])))
    return a == b


TOL = {"torch.float64": 1e-13, "torch.float32": 5e-7}


def same(a, b, scale=1.0) -> str | None:
    """None if equal, otherwise a short description of the difference."""
    if a[0] != b[0]:
        return f"{brief(a)} instead of {brief(b)}"
    k = a[0]
    if k == "T":
        if a[1] != b[1]:
            return f"dtype {a[1]} instead of {b[1]}"
        if a[2] != b[2]:
            return f"shape {a[2]} instead of {b[2]}"
        if a[3] != b[3] and not IGNORE_RG[0]:
            return f"requires_grad {a[3]} instead of {b[3]}"
        x, y = a[4], b[4]
        if x.size == 0:
            return None
        if not np.issubdtype(x.dtype, np.floating):
            return None if np.array_equal(x, y) else "different integer/bool values"
        if np.array_equal(x, y, equal_nan=True):
            return None
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return "different non-finite pattern"
        m = float(np.max(np.abs(y[fy]))) if fy.any() else 0.0
        d = float(np.max(np.abs(x[fx] - y[fx]))) if fx.any() else 0.0
        tol = TOL.get(a[1], 1e-6) * scale
        # element-wise for large dynamic range, with a floor at the maximum
        if d > tol * m + 1e-300:
            return f"values differ: max|d|={d:.3e} at max|ref|={m:.3e}"
        return None
    if k == "L":
        if len(a[1]) != len(b[1]):
            return f"length {len(a[1])} instead of {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = same(x, y, scale)
            if r:
                return f"[{i}]: {r}"
        return None
    if k == "D":
        if [x for x, _ in a[1]] != [x for x, _ in b[1]]:
            return f"keys {[x for x, _ in a[1]]} instead of {[x for x, _ in b[1]]}"
        for (n, x), (_, y) in zip(a[1], b[1]):
            r = same(x, y, scale)
            if r:
                return f"[{n}]: {r}"
        return None
    if k == "X":
        if a[1] != b[1] or a[2] != b[2]:
            return f"raised {a[1]}({a[2][:120]!r}) instead of {b[1]}({b[2][:120]!r})"
        return None
    if a[1] != b[1]:
        return f"{a[1]!r} instead of {b[1]!r}"
    return None


def brief(a) -> str:
    k = a[0]
    if k == "T":
        return f"tensor{a[2]}"
    if k == "L":
        return f"{len(a[1])} values"
    if k == "D":
        return "dict"
    if k == "X":
        return f"raised {a[1]}({a[2][:160]!r})"
    return repr(a[1])


def digest(a, h):
    """Feed an outcome into a hash (bit-exact)."""
    k = a[0]
    if k == "T":
        h.update(repr(a[1:4]).encode())
        h.update(np.ascontiguousarray(a[4]).tobytes())
    elif k == "L":
        for x in a[1]:
            digest(x, h)
    elif k == "D":
        for n, x in a[1]:
            h.update(n.encode())
            digest(x, h)
    else:
        h.update(repr(a[1:]).encode())


# ------------------------------------------------------------------ derivatives
def derive(spec, res, leaves):
    """Derivatives requested by spec['want'] of the outputs `res`."""
    want = spec.get("want", "e")
    outs = [t for t in flat_tensors(res) if t.requires_grad and t.is_floating_point()]
    if not outs:
        return []
    tot = sum((o * torch.linspace(0.5, 1.5, o.numel(), dtype=o.dtype).reshape(o.shape)).sum()
              for o in outs)
    rg = lambda t, cg=False: torch.autograd.grad(tot, t, create_graph=cg, allow_unused=True)
    if want in ("gpos", "gposonly"):
        return list(rg(leaves["pos"]))
    if want == "hvp":
        (g,) = rg(leaves["pos"], True)
        v = torch.linspace(-1, 1, g.numel(), dtype=g.dtype).reshape(g.shape)
        (h,) = torch.autograd.grad((g * v).sum(), leaves["pos"])
        return [g.detach(), h]
    if want == "gpar":
        ks = sorted(k for k, v in leaves["par"].items() if isinstance(v, torch.Tensor))
        return list(rg([leaves["par"][k] for k in ks]))
    if want == "gchg":
        return list(rg(leaves["chg"]))
    if want == "gq":
        return list(rg(leaves["q"]))
    if want == "gcn":
        return list(rg(leaves["cn"]))
    if want == "gwf":
        return list(rg(leaves["model"].wf))
    return []


def ctx_of(spec):
    c = spec.get("ctx", "grad")
    if c == "no_grad":
        return torch.no_grad()
    if c == "inf":
        return torch.inference_mode()
    return contextlib.nullcontext()


def prebuild(spec, env, share):
    """Create the objects an operation shares, before the threads start."""
    a = Args({k: v for k, v in spec.items() if k != "bad"}, env, share)
    if "mol" not in spec:
        if "damp" in share:
            a.damping()
        if "par" in share and "par" in spec:
            a.param(DT[spec.get("dt", "f64")])
        return
    n, p, dt = a.mol()
    if "chg" in share:
        a.charge(dt)
    if "par" in share and "par" in spec:
        a.param(dt)
    if "cut" in share:
        a.cutoff(dt)
    if "damp" in share:
        a.damping()
    if {"q", "r4r2", "rcov", "rvdw"} & set(share):
        a.given(n, dt)
    if "model" in share and isinstance(spec.get("model"), dict):
        a.model(n, dt)
    if "disp" in share and spec["k"] in ("disp", "radii"):
        mk_disp(a, dt, n)


def evaluate(spec, env, share=(), buf=None):
    """Make the call; return (raw result, leaves)."""
    a = Args(spec, env, share, buf)
    return CALLS[spec["k"]](a)


def execute(spec, env, share=(), buf=None, raw=None):
    """-> canonical outcome (exceptions are propagated)."""
    with ctx_of(spec):
        res, leaves = evaluate(spec, env, share, buf)
        out = canon(res)
        if raw is not None:
            raw.append(res)
    want = spec.get("want", "e")
    if want not in ("e", *FUNC) and spec.get("ctx", "grad") == "grad":
        d = derive(spec, res, leaves)
        if raw is not None:
            raw.extend(x for x in d if x is not None)
        out = ("L", [out, ("L", [canon(x) for x in d])])
    return out
