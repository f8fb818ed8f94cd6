"""The pool of call specifications.

A *family* is a list of calls that differ from each other in just one respect
(geometry, atom order, one element, charge, precision, gradient request, one
parameter, one option, ...): whatever a wrong cache key, a forgotten reset or a
shared buffer could confuse.  The pool has a fixed core and a part drawn from
the seed.
"""
from __future__ import annotations

import copy
import random

from . import ops

PBE = {"s6": 1.0, "s8": 0.95948085, "s9": 1.0, "a1": 0.38574991, "a2": 4.80688534}
TPSSH = {"s6": 1.0, "s8": 1.85897750, "s9": 1.0, "a1": 0.44286966, "a2": 4.60230534}
NOATM = {**PBE, "s9": 0.0}
ALP14 = {**PBE, "alp": 14.0}
S10 = {**PBE, "s10": 0.25}
HALF = {**PBE, "s9": 0.5}
DOI = {**PBE, "doi": "10.1063/1.5090222"}
DEFL = {"s8": 0.8, "a1": 0.4, "a2": 5.0}
ZERO = {"s6": 1.0, "s8": 0.722, "rs6": 1.217, "rs8": 1.0, "alp": 14.0, "s9": 1.0}
MZERO = {"s6": 1.0, "s8": 0.9, "rs6": 1.3, "rs8": 1.1, "alp": 14.0, "bet": 0.02, "s9": 1.0}
OPT = {"s6": 1.0, "s8": 0.9, "a1": 0.4, "a2": 3.2, "bet": 4.0, "s9": 1.0}

MOLS = [
    [8, 1, 1], [6, 1, 1, 1, 1], [3, 1], [17, 17], [14, 8, 1, 9], [26, 17, 17],
    [35, 53], [50, 9, 9, 9, 9], [79, 6, 8], [11, 17], [57, 1, 1, 1], [18],
    [1, 1], [6, 6, 8, 7, 1, 1, 1, 1], [92, 9, 9], [82, 16], [7, 7, 8],
    [6, 8, 8], [103, 8], [16, 9, 9, 9, 9, 9, 9], [13, 1, 1, 1], [29, 29, 8],
]
BATCH = [
    [[8, 1, 1], [6, 1, 1, 1, 1]],
    [[3, 1], [17, 17]],
    [[14, 8, 1, 9], [1, 1]],
    [[8, 1, 1], [8, 1, 1]],
    [[6, 1], [8, 1, 1], [1, 1]],
    [[6, 8, 8], [8, 1, 1], [18], [11, 17]],
]


def V(v, how="float"):
    return {"v": v, "as": how}


def clone(s, **kw):
    s = copy.deepcopy(s)
    for k, v in kw.items():
        if k == "m":
            s["mol"].update(v)
        elif v is None:
            s.pop(k, None)
        else:
            s[k] = v
    return s


def base(z, **kw):
    s = {"k": "dftd4", "mol": {"z": z, "g": 1}, "par": V(PBE)}
    if z and isinstance(z[0], list):
        s["chg"] = {"t": [0.0] * len(z)}
    s.update(kw)
    return s


def near_z(z, rng):
    """Compositions easily mistaken for z."""
    out = []
    if len(z) > 1:
        out.append(z[::-1] if z[::-1] != z else z[1:] + z[:1])
        w = list(z)
        w[0], w[-1] = w[0] + 1, max(1, w[-1] - 1)      # same sum if possible
        if w != z:
            out.append(w)
        w = list(z)
        w[-1] = z[0]                                    # same set of elements
        if w != z:
            out.append(w)
        out.append(z[:-1])
        out.append(z + [z[-1]])
    w = list(z)
    w[0] = (w[0] % 86) + 1
    out.append(w)
    return out


def family_mol(z, rng, full=False):
    b = base(z)
    multi = isinstance(z[0], list)
    f = [b, clone(b, m={"g": 2}), clone(b, m={"dt": "f32"}),
         clone(b, want="gpos"), clone(b, par=V(TPSSH)), clone(b, model="d4s")]
    if multi:
        n = len(z)
        f += [clone(b, chg={"t": [1.0] * n}), clone(b, chg={"t": [float(i) for i in range(n)]}),
              clone(b, m={"g": 2}, want="gpos"), clone(b, m={"dt": "f32"}, model="d4s"),
              clone(b, ctx="inf"), clone(b, want="hvp")]
        r = [list(x) for x in z][::-1]
        if r != z:
            f.append(base(r))
        if n > 1:
            f.append(base([list(x) for x in z[:-1]]))
        return f
    f += [clone(b, chg=1), clone(b, chg=-1), clone(b, chg=-2),
          clone(b, chg={"t": 0.3}), clone(b, m={"eps": 1e-4}),
          clone(b, m={"sc": 1.3}), clone(b, ctx="inf"), clone(b, ctx="no_grad")]
    for w in near_z(z, rng)[: (6 if full else 3)]:
        f.append(base(w))
    return f


BAD = ("nopar", "unkpar", "strpar", "nonepar", "badpos", "badchg", "badq", "badr4", "badrv", "badrc", "elem",
       "badcut", "nan", "same")


def families(seed: int, nrnd: int = 40):
    rng = random.Random(f"pool/{seed}")
    F: dict[str, list] = {}
    for i, z in enumerate(MOLS):
        F[f"mol{i}"] = family_mol(z, rng, full=i < 4)
    for i, z in enumerate(BATCH):
        F[f"bat{i}"] = family_mol(z, rng)

    W, C, SI = [8, 1, 1], [6, 1, 1, 1, 1], [14, 8, 1, 9]
    # -- models
    for i, z in enumerate((W, [26, 17, 17])):
        b = base(z)
        f = [b]
        for m in ({"m": "d4"}, {"m": "d4s"}, {"m": "d4", "ga": 2.5}, {"m": "d4", "gc": 1.5},
                  {"m": "d4", "wf": 5.0}, {"m": "d4", "ref_charges": "gfn2"},
                  {"m": "d4s", "ref_charges": "gfn2"}, {"m": "d4s", "ga": 2.5},
                  {"m": "d4s", "gc": 1.5}, {"m": "d4", "ga": 2.5, "ref_charges": "gfn2"},
                  {"m": "d4", "rt": 1}, {"m": "d4", "wf": 5.0, "wft": 1}, {"m": "d4", "ga": 40.0},
                  {"m": "d4s", "ga": 0.0}, {"m": "d4", "gc": 0.05}, {"m": "d4", "wf": 40.0}, {"m": "d4", "wf": 0.1}):
            f.append(clone(b, model=m))
        f += [clone(b, model={"m": "d4"}, m={"dt": "f32"}),
              clone(b, model={"m": "d4s"}, m={"dt": "f32"}),
              clone(b, model={"m": "d4"}, want="gpos"),
              clone(b, model={"m": "d4s"}, want="gpos"),
              clone(b, model={"m": "d4"}, m={"g": 2}),
              clone(b, model={"m": "d4"}, m={"g": 3}, chg=1),
              clone(b, model={"m": "d4"}, want="gwf"),
              clone(b, model={"m": "d4"}, ctx="inf")]
        F[f"model{i}"] = f
    # -- cutoffs
    b = base([6, 6, 8, 7, 1, 1, 1, 1], m=None)
    f = [b] + [clone(b, cut=c) for c in (
        {"disp2": 6.0}, {"disp3": 5.0}, {"cn": 4.0}, {"cn_eeq": 4.0}, {"disp2": 6.0, "disp3": 5.0},
        {"disp2": 60.0}, {"disp2": 6.5}, {"disp3": 5.5}, {"cn_eeq": 5.0}, {})]
    f += [clone(b, cut={"disp2": 6.0}, m={"dt": "f32"}), clone(b, cut={"disp3": 5.0}, want="gpos"),
          clone(b, cut={"cn_eeq": 4.0}, m={"g": 2}), clone(b, cut={"disp2": 6.0}, model="d4s")]
    F["cut"] = f
    # -- damping functions
    b = base(C)
    F["damp"] = [b] + [clone(b, damp=d, par=V(p)) for d, p in (
        ("bj", PBE), ("zero", ZERO), ("mzero", MZERO), ("op", OPT), ("userbj", PBE),
        ("userplain", PBE), ("bj", TPSSH), ("zero", {**ZERO, "rs6": 1.1}), ("op", {**OPT, "bet": 3.0}),
        ("zero", {**ZERO, "s6": 0.7}), ("userplain", ZERO))] + [
        clone(b, damp="zero", par=V(ZERO), want="gpos"), clone(b, damp="bj", want="gpos"),
        clone(b, damp="op", par=V(OPT), m={"dt": "f32"})]
    # -- damping parameters
    f = [b] + [clone(b, par=V(p)) for p in (TPSSH, NOATM, ALP14, S10, HALF, DOI, DEFL,
                                             {**PBE, "a1": 0.39}, {**PBE, "s6": 0.64})]
    f += [clone(b, par=V(p, "tensor")) for p in (PBE, TPSSH, S10)]
    f += [clone(b, par=V(p, "grad"), want="gpar") for p in (PBE, TPSSH, S10, ALP14)]
    f += [clone(b, par={"f": x}) for x in ("pbe", "b3lyp", "PBE0", "r2scan")]
    f += [clone(b, par={"f": "pbe", "doi": True}), clone(b, par={"f": "pbe", "as": "tensor"})]
    F["par"] = f
    # -- supplied radii and charges
    for i, z in enumerate((SI, [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = base(z)
        F[f"give{i}"] = [b] + [clone(b, give=g) for g in (
            ["q"], ["r4r2"], ["rvdw"], ["rcov"], ["q", "r4r2"], ["q", "rvdw", "r4r2", "rcov"])] + [
            clone(b, give=["q"], want="gq"), clone(b, give=["q"], m={"dt": "f32"}),
            clone(b, give=["q"], m={"g": 2}), clone(b, give=["r4r2"], want="gpos"),
            clone(b, give=["rvdw"], damp="zero", par=V(ZERO))]
    # -- coordination-number functions
    b = base(C)
    F["cn"] = [b] + [clone(b, **k) for k in (
        {"cf": "custom"}, {"cf": "exp"}, {"cf": "erf"}, {"cnf": "custom"}, {"cnf": "d3"},
        {"cnf": "d4"}, {"cnf": "custom", "cf": "custom"}, {"cnf": "custom", "cf": "exp"},
        {"cf": "custom", "model": "d4s"}, {"cf": "custom", "want": "gpos"},
        {"cnf": "custom", "want": "gpos"}, {"cf": "exp", "want": "gpos"})] + [
        clone(b, cf="custom", m={"g": 2}), clone(b, cf="exp", m={"dt": "f32"})]
    # -- derivatives
    for i, z in enumerate((W, C, SI)):
        b = base(z)
        f = [b, clone(b, want="gpos"), clone(b, want="hvp"), clone(b, want="gpos", m={"pg": 1}),
             clone(b, want="gchg", chg={"t": 0.0}), clone(b, want="gchg", chg={"t": 1.0}),
             clone(b, want="gpar", par=V(PBE, "grad")), clone(b, want="gq", give=["q"]),
             clone(b, want="gpos", model="d4s"), clone(b, want="hvp", model="d4s"),
             clone(b, want="gpos", m={"g": 2}), clone(b, want="hvp", m={"g": 2}),
             clone(b, want="gpos", m={"dt": "f32"}), clone(b, ctx="inf"), clone(b, ctx="no_grad"),
             clone(b, want="gpos", chg=1), clone(b, want="hvp", par=V(S10)),
             clone(b, ctx="inf", model="d4s"), clone(b, ctx="inf", m={"g": 2})]
        F[f"der{i}"] = f
    # -- dispersion classes
    for i, z in enumerate((C, [35, 53, 8], [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = {**base(z), "k": "disp", "cls": "DispD4"}
        f = [b, clone(b, cls="DispD4Exact"), clone(b, cls="DispD3BJ", model="d4"),
             clone(b, cls="DispD3Zero", model="d4", par=V(ZERO)),
             clone(b, cls="DispD3BJ", model="d4s"), clone(b, model="d4s"),
             clone(b, cls="Disp", terms=[{"t": "two"}]),
             clone(b, cls="Disp", terms=[{"t": "two", "c": False}]),
             clone(b, cls="Disp", terms=[{"t": "two"}, {"t": "atm"}]),
             clone(b, cls="Disp", terms=[{"t": "atm", "c": True}]),
             clone(b, cls="Disp", terms=[{"t": "atmx"}]),
             clone(b, cls="Disp", terms=[{"t": "two", "d": "op"}], par=V(OPT)),
             clone(b, cls="Disp", terms=[{"t": "two"}, {"t": "uterm", "c": True}]),
             clone(b, cls="Disp"), clone(b, mkw={"ga": 2.5}), clone(b, mkw={"ref_charges": "gfn2"}),
             clone(b, cf="exp"), clone(b, m={"g": 2}), clone(b, m={"dt": "f32"}),
             clone(b, want="gpos"), clone(b, cls="DispD4Exact", want="gpos"),
             clone(b, cut={"disp2": 7.0, "disp3": 6.0}), clone(b, give=["q"]), clone(b, cut={"cn_eeq": 1.5}),
             clone(b, cut={"cn_eeq": 2.5}), clone(b, cut={"disp3": 3.0}), clone(b, cut={"disp2": 3.0}), clone(b, cut={"cn": 2.0}),
             clone(b, cls="DispD4", terms=[{"t": "atm"}]), clone(b, ctx="inf"),
             clone(b, model={"m": "d4"}), clone(b, cls="DispD4Exact", model={"m": "d4"}),
             clone(b, par=V(TPSSH)), clone(b, par=V(DOI))]
        if not isinstance(z[0], list):
            f += [clone(b, chg=1), clone(b, chg=1, cls="DispD4Exact")]
        F[f"disp{i}"] = f
    # -- properties
    for i, z in enumerate((W, [57, 1, 1, 1], [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = {"k": "props", "mol": {"z": z, "g": 1}}
        f = []
        if isinstance(z[0], list):
            b["chg"] = {"t": [0.0] * len(z)}
            f += [b, clone(b, chg={"t": [1.0] * len(z)})]
        else:
            f += [b, clone(b, chg=1), clone(b, chg=-1), clone(b, chg={"t": 0.5}), clone(b, nochg=1)]
            f += [{"k": "props", "mol": {"z": w, "g": 1}} for w in near_z(z, rng)[:3]]
            f += [clone(b, chg={"t": 1.0}, want="gchg")]
        f += [clone(b, m={"g": 2}), clone(b, m={"dt": "f32"}), clone(b, cut={"cn_eeq": 3.0}),
              clone(b, want="gpos"), clone(b, want="hvp"), clone(b, ctx="inf"), clone(b, cut={})]
        F[f"props{i}"] = f
    # -- models used directly
    for i, z in enumerate((C, [79, 6, 8], [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = {"k": "model", "mol": {"z": z}, "model": {"m": "d4"}, "give": ["q"],
             "what": ["c6", "pol", "wpol", "attrs"]}
        f = [b]
        for m in ({"m": "d4s"}, {"m": "d4", "ga": 2.5}, {"m": "d4", "gc": 1.5}, {"m": "d4", "wf": 4.0},
                  {"m": "d4", "ref_charges": "gfn2"}, {"m": "d4s", "ref_charges": "gfn2"},
                  {"m": "d4s", "ga": 2.5}, {"m": "d4", "rt": 1}, {"m": "d4", "ga": 40.0}, {"m": "d4s", "gc": 30.0},
                  {"m": "d4", "wf": 40.0}, {"m": "d4", "ga": 0.0}):
            f.append(clone(b, model=m))
        f += [clone(b, give=[]), clone(b, cn=False), clone(b, cn=False, give=[]),
              clone(b, dq=1), clone(b, dcn=1), clone(b, dq=1, dcn=1), clone(b, m={"dt": "f32"}),
              clone(b, m={"dt": "f32"}, model={"m": "d4s"}),
              clone(b, model={"m": "d4s"}, dq=1), clone(b, want="gq"), clone(b, want="gcn"),
              clone(b, want="gcn", model={"m": "d4s"}), clone(b, want="gwf"), clone(b, ctx="inf"),
              clone(b, model={"m": "d4s"}, ctx="inf"), clone(b, dq=1, ctx="no_grad")]
        if not isinstance(z[0], list):
            f += [clone(b, m={"z": w}) for w in near_z(z, rng)[:3]]
        else:
            # weighted polarizabilities of a batch are not available in this model
            for s in f:
                if s["model"]["m"] == "d4s":
                    s["what"] = ["c6", "attrs"]
        F[f"mdl{i}"] = f
    # -- one model with unusual options, used in every way
    for i in range(10):
        z = rng.choice((C, [79, 6, 8], [1], [26, 17, 17], [[8, 1, 1], [6, 1, 1, 1, 1]], [6, 1, 1, 1, 1], [[1], [7]]))
        m = {"m": rng.choice(("d4", "d4", "d4s"))}
        for k, v in (("ga", (0.0, 0.3, 2.5, 6.0, 15.0, 40.0, 200.0)), ("gc", (0.0, 0.05, 1.2, 4.0, 30.0)),
                     ("wf", (0.1, 2.0, 5.0, 12.0, 40.0)), ("ref_charges", ("gfn2",))):
            if rng.random() < 0.55 and not (k == "wf" and m["m"] == "d4s"):
                m[k] = rng.choice(v)
        b = {"k": "model", "mol": {"z": z}, "model": m, "give": ["q"], "what": ["c6", "pol", "wpol", "attrs"]}
        e = {"k": "dftd4", "mol": {"z": z}, "par": V(PBE), "model": m}
        if isinstance(z[0], list):
            e["chg"] = {"t": [0.0] * len(z)}
            if m["m"] == "d4s":
                b["what"] = ["c6", "attrs"]
        f = [b, clone(b, what=["c6"]), clone(b, what=["attrs"]), clone(b, give=[]), clone(b, cn=False), clone(b, dq=1),
             clone(b, dcn=1), clone(b, m={"dt": "f32"}), clone(b, want="gq"), clone(b, want="gcn"), clone(b, ctx="inf"),
             e, clone(e, m={"g": 2}), clone(e, want="gpos"), clone(e, ctx="inf"), clone(e, cls=None, give=["q"]),
             clone(e, model=m["m"]), clone(b, model={"m": m["m"]})]
        if "wpol" in b["what"]:
            f += [clone(b, what=["wpol"]), clone(b, what=["pol"]), clone(b, what=["pol", "c6"])]
        F[f"mdlx{i}"] = f
    # -- pair and triple functions
    for i, z in enumerate((C, [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = {"k": "pair", "fn": "disp2", "mol": {"z": z, "g": 1}, "par": V(PBE)}
        t = clone(b, fn="atm")
        F[f"pair{i}"] = [
            b, clone(b, mat=True), clone(b, cutv=5.0), clone(b, cutv=6.0), clone(b, damp="zero", par=V(ZERO)),
            clone(b, damp="op", par=V(OPT)), clone(b, par=V(S10)), clone(b, par=V(TPSSH)), clone(b, m={"g": 2}),
            clone(b, m={"dt": "f32"}), clone(b, want="gpos"), clone(b, damp="bj"), clone(b, ctx="inf"),
            clone(b, par=V(PBE, "grad"), want="gpar"), clone(b, damp="userbj"), clone(b, mat=True, m={"g": 2}),
            t, clone(t, cutv=5.0), clone(t, cutv=7.0), clone(t, m={"g": 2}), clone(t, m={"dt": "f32"}), clone(t, want="gpos"),
            clone(t, par=V(HALF)), clone(t, par=V(ALP14)), clone(t, usepar=False), clone(t, want="hvp"),
            clone(t, ctx="inf")]
    # -- damping functions alone
    f = []
    for d, p, orders in (("bj", PBE, (6, 8)), ("bj", S10, (10,)), ("zero", ZERO, (6, 8, 9)),
                         ("mzero", MZERO, (6, 8)), ("op", OPT, (6, 8))):
        for o in orders:
            f.append({"k": "damp", "damp": d, "par": V(p), "order": o})
    f += [clone(f[0], par=V(TPSSH)), clone(f[0], n=4), clone(f[0], dt="f32"),
          clone(f[5], only=True), clone(f[0], par=V(PBE, "grad"), want="gpar"), clone(f[0], par=V(DOI)),
          {"k": "damp", "damp": "bj", "par": V({"s6": 1.0}), "order": 6},
          {"k": "damp", "damp": "bj", "par": V(PBE), "order": 10},
          {"k": "damp", "damp": "zero", "par": V(ZERO), "order": 10}]
    F["dmp"] = f
    # -- data and utilities
    F["data"] = [{"k": "data", "what": w, "dt": d} for w in (
        "R4R2", "GAM", "ZEFF", "WFPAIR", "cutoff", "trapzd", "trapzd2", "trapzd_noref", "trapzd_atm",
        "is_exceptional") for d in ("f64", "f32")] + [
        {"k": "data", "what": "cutoff", "cut": {"disp2": 50.0}}]
    # -- parameter look-up
    f = []
    for m, fn, v in (("d4", "pbe", None), ("d4", "b3lyp", None), ("d4", "PBE", None), ("d4", "pbe", "bj-eeq-mbd"),
                     ("d4", "pbe", "bj-eeq-two"), ("d3", "pbe", None), ("d3", "pbe", "zero"),
                     ("d3", "pbe", "bjm"), ("d3", "b3lyp", "op"), ("d3", "B3LYP", None), ("d3", "pbe", "bj"),
                     ("d4", "default", "bj-eeq-atm"), ("d3", "default", "bj"), ("d4", None, "bj-eeq-atm"),
                     ("d4", "tpss", None), ("d3", "tpss", "zerom")):
        s = {"k": "params", "m": m, "f": fn}
        if v:
            s["v"] = v
        f += [s, {**s, "doi": True}]
    F["prm"] = f
    # -- calls that must fail
    F["err"] = [{"k": "err", "what": w} for w in (
        "shape", "r4r2", "rcov", "rvdw", "q", "model", "d5", "param", "unknownparam", "refq", "refq2",
        "noterm", "elem", "functional", "method", "order", "dcn")]
    # -- precisions that differ between arguments
    for i, (z, k) in enumerate((([8, 1, 1], "dftd4"), ([6, 6, 8, 7, 1, 1, 1, 1], "disp"),
                                ([[8, 1, 1], [6, 1, 1, 1, 1]], "dftd4"))):
        b = {**base(z), "k": k}
        c1, c2 = {"disp2": 6.123456789012, "cn_eeq": 4.987654321098}, {"disp3": 5.4321098765}
        f = [b]
        for d, o in (("f64", "f32"), ("f32", "f64")):
            x = clone(b, m={"dt": d})
            f += [x, clone(x, cut={**c1, "dt": o}), clone(x, cut={**c2, "dt": o}), clone(x, cut=c1),
                  clone(x, cut={"dt": o}), clone(x, cut={**c1, "dt": o, "as": "tensor"}),
                  clone(x, par={**V(PBE, "tensor"), "dt": o}), clone(x, par=V(PBE, "tensor")),
                  clone(x, give=["r4r2"], gdt=o), clone(x, give=["q"], gdt=o), clone(x, give=["r4r2"]),
                  clone(x, model={"m": "d4", "dt": o}), clone(x, model={"m": "d4"}),
                  clone(x, model={"m": "d4s", "dt": o})]
            if not isinstance(z[0], list):
                f += [clone(x, chg={"t": 1.0, "dt": o}), clone(x, chg={"t": 1, "dt": "i64"}), clone(x, chg=1.0),
                      clone(x, chg={"t": [1.0]})]
            else:
                f += [clone(x, chg={"t": [1.0] * len(z), "dt": o}), clone(x, chg={"t": [1] * len(z), "dt": "i64"}),
                      clone(x, chg=1), clone(x, chg=None)]
        f += [clone(b, par=V(PBE, "np")), clone(b, par=V(PBE, "int")), clone(b, par=V(ALP14, "mixed")),
              clone(b, par=V(ALP14, "int"))]
        F[f"prec{i}"] = f
    # -- memory layout and origin of the tensors
    for i, z in enumerate((C, [[8, 1, 1], [6, 1, 1, 1, 1]])):
        b = base(z)
        f = [b]
        for m in ({"lay": "nc"}, {"lay": "view"}, {"zdt": "i32"}, {"rg": 1}, {"lay": "view", "g": 2}):
            f += [clone(b, m=m), clone(b, m=m, model="d4s"), {**clone(b, m=m), "k": "disp", "cls": "DispD4"}]
        f += [clone(b, m={"nl": 1}, want="gpos"), clone(b, m={"nl": 1}, want="hvp"), clone(b, m={"lay": "nc"}, want="gpos"),
              clone(b, m={"lay": "view"}, want="hvp"), clone(b, m={"rg": 1}, ctx="no_grad"),
              clone(b, m={"rg": 1}, ctx="inf"), clone(b, m={"rg": 1, "pg": 1}),
              {"k": "props", "mol": {"z": z, "g": 1, "lay": "view"}, "chg": b.get("chg", 0)},
              {"k": "props", "mol": {"z": z, "g": 1, "rg": 1}, "chg": b.get("chg", 0)},
              {"k": "props", "mol": {"z": z, "g": 1, "nl": 1}, "chg": b.get("chg", 0), "want": "gpos"}]
        F[f"lay{i}"] = f
    # -- function transforms
    for i, z in enumerate((W, [35, 53, 8], [[8, 1, 1], [3, 1]])):
        b = base(z)
        d = {**clone(b), "k": "disp", "cls": "DispD4"}
        p = {"k": "props", "mol": {"z": z, "g": 1}, "chg": b.get("chg", 0)}
        f = [b, clone(b, want="gpos"), clone(b, ctx="inf"), clone(b, m={"dt": "f32"}), d, p]
        for w in ops.FUNC:
            f += [clone(b, want=w), clone(b, want=w, model="d4s" if i else {"m": "d4"}), clone(d, want=w)]
            if w != "fhess":
                f.append(clone(p, want=w))
        f += [clone(b, want="fjac", m={"dt": "f32"}), clone(b, want="fvmap", m={"g": 2}),
              clone(b, want="fgrad", model={"m": "d4s"}), clone(b, want="fjac", ctx="no_grad"),
              clone(d, cls="DispD4Exact", want="fgrad"), clone(b, want="fjac", damp="zero", par=V(ZERO))]
        F[f"fun{i}"] = f
    # -- valid and invalid calls on the same objects
    for i, (z, kw) in enumerate((
            (C, {"k": "disp", "cls": "DispD4"}), ([14, 8, 1, 9], {"model": {"m": "d4"}, "cut": {"disp2": 7.0}}),
            ([35, 53, 8], {"k": "disp", "cls": "DispD4Exact", "model": "d4s"}),
            (W, {"k": "disp", "cls": "UserDisp", "cf": "exp", "mkw": {"ga": 2.8}}),
            ([[8, 1, 1], [6, 1, 1, 1, 1]], {"damp": "bj", "model": {"m": "d4s"}}))):
        b = {**base(z), **kw}
        f = [b, clone(b, par=V(NOATM)), clone(b, par=V(S10)), clone(b, m={"g": 2}), clone(b, want="gpos"),
             clone(b, par=V(DOI)), clone(b, par=V({**PBE, "s9": 2.0, "alp": 12.0})), clone(b, par=V({**PBE, "s8": 0.0})),
             clone(b, give=["q"]), clone(b, give=["r4r2"])]
        for w in BAD:
            f.append(clone(b, bad=w))
        f += [clone(b, bad="nopar", par=V(NOATM)), clone(b, bad="strpar", par=V(NOATM)),
              clone(b, bad="nopar", par=V(S10)), clone(b, bad="elem", want="gpos"),
              clone(b, bad="badq", par=V(TPSSH)), clone(b, bad="nopar", m={"g": 2}), clone(b, bad="nopar", give=["q"]),
              clone(b, bad="strpar", par=V(DOI)), clone(b, bad="badrv", give=["r4r2"]), clone(b, bad="elem", ctx="inf"),
              clone(b, bad="nopar", cut={"disp3": 6.0}), clone(b, bad="strpar", m={"dt": "f32"})]
        F[f"bad{i}"] = f
    # -- three-body terms with van der Waals radii, exact coefficients
    for i, z in enumerate((C, [14, 8, 1, 9])):
        b = {**base(z), "k": "disp", "cls": "DispD3BJ", "model": "d4", "par": V({**PBE, "rs9": 1.37, "alp": 14.0})}
        F[f"d3{'ab'[i]}0"] = [
            b, clone(b, give=["rvdw"]), clone(b, par=V(PBE)), clone(b, give=["rvdw"], par=V(PBE)),
            clone(b, give=["rvdw"], par=V({**PBE, "rs9": 1.1})), clone(b, give=["rvdw", "r4r2"]),
            clone(b, give=["rvdw"], par=V({**PBE, "rs9": 1.37}, "tensor")), clone(b, give=["rvdw"], want="gpos"),
            clone(b, give=["rvdw"], bad="strpar"), clone(b, give=["rvdw"], m={"dt": "f32"}),
            clone(b, cls="DispD3Zero", par=V(ZERO), give=["rvdw"]), clone(b, cls="DispD3Zero", par=V(ZERO)),
            clone(b, cls="DispD3Zero", par=V({**ZERO, "rs9": 1.2}), give=["rvdw"]),
            clone(b, cls="Disp", terms=[{"t": "d3atm"}], give=["rvdw"]),
            clone(b, cls="Disp", terms=[{"t": "atmx", "c": True}, {"t": "d3atm"}], give=["rvdw", "q"]),
            clone(b, cls="DispD4Exact", par=V(PBE)), clone(b, cls="DispD4Exact", par=V(PBE), want="gpos"),
            clone(b, cls="DispD4Exact", par=V(PBE), model={"m": "d4", "gc": 1.5}),
            clone(b, cls="DispD4Exact", par=V(PBE), model={"m": "user"}), clone(b, model={"m": "user"}),
            clone(b, cls="SubD4", par=V(PBE)), clone(b, cls="UserDisp", par=V(PBE)),
            clone(b, cls="Disp", terms=[{"t": "atm"}, {"t": "atm"}, {"t": "two", "d": "zero"}],
                  par=V({**ZERO, "a1": 0.4, "a2": 5.0})),
            clone(b, model={"m": "d4", "rc6": 1}), clone(b, cls="DispD4", par=V(PBE), model={"m": "d4s", "rc6": 1}),
            clone(b, cls="DispD4", par=V(PBE), model={"m": "d4", "mz": 1})]
    # -- public helpers of dispersion objects, raw attributes of models
    f = []
    for z in (C, [79, 6, 8], [[8, 1, 1], [3, 1]]):
        for w in ("r4r2", "rvdw", "rcov", "model"):
            b = {"k": "radii", "what": w, "cls": "DispD4", "mol": {"z": z}}
            f += [b, clone(b, m={"dt": "f32"}), clone(b, cls="DispD3BJ", model="d4"), clone(b, ctx="inf")]
        f.append({"k": "radii", "what": "model", "cls": "DispD4", "mol": {"z": z}, "model": "d4s"})
        f.append({"k": "radii", "what": "model", "cls": "DispD4", "mol": {"z": z}, "mkw": {"gc": 1.5}})
        for m in ("d4", "d4s"):
            b = {"k": "model", "mol": {"z": z}, "model": {"m": m}, "give": ["q"], "what": ["c6", "rawattrs"]}
            f += [b, clone(b, m={"dt": "f32"}), clone(b, model={"m": m, "ref_charges": "gfn2"})]
    F["radii"] = f
    # -- larger systems and extreme geometries
    big = [6, 6, 6, 8, 7, 1, 1, 1, 1, 1, 1, 1, 17, 16]
    b = base(big)
    f = [b, clone(b, want="gpos"), clone(b, m={"sc": 4.0}), clone(b, m={"sc": 12.0}), clone(b, m={"sc": 0.7}),
         clone(b, model="d4s"), clone(b, cut={"disp2": 0.5, "disp3": 0.5}), clone(b, chg=2), clone(b, m={"dt": "f32"}),
         base([6] * 10), base([1] * 12), base([18]), base([118]), base([112, 1]),
         base([[1], [18, 18, 18, 18, 18]]), base([[1], [8]]), {"k": "props", "mol": {"z": big, "g": 1}},
         {**clone(b), "k": "disp", "cls": "DispD4Exact"}, base(big, cut={"disp2": 0.0})]
    F["scale"] = f
    # -- sizes beyond those of the other families
    pat = [6, 1, 8, 1, 7, 1, 16, 1, 9, 6, 17]
    for i, z in enumerate((pat * 3, (pat * 5)[:50], [[8, 1, 1], [3, 1], [1], [6, 8]] * 3 + [[2], [17, 17, 9, 1]])):
        b = base(z)
        multi = isinstance(z[0], list)
        f = [b, clone(b, m={"g": 2}), clone(b, m={"dt": "f32"}), clone(b, want="gpos"), clone(b, give=["q"]),
             {**clone(b), "k": "disp", "cls": "DispD4"}, {"k": "props", "mol": {"z": z, "g": 1}, "chg": b.get("chg", 0)},
             {"k": "pair", "fn": "disp2", "mol": {"z": z, "g": 1}, "par": V(PBE)}, clone(b, cut={"disp2": 9.0, "disp3": 7.0}),
             {"k": "model", "mol": {"z": z}, "model": {"m": "d4"}, "give": ["q"], "what": ["c6", "pol", "attrs"]}]
        if not multi:
            f += [clone(b, chg=1), base(z[::-1])]
        if i != 1:
            f += [clone(b, model="d4s"), {**clone(b), "k": "disp", "cls": "DispD4Exact"}]
        F[f"large{i}"] = f
    # -- distances within rounding of a cutoff
    for i, z in enumerate(([6, 6, 8, 1], [8, 1, 1, 16, 6], [[8, 1, 1], [6, 1, 1, 1]])):
        b = base(z, m=None)
        b["mol"]["lat"] = 3.1
        f = []
        for k in ("disp2", "disp3", "cn_eeq", "cn"):
            for d in (0.0, 3e-8, -3e-8, 1e-12):
                f.append(clone(b, cut={k: 3.1 * (1.0 + d)}))
        f += [clone(b, cut={"disp2": 3.1, "disp3": 3.1}, m={"dt": "f32"}), clone(b, cut={"disp3": 3.1 * 2**0.5}),
              clone(b, cut={"disp3": 3.1 * 2**0.5 * (1 + 4e-8)}), clone(b, cut={"disp2": 3.1 * 2**0.5}, model="d4s"),
              {**clone(b, cut={"disp3": 3.1 * 2**0.5}), "k": "disp", "cls": "DispD4Exact"},
              clone(b, cut={"disp3": 3.1 * (1 + 3e-8)}, want="gpos"), b]
        F[f"edge{i}"] = f
    # -- single atoms, pairs, batches of one
    for i, z in enumerate(([2], [[2], [3]], [[8]], [1, 1], [[8, 1, 1]], [[2], [1, 9]])):
        b = base(z)
        multi = isinstance(z[0], list)
        c = {"t": [1.0] * len(z)} if multi else {"t": 1.0}
        p = {"k": "props", "mol": b["mol"], "chg": b.get("chg", {"t": 0.0})}
        f = [b, clone(b, chg=c), clone(b, m={"dt": "f32"}), clone(b, want="gpos"), clone(b, model="d4s"),
             clone(b, ctx="inf"), p, clone(p, chg=c), clone(p, chg=c, m={"dt": "f32"}), clone(p, chg=c, ctx="no_grad"),
             clone(p, chg=c, want="gchg"), clone(p, want="gpos"), clone(b, give=["q"]), clone(b, give=["q"], chg=c),
             {**clone(b), "k": "disp", "cls": "DispD4"}, {**clone(b, chg=c), "k": "disp", "cls": "DispD4Exact"},
             {**clone(b), "k": "disp", "cls": "DispD3BJ", "model": "d4"},
             {"k": "model", "mol": b["mol"], "model": {"m": "d4"}, "give": ["q"], "what": ["c6", "pol", "wpol", "attrs"]},
             {"k": "model", "mol": b["mol"], "model": {"m": "d4s"}, "give": ["q"], "what": ["c6", "attrs"]},
             {"k": "pair", "fn": "disp2", "mol": b["mol"], "par": V(PBE)}, {"k": "pair", "fn": "atm", "mol": b["mol"], "par": V(PBE)}]
        if not multi:
            f += [clone(b, chg=1), clone(p, chg=-1), clone(p, nochg=1)]
        F[f"atom{i}"] = f
    # -- coordination numbers beyond every reference, where weights underflow
    for i, z in enumerate(([1, 1, 1, 1, 1, 1, 1], [1, 9, 3, 9, 1, 9], [[1, 1, 1, 1, 1, 1], [9, 1, 1, 1, 1]])):
        b = base(z, give=["q"])
        f = []
        for sc in (0.45, 0.6, 0.7):
            for dt in ("f64", "f32"):
                x = clone(b, m={"sc": sc, "dt": dt})
                f += [x, clone(x, ctx="inf"), clone(x, model="d4s"), clone(x, ctx="no_grad")]
            f += [clone(x, want="gpos"), clone(x, m={"dt": "f64"}, want="gpos"),
                  {"k": "props", "mol": x["mol"], "chg": b.get("chg", 0)},
                  {**clone(x), "k": "disp", "cls": "DispD4Exact"}, clone(x, give=[])]
        F[f"dense{i}"] = f
    for v, p in (("bj", PBE), ("bj-eeq-atm", DOI), ("zero", {**ZERO, "alp": 14.0}), ("mzero", MZERO),
                 ("optimizedpower", OPT), ("bj", {"s8": 1.0})):
        F["data"].append({"k": "data", "what": "pmodel", "v": v, "par": {"v": p}})
    # -- one kind of call on inputs of one shape
    zs = [[8, 1, 1], [6, 1, 9], [16, 9, 1], [1, 1, 8]]
    opts = [{}, {"model": "d4s"}, {"damp": "zero", "par": V(ZERO)}, {"damp": "mzero", "par": V(MZERO)},
            {"damp": "op", "par": V(OPT)}, {"k": "disp", "cls": "DispD4"}, {"k": "disp", "cls": "DispD4Exact"},
            {"k": "disp", "cls": "DispD3BJ", "model": "d4", "par": V({**PBE, "rs9": 1.2})},
            {"k": "disp", "cls": "DispD3Zero", "model": "d4s", "par": V(ZERO)}, {"give": ["q"]},
            {"give": ["r4r2"]}, {"damp": "zero", "par": V(ZERO), "give": ["rvdw"]}, {"cf": "exp"}, {"cnf": "d3"},
            {"k": "props"}, {"k": "pair", "fn": "disp2"}, {"k": "pair", "fn": "atm"}, {"chg": {"t": 1.0}},
            {"k": "radii", "cls": "DispD4", "what": "rvdw"}, {"k": "radii", "cls": "DispD4", "what": "r4r2"},
            {"k": "radii", "cls": "DispD4", "what": "rcov"}, {"k": "radii", "cls": "DispD4", "what": "model"},
            {"k": "radii", "cls": "DispD4", "what": "model", "model": "d4s"},
            {"k": "disp", "cls": "Disp", "terms": [{"t": "two", "c": False}, {"t": "uterm"}]}]
    for i, o in enumerate(opts):
        f = []
        for z in zs:
            s = {"k": "dftd4", "mol": {"z": z, "g": 1}, "par": V(PBE), **o}
            if s["k"] in ("props", "radii"):
                s.pop("par")
            f.append(s)
            if s["k"] != "radii":
                f.append(clone(s, m={"g": 2}))
        f.append(clone(f[0], m={"dt": "f32"}))
        F[f"inp{i}"] = f
    # -- drawn from the seed
    singles = [k for k in F if k.rstrip("0123456789") in ("model", "cut", "damp", "par", "give", "cn", "der", "disp",
                                                          "props", "mdl", "pair", "prec", "bad", "fun", "d3a", "d3b")]
    for i in range(nrnd):
        n = rng.randint(2, 7)
        z = [rng.choice([1, 1, 1, 6, 6, 7, 8, 9, 16, 17, rng.randint(1, 86)]) for _ in range(n)]
        f = []
        b = base(z)
        if i % 3 == 1:
            # start from a member of a fixed family, on another molecule
            b = clone(rng.choice(F[rng.choice(singles)]))
            if not isinstance(b["mol"]["z"][0], list):
                b["mol"]["z"] = z
        elif i % 3 == 2:
            mutate(b, rng)
            mutate(b, rng)
        b["mol"]["g"] = rng.randint(10, 99)
        f.append(b)
        for _ in range(11):
            c = clone(rng.choice(f))
            for _ in range(rng.randint(1, 2)):
                mutate(c, rng)
            f.append(c)
        for _ in range(3):
            c = clone(rng.choice(f))
            if c["k"] in ("dftd4", "disp", "props") and "want" not in c:
                c["bad"] = rng.choice(BAD)
                f.append(c)
        F[f"rnd{i}"] = f
    # unique within each family
    for k, f in F.items():
        seen, out = set(), []
        for s in f:
            if not isinstance(s.get("m"), str):
                s.pop("m", None)
            q = ops.key(s)
            if q not in seen:
                seen.add(q)
                out.append(s)
        F[k] = out
    return F


def mutate(s, rng):
    """Change one or two aspects of a call."""
    k = s["k"]
    m = s["mol"]
    batch = isinstance(m["z"][0], list)
    other = {"f64": "f32", "f32": "f64"}[m.get("dt", "f64")]

    def geo():
        m["g"] = rng.randint(10, 99)

    def dtype():
        m["dt"] = other

    def chg():
        if not batch:
            s["chg"] = rng.choice([1, -1, 2, -2, {"t": 0.5}, {"t": 1.0, "dt": other}, {"t": 1, "dt": "i64"}])

    def par():
        if s.get("damp") in (None, "bj", "userbj") and s.get("cls") != "DispD3Zero":
            s["par"] = rng.choice([
                V(rng.choice([TPSSH, S10, HALF, ALP14, NOATM, DOI, DEFL, {**PBE, "rs9": 1.2}, {**PBE, "s6": 0.0}])),
                V(rng.choice([PBE, TPSSH, S10]), rng.choice(["tensor", "np", "mixed"])),
                {**V(PBE, "tensor"), "dt": other}, {"f": rng.choice(["pbe", "tpss", "b3lyp"])}])

    def model():
        s["model"] = rng.choice([
            {"m": "d4"}, {"m": "d4s"}, {"m": "d4", "ga": round(2 + rng.random(), 3)}, {"m": "d4", "gc": 1.6},
            {"m": "d4", "rc6": 1}, {"m": "user"}, {"m": "d4", "wf": 5.0}, {"m": "d4s", "ref_charges": "gfn2"},
            {"m": "d4", "mz": 1}] + (["d4s", "d4"] if k != "model" else []))

    def cut():
        s["cut"] = dict(rng.choice([{"disp2": 6.0}, {"disp3": 5.0}, {"cn_eeq": 4.0}, {"disp2": 6.3, "disp3": 5.1}, {}]))
        if rng.random() < 0.4:
            s["cut"]["dt"] = rng.choice(("f32", "f64"))

    def want():
        if s.get("ctx", "grad") == "grad" and s.get("bad") is None:
            s["want"] = rng.choice(["gpos", "gpos", "hvp", *(ops.FUNC if k in ("dftd4", "disp") else ())])

    def give():
        s["give"] = rng.choice([["q"], ["r4r2"], ["rvdw"], ["q", "r4r2"], ["rvdw", "rcov"], []])

    def zz():
        if not batch:
            m["z"] = rng.choice(near_z(m["z"], rng))

    def cnf():
        s["cf"] = rng.choice(["custom", "exp"])
        if rng.random() < 0.3:
            s["cnf"] = rng.choice(["custom", "d3"])

    def scale():
        m["sc"] = rng.choice([1.2, 1.5, 3.0])

    def eps():
        if not batch:
            m["eps"] = rng.choice([1e-4, 1e-3])

    def ctx():
        if "want" not in s:
            s["ctx"] = rng.choice(["inf", "no_grad"])

    def lay():
        m["lay"] = rng.choice(["nc", "view"])

    def bad():
        if "want" not in s:
            s["bad"] = rng.choice(BAD)

    def good():
        s.pop("bad", None)

    def obj():
        s["k"] = "disp"
        s["cls"] = rng.choice(["DispD4", "DispD4Exact", "DispD3BJ", "UserDisp", "SubD4"])
        s.pop("damp", None)
        if s["cls"] == "DispD3BJ" and "model" not in s:
            s["model"] = "d4"

    def damp():
        d, p = rng.choice([("bj", PBE), ("zero", ZERO), ("mzero", MZERO), ("op", OPT), ("userplain", PBE)])
        s["damp"], s["par"] = d, V(p)

    def deriv():
        s[rng.choice(["dq", "dcn"])] = 1

    acts = [geo, dtype, zz]
    if k in ("dftd4", "disp"):
        acts += [chg, par, par, model, model, cut, cut, want, want, give, give, scale, eps, ctx, lay, bad, good]
    if k == "dftd4":
        acts += [cnf, obj, damp]
    elif k == "disp":
        acts += [cnf]
    elif k == "props":
        acts += [chg, cut, want, scale, eps, ctx, lay]
    elif k == "model":
        acts += [model, model, deriv, ctx]
    elif k == "pair":
        acts += [par, damp, scale, eps, want, ctx]
    rng.choice(acts)()


def flat(F):
    out = {}
    for k in F:
        for s in F[k]:
            out.setdefault(ops.key(s), s)
    return out
