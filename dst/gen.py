"""Generation of plans.  plan(i) is a pure function of (property, seed, i)."""
from __future__ import annotations

import random

from . import ops, pool, terms
from .pool import PBE, V, clone

SHARES = ("model", "par", "cut", "damp", "disp", "q", "r4r2", "rvdw", "rcov", "chg", "mol", "cn")

CATS = {"large": 1, "mol": 3.0, "bat": 1.5, "model": 2.0, "cut": 1.0, "damp": 1.2, "par": 1.2, "give": 1.2,
        "cn": 1.0, "der": 1.6, "disp": 2.0, "props": 1.2, "mdl": 1.6, "mdlx": 1.8, "pair": 1.2, "dmp": 0.7,
        "data": 0.7, "prm": 0.6, "err": 0.4, "rnd": 4.0, "prec": 1.2, "lay": 0.8, "fun": 1.0,
        "bad": 2.0, "radii": 0.7, "d3a": 0.6, "d3b": 0.6, "inp": 2.0, "scale": 0.5, "dense": 1.0, "wrap": 1.5, "atom": 1.2,
        "edge": 0.8}

STEP_FAULTS = ("KI", "KI", "MEM", "MEM", "REC")
CALL_FAULTS = ("RT", "OOM", "LINALG")
IO_FAULTS = ("EIO", "ENOENT", "EMFILE", "EACCES", "ENOMEM", "torn", "garbage", "KI", "MEM")
IMP_FAULTS = ("IMPORT", "EIO", "EMFILE", "MEM", "KI", "ENOENT")

AMB = (["dtype=f64"] * 4 + ["dtype=f32"] * 2 + ["seed=7", "seed=123", "warn=ignore", "warn=always",
        "warn=default", "print=2", "print=10", "det=1", "det=0", "cwd=/", "cwd=/usr", "grad=0",
        "grad=1", "rec=1500", "gc=0", "gc=1", "env=1", "argv=-x",
        "clock=1e9", "clock=-3e7", "threads=1", "envall=1", "envall=0", "envall=f32", "envall=", "cpus=1",
        "cpus=64", "nthr=1", "nthr=8", "log=50", "nperr=ignore", "swi=1e-6"])

# calls whose precision is not stated by their arguments
NO_DTYPE = ("ZEFF",)


def wrapped(F):
    """C14: calls with instrumented plug-ins."""
    out = []
    C = [6, 1, 1, 1, 1]
    for z in (C, [8, 1, 1], [[8, 1, 1], [6, 1, 1, 1, 1]]):
        b = pool.base(z)
        for w in (["cf"], ["cn"], ["damp"], ["cf", "damp"], ["cn", "cf"]):
            out.append(clone(b, wrap=w))
        out += [clone(b, wrap=["cf"], model="d4s"), clone(b, wrap=["damp"], want="gpos"),
                clone(b, wrap=["cn"], model={"m": "d4"}), clone(b, wrap=["cf"], ctx="inf"),
                clone(b, wrap=["damp"], damp="userbj"), clone(b, wrap=["cf"], cf="exp"),
                clone(b, wrap=["damp"], par=V(pool.S10)), clone(b, wrap=["cf"], m={"dt": "f32"}),
                clone(b, wrap=["damp"], damp="zero", par=V(pool.ZERO))]
        d = {**b, "k": "disp", "cls": "DispD4"}
        out += [clone(d, wrap=["term"]), clone(d, wrap=["cf"], cf="exp"),
                clone(d, wrap=["cn"], cnf="custom"), clone(d, cls="DispD4Exact", wrap=["term"]),
                clone(d, cls="Disp", terms=[{"t": "two"}], wrap=["term"])]
    for s in out:
        s.pop("m", None)
    return out


TERM_PAR = {**PBE, "rs6": 1.2, "rs8": 1.0, "bet": 2.0, "rs9": 1.2, "alp": 14.0}
TERM_KINDS = [
    {"t": "two"}, {"t": "two", "c": False}, {"t": "two", "d": "op"}, {"t": "two", "d": "zero"},
    {"t": "atm"}, {"t": "atm", "c": True}, {"t": "atmx"}, {"t": "d3atm"}, {"t": "uterm"},
    {"t": "uterm", "c": True}, {"t": "two", "d": "mzero", "c": False},
]


def term_bases():
    out = []
    for z, dt, model in (([8, 1, 1], "f64", "d4"), ([6, 1, 1, 1, 1], "f64", "d4"),
                         ([35, 53, 8], "f64", "d4s"), ([14, 8, 1, 9], "f32", "d4"),
                         ([[8, 1, 1], [6, 1, 1, 1, 1]], "f64", "d4")):
        b = {"mol": {"z": z, "g": 3, "dt": dt}, "par": V(TERM_PAR), "model": model}
        if isinstance(z[0], list):
            b["chg"] = {"t": [0.0] * len(z)}
        out.append(b)
        if not isinstance(z[0], list):
            out.append({**b, "chg": 1})
    return out


def term_specs():
    out = []
    kinds = {terms.norm(t) for t in TERM_KINDS}
    for v in terms.INIT.values():
        kinds |= {terms.norm(t) for t in v}
    for b in term_bases():
        for k in sorted(kinds):
            out.append(terms.term_spec(b, k))
    return out


class Gen:
    def __init__(self, prop, seed, tier="quick"):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.F = pool.families(seed)
        self.cats = {}
        for k in self.F:
            self.cats.setdefault(k.rstrip("0123456789"), []).append(k)
        self.wrap = wrapped(self.F) if prop in ("C14", "C13", "C05", "C07") else []
        if prop in ("C05", "C07"):
            self.F["wrap"] = self.wrap
            self.cats["wrap"] = ["wrap"]
        self.prof = {}
        self.cprof = {}
        self.cold_specs = self.cold_pool()
        self.bases = term_bases()

    # ------------------------------------------------------------ pools
    def specs(self):
        """All specifications that need a reference value."""
        if self.prop == "C09":
            return []
        if self.prop == "C12":
            return [s for s in pool.flat(self.F).values() if s["k"] not in ("data", "damp")]
        if self.prop == "C11":
            return term_specs()
        out = pool.flat(self.F)
        for s in self.wrap:
            out.setdefault(ops.key(s), s)
        return list(out.values())

    def cold_pool(self):
        F = self.F
        b = pool.base([8, 1, 1])
        c = pool.base([26, 17, 17])
        out = [b, clone(b, model="d4s"), clone(b, ctx="inf"), clone(b, want="gpos"),
               clone(b, model="d4s", ctx="inf"), clone(b, model="d4s", want="gpos"),
               clone(b, m={"dt": "f32"}), clone(b, chg=1),
               clone(c, model={"m": "d4", "ref_charges": "gfn2"}),
               clone(c, model={"m": "d4s", "ref_charges": "gfn2"}), c,
               clone(b, par={"f": "pbe"}), clone(b, par={"f": "b3lyp"}),
               F["disp0"][0], F["disp0"][1], F["disp0"][2], F["disp1"][0], F["props0"][0], F["props0"][1],
               F["mdl0"][0], F["mdl0"][1], F["bat0"][0], clone(b, give=["q"]), clone(c, ctx="no_grad"),
               clone(b, want="hvp"), clone(b, want="fhess"), clone(b, want="fjac", model="d4s"),
               clone(b, want="fhess", model="d4s"), clone(b, want="fvmap"),
               clone(c, want="fjac", model={"m": "d4", "ref_charges": "gfn2"}), {"k": "data", "what": "WFPAIR", "dt": "f64"},
               {"k": "data", "what": "R4R2", "dt": "f64"}, clone(b, damp="zero", par=V(pool.ZERO))]
        out += F["prm"][:6]
        for x in ("disp0", "mdl0"):
            for s in F[x]:
                if s.get("ctx") == "inf":
                    out.append(s)
        allspecs = pool.flat(self.F)
        res = []
        for s in out:
            s = dict(s)
            if not isinstance(s.get("m"), str):
                s.pop("m", None)
            if ops.key(s) not in allspecs:
                self.F.setdefault("coldx", []).append(s)
                allspecs[ops.key(s)] = s
                self.cats.setdefault("coldx", ["coldx"]) if hasattr(self, "cats") else None
            res.append(s)
        return res

    # ------------------------------------------------------------ draws
    def cat(self, rng, only=None, no=()):
        ks = [k for k in CATS if (only is None or k in only) and k not in no and k in self.cats]
        return rng.choices(ks, [CATS[k] for k in ks])[0]

    def family(self, rng, only=None, no=()):
        return self.F[rng.choice(self.cats[self.cat(rng, only, no)])]

    def shares(self, rng, p=0.5):
        if rng.random() > p:
            return []
        r = rng.random()
        if r < 0.5:
            return ["model", "par", "cut", "damp", "disp", "q", "r4r2", "rvdw", "chg", "mol", "cn"]
        n = rng.randint(1, 5)
        return sorted(rng.sample(SHARES, n))

    def index(self):
        """Source lines of the library, with the calls that reach them."""
        by = {}
        fam = {}
        for k, f in self.F.items():
            for s in f:
                fam.setdefault(ops.key(s), (k, s))
        self.fam_of = fam
        for q in sorted(self.prof):
            if q not in fam:
                continue
            for ln, (steps, calls) in self.prof[q].get("lines", {}).items():
                by.setdefault(ln, []).append((q, steps, calls))
        self.by_line = by
        self.lines = sorted(by)
        # a small set of calls that together reach every line, several times
        rng = random.Random(f"{self.prop}/{self.seed}/cover")
        self.cover = []
        for _ in range(2):
            left = set(self.lines)
            for ln in sorted(left, key=lambda x: (len(by[x]), x)):
                if ln not in left:
                    continue
                q = rng.choice(by[ln])[0]
                self.cover.append(q)
                left -= set(self.prof[q]["lines"])

    def at_line(self, rng, want="fault", ok=None):
        """A call and a point in it, every source line being equally likely.

        Rarely taken branches are struck as often as common ones."""
        for _ in range(40):
            q, steps, calls = rng.choice(self.by_line[rng.choice(self.lines)])
            fk, s = self.fam_of[q]
            if ok is not None and not ok(s):
                continue
            if want == "fault" and calls and (not steps or rng.random() < 0.3):
                return s, self.F[fk], {"call": rng.choice(calls), "kind": rng.choice(CALL_FAULTS)}
            if not steps:
                continue
            t = {"step": rng.choice(steps)}
            if want == "fault":
                t["kind"] = rng.choice(STEP_FAULTS)
            else:
                t["step"] = max(1, t["step"] + rng.choice((0, 0, 1, 2, 3)))
            return s, self.F[fk], t
        s = self.F["mol0"][0]
        return s, self.F["mol0"], {"step": 100, "kind": "KI"}

    def point(self, rng, spec, near=None):
        """A fault at a source line of one call, all lines equally likely."""
        lines = self.prof.get(ops.key(spec), {}).get("lines") or {}
        ks = sorted(lines)
        if near is not None:
            ks = [k for k in ks if k >> 16 == near] or ks
        if not ks:
            return None, {"step": rng.randint(1, 5000), "kind": rng.choice(STEP_FAULTS)}
        k = rng.choice(ks)
        steps, calls = lines[k]
        if calls and (not steps or rng.random() < 0.35):
            return k, {"call": rng.choice(calls), "kind": rng.choice(CALL_FAULTS)}
        return k, {"step": rng.choice(steps), "kind": rng.choice(STEP_FAULTS)}

    def sweep(self, rng, p):
        """Many failures of calls on the same objects, each followed by a
        call that must be right."""
        if rng.random() < 0.35:
            s, fam, _ = self.at_line(rng)
        else:
            fam = self.family(rng, no=("err", "data", "prm"))
            s = rng.choice(fam)
        sh = list(SHARES) if rng.random() < 0.75 else self.shares(rng, 1.0)
        others = rng.sample(fam, min(len(fam), 3))
        lst, near = [], None

        def add(s):
            e = {"id": f"a{len(lst)}", "do": "call", "spec": s, "share": sh}
            lst.append(e)
            return e

        for j in range(rng.randint(5, 11)):
            x = s if rng.random() < 0.75 else rng.choice(others)
            e = add(x)
            k, t = self.point(rng, x, near if rng.random() < 0.4 else None)
            near = k >> 16 if k else None
            p["trig"].append({"op": e["id"], **t})
            if rng.random() < 0.75:
                add(x if rng.random() < 0.8 else rng.choice(others))
        for x in [s, *others]:
            add(x)
        p["threads"] = {"0": lst}
        self.setup(p, lst)
        return p

    def pr(self, spec, cold=False):
        k = ops.key(spec)
        return (self.cprof.get(k) if cold else None) or self.prof.get(k) or {
            "n": 20000, "c": 60, "k": 0, "hot": [], "sites": []}

    def hot_step(self, rng, pr):
        if not pr["hot"]:
            return rng.randint(1, max(1, pr["n"]))
        s, occ = rng.choice(pr["hot"])
        n = rng.choice(occ)[0]
        return max(1, n + rng.choice((0, 0, 0, 1, 2, 5)))

    def any_step(self, rng, pr):
        r = rng.random()
        if r < 0.5:
            return self.hot_step(rng, pr)
        if r < 0.75 and pr["sites"]:
            return rng.choice(pr["sites"])
        return rng.randint(1, max(1, pr["n"]))

    def switch(self, rng, oid, pr, nthreads, hot=True):
        t = {"op": oid, "kind": "sw",
             "step": self.hot_step(rng, pr) if hot else rng.randint(1, max(1, pr["n"]))}
        if rng.random() < 0.15:
            t["stall"] = True
        if nthreads > 2 and rng.random() < 0.5:
            t["to"] = rng.randrange(nthreads)
        return t

    def fault(self, rng, oid, pr, io=0.1, spread=False, cold=False):
        r = rng.random()
        if pr["k"] and r < (0.45 if cold else io + 0.1):
            return {"op": oid, "io": rng.randint(1, pr["k"]),
                    "kind": rng.choice(IMP_FAULTS if cold and rng.random() < 0.6 else IO_FAULTS)}
        if r > 0.72 and pr["c"]:
            return {"op": oid, "call": rng.randint(1, pr["c"]), "kind": rng.choice(CALL_FAULTS)}
        if spread and pr["sites"] and rng.random() < 0.7:
            step = rng.choice(pr["sites"])
        else:
            step = self.any_step(rng, pr)
        return {"op": oid, "step": step, "kind": rng.choice(STEP_FAULTS)}

    def mk(self, rng, **kw):
        p = {"prop": self.prop, "seed": self.seed, "trig": [], "checks": ["ref"], "cold": False}
        p.update(kw)
        return p

    # ------------------------------------------------------------ plans
    def plan(self, i):
        rng = random.Random(f"{self.prop}/{self.seed}/{i}")
        p = getattr(self, "gen_" + self.prop)(rng, i)
        r2 = random.Random(f"{self.prop}/{self.seed}/{i}/stick")
        for t in p["trig"]:
            # some conditions last: memory stays exhausted, the file unreadable
            if t["kind"] not in ("sw", "gc", "amb", "clk", "probe", "KI", "REC") and r2.random() < (
                    0.5 if "io" in t else 0.25):
                t["stick"] = True
        p["i"] = i
        return p

    def threads(self, rng, nt, per, fam, shares, ids="abcdefgh", cold=False):
        th, allops = {}, []
        for t in range(nt):
            lst = []
            for j in range(rng.randint(*per)):
                s = rng.choice(fam)
                e = {"id": f"{ids[t]}{j}", "do": "call", "spec": s}
                if shares:
                    e["share"] = shares
                lst.append(e)
                allops.append(e)
            th[str(t)] = lst
        return th, allops

    def mixfam(self, rng, no=()):
        """The calls a run draws from."""
        r = rng.random()
        if r < 0.6:
            f = self.family(rng, no=no)
            if len(f) > 4 and rng.random() < 0.5:
                f = rng.sample(f, rng.randint(2, 4))
            return f
        if r < 0.8:
            return rng.sample(self.family(rng, no=no), 2) + rng.sample(self.family(rng, no=no), 2)
        out = []
        for _ in range(6):
            out.append(rng.choice(self.family(rng, no=no)))
        return out

    def sched(self, rng, p, allops, nt, cold=False):
        """Choose a scheduling strategy."""
        r = rng.random()
        if r < 0.50:
            for _ in range(rng.randint(1, 4)):
                e = rng.choice(allops)
                p["trig"].append(self.switch(rng, e["id"], self.pr(e["spec"], cold), nt))
        elif r < 0.70:
            for _ in range(rng.randint(1, 5)):
                e = rng.choice(allops)
                p["trig"].append(self.switch(rng, e["id"], self.pr(e["spec"], cold), nt, False))
        elif r < 0.94:
            p["quantum"] = int(2 ** rng.uniform(3, 12.5))
        else:
            # the same step in every thread
            e = rng.choice(allops)
            st = self.hot_step(rng, self.pr(e["spec"], cold))
            for x in allops:
                p["trig"].append({"op": x["id"], "step": st, "kind": "sw"})
        o = list(range(nt))
        rng.shuffle(o)
        p["order"] = o

    def setup(self, p, allops):
        seen = set()
        out = []
        for e in allops:
            if e.get("share") and e["spec"]["k"] not in ("err", "params", "data"):
                k = ops.key(e["spec"])
                if k not in seen:
                    seen.add(k)
                    out.append({"spec": e["spec"], "share": e["share"]})
        p["setup"] = out

    def coldfam(self, rng):
        return rng.sample(self.cold_specs, rng.randint(1, 3))

    # C01 ------------------------------------------------------------------
    def gen_C01(self, rng, i):
        p = self.mk(rng)
        nt = 2 if rng.random() < 0.75 else 3
        p["cold"] = cold = rng.random() < 0.10
        fam = self.coldfam(rng) if cold else self.mixfam(rng)
        sh = [] if cold else self.shares(rng, 0.5)
        p["threads"], al = self.threads(rng, nt, (1, 2), fam, sh)
        self.setup(p, al)
        self.sched(rng, p, al, nt, cold)
        if not cold and rng.random() < 0.3:
            # strike a line of the library chosen at random
            s, f, t = self.at_line(rng, "sw")
            e = al[0]
            e["spec"] = s
            for x in al[1:]:
                x["spec"] = rng.choice(f)
            p["trig"] = [{"op": e["id"], "kind": "sw", **t}]
            p.pop("quantum", None)
            if rng.random() < 0.3:
                p["trig"][0]["stall"] = True
            p["order"] = list(range(nt))
            self.setup(p, al)
        if rng.random() < 0.08:
            p["scope"] = "all"
        return p

    # C02 ------------------------------------------------------------------
    def gen_C02(self, rng, i):
        p = self.mk(rng, instr=False)
        p["cold"] = rng.random() < 0.1
        r = rng.random()
        if r < 0.55:
            fam, n = self.mixfam(rng), rng.randint(6, 20)
        elif r < 0.9:
            fam = self.family(rng) + self.family(rng)
            n = rng.randint(12, 36)
        elif r < 0.97:
            fam = [s for k in self.F for s in self.F[k]]
            n = rng.randint(40, 90)
        else:
            # long enough to overflow and evict whatever is remembered
            r = rng.random()
            fam = ([s for k in self.F for s in self.F[k]] if r < 0.4 else self.family(rng) if r < 0.8
                   else rng.sample(self.family(rng), 2))
            fam = [s for s in fam if s.get("want", "e") == "e"] or self.F["mol0"]
            n = rng.randint(150, 400)
        sh = self.shares(rng, 0.6)
        buf = "b" if rng.random() < 0.45 else None
        if buf and rng.random() < 0.5:
            # inputs of one shape, overwritten in place
            fam = self.family(rng, only=("inp",))
            if rng.random() < 0.5:
                fam = fam + self.family(rng, only=("inp",))
            n = rng.randint(8, 24)
            if rng.random() < 0.5:
                sh = [x for x in sh if x not in ("mol", "chg", "q", "r4r2", "rvdw")]
        lst = []
        for j in range(n):
            e = {"id": f"a{j}", "do": "call", "spec": rng.choice(fam)}
            if sh and rng.random() < 0.85:
                e["share"] = sh
            if buf and rng.random() < 0.85:
                e["buf"] = buf
            lst.append(e)
            if rng.random() < 0.05:
                lst.append({"id": f"g{j}", "do": "gc"})
            if sh and rng.random() < 0.08:
                lst.append({"id": f"d{j}", "do": "drop"})
        p["threads"] = {"0": lst}
        return p

    # C03 ------------------------------------------------------------------
    def gen_C03(self, rng, i):
        p = self.mk(rng, checks=["after"])
        r = rng.random()
        if r < 0.25:
            return self.natural(rng, p)
        if r < 0.65:
            return self.sweep(rng, p)
        p["cold"] = cold = rng.random() < 0.35
        fam = self.coldfam(rng) if cold else self.mixfam(rng, no=("err",))
        sh = self.shares(rng, 0.5)
        lst = []
        nfail = rng.choice((1, 1, 1, 2, 3))
        j = 0

        def add(s):
            nonlocal j
            e = {"id": f"a{j}", "do": "call", "spec": s}
            j += 1
            if sh:
                e["share"] = sh
            lst.append(e)
            return e

        if not cold and rng.random() < 0.45:
            # fail at a line of the library chosen at random
            for _ in range(rng.choice((1, 1, 2, 3))):
                s, fam, t = self.at_line(rng)
                e = add(s)
                p["trig"].append({"op": e["id"], **t})
                add(s)
                for s in rng.sample(fam, min(len(fam), rng.randint(1, 3))):
                    add(s)
            p["threads"] = {"0": lst}
            if sh and rng.random() < 0.7:
                self.setup(p, lst)
            return p

        if rng.random() < 0.4:
            add(rng.choice(fam))
        for _ in range(nfail):
            if rng.random() < 0.15:
                add(rng.choice(self.F["err"]))
                continue
            e = add(rng.choice(fam))
            f = self.fault(rng, e["id"], self.pr(e["spec"], cold), cold=cold)
            p["trig"].append(f)
            last = e["spec"]
            if rng.random() < 0.5:
                add(last)
        add(rng.choice(fam))
        for s in rng.sample(fam, min(len(fam), 2)):
            add(s)
        if rng.random() < 0.3:
            add(rng.choice(self.family(rng)))
        p["threads"] = {"0": lst}
        if rng.random() < 0.2:
            # the later calls come from another thread
            k = max(1, len(lst) - 2)
            p["threads"] = {"0": lst[:k], "1": lst[k:]}
            p["order"] = [0, 1]
        if sh and rng.random() < 0.7:
            self.setup(p, lst)
        if rng.random() < 0.12:
            p["scope"] = "all"
        return p

    def natural(self, rng, p):
        """Long histories of calls that fail by themselves and valid ones."""
        p["instr"] = False
        fam = self.family(rng, only=("bad", "rnd", "bad", "d3a", "d3b"))
        if rng.random() < 0.2:
            fam = fam + self.F["err"]
        sh = self.shares(rng, 0.85)
        B = [s for s in fam if "bad" in s or s["k"] == "err"]
        A = [s for s in fam if not ("bad" in s or s["k"] == "err")]
        if rng.random() < 0.3:
            B, A = rng.sample(B, min(len(B), 3)), rng.sample(A, min(len(A), 4))
        lst = []
        for j in range(rng.randint(12, 36)):
            e = {"id": f"a{j}", "do": "call", "spec": rng.choice(B if B and rng.random() < 0.4 else A or B)}
            if sh:
                e["share"] = sh
            lst.append(e)
        p["threads"] = {"0": lst}
        return p

    # C04 ------------------------------------------------------------------
    def gen_C04(self, rng, i):
        p = self.mk(rng, checks=["surface"])
        p["cold"] = cold = rng.random() < 0.15
        sh = self.shares(rng, 0.2)
        lst = []
        for j in range(rng.randint(2, 3) if cold else rng.randint(4, 7)):
            fam = self.coldfam(rng) if cold else self.family(rng)
            s = rng.choice(fam)
            e = {"id": f"a{j}", "do": "call", "spec": s}
            if sh:
                e["share"] = sh
            lst.append(e)
            if not cold and rng.random() < 0.6:
                e["spec"], _, t = self.at_line(rng)
                p["trig"].append({"op": e["id"], **t})
                continue
            pr = self.pr(s, cold)
            p["trig"].append(self.fault(rng, e["id"], pr, io=0.1, spread=True, cold=cold))
            if rng.random() < 0.15:
                p["trig"].append(self.fault(rng, e["id"], pr, io=0.1, spread=True, cold=cold))
        p["threads"] = {"0": lst}
        if rng.random() < 0.12:
            p["scope"] = "all"
        return p

    # C05 ------------------------------------------------------------------
    def gen_C05(self, rng, i):
        p = self.mk(rng, checks=["args"])
        nt = 2 if rng.random() < 0.15 else 1
        fam = self.mixfam(rng, no=("prm",))
        sh = self.shares(rng, 0.5)
        p["threads"], al = self.threads(rng, nt, (1, 2) if nt > 1 else (2, 4), fam, sh)
        if rng.random() < 0.4:
            for e in rng.sample(al, max(1, len(al) // 2)):
                p["trig"].append(self.fault(rng, e["id"], self.pr(e["spec"])))
        p["probe_hot"] = True
        p["probe_every"] = rng.choice((97, 211, 401, 997))
        self.aim(rng, p, al)
        if nt > 1:
            self.setup(p, al)
            self.sched(rng, p, al, nt)
        return p

    def aim(self, rng, p, al):
        """Look at the state (or fail) at lines of the library chosen at random."""
        for e in al:
            if rng.random() < 0.5:
                fail = rng.random() < 0.3
                s, _, t = self.at_line(rng, "fault" if fail else "probe")
                e["spec"] = s
                p["trig"] = [x for x in p["trig"] if x["op"] != e["id"]]
                p["trig"].append({"op": e["id"], **({} if fail else {"kind": "probe"}), **t})

    # C06 ------------------------------------------------------------------
    def gen_C06(self, rng, i):
        p = self.mk(rng, checks=["ref", "keep"], instr=False)
        p["cold"] = rng.random() < 0.1
        fam = self.mixfam(rng)
        if rng.random() < 0.3:
            fam = self.F["data"] + self.F["prm"][:8]
        sh = [x for x in self.shares(rng, 0.4)]
        lst = []
        n = rng.randint(3, 8)
        for j in range(n):
            e = {"id": f"a{j}", "do": "call", "spec": rng.choice(fam)}
            if sh:
                e["share"] = sh
            lst.append(e)
            if rng.random() < 0.6:
                lst.append({"id": f"e{j}", "do": "edit", "of": f"a{rng.randint(0, j)}"})
            if not sh and rng.random() < 0.25:
                lst.append({"id": f"g{j}", "do": "editarg", "of": f"a{rng.randint(0, j)}"})
        p["threads"] = {"0": lst}
        if rng.random() < 0.2:
            a, b = lst[: len(lst) // 2], lst[len(lst) // 2:]
            p["threads"] = {"0": a, "1": b}
            p["instr"] = True
            p["quantum"] = int(2 ** rng.uniform(5, 12))
        return p

    # C07 ------------------------------------------------------------------
    def gen_C07(self, rng, i):
        p = self.mk(rng, checks=["amb"])
        p["cold"] = cold = rng.random() < 0.12
        nt = 2 if rng.random() < 0.15 else 1
        fam = self.coldfam(rng) if cold else self.mixfam(rng)
        sh = self.shares(rng, 0.3)
        p["threads"], al = self.threads(rng, nt, (1, 2) if nt > 1 else (2, 4), fam, sh)
        if rng.random() < 0.45:
            for e in rng.sample(al, max(1, len(al) // 2)):
                p["trig"].append(self.fault(rng, e["id"], self.pr(e["spec"], cold), cold=cold))
        p["probe_hot"] = True
        p["probe_every"] = rng.choice((211, 401, 997))
        if not cold:
            self.aim(rng, p, al)
        if rng.random() < 0.3:
            pre = [{"id": f"m{j}", "do": "amb", "what": rng.choice(AMB)} for j in range(rng.randint(1, 3))]
            p["pre"] = pre
        if nt > 1:
            self.setup(p, al)
            self.sched(rng, p, al, nt, cold)
        return p

    # C08 ------------------------------------------------------------------
    def gen_C08(self, rng, i):
        p = self.mk(rng, checks=["ref"], loose=True)
        p["cold"] = rng.random() < 0.1
        fam = [s for s in self.mixfam(rng) if s.get("what") not in NO_DTYPE] or self.F["mol0"]
        sh = self.shares(rng, 0.25)
        lst = []
        during = rng.random() < 0.4
        grad_off = False
        # gradient mode is only switched off where no derivative is requested
        nograd_ok = all(s.get("want", "e") == "e" for s in fam)
        ambs = [a for a in AMB if nograd_ok or a != "grad=0"]
        if rng.random() < 0.6:
            ambs = ["dtype=f64", "dtype=f32"]
        for j in range(rng.randint(2, 5)):
            for _ in range(rng.choice((0, 1, 1, 2))):
                lst.append({"id": f"m{j}_{len(lst)}", "do": "amb", "what": rng.choice(ambs)})
            e = {"id": f"a{j}", "do": "call", "spec": rng.choice(fam)}
            if sh:
                e["share"] = sh
            lst.append(e)
            if during:
                pr = self.pr(e["spec"])
                aimed = None
                if rng.random() < 0.4:
                    s, _, aimed = self.at_line(rng, "amb", lambda s: s.get("what") not in NO_DTYPE)
                    e["spec"] = s
                    pr = self.pr(s)
                for _ in range(rng.randint(1, 3)):
                    w = rng.choice([a for a in ambs if not a.startswith("grad")] or ["dtype=f64"])
                    p["trig"].append({"op": e["id"], "step": self.any_step(rng, pr), "kind": "amb", "what": w})
                    if aimed is not None:
                        p["trig"][-1]["step"] = aimed["step"]
                        aimed = None
                    if w.startswith("clock"):
                        p["trig"][-1].update(kind="clk", dt=float(w[6:]) if float(w[6:]) > 0 else 1.0, jump=float(w[6:]))
        if any(e.get("spec", {}).get("want", "e") != "e" for e in lst):
            lst = [e for e in lst if e.get("what") != "grad=0"]
        p["threads"] = {"0": lst}
        p["instr"] = during
        return p

    # C09 ------------------------------------------------------------------
    def gen_C09(self, rng, i):
        from . import params

        p = self.mk(rng, checks=[])
        p["cold"] = rng.random() < 0.3
        nt = rng.choice((1, 1, 1, 2, 3))
        names = {m: sorted(params.table(m)["parameter"]) for m in ("d3", "d4")}
        few = {m: rng.sample(names[m], 3) for m in names}
        narrow = rng.random() < 0.6
        th = {}
        al = []
        for t in range(nt):
            lst = []
            for j in range(rng.randint(2, 9)):
                m = rng.choice(("d3", "d4"))
                f = rng.choice(few[m] if narrow else names[m])
                r = rng.random()
                if r < 0.06:
                    f = rng.choice(("nosuch", "", "pbe ", "p_b_e", "default"))
                elif r < 0.09:
                    f = None
                elif r < 0.14:
                    f = rng.choice(names["d3"])       # may be missing in d4
                if isinstance(f, str):
                    f = rng.choice((f, f, f.upper(), f.capitalize(), f.title(), f.swapcase()))
                s = {"k": "params", "m": m if rng.random() > 0.02 else "d9", "f": f}
                r = rng.random()
                if r < 0.35:
                    allv = {"d3": ("bj", "zero", "bjm", "zerom", "op"),
                            "d4": ("bj-eeq-atm", "bj-eeq-mbd", "bj-eeq-two")}[m]
                    s["v"] = rng.choice(allv)
                    have = list(params.table(m)["parameter"].get((f or "").casefold(), {}).get(m, {}))
                    if have and rng.random() < 0.6:
                        s["v"] = rng.choice(have)
                    if rng.random() < 0.05:
                        s["v"] = rng.choice(("nope", "", "BJ"))
                if rng.random() < 0.4:
                    s["doi"] = rng.random() < 0.7
                e = {"id": f"{'abc'[t]}{j}", "do": "look", "spec": s}
                lst.append(e)
                al.append(e)
                if rng.random() < 0.35:
                    lst.append({"id": f"s{'abc'[t]}{j}", "do": "scrib", "of": f"{'abc'[t]}{rng.randint(0, j)}",
                                "how": rng.choice(("set", "pop", "add", "clear"))})
            th[str(t)] = lst
        p["threads"] = th
        if rng.random() < 0.55:
            for e in al[: rng.randint(1, 4)]:
                r = rng.random()
                if r < 0.6:
                    p["trig"].append({"op": e["id"], "io": rng.randint(1, 5), "kind": rng.choice(IO_FAULTS)})
                elif r < 0.9:
                    p["trig"].append({"op": e["id"], "step": rng.randint(1, 130), "kind": rng.choice(STEP_FAULTS)})
        if nt > 1:
            r = rng.random()
            if r < 0.5:
                p["quantum"] = int(2 ** rng.uniform(0, 6))
            else:
                for _ in range(rng.randint(1, 5)):
                    e = rng.choice(al)
                    p["trig"].append({"op": e["id"], "step": rng.randint(1, 130), "kind": "sw"})
                    if rng.random() < 0.4:
                        p["trig"].append({"op": e["id"], "io": rng.randint(1, 4), "kind": "sw"})
        if rng.random() < 0.2:
            p["scope"] = "all"
            p["budget"] = 30_000_000
            for t in p["trig"]:
                if "step" in t and rng.random() < 0.6:
                    t["step"] = rng.randint(1, 60000)
            if p.get("quantum"):
                p["quantum"] *= 200
        return p

    # C10 ------------------------------------------------------------------
    def gen_C10(self, rng, i):
        p = self.mk(rng, checks=["ref", "surface"], cold=True, overlap_ok=True)
        nt = rng.choice((1, 2, 2, 2, 3))
        fam = self.coldfam(rng)
        if rng.random() < 0.3:
            fam = [s for s in self.cold_specs if s.get("ctx") in ("inf", "no_grad")][:4] + fam
        p["threads"], al = self.threads(rng, nt, (1, 2) if nt > 1 else (2, 4), fam, [])
        if rng.random() < 0.5 or nt == 1:
            first = [lst[0] for lst in p["threads"].values()]
            for e in rng.sample(first, rng.randint(1, len(first))):
                p["trig"].append(self.fault(rng, e["id"], self.pr(e["spec"], True), cold=True))
        # calls made after everything else
        for t in range(nt):
            s = rng.choice(fam if rng.random() < 0.6 else self.cold_specs)
            e = {"id": f"z{t}", "do": "call", "spec": s}
            p["threads"][str(t)].append(e)
        if nt > 1:
            r = rng.random()
            if r < 0.3:
                for _ in range(rng.randint(1, 4)):
                    e = rng.choice(al)
                    k = self.pr(e["spec"], True)["k"]
                    if k:
                        p["trig"].append({"op": e["id"], "io": rng.randint(1, k), "kind": "sw"})
            self.sched(rng, p, al, nt, True)
            if "quantum" in p:
                p["quantum"] *= 2
        return p

    # C11 ------------------------------------------------------------------
    def gen_C11(self, rng, i):
        p = self.mk(rng, checks=[])
        p["cold"] = rng.random() < 0.05
        # (an interrupted import concerns every thread waiting for it: C10)
        nt = 2 if rng.random() < 0.25 and not p["cold"] else 1
        th = {}
        al = []
        base = rng.choice(self.bases)
        dt, model = base["mol"]["dt"], base["model"]
        classes = [k for k in terms.INIT]
        for t in range(nt):
            lst = []
            names = []
            insts = {}
            klass = {}
            for j in range(rng.randint(5, 14)):
                r = rng.random()
                oid = f"{'ab'[t]}{j}"
                if names and r < 0.07:
                    nm = f"{'AB'[t]}{len(names)}"
                    src = rng.choice(names)
                    e = {"id": oid, "do": "conv", "name": nm, "src": src, "dt": dt, "cls": klass[src],
                         "how": rng.choice(("type", "to", "dev"))}
                    names.append(nm)
                    klass[nm] = klass[src]
                elif names and r < 0.10:
                    e = {"id": oid, "do": "other", "base": base}
                elif not names or r < 0.25:
                    nm = f"{'AB'[t]}{len(names)}"
                    names.append(nm)
                    e = {"id": oid, "do": "new", "name": nm, "cls": rng.choice(classes), "dt": dt, "model": model}
                    klass[nm] = e["cls"]
                elif r < 0.46:
                    k = rng.choice(TERM_KINDS)
                    e = {"id": oid, "do": "reg", "name": rng.choice(names), "term": k}
                    if rng.random() < 0.4:
                        e["inst"] = f"{t}/{ops.key(k)}"
                elif r < 0.68:
                    cur = rng.choice(names)
                    k = rng.choice(TERM_KINDS)
                    r2 = rng.random()
                    if r2 < 0.6:
                        # prefer a term that is there
                        have = terms.INIT[klass[cur]] + [x["term"] for x in lst if x["do"] == "reg" and x["name"] == cur]
                        if have:
                            k = rng.choice(have)
                    e = {"id": oid, "do": "dereg", "name": cur, "term": k}
                    if rng.random() < 0.4:
                        e["inst"] = f"{t}/{ops.key(k)}"
                else:
                    e = {"id": oid, "do": "calc", "name": rng.choice(names), "base": base}
                lst.append(e)
                al.append(e)
            for n, nm in enumerate(names):
                lst.append({"id": f"z{t}{n}", "do": "calc", "name": nm, "base": base})
            th[str(t)] = lst
        p["threads"] = th
        fault = rng.random() < 0.45
        if fault:
            for e in rng.sample(al, min(len(al), rng.randint(1, 4))):
                if e["do"] in ("calc", "other"):
                    f = {"op": e["id"], "step": rng.randint(1, 9000), "kind": rng.choice(STEP_FAULTS)}
                else:
                    f = {"op": e["id"], "step": rng.randint(1, 40 if e["do"] != "new" else 160),
                         "kind": rng.choice(STEP_FAULTS)}
                p["trig"].append(f)
        if nt > 1:
            p["quantum"] = int(2 ** rng.uniform(2, 10))
        elif not fault:
            p["instr"] = False
        return p

    # C12 ------------------------------------------------------------------
    def gen_C12(self, rng, i):
        only = None
        fam = [s for s in self.family(rng, no=("data", "dmp")) if s["k"] != "err"] or self.F["mol0"]
        n = rng.choice((1, 1, 2, 3))
        specs = [rng.choice(fam) for _ in range(n)]
        io = rng.random() < 0.15
        if io:
            # calls that read the parameter files
            specs = [rng.choice([s for s in self.F["prm"] + self.F["par"] if s["k"] == "params" or "f" in s["par"]])
                     for _ in range(n)]
        if rng.random() < 0.15:
            specs.append(rng.choice(self.F["err"]))
        p = {"prop": self.prop, "seed": self.seed, "mem": True, "cold": False, "checks": [], "threads": {},
             "specs": specs, "window": 8 if not any("cls" in s for s in specs) else 6, "windows": 6, "skip": 2,
             "share": self.shares(rng, 0.35), "trig": []}
        if rng.random() < (0.7 if io else 0.35):
            f = {}
            for j in range(rng.randint(1, 4)):
                s = specs[0]
                x = self.fault(rng, "x", self.pr(s), io=0.6 if io else 0.1)
                f[str(rng.randrange(7))] = x
            p["faults"] = f
            p["instr"] = True
        if "faults" in p and not io and rng.random() < 0.5:
            s, _, t = self.at_line(rng, ok=lambda s: s["k"] not in ("data", "damp"))
            p["specs"] = [s]
            p["faults"] = {str(rng.randrange(7)): {"op": "x", **t}}
        elif i % 6 in (1, 4):
            q = self.cover[(i // 6 * 2 + (i % 6 == 4)) % len(self.cover)]
            p.update(specs=[self.fam_of[q][1]], window=8, windows=6)
            p.pop("faults", None), p.pop("instr", None)
        if i % 6 == 3:
            # long histories of calls that are rejected, every kind in turn
            B = [s for k in self.cats["bad"] for s in self.F[k] if "bad" in s] + self.F["err"] * 2
            kinds = sorted({s.get("bad") or ops.key(s) for s in B})
            k = kinds[(i // 6 + 7 * self.seed) % len(kinds)]
            B = [s for s in B if (s.get("bad") or ops.key(s)) == k]
            p.update(specs=[rng.choice(B) for _ in range(rng.choice((1, 1, 2)))], window=50, windows=20, skip=8, share=[])
            p.pop("faults", None), p.pop("instr", None)
        elif io and rng.random() < 0.6:
            p["cold"] = True
            p["instr"] = True
            p["faults"] = {str(j): {"op": "x", "io": rng.randint(1, 6), "kind": rng.choice(IO_FAULTS)}
                           for j in range(rng.randint(1, 4))}
        elif "faults" not in p and i % 25 == 5:
            # long histories also count untracked memory blocks
            p.update(window=50, windows=20, skip=8)
        return p

    # C13 ------------------------------------------------------------------
    def gen_C13(self, rng, i):
        r = rng.random()
        if r < 0.22:
            p = self.gen_C10(rng, i)
        elif r < 0.42:
            p = self.gen_C14(rng, i)
        elif r < 0.52:
            p = self.gen_C03(rng, i)
        elif r < 0.60:
            p = self.gen_C09(rng, i)
        else:
            p = self.gen_C01(rng, i)
            al = [e for lst in p["threads"].values() for e in lst]
            if rng.random() < 0.7:
                for e in rng.sample(al, rng.randint(1, min(2, len(al)))):
                    p["trig"].append(self.fault(rng, e["id"], self.pr(e["spec"], p["cold"]), cold=p["cold"]))
            for t in p["trig"]:
                if t["kind"] == "sw" and rng.random() < 0.4:
                    t["stall"] = True
            if rng.random() < 0.2:
                e = rng.choice(al)
                p["trig"].append({"op": e["id"], "step": self.any_step(rng, self.pr(e["spec"])), "kind": "gc"})
        p["prop"] = "C13"
        p["checks"] = ["progress"]
        return p

    # C14 ------------------------------------------------------------------
    def cbspec(self, rng):
        s = rng.choice(self.wrap)
        w = rng.choice(s["wrap"])
        pt = rng.choice((w, w, w + "-end"))
        n = rng.choice((1, 1, 1, 2, 3)) if w in ("cf", "damp") else 1
        return s, pt, n

    def gen_C14(self, rng, i):
        p = self.mk(rng, checks=["cb", "ref"])
        nt = 2 if rng.random() < 0.35 else 1
        th, al = {}, []
        sh = self.shares(rng, 0.4)
        for t in range(nt):
            lst = []
            for j in range(rng.randint(1, 3)):
                s, pt, n = self.cbspec(rng)
                e = {"id": f"{'ab'[t]}{j}", "do": "call", "spec": s}
                x = [y for y in sh if y not in ("disp", "damp")]
                if x:
                    e["share"] = x
                r = rng.random()
                if r < 0.5:
                    inner = rng.choice(self.family(rng))
                    if rng.random() < 0.5:
                        inner = {k: v for k, v in s.items() if k != "wrap"}
                        if ops.key(inner) not in self.prof:
                            inner = rng.choice(self.F["mol0"])
                    e["cb"] = {"point": pt, "n": n, "act": "nest", "spec": inner}
                    if x and rng.random() < 0.6:
                        e["cb"]["share"] = x
                elif r < 0.75:
                    e["cb"] = {"point": pt, "n": n, "act": "raise", "exc": rng.choice(
                        ("user", "user", "ki", "value", "key", "rt", "attr", "type", "import", "os", "na",
                         "assert", "mem", "stop", "index", "exit", "arith", "gen", "base"))}
                elif nt > 1:
                    e["cb"] = {"point": pt, "n": n, "act": "switch", "stall": rng.random() < 0.4}
                lst.append(e)
                al.append(e)
            if rng.random() < 0.6:
                e = {"id": f"{'ab'[t]}z", "do": "call", "spec": rng.choice(self.family(rng))}
                lst.append(e)
                al.append(e)
            th[str(t)] = lst
        p["threads"] = th
        self.setup(p, [e for e in al if e.get("share")])
        p["instr"] = nt > 1 and rng.random() < 0.6
        if p["instr"]:
            for _ in range(rng.randint(1, 3)):
                e = rng.choice(al)
                p["trig"].append(self.switch(rng, e["id"], self.pr(e["spec"]), nt))
        return p

    # C15 ------------------------------------------------------------------
    def gen_C15(self, rng, i):
        p = self.mk(rng, checks=["ref"])
        p["cold"] = rng.random() < 0.06
        while True:
            fam = self.family(rng, no=("data", "prm", "err", "dmp"))
            D = [s for s in fam if s.get("want", "e") not in ("e", *ops.FUNC) and s.get("ctx", "grad") == "grad"]
            if D:
                break
        sh = self.shares(rng, 0.6)
        sh = [x for x in sh]
        nt = rng.choice((1, 1, 2))
        lst = []
        pend = []
        j = 0
        for _ in range(rng.randint(2, 6)):
            j += 1
            r = rng.random()
            if r < 0.45:
                e = {"id": f"a{j}", "do": "eval", "spec": rng.choice(D)}
                pend.append(e["id"])
            elif r < 0.85 or not pend:
                e = {"id": f"a{j}", "do": "call", "spec": rng.choice(fam)}
                if rng.random() < 0.25:
                    p["trig"].append(self.fault(rng, e["id"], self.pr(e["spec"])))
            else:
                e = {"id": f"a{j}", "do": "diff", "of": pend.pop(rng.randrange(len(pend)))}
            if sh and e["do"] != "diff":
                e["share"] = sh
            lst.append(e)
        if not pend:
            e = {"id": "ax", "do": "eval", "spec": rng.choice(D)}
            if sh:
                e["share"] = sh
            lst.insert(0, e)
            pend.append("ax")
            e = {"id": "ay", "do": "call", "spec": rng.choice(fam)}
            if sh:
                e["share"] = sh
            lst.append(e)
        rng.shuffle(pend)
        diffs = [{"id": f"d{k}", "do": "diff", "of": o} for k, o in enumerate(pend)]
        if nt == 1:
            p["threads"] = {"0": lst + diffs}
            p["instr"] = bool(p["trig"])
        else:
            # another thread makes calls in between and differentiates
            other = []
            for k in range(rng.randint(1, 3)):
                e = {"id": f"b{k}", "do": "call", "spec": rng.choice(fam)}
                if sh:
                    e["share"] = sh
                other.append(e)
            cut = rng.randint(0, len(diffs))
            p["threads"] = {"0": lst + diffs[:cut], "1": other + diffs[cut:]}
            p["order"] = [0, 1]
            calls = [e for e in lst if e["do"] != "diff"]
            for _ in range(rng.randint(0, 2)):
                e = rng.choice(calls)
                p["trig"].append(self.switch(rng, e["id"], self.pr(e["spec"]), 2))
        self.setup(p, [e for e in lst if e.get("share")])
        return p


# runs per tier, calibrated for 8 cores
RUNS = {
    "quick": {"C01": 3600, "C02": 2300, "C03": 2500, "C04": 4000, "C05": 3200, "C06": 4000, "C07": 2000,
              "C08": 4000, "C09": 6000, "C10": 2000, "C11": 3000, "C12": 300, "C13": 2800, "C14": 3400,
              "C15": 2800},
}
RUNS["thorough"] = {k: v * 12 for k, v in RUNS["quick"].items()}
