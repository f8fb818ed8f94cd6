"""Checks and replay."""
from __future__ import annotations

import copy
import json
import os
import random
import sys
import time

from . import boot

T0 = time.monotonic()
boot.load(warm=False)

from . import gen, mem, ops, run, sched, seams, work  # noqa: E402

sched.prepare()

LOGS = os.environ.get("DST_LOGS")      # file for the event-log hash of every run
KNOWN = os.path.join(boot.VERIF, "known-findings.txt")
REPLAYS = os.environ.get("DST_REPLAYS", os.path.join(boot.VERIF, "replays"))


def now():
    return seams.real_time() - T0


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ children
def child(plan):
    ops.IGNORE_RG[0] = bool(plan.get("loose"))
    if plan.get("mem"):
        return mem.go(plan)
    return run.Runner(plan).go()


def run_plan(plan, timeout=40.0, abort=None):
    """-> (violations, result or None); raises on harness errors."""
    st, val = work.in_child(child, plan, timeout=timeout)
    if st == "hang":
        st, val = work.in_child(child, plan, timeout=3 * timeout)
        if st == "hang":
            v = {"prop": plan["prop"], "cls": "hang", "op": "",
                 "msg": f"no answer within {3 * timeout:.0f} s of real time"}
            return [v], None
    if st == "died":
        v = {"prop": plan["prop"], "cls": "crash", "op": "",
             "msg": f"process died (wait status {val})"}
        return [v], None
    if st == "error":
        raise RuntimeError(val)
    viol = val["viol"]
    if any(v["cls"] == "suspect" for v in viol):
        for w, n, skip in ((80, 13, 5), (260, 12, 6)):
            q = {**plan, "window": w, "windows": n, "skip": skip}
            q["confirm"] = w > 100
            if abort is not None and abort():
                break          # another worker has already found a violation
            st, v2 = work.in_child(child, q, timeout=600)
            if st == "error":
                raise RuntimeError(v2)
            if st != "ok":
                break
            if not any(x["cls"] in ("suspect", "growth") for x in v2["viol"]):
                viol = [x for x in viol if x["cls"] != "suspect"]
                break
            viol = v2["viol"]
        viol = [x for x in viol if x["cls"] != "suspect"]
    return viol, val


def relevant(plan, viol):
    """Violations of the property the plan is about."""
    if plan["prop"] == "C13":
        return [v for v in viol if v["cls"] in ("deadlock", "livelock", "hang")]
    if plan["prop"] in ("C05", "C07"):
        # judged by snapshots only; a run that got stuck is C13's business
        return [v for v in viol if v["cls"] in ("args", "ambient")]
    return [v for v in viol if v["cls"] not in ("suspect",)]


def judged(plan, abort=None):
    """Run a plan and return the violations that count."""
    viol, val = run_plan(plan, abort=abort)
    bad = relevant(plan, viol)
    if bad and plan["prop"] == "C03" and val is not None:
        bad = control_c03(plan, bad, val)
    bad = [v for v in bad if not noise(v)]
    for v in viol:
        v.pop("cmp", None)
    return bad, val


def noise(v):
    """Is the difference explained by the conditioning of that very call?"""
    if not v.get("cmp"):
        return False
    spec, part, out = v["cmp"]
    st, outs = work.in_child(run.noise_child, spec, timeout=60)
    if st != "ok":
        return False
    if part is not None:
        if any(o[0] != "L" for o in outs):
            return False
        outs = [o[1][part] for o in outs]
    return ops.only_noise(out, outs[0], outs[1:])


def control_c03(plan, bad, val):
    """Would the later call have been right without the failed calls?"""
    drop = set(val["failed"])
    q = copy.deepcopy(plan)
    for t in q["threads"]:
        q["threads"][t] = [e for e in q["threads"][t] if e["id"] not in drop]
    q["trig"] = [t for t in q["trig"] if t["op"] not in drop and t["kind"] in ("sw", "gc", "clk")]
    q["checks"] = ["ref"]
    v2, _ = run_plan(q)
    also = {v["op"] for v in v2 if v["cls"] == "result"}
    stuck = any(v["cls"] in ("deadlock", "livelock", "hang", "crash") for v in v2)
    return [v for v in bad if not (v["op"] in also or (v["op"] == "" and stuck))]


# ------------------------------------------------------------------ oracles
def oracle_phase(specs, cold_specs, P, want_prof=True):
    """Reference values and profiles, each from a fresh process."""
    jobs = [("p" if want_prof else "o", s) for s in specs]
    cold = [("c", s) for s in cold_specs] if want_prof else []

    def worker(w, nw, send):
        work.settle()
        out = []
        for k, s in cold[w::nw]:
            st, v = work.in_child(run.profile_child, s, timeout=120)
            out.append((k, ops.key(s), st, v))
        work.warm_up()
        work.settle()
        for k, s in jobs[w::nw]:
            f = run.oracle_child if k == "o" else run.profile_child
            st, v = work.in_child(f, s, timeout=60)
            if st == "hang":
                st, v = work.in_child(f, s, timeout=120)
            out.append((k, ops.key(s), st, v))
        send(("res", out))

    O, PR, CP, bad = {}, {}, {}, []
    for m in P.map(worker):
        if m[0] == "fail":
            raise RuntimeError(m[1])
        for k, q, st, v in m[1]:
            if k == "o":
                if st == "ok":
                    O[q] = v
                else:
                    bad.append((q, st, v))
            elif st == "error":
                raise RuntimeError(v)
            elif k == "p":
                # the profiled run is itself a call made alone in a fresh process
                if st == "ok" and "out" in v:
                    O[q] = {"out": v.pop("out")}
                    PR[q] = v
                else:
                    bad.append((q, st, v))
            elif st == "ok":
                v.pop("out", None)
                CP[q] = v
    return O, PR, CP, bad


# ------------------------------------------------------------------ shrinking
def same_class(a, b):
    return bool({v["cls"] for v in a} & {v["cls"] for v in b})


def shrink(plan, bad, budget):
    """Delete plan elements while the same class of violation persists."""
    t_end = seams.real_time() + budget
    cur, curbad = copy.deepcopy(plan), bad
    tries = 0

    def attempt(q):
        nonlocal cur, curbad, tries
        if seams.real_time() > t_end:
            return False
        tries += 1
        try:
            b, _ = judged(q)
        except RuntimeError:
            return False
        if b and same_class(b, curbad):
            cur, curbad = q, b
            return True
        return False

    if plan.get("mem"):
        if len(cur["specs"]) > 1 and len(set(map(ops.key, cur["specs"]))) == 1:
            cur["specs"] = cur["specs"][:1]
        for s in list(cur["specs"]):
            if len(cur["specs"]) > 1:
                q = copy.deepcopy(cur)
                q["specs"].remove(s)
                attempt(q)
        for k in list(cur.get("faults") or {}):
            q = copy.deepcopy(cur)
            q["faults"].pop(k)
            attempt(q)
        return cur, curbad, tries
    # simpler schedules first
    if cur.get("quantum"):
        for qn in (16384, 4096, 1024):
            if qn > cur["quantum"]:
                q = copy.deepcopy(cur)
                q["quantum"] = qn
                if attempt(q):
                    break
    progress = True
    while progress and seams.real_time() < t_end:
        progress = False
        # triggers
        for size in (4, 1):
            i = 0
            while i < len(cur["trig"]):
                q = copy.deepcopy(cur)
                del q["trig"][i: i + size]
                if attempt(q):
                    progress = True
                else:
                    i += size
        # operations
        for t in list(cur["threads"]):
            for size in (32, 8, 2, 1):
                i = 0
                while i < len(cur["threads"][t]):
                    q = copy.deepcopy(cur)
                    gone = {e["id"] for e in q["threads"][t][i: i + size]}
                    del q["threads"][t][i: i + size]
                    q["trig"] = [x for x in q["trig"] if x["op"] not in gone]
                    if attempt(q):
                        progress = True
                    else:
                        i += size
        # sharing and plug-ins
        for t in cur["threads"]:
            for j, e in enumerate(cur["threads"][t]):
                for k in ("share", "buf", "cb"):
                    if cur["threads"][t][j].get(k):
                        q = copy.deepcopy(cur)
                        q["threads"][t][j].pop(k)
                        if attempt(q):
                            progress = True
        for k in ("setup", "pre"):
            i = 0
            while i < len(cur.get(k) or []):
                q = copy.deepcopy(cur)
                del q[k][i]
                if not attempt(q):
                    i += 1
    return cur, curbad, tries


# ------------------------------------------------------------------ search
def search(G, runs, P, wall):
    t_stop = seams.real_time() + wall

    def worker(w, nw, send):
        agg = {"runs": 0, "steps": 0, "switches": 0, "faults": {}, "pairs": set(), "stats": {}, "ops": 0,
               "clock": 0.0, "logs": set(), "sample": None, "nontrivial": 0, "unrepro": [], "cold": 0,
               "runlogs": {}}
        mine = [(i, G.plan(i)) for i in range(w, runs, nw)]
        work.settle()

        def go(i, plan):
            bad, val = judged(plan, P.stopped)
            agg["runs"] += 1
            agg["cold"] += bool(plan["cold"])
            if val is not None:
                for k in ("steps", "switches", "ops", "clock"):
                    agg[k] += val[k]
                for k, n in val["faults"].items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + n
                for k, n in val["stats"].items():
                    agg["stats"][k] = agg["stats"].get(k, 0) + n
                agg["pairs"] |= val["pairs"]
                h = val["log"][:16]
                if LOGS:
                    agg["runlogs"][i] = val["log"]
                if h not in agg["logs"]:
                    agg["logs"].add(h)
                    if nontrivial(plan, val):
                        agg["nontrivial"] += 1
                if agg["sample"] is None and i >= 3:
                    agg["sample"] = brief_plan(plan, val)
            if not bad:
                return
            # must reproduce in a fresh process
            if plan.get("mem") and P.stopped():
                return
            again, _ = judged(plan)
            if not (again and same_class(again, bad)):
                again, _ = judged(plan)
            if not (again and same_class(again, bad)):
                agg["unrepro"].append({"i": i, "viol": bad[:2]})
                return
            P.stop()
            small, b2, tries = shrink(plan, again, 60.0 if G.tier == "quick" else 240.0)
            send(("viol", i, plan, small, b2, tries))

        def batch(sel):
            for i, plan in sel:
                if P.stopped() or seams.real_time() > t_stop:
                    return
                go(i, plan)

        batch([x for x in mine if x[1]["cold"]])
        work.warm_up()
        work.settle()
        batch([x for x in mine if not x[1]["cold"]])
        send(("agg", agg))

    viols, total = [], None

    def on_msg(m):
        nonlocal total
        if m[0] == "viol":
            viols.append(m[1:])
            log(f"violation in run {m[1]}: {m[4][0]['msg'][:300]}")
        elif m[0] == "agg":
            a = m[1]
            if total is None:
                total = {**a, "samples": []}
            else:
                for k, v in a.items():
                    if k == "sample":
                        continue
                    if k in ("pairs", "logs", "runlogs"):
                        total[k] |= v
                    elif isinstance(v, dict):
                        for kk, n in v.items():
                            total[k][kk] = total[k].get(kk, 0) + n
                    elif isinstance(v, list):
                        total[k] = total[k] + v
                    elif isinstance(v, (int, float)) and not isinstance(v, bool):
                        total[k] += v
            if a["sample"] is not None:
                total["samples"].append(a["sample"])
        elif m[0] == "fail":
            raise RuntimeError(m[1])

    P.map(worker, on_msg=on_msg)
    return viols, total


def nontrivial(plan, val):
    """A run that exercised what the property is about."""
    if plan.get("mem"):
        return val["ops"] >= 20
    if plan["prop"] in ("C01",):
        return val["switches"] > 0
    if plan["prop"] in ("C03", "C04"):
        return bool(val["faults"]) or val["nfailed"] > 0
    if plan["prop"] in ("C05", "C07"):
        return val["stats"].get("probes", 0) > 0
    return val["ops"] >= 2 or bool(val["faults"]) or val["switches"] > 0


def brief_plan(plan, val):
    p = {k: plan[k] for k in ("i", "cold", "quantum", "scope", "trig", "specs", "window", "windows") if plan.get(k)}
    p["threads"] = {
        t: [e.get("do", "call") + " " + (run.describe(e["spec"]) if "spec" in e else
                                         json.dumps({k: v for k, v in e.items() if k not in ("id", "do", "base")}))
            + (" share=" + ",".join(e["share"]) if e.get("share") else "")
            for e in lst[:8]] for t, lst in plan["threads"].items()}
    p["trig"] = plan["trig"][:6]
    p["log"] = val["log"]
    p["steps"] = val["steps"]
    return p


# ------------------------------------------------------------------ check
def known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line)
    return out


def check(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = int(os.environ.get("DST_RUNS", "0")) or gen.RUNS[tier][prop]
    log(f"{prop}: seed={seed} tier={tier} runs={runs} workers={work.NW} repo={boot.REPO}")
    try:
        return _check(prop, tier, seed, runs)
    except Exception:
        import traceback

        traceback.print_exc()
        log("HARNESS ERROR (no verdict)")
        return 3


def _check(prop, tier, seed, runs):
    G = gen.Gen(prop, seed, tier)
    P = work.Pool()
    t1 = now()
    specs = G.specs()
    cold = G.cold_specs if prop in ("C01", "C03", "C04", "C07", "C10", "C13") else []
    O, PR, CP, obad = oracle_phase(specs, cold, P, want_prof=prop not in ("C02", "C06", "C11"))
    run.ORACLE.update(O)
    G.prof, G.cprof = PR, CP
    G.index()
    t2 = now()
    log(f"{prop}: boot {t1:.1f} s, {len(specs)} reference calls and profiles {t2 - t1:.1f} s")
    if obad:
        # a call that hangs or kills the process when made alone
        if prop == "C13" and any(x[1] == "hang" for x in obad):
            q, st, v = obad[0]
            plan = {"prop": prop, "seed": seed, "i": -1, "cold": False, "trig": [], "checks": ["progress"],
                    "threads": {"0": [{"id": "a0", "do": "call", "spec": json.loads(q)}]}, "instr": False}
            return report(prop, tier, seed, [(-1, plan, plan, [{"prop": prop, "cls": "hang", "op": "a0",
                          "msg": "a single call does not return"}], 0)], None, t2, runs)
        raise RuntimeError(f"reference call failed: {obad[0]}")
    wall = float(os.environ.get("DST_WALL", "0")) or (420.0 if tier == "quick" else 5400.0)
    viols, tot = search(G, runs, P, wall)
    if LOGS and tot:
        with open(LOGS, "w") as fp:
            json.dump({str(k): v for k, v in sorted(tot["runlogs"].items())}, fp)
    log(f"{prop}: {tot['runs'] if tot else 0} runs in {now() - t2:.1f} s")
    return report(prop, tier, seed, viols, tot, t2, runs)


def report(prop, tier, seed, viols, tot, t2, runs):
    viols = sorted(viols, key=lambda v: v[0])
    paths = []
    for i, plan, small, bad, tries in viols[:3]:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-s{seed}-r{i}.json")
        with open(path, "w") as fp:
            json.dump({"property": prop, "seed": seed, "run": i, "violation": bad[:3], "plan": small,
                       "original": plan, "shrink_runs": tries}, fp, indent=1)
        paths.append((path, bad))
    evidence(prop, tier, seed, viols, tot, t2, runs)
    for line in known():
        if f"property={prop} " in line:
            print("KNOWN-FINDING: " + line.split(":", 1)[1].strip())
    for path, bad in paths:
        print(f"{prop}: {bad[0]['cls']}: {bad[0]['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    if tot and tot["unrepro"]:
        log(f"{prop}: {len(tot['unrepro'])} runs did not reproduce (not reported): {tot['unrepro'][:2]}")
    if not paths:
        print(f"{prop}: held on {tot['runs']} simulated runs "
              f"({len(tot['logs'])} distinct, {sum(tot['faults'].values())} faults and events injected, "
              f"{tot['switches']} context switches)")
    sys.stdout.flush()
    return 1 if paths else 0


RULE = {
    "C01": "a run is non-trivial if at least one context switch happened inside a call",
    "C03": "a run is non-trivial if at least one call failed or was interrupted and later calls were judged",
    "C04": "a run is non-trivial if at least one fault was raised inside a call",
    "C05": "a run is non-trivial if the arguments were compared at least once inside a call",
    "C07": "a run is non-trivial if the process state was compared at least once inside a call",
    "C12": "a run is non-trivial if the history has at least 20 calls",
}


def evidence(prop, tier, seed, viols, tot, t2, runs):
    d = os.environ.get("DST_EVID") or os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    wall = now()
    t = tot or {"runs": 0, "logs": set(), "samples": [], "nontrivial": 0, "steps": 0, "switches": 0, "faults": {},
                "pairs": set(), "stats": {}, "ops": 0, "clock": 0.0, "unrepro": [], "cold": 0}
    sw = max(1e-6, wall - t2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t["runs"],
            "distinct_nontrivial": t["nontrivial"],
            "rule": "plans drawn from (property, seed, index); distinct by the hash of the event log and all results; "
                    + RULE.get(prop, "a run is non-trivial if it made two or more operations, or a fault or "
                                     "context switch struck inside one"),
            "samples": t["samples"][:4],
            "distinct_event_logs": len(t["logs"]),
            "calls_executed": t["ops"],
            "runs_requested": runs,
            "runs_per_hour": round(t["runs"] / sw * 3600),
            "simulated_steps": t["steps"],
            "simulated_seconds": round(t["clock"], 3),
            "context_switches": t["switches"],
            "distinct_suspension_points": len(t["pairs"]),
            "faults_and_events_injected": dict(sorted(t["faults"].items())),
            "simulator_counters": dict(sorted(t["stats"].items())),
            "cold_starts": t["cold"],
            "reference_calls": len(run.ORACLE),
            "unreproduced": len(t["unrepro"]),
            "real_components": ["tad_dftd4 (all modules, compiled from the working tree)", "tad_mctc",
                                "tad_multicharge", "opt_einsum", "tomli", "torch CPU kernels and autograd"],
            "simulated_components": ["choice of the running thread", "locks, thread start and join, import locks",
                                     "clock and sleep", "reads of parameter and data files (real bytes)",
                                     "allocation, kernel, import, file and interrupt faults"],
        },
        "assumptions": [
            "a context switch happens between two bytecode instructions of the library (or, in part of the runs, of its "
            "Python dependencies), never inside a torch kernel",
            "CPU only; one torch thread per simulated thread",
            "values are compared with a relative tolerance of 1e-13 (double) and 5e-7 (single) of the largest entry; 20 and 2000 times that for first and second derivatives",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(d, f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)


# ------------------------------------------------------------------ replay
def specs_of(plan):
    out = []
    for lst in list(plan["threads"].values()):
        for e in lst:
            if e.get("do") in ("call", "eval", None) and "spec" in e:
                out.append(e["spec"])
            if e.get("cb", {}).get("spec"):
                out.append(e["cb"]["spec"])
            if e.get("do") == "calc":
                out += gen.term_specs()
    seen, res = set(), []
    for s in out:
        k = ops.key(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


def replay(argv):
    doc = json.load(open(argv[0]))
    plan = doc.get("plan", doc)
    if "--original" in argv:
        plan = doc["original"]
    if "-v" in argv:
        plan["trace"] = True
    P = work.Pool()
    O, _, _, bad = oracle_phase(specs_of(plan), [], P, want_prof=False)
    run.ORACLE.update(O)
    n = int(os.environ.get("DST_REPEAT", "1"))
    res = []

    def worker(w, nw, send):
        work.settle()
        if not plan.get("cold"):
            work.warm_up()
            work.settle()
        for _ in range(n):
            b, val = judged(plan)
            send(("r", b, val and val["log"], val and val.get("trace")))

    for m in P.map(worker, nw=1):
        if m[0] == "fail":
            print(m[1])
            return 3
        res.append(m[1:])
    for b, h, tr in res:
        for x in tr or []:
            print("  ", x)
        print("event log", h)
        for v in b:
            print(f"{v['cls']}: op {v['op']}: {v['msg']}")
    if any(b for b, _, _ in res):
        print(f"VIOLATION property={plan['prop']} replay={os.path.abspath(argv[0])}")
        return 1
    print("no violation")
    return 0
