#!/usr/bin/env python3
"""Verifies again, on the MIR just dumped, every contract that bears on one property.

    prove.py PROP --mir DIR --out FILE [--tier quick|thorough] [--update-baseline]

An obligation of baseline/PROP.json (the ones discharged on the committed tree) that the solver now refutes is `broken`.
One that is merely undecided, or whose function is gone, is reported as such and left to the bounded part.
"""
import sys, os, json, time, argparse, traceback
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
from engine import Machine, Contract, DB
import stdmodel, specs

DBS = {}
ARGS = None


def db(crate):
    if crate not in DBS:
        DBS[crate] = DB(os.path.join(ARGS["mir"], crate + ".json"))
    return DBS[crate]


def machine(crate):
    M = Machine(db(crate), specs.contract_map(crate), stdmodel.Models(), {})
    M.invs = specs.invariants(db(crate))
    M.refine = specs.refinements(db(crate))
    M.loopspecs = specs.loops(crate)
    return M


def run(job):
    kind, crate, name, case, budget = job
    t = time.time()
    try:
        M = machine(crate)
        if kind.startswith("refute "):
            M.unroll = 2
            kind = kind[7:]
        if kind == "contract":
            c = specs.BY_NAME[(crate, name)]
            fn = M.db.find(c.opts.get("fn_name", c.name))
            if fn is None:
                return {"job": job[:4], "lost": True, "obs": [], "wall": 0}
            own = dict(M.contracts)
            own.pop(c.opts.get("fn_name", c.name), None) if not c.opts.get("recursive") else None
            M.contracts = own
            c.opts["fn"] = fn
        elif kind == "custom":
            r = specs.CUSTOM[name](db(crate), job)
            r["job"] = job[:4]
            return r
        else:
            fs = [f for f in M.db.fns.values() if f.name == name and f.local]
            if len(fs) != 1:
                return {"job": job[:4], "lost": True, "obs": [], "wall": 0}
            M.contracts = {k: v for k, v in M.contracts.items() if k != name}
            c = specs.BY_NAME.get((crate, name))
            if c is None or c.assume_only:
                c = Contract(name, frame=None)
            c.opts["fn"] = fs[0]
        M.verify(c, budget=budget, case=case)
        own = prop_of(c, name, kind)
        obs = [{"n": o.name, "s": o.status, "k": o.n, "t": round(o.t, 3), "d": o.detail if o.status != "discharged" else None} for o in M.obs.values() if own(o.name)]
        return {"job": job[:4], "obs": obs, "wall": time.time() - t, "paths": M.npaths, "used": sorted(M.used_contracts), "havoc": sorted(M.havocked),
                "models": sorted(M.modelled), "inlined": sorted(M.inlined), "events": [list(map(str, e)) for e in M.events]}
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return {"job": job[:4], "obs": [{"n": "%s::analysis" % name, "s": "undecided", "k": 1, "t": 0,
                                         "d": {"goal": "analysis incomplete", "reason": "%s %s @%s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)}}],
                "wall": time.time() - t}


def prop_of(c, name, kind):
    """a sweep is about panics: what else a function promises is decided by the properties its contract is of"""
    if kind != "sweep":
        return lambda n: True
    short = name.replace("bladeink::", "").replace("rinklecate::", "")
    return lambda n: not n.startswith(tuple(x + y for x in (name, short) for y in ("::ensures:", "::frame")))


def n_in(n, baseline):
    return n in baseline or n.endswith("::analysis")


def init(a):
    global ARGS
    ARGS = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def main():
    global ARGS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--mir", required=True)
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--update-baseline", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    ARGS = {"mir": a.mir}
    base_file = os.path.join(HERE, "baseline", a.prop + ".json")
    base = json.load(open(base_file)) if os.path.exists(base_file) else {"obligations": {}, "sweep": {}}
    thorough = a.tier == "thorough" or a.update_baseline
    B = 150 if thorough else 45
    jobs = specs.jobs(a.prop, db, base, thorough, a.update_baseline)
    jobs = [(k, cr, n, case, 30 if k == "sweep" else B) for k, cr, n, case in jobs]
    t0 = time.time()
    limit = 400 if thorough else specs.LIMIT.get(a.prop, 130)
    results = []
    skipped = []
    if jobs:
        with Pool(a.jobs or min(8 if thorough else 6, len(jobs)), init, (ARGS,), maxtasksperchild=25) as p:
            it = [(j, p.apply_async(run, (j,))) for j in jobs]
            for j, r in it:
                left = (3600 if a.update_baseline else limit) - (time.time() - t0)
                try:
                    results.append(r.get(timeout=max(0.05, left)))
                except Exception:
                    skipped.append("%s %s%s" % (j[0], j[2], " @" + j[3] if j[3] else ""))
            p.terminate()
    baseline = base["obligations"]
    # what was discharged on the committed tree and no longer is: looked for on the paths that stay within two rounds of
    # every loop, where a refutation owes nothing to an invariant
    again = []
    if not a.update_baseline:
        for r in results:
            if r["job"][0] in ("contract", "sweep") and any(o["s"] != "discharged" and n_in(o["n"], baseline) for o in r["obs"]):
                bad = [o for o in r["obs"] if o["s"] == "failed" and o["n"] in baseline and "~loop" not in ((o["d"] or {}).get("flags") or ())]
                if not bad:
                    again.append(("refute " + r["job"][0],) + tuple(r["job"][1:4]) + (45,))
    refuted = {}
    if again:
        t1 = time.time()
        with Pool(min(8, len(again)), init, (ARGS,), maxtasksperchild=25) as p:
            for j, r in [(j, p.apply_async(run, (j,))) for j in again]:
                try:
                    x = r.get(timeout=max(0.05, 110 - (time.time() - t1)))
                except Exception:
                    continue
                for o in x["obs"]:
                    if o["s"] == "failed":
                        refuted[o["n"]] = o
            p.terminate()
    obs = {}
    for r in results:
        for o in r["obs"]:
            p = obs.get(o["n"])
            if p is not None:
                order = ("discharged", "undecided", "failed")
                worst = max(o["s"], p["s"], key=order.index)
                d = o["d"] if o["s"] == worst else p["d"]
                o = dict(o, s=worst, d=d, k=o["k"] + p["k"], t=o["t"] + p["t"])
            obs[o["n"]] = o
    for n, o in refuted.items():
        if n in obs and obs[n]["s"] != "discharged" and n in baseline:
            obs[n] = dict(obs[n], s="failed", d=o["d"])
    broken, undecided, new_failed = [], [], []
    for n, o in sorted(obs.items()):
        if o["s"] == "discharged":
            continue
        ent = {"obligation": n, "status": o["s"], "goal": (o["d"] or {}).get("goal"), "reason": (o["d"] or {}).get("reason"), "flags": (o["d"] or {}).get("flags")}
        # after a loop the solver knows no more than the invariant says: an alarm of that kind needs an invariant known to fit the loop
        if o["s"] == "failed" and n in baseline and "~loop" not in (ent["flags"] or ()):
            ent["verifier_output"] = o["d"]
            broken.append(ent)
        else:
            undecided.append(ent)
    lost = [" ".join(r["job"][1:3]) for r in results if r.get("lost")]
    fns = sorted({r["job"][2] for r in results if not r.get("lost") and r["obs"] and all(o["s"] == "discharged" for o in r["obs"])})
    used = sorted({u for r in results for u in r.get("used", [])})
    assumed = sorted(c.name for (cr, n), c in specs.BY_NAME.items() if c.assume_only and c.name in used and not getattr(c, "by_effects", False))
    out = {
        "obligations": sum(o["k"] for o in obs.values()), "discharged": sum(o["k"] for o in obs.values() if o["s"] == "discharged"),
        "named_obligations": len(obs), "named_discharged": sum(1 for o in obs.values() if o["s"] == "discharged"),
        "back_end": "z3 %s" % z3.get_version_string(), "solver_s": round(sum(o["t"] for o in obs.values()), 2), "wall_s": round(time.time() - t0, 2),
        "functions": fns, "inlined_functions": sorted({u for r in results for u in r.get("inlined", [])}), "callee_contracts_used": used,
        "broken": broken, "undecided": undecided, "lost": lost, "not_run_in_time": skipped, "tried_to_refute": [j[2] + (" @" + j[3] if j[3] else "") for j in again],
        "trusted": ["pydv (VC generator over rustc MIR)", "z3", "models of std functions: " + ", ".join(sorted({m for r in results for m in r.get("models", [])}))],
        "assumptions": ["contract assumed, not proved: " + n for n in assumed] + specs.assumptions(a.prop)
                       + sorted({"call left arbitrary: " + h for r in results for h in r.get("havoc", [])}),
        "per_function": [{"fn": r["job"][2] + (" @" + r["job"][3] if r["job"][3] else ""), "kind": r["job"][0], "wall": round(r["wall"], 2), "paths": r.get("paths"),
                          "status": "lost" if r.get("lost") else ("discharged" if all(o["s"] == "discharged" for o in r["obs"]) else "open")} for r in results],
    }
    if a.update_baseline:
        ok = {n: 1 for n, o in sorted(obs.items()) if o["s"] == "discharged"}
        sw = {}
        for r in results:
            if r["job"][0] == "sweep" and r["obs"] and all(o["s"] == "discharged" for o in r["obs"]) and r["wall"] < 40:
                sw[r["job"][1] + " " + r["job"][2]] = round(r["wall"], 1)
        os.makedirs(os.path.dirname(base_file), exist_ok=True)
        json.dump({"obligations": ok, "sweep": sw}, open(base_file, "w"), indent=0, sort_keys=True)
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1)
    print("obligations %(obligations)d discharged %(discharged)d, named %(named_discharged)d/%(named_obligations)d, wall %(wall_s)s" % out)
    for u in broken:
        print("BROKEN", u["obligation"], u["goal"])
    for u in undecided:
        print("open  ", u["status"], u["obligation"], str(u["goal"])[:140], u["reason"] or "", u["flags"] or "")
    for l in lost:
        print("lost  ", l)


if __name__ == "__main__":
    main()
