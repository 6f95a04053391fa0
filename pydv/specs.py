"""The contracts, by property."""
import json, os
from engine import Contract

BY_NAME = {}      # (crate, function) -> Contract
INVS = {}         # crate -> {type: fn}
REFINE = {}       # crate -> {type: fn}
LOOPS = {}        # crate -> {(function, ordinal): spec}
CUSTOM = {}       # name -> fn(db, job) -> result
CUSTOM_PROPS = {}
SWEEPS = {}       # property -> [(crate, predicate on function name)]
LIMIT = {}        # property -> seconds of the quick tier
ASSUME = {}       # property -> [text]


def contract(name, crate="bladeink", **kw):
    full = name if name.startswith(("bladeink", "rinklecate", "<")) else crate + "::" + name
    c = Contract(full, **kw)
    c.crate = crate
    BY_NAME[(crate, full)] = c
    return c


def invariant(ty, crate="bladeink"):
    def deco(f):
        INVS.setdefault(crate, {})[ty] = f
        return f
    return deco


def refinement(ty, crate="bladeink"):
    """a fact of every value of the type, for types built in one go: proved where one is built, assumed where one is met"""
    def deco(f):
        REFINE.setdefault(crate, {})[ty] = f
        return f
    return deco


def refinements(db):
    from mir import canon
    pre = db.crate + "::"
    return {canon(k[len(pre):] if k.startswith(pre) else k): f for k, f in REFINE.get(db.crate, {}).items()}


def loop(fn, ordinal=None, crate="bladeink"):
    def deco(f):
        LOOPS.setdefault(crate, {})[(fn if fn.startswith("<") else crate + "::" + fn, ordinal)] = f
        return f
    return deco


def custom(name, props, crate="bladeink"):
    def deco(f):
        CUSTOM[name] = f
        CUSTOM_PROPS[name] = (tuple(props), crate)
        return f
    return deco


def effects(fn, ty, writes, props, hosts=(), crate="bladeink", requires=None):
    """fn keeps every field of its first argument (of type ty) but those named, and calls none of the host's methods but those named:
    shown by the effect analysis of the MIR (effects.py), used where fn is called"""
    import effects as ef
    full = crate + "::" + fn
    no = tuple(h for h in ef.HOST if h not in hosts)
    name = "effects of " + full

    def run(db, job):
        t = db.find_ty(ty) if ty else None
        fields = [] if not ty else [n for n, _ in t.fields(0) if n not in writes] if t is not None else ["type"]
        r = ef.job(db, full, ty or "story::Story", fields, no)
        r["job"] = job[:4]
        return r
    CUSTOM[name] = run
    CUSTOM_PROPS[name] = (tuple(props), crate)
    c = contract(fn, crate=crate, props=props, assume_only=True, frame=None, opts={"host_calls_kept": no},
                 requires=requires, ensures=lambda c: [] if not ty else [("kept", c.arg(0).same_except(c.pre.arg(0), *writes))])
    c.by_effects = True
    return c


def pure(fn, props, crate="bladeink"):
    """fn changes nothing that was there before it (effects.py): used where it is called, its result is arbitrary"""
    import effects as ef
    full = crate + "::" + fn
    name = "effects of " + full

    def run(db, job):
        r = ef.pure_job(db, full)
        r["job"] = job[:4]
        return r
    CUSTOM[name] = run
    CUSTOM_PROPS[name] = (tuple(props), crate)
    c = contract(fn, crate=crate, props=props, assume_only=True, frame=[], opts={"no_inv": True})
    c.by_effects = True
    return c


def lemma(name, props, steps, ensures, requires=None, crate="bladeink", budget=60):
    """what follows from the contracts alone of calls made one after the other: steps are (function, arguments), where the arguments are given
    by what the values so far are called"""
    full = "lemma " + name

    def run(db, job):
        import time
        from engine import Machine, State, Int as _I
        from view import Ctx
        import stdmodel
        t0 = time.time()
        M = Machine(db, contract_map(crate), stdmodel.Models(), {})
        M.invs, M.refine, M.loopspecs = invariants(db), refinements(db), loops(crate)
        M.deadline = t0 + budget
        M.cur_name = full
        M.cur_contract = Contract(full)
        M.panics = "check"
        st = State()
        st.nalloc = _I("nalloc0")
        st.assume(st.nalloc >= 1)
        vals = {}
        cons = []
        for f, args, out in steps:
            fn = db.find(crate + "::" + f)
            c = BY_NAME.get((crate, crate + "::" + f))
            if fn is None or c is None:
                return {"lost": True, "obs": [], "wall": 0, "job": job[:4]}
            cons.append((fn, c))
            for i, a in enumerate(args):
                if a not in vals and not any(a == o for _, _, o in steps):
                    vals[a] = (M.fresh_arg(st, fn.locals[i + 1], a), fn.locals[i + 1])

        class L:
            pass

        def ctx(s):
            c = Ctx(M, s)
            names = list(vals)
            c.args_vals, c.args_tys = [vals[n][0] for n in names], [vals[n][1] for n in names]
            c.v = lambda n: c.arg(names.index(n))
            return c
        c0 = ctx(st)
        for e, _ in M.inv_args(c0, mut_only=False):
            st.assume(e)
        for nm, e in (requires(c0) if requires else []):
            st.assume(e)
        r, _ = M.sp.check(st.pclist(), [], timeout=M.ob_timeout)
        o = M.ob(full + "::pre_satisfiable")
        o.n += 1
        if r == "unsat" or str(r) == "unsat":
            o.status = "undecided"
            o.detail = {"goal": "precondition contradictory: vacuous"}
        st.ghost["_uidmax"], st.ghost["_newmax"] = 0, 0
        pre = st.copy()
        try:
            states = [st]
            for (fn, con), (f, args, out) in zip(cons, steps):
                nxt = []
                for s in states:
                    for s2, v in M.apply_contract(s, con, fn, [(vals[a][0], fn.locals[i + 1]) for i, a in enumerate(args)], fn.locals[0], "lemma"):
                        if out is not None:
                            vals[out] = (v, fn.locals[0])
                        nxt.append(s2)
                states = nxt
            for s in states:
                c = ctx(s)
                c.pre = ctx(pre)
                o = M.ob(full + "::not_vacuous")
                o.n += 1
                if str(M.sp.check(s.pclist(), [], timeout=3000)[0]) == "unsat":
                    o.status = "undecided"
                    o.detail = {"goal": "the calls contradict each other: vacuous"}
                for nm, e in ensures(c):
                    M.prove(s, full + "::" + nm, e)
        except BaseException as e:
            o = M.ob(full + "::analysis")
            o.n += 1
            o.status = "undecided"
            o.detail = {"goal": "analysis incomplete", "reason": "%s: %s" % (type(e).__name__, str(e)[:300])}
            if M.opts.get("raise"):
                raise
        return {"job": job[:4], "obs": [{"n": o.name, "s": o.status, "k": o.n, "t": round(o.t, 3), "d": o.detail if o.status != "discharged" else None} for o in M.obs.values()],
                "wall": time.time() - t0, "paths": len(states), "used": sorted(M.used_contracts)}
    CUSTOM[full] = run
    CUSTOM_PROPS[full] = (tuple(props), crate)


def contract_map(crate):
    return {c.name: c for (cr, n), c in BY_NAME.items() if cr == crate and c.use}


def invariants(db):
    from mir import canon
    pre = db.crate + "::"
    return {canon(k[len(pre):] if k.startswith(pre) else k): f for k, f in INVS.get(db.crate, {}).items()}


def loops(crate):
    return LOOPS.get(crate, {})


def assumptions(prop):
    return ASSUME.get(prop, [])


def jobs(prop, db, base, thorough, update):
    out = []
    for (cr, n), c in BY_NAME.items():
        if prop in c.props and not c.assume_only:
            for case in c.opts.get("case_labels", (None,)):
                out.append(("contract", cr, n, case))
    for n, (props, cr) in CUSTOM_PROPS.items():
        if prop in props:
            out.append(("custom", cr, n, None))
    for cr, pred in SWEEPS.get(prop, []):
        if update:
            have = {n for (c2, n), c in BY_NAME.items() if c2 == cr and prop in c.props and not c.assume_only}
            for f in db(cr).fns.values():
                if f.local and "{closure" not in f.name and pred(f.name) and f.name not in have:
                    out.append(("sweep", cr, f.name, None))
    if not update:
        # the slow ones first
        for k, w in sorted(base.get("sweep", {}).items(), key=lambda kv: -kv[1]):
            cr, _, n = k.partition(" ")
            out.append(("sweep", cr, n, None))
    return out


from contracts import *  # noqa: E402,F401,F403
