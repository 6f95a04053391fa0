"""Frames read off the MIR: which fields of which types a function may write, and which host methods it may reach, through everything it calls.

An over-approximation: a frame it grants holds; one it refuses is merely not shown.
"""
from mir import canon

HOST = ("ErrorHandler::error", "VariableObserver::changed", "ExternalFunction::call")
_cache = {}


def strip(t):
    while t.k == "adt" and t.name in ("std::boxed::Box",) and t.args:
        t = t.args[0]
    return t


def place_types(db, fn, place):
    """[(type, field or None)] met from the local to the place; the last has None: the place's own type"""
    t = fn.locals[place[0]]
    out = []
    for p in place[1]:
        if p[0] == "*":
            t = t.elem if t.k in ("ref", "ptr") else (t.args[0] if t.args else t)
        elif p[0] == "f":
            out.append((t, p[1]))
            t = db.ty(p[2])
        elif p[0] == "d":
            pass
        else:
            e = getattr(t, "elem", None)
            t = e if e is not None else (t.args[0] if getattr(t, "args", None) else t)
    return out, t


def through_ref(db, fn, place):
    return any(p[0] == "*" for p in place[1])


def local_name(db, t):
    n = t.disp if t.k == "adt" else None
    return n


def field_name(t, i):
    try:
        return t.fields(0)[i][0]
    except Exception:
        return str(i)


class Effects:
    def __init__(self, db):
        self.db = db
        self.direct = {}
        self.calls = {}
        self.host = {}
        self.unknown = {}
        self.methods = {}
        self.cells = {}
        for f in db.fns.values():
            if f.local:
                self.methods.setdefault(f.name.split(">::")[-1] if f.name.startswith("<") else "", []).append(f)
        for f in db.fns.values():
            if f.local:
                self.scan(f)

    def scan(self, f):
        db = self.db
        w, cs, hs, un = set(), set(), set(), set()
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if through_ref(db, f, s[1]):
                    self.note(w, f, s[1])
                r = s[2]
                if r[0] == "ref" and r[1] and through_ref(db, f, r[2]):
                    # what is borrowed to be changed counts as changed, except a mere reborrow of the whole
                    if r[2][1][-1][0] != "*":
                        self.note(w, f, r[2], own=False)
                if r[0] == "agg" and r[1][0] == "closure":
                    cs.add(db.ty(r[1][1]).d["key"])
            t = b["t"]
            if t[0] != "call":
                continue
            c = t[1]
            if through_ref(db, f, t[3]):
                self.note(w, f, t[3])
            if not isinstance(c, dict):
                un.add("call of a value")
                continue
            u = c["u"]
            short = "::".join(u.split("::")[-2:])
            if c["kind"] == "virtual":
                if short in HOST:
                    hs.add(short)
                elif c.get("local"):
                    m = u.split("::")[-1]
                    for g in self.methods.get(m, ()):
                        cs.add(g.key)
                continue
            if c.get("r") in db.fns and db.fns[c["r"]].local:
                cs.add(c["r"])
                continue
            if c.get("local"):
                gs = db.byname.get(c["rn"]) or db.byname.get(u)
                if gs:
                    cs.update(g.key for g in gs)
                else:
                    # a trait's method whose receiver the compiler doesn't tell here: any implementation
                    m = self.methods.get(u.split("::")[-1], ())
                    if m:
                        cs.update(g.key for g in m)
                    else:
                        un.add(c["rn"])
                continue
            # a function of another crate: it may overwrite what it is lent
            if "Cell" in c.get("rn", u) and c.get("rn", u).split("::")[-1] not in ("borrow", "new", "get", "fmt", "drop", "into_inner"):
                self.cells.setdefault(f.key, set()).add(c.get("rn", u))
            for a in t[2]:
                if a[0] in ("copy", "move"):
                    ty = place_types(db, f, a[1])[1]
                    if ty.k == "ref" and ty.d.get("m"):
                        e = strip(ty.elem)
                        if e.k == "adt":
                            w.add((e.disp, "*"))
        self.direct[f.key], self.calls[f.key], self.host[f.key], self.unknown[f.key] = w, cs, hs, un

    def note(self, w, f, place, own=True):
        path, t = place_types(self.db, f, place)
        for ty, i in path:
            if ty.k == "adt":
                w.add((ty.disp, field_name(ty, i)))
        t = strip(t)
        if own and t.k == "adt":
            w.add((t.disp, "*"))

    def reach(self, key):
        seen, todo = {key}, [key]
        while todo:
            k = todo.pop()
            for c in self.calls.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return seen

    def of(self, fn):
        r = self.reach(fn.key)
        w, h, u = {}, {}, {}
        for k in r:
            n = self.db.fns[k].name
            for x in self.direct.get(k, ()):
                w.setdefault(x, n)
            for x in self.host.get(k, ()):
                h.setdefault(x, n)
            for x in self.unknown.get(k, ()):
                u.setdefault(x, n)
        return w, h, u


def pure_job(db, name):
    """the function writes to nothing that was there before it"""
    import time
    t0 = time.time()
    E = effects(db)
    fn = db.find(name)
    if fn is None:
        return {"lost": True, "obs": [], "wall": 0}
    w, h, u = E.of(fn)
    local = {t.disp for t in db.types if t.k == "adt" and not t.disp.startswith(("std::", "core::", "alloc::"))}
    short = name.replace(db.crate + "::", "")
    cells = sorted({x for k in E.reach(fn.key) for x in E.cells.get(k, ())})
    obs = []
    for n, bad in (("known_callees", u), ("writes_no_field", sorted("%s.%s in %s" % (a, b, v) for (a, b), v in w.items() if a in local)), ("writes_no_cell", cells), ("calls_no_host", h)):
        obs.append({"n": "%s::effects:%s" % (short, n), "s": "undecided" if bad else "discharged", "k": 1, "t": 0, "d": {"goal": "pure", "reason": str(bad)[:300]} if bad else None})
    return {"obs": obs, "wall": time.time() - t0, "paths": 0}


def effects(db):
    if db.crate not in _cache:
        _cache[db.crate] = Effects(db)
    return _cache[db.crate]


def job(db, name, ty, fields, hosts):
    """one obligation per field kept, and per host method not called"""
    import time
    t0 = time.time()
    E = effects(db)
    fn = db.find(name)
    if fn is None:
        return {"lost": True, "obs": [], "wall": 0}
    w, h, u = E.of(fn)
    short = name.replace(db.crate + "::", "")
    obs = []

    def ob(n, bad):
        obs.append({"n": "%s::effects:%s" % (short, n), "s": "undecided" if bad else "discharged", "k": 1, "t": 0,
                    "d": {"goal": "no write on any way through", "reason": str(bad)[:300]} if bad else None})
    disp = None
    for t in db.types:
        if t.k == "adt" and (t.disp == canon(ty) or t.disp.endswith("::" + ty)) and not t.args:
            disp = t.disp
    ob("known_callees", u and sorted("%s in %s" % x for x in u.items()))
    for f in fields:
        bad = [(x, w[x]) for x in ((disp, f), (disp, "*")) if x in w]
        ob("keeps_%s" % f, bad if disp else "type %s not found" % ty)
    for x in hosts:
        ob("no_call_of_%s" % x.replace("::", "_"), h.get(x))
    return {"obs": obs, "wall": time.time() - t0, "paths": 0}
