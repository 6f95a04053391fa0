"""Who owns whom, read off the compiler's types: that no value can come to own itself through counted references.

A counted reference is stored when its owner is built; what exists by then cannot hold the owner. A circle can only be closed later, by a write
through a cell. So: what a cell may hold must not lead, by owning, to a type that has such a cell. Weak and borrowed references own nothing.
What stands behind `dyn` is what the program casts to it; the host's own objects (observers, handlers, external functions) are the host's.
"""
CELLS = ("std::cell::RefCell", "std::cell::Cell", "std::cell::OnceCell", "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::cell::LazyCell", "std::cell::UnsafeCell")
WEAK = ("std::rc::Weak", "std::sync::Weak")
HOSTS = ("ErrorHandler", "VariableObserver", "ExternalFunction")
FORGET = ("mem::forget", "Box::<T>::leak", "Box::<T, A>::leak", "Rc::<T>::new_cyclic", "Rc::<T, A>::into_raw", "Rc::<T>::into_raw", "ManuallyDrop::<T>::new", "Box::<T, A>::into_raw", "Box::<T>::into_raw",
          "Vec::<T, A>::leak", "String::leak", "Rc::<T, A>::increment_strong_count", "Rc::<T>::increment_strong_count", "transmute", "ptr::write")


class Owners:
    def __init__(self, db):
        self.db = db
        self.casts = {}
        for f in db.fns.values():
            if not f.local:
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast":
                        self.cast(f, s)
        self.memo = {}

    def pointee(self, t):
        while t.k in ("ref", "ptr") or (t.k == "adt" and t.name in ("std::rc::Rc", "std::boxed::Box", "std::cell::RefCell")):
            t = t.elem if t.k in ("ref", "ptr") else t.args[0]
        return t

    def cast(self, f, s):
        from effects import place_types
        dst = self.pointee(place_types(self.db, f, s[1])[1])
        if dst.k != "dyn":
            return
        op = s[2][2] if isinstance(s[2][2], list) else s[2][1]
        if op[0] in ("copy", "move"):
            src = self.pointee(place_types(self.db, f, op[1])[1])
            if src.k != "dyn":
                self.casts.setdefault(dst.disp, {})[src.id] = f.name

    def edges(self, t):
        """[(type, through a counted reference)]"""
        if t.k in ("ref", "ptr", "fnptr", "fndef", "int", "float", "bool", "str", "char", "never"):
            return []
        if t.k in ("tuple", "array", "slice"):
            d = t.d
            if t.k == "tuple":
                return [(self.db.ty(x), False) for x in d.get("a", d.get("t", []))]
            return [(t.elem, False)]
        if t.k == "closure":
            return [(x, False) for x in t.upvars()]
        if t.k == "dyn":
            return [(self.db.ty(i), False) for i in self.casts.get(t.disp, {})]
        if t.k == "adt":
            if t.name in WEAK:
                return []
            if t.name in ("std::rc::Rc", "std::sync::Arc"):
                return [(t.args[0], True)]
            if t.name.startswith(("std::", "core::", "alloc::", "serde", "rand")) or not t.variants:
                return [(a, False) for a in t.args]
            return [(x, False) for v in range(len(t.variants)) for _, x in t.fields(v)]
        return []

    def cells_of(self, t):
        """the cells of a field of type t itself, not those of the values of this program's types behind it"""
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "adt" and x.name in CELLS:
                out.append(x)
            if x.k == "dyn" or (x.k == "adt" and x.name.startswith(self.db.crate + "::")):
                continue
            todo.extend(y for y, _ in self.edges(x))
        return out

    def reach(self, t):
        """types owned by t, each with the way there"""
        if t.id in self.memo:
            return self.memo[t.id]
        seen = {}
        todo = [(x, (t.disp, x.disp)) for x, _ in self.edges(t)]
        while todo:
            x, way = todo.pop(0)
            if x.id in seen:
                continue
            seen[x.id] = way
            todo.extend((y, way + (y.disp,)) for y, _ in self.edges(x))
        self.memo[t.id] = seen
        return seen


def job(db):
    import time
    t0 = time.time()
    O = Owners(db)
    obs = []

    def ob(n, bad, status="failed"):
        obs.append({"n": "ownership::" + n, "s": status if bad else "discharged", "k": 1, "t": 0, "d": {"goal": "no value can come to own itself", "reason": str(bad)[:600]} if bad else None})
    for t in db.types:
        if t.k != "adt" or not t.name.startswith(db.crate + "::") or t.args or not t.variants:
            continue
        for v in range(len(t.variants)):
            for n, ft in t.fields(v):
                cells = O.cells_of(ft)
                if cells and not any(h in ft.disp for h in HOSTS):
                    ways = [" > ".join(O.reach(c)[c.id]) for c in cells if c.id in O.reach(c)]
                    ob("%s.%s never holds its own owner" % (t.disp, n), ways)
    bad = []
    for f in db.fns.values():
        if f.local:
            for b in f.blocks:
                c = b["t"][1] if b["t"][0] == "call" else None
                if isinstance(c, dict):
                    n = c.get("rn") or c["u"]
                    if any(n.endswith(x) for x in FORGET):
                        bad.append("%s in %s" % (n, f.name))
    ob("nothing is forgotten", bad, "undecided")
    return {"obs": obs, "wall": time.time() - t0, "paths": 0}
