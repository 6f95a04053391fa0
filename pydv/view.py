"""Specification-side views of program state."""
import z3
from z3 import And, Or, Not, If, BoolVal, IntVal, StringVal


def pats(x):
    """x as a trigger, where it can be one"""
    todo, seen = [x], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if not z3.is_var(e) and (z3.is_app_of(e, z3.Z3_OP_ITE) or (z3.is_bool(e) and e.num_args() > 0 and not z3.is_select(e)) or z3.is_store(e)):
            return {}
        todo.extend(e.children())
    return {"patterns": [x]}


class Ctx:
    def __init__(self, M, st):
        self.M, self.st = M, st
        self.pre = None
        self.args_vals = self.args_tys = None
        self.retval = self.retty = None
        self.argnames = None

    def arg(self, i):
        """view of argument i (a reference argument is followed)"""
        v, t = self.args_vals[i], self.args_tys[i]
        return View.of(self, v, t)

    @property
    def self_(self):
        return self.arg(0)

    @property
    def ret(self):
        return View.of(self, self.retval, self.retty)

    def heap(self, disp):
        from mir import canon
        t = self.M.db.find_ty(canon(disp))
        if t is None:
            from engine import AnchorLost
            raise AnchorLost("type " + disp)
        return self.M.heap(self.st, t)

    def log(self, short):
        """the calls of a host trait's method so far"""
        return Log(self, short)

    def heap_same(self, disp, but=()):
        """heap of `disp` unchanged at all pre-existing locations except the listed location terms"""
        h1 = self.heap(disp)
        h0 = self.pre.heap(disp)
        if h1.eq(h0):
            return BoolVal(True)
        x = z3.Int("hx!%d" % self.M.nsteps)
        ex = [x != b for b in but]
        return z3.ForAll([x], z3.Implies(And(x >= 1, x < self.pre.st.nalloc, *ex),
                                         z3.Select(h1, x) == z3.Select(h0, x)), **pats(z3.Select(h1, x)))


class Log:
    def __init__(self, c, short):
        self.c, self.short = c, short
        self.ks = c.M.log_keys(short)
        for k in self.ks:
            c.M.log_heap(c.st, k, short)

    @property
    def n(self):
        return z3.Select(self.c.st.heaps[self.ks[0]], 0)

    def a(self, i):
        """what the calls were given as argument i (0: the object called)"""
        return self.c.st.heaps[self.ks[1 + i]]

    def extends(self, old):
        i = z3.Int("i!ext")
        return And(self.n >= old.n, *[z3.ForAll([i], z3.Implies(And(0 <= i, i < old.n), z3.Select(self.a(j), i) == z3.Select(old.a(j), i)))
                                      for j in range(len(self.ks) - 1) if not self.a(j).eq(old.a(j))])

    def same(self, old):
        return self.n == old.n


class View:
    def __init__(self, c, root, proj, ty):
        self.c, self.root, self.proj, self.ty = c, root, tuple(proj), ty

    @staticmethod
    def of(c, v, ty):
        from engine import Ref
        M = c.M
        k = M.S.kind(ty)
        if k in ("ref", "guard"):
            inner = ty.elem if k == "ref" else ty.args[0]
            if isinstance(v, Ref):
                return View(c, v.root, v.proj, inner if inner.k != "dyn" else (v.ty or inner)).norm()
            return View(c, ("I", v), (), inner).norm()
        return View(c, ("I", v), (), ty).norm()

    def norm(self):
        """strip transparent wrappers and references"""
        M = self.c.M
        v = self
        while True:
            k = M.S.kind(v.ty)
            if k == "transp":
                v = View(v.c, v.root, v.proj, v.ty.args[0])
            elif k in ("ref", "guard"):
                val = M.read(v.c.st, v.root, v.proj, v.ty)
                return View.of(v.c, val, v.ty)
            else:
                return v

    def val(self):
        return self.c.M.read(self.c.st, self.root, self.proj, self.ty)

    @property
    def t(self):
        return self.c.M.term(self.c.st, self.val(), self.ty)

    def field(self, name, variant=None):
        from engine import AnchorLost
        v = self.norm()
        M = v.c.M
        k = M.S.kind(v.ty)
        if k in ("rc", "weak"):
            return v.deref().field(name, variant)
        if k != "data":
            raise AnchorLost("field %s of %s" % (name, v.ty.disp))
        if v.ty.k == "tuple":
            i = int(name.lstrip("_"))
            return View(v.c, v.root, v.proj + (("f", 0, i),), v.ty.args[i]).norm()
        vs = v.ty.variants
        for vi, vv in enumerate(vs):
            if variant is not None and vv["n"] != variant:
                continue
            if len(vs) > 1 and variant is None:
                continue
            for fi, (fn, ft) in enumerate(v.ty.fields(vi)):
                if fn == name:
                    return View(v.c, v.root, v.proj + (("f", vi, fi),), ft).norm()
        raise AnchorLost("field %s of %s" % (name, v.ty.disp))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.field(name)

    def deref(self):
        v = self.norm()
        M = v.c.M
        k = M.S.kind(v.ty)
        if k in ("rc", "weak"):
            loc = v.t
            return View(v.c, ("H", v.ty.args[0], loc), (), v.ty.args[0]).norm()
        raise TypeError("deref " + v.ty.disp)

    @property
    def loc(self):
        return self.norm().t

    # enums / options
    def vidx(self, name):
        from engine import AnchorLost
        for i, v in enumerate(self.norm().ty.variants):
            if v["n"] == name:
                return i
        raise AnchorLost("variant %s of %s" % (name, self.ty.disp))

    def is_(self, name):
        from engine import Agg, isv
        v = self.norm()
        i = v.vidx(name)
        val = v.val()
        if isinstance(val, Agg):
            return BoolVal(val.variant == i)
        return isv(val, i)

    @property
    def is_some(self):
        return self.once_or("Some")

    @property
    def is_none(self):
        return self.once_or("None")

    def once_or(self, n):
        from engine import isv
        v = self.norm()
        if v.c.M.S.kind(v.ty) == "once":
            return isv(v.t, 1 if n == "Some" else 0)
        return self.is_(n)

    @property
    def is_ok(self):
        return self.is_("Ok")

    @property
    def is_err(self):
        return self.is_("Err")

    def payload(self, variant, i=0):
        from engine import Agg
        v = self.norm()
        vi = v.vidx(variant)
        ft = v.ty.fields(vi)[i][1]
        val = v.val()
        if isinstance(val, Agg):
            if val.variant == vi:
                return View.of(v.c, val.fields[i], ft)
            return View(v.c, ("I", z3.Const("junk!%s" % ft.disp, v.c.M.sort(ft))), (), ft)
        return View(v.c, v.root, v.proj + (("f", vi, i),), ft).norm()

    @property
    def some(self):
        return self.payload("Some")

    @property
    def ok(self):
        return self.payload("Ok")

    @property
    def err(self):
        return self.payload("Err")

    # vec
    @property
    def len(self):
        v = self.norm()
        from engine import vlen, msize, Agg
        k = v.c.M.S.kind(v.ty)
        val = v.val()
        if isinstance(val, Agg):
            return IntVal(len(val.fields))
        if k in ("map", "jmap", "set"):
            return msize(v.t)
        if k == "str":
            return z3.Length(v.t)
        return vlen(v.t)

    def __getitem__(self, i):
        v = self.norm()
        M = v.c.M
        if isinstance(i, int):
            i = IntVal(i)
        et = M.vec_elem(v.ty)
        return View(v.c, v.root, v.proj + (("e", i),), et).norm()

    @property
    def last(self):
        return self[self.len - 1]

    # map / set
    def has(self, k):
        from engine import marr, sel, isv
        v = self.norm()
        if isinstance(k, str):
            k = StringVal(k)
        if v.c.M.S.kind(v.ty) == "set":
            return sel(marr(v.t), k)
        return isv(sel(marr(v.t), k), 1)

    def at(self, k):
        v = self.norm()
        if isinstance(k, str):
            k = StringVal(k)
        M = v.c.M
        vt = v.ty.args[1] if M.S.kind(v.ty) == "map" else None
        return View(v.c, v.root, v.proj + (("mv", k),), vt).norm()

    @property
    def arr(self):
        from engine import marr, varr
        v = self.norm()
        if v.c.M.S.kind(v.ty) in ("map", "jmap", "set"):
            return marr(v.t)
        return varr(v.t)

    def same(self, other):
        a, b = self.t, other.t
        if a.eq(b):
            return BoolVal(True)
        return a == b

    def same_except(self, other, *paths):
        """structurally equal except the given field paths ('a', 'a.b')"""
        v, o = self.norm(), other.norm()
        heads = {}
        for p in paths:
            h, _, r = p.partition(".")
            heads.setdefault(h, []).append(r)
        from engine import AnchorLost
        names = [n for n, _ in v.ty.fields(0)]
        for h in heads:
            if h not in names:
                raise AnchorLost("field %s of %s" % (h, v.ty.disp))
        cs = []
        for n in names:
            if n in heads:
                subs = [r for r in heads[n] if r]
                if len(subs) != len(heads[n]):
                    continue
                cs.append(v.field(n).same_except(o.field(n), *subs))
            else:
                cs.append(v.raw_field(n).same(o.raw_field(n)))
        cs = [x for x in cs if not z3.is_true(x)]
        return And(*cs) if cs else BoolVal(True)

    def raw_field(self, name):
        v = self.norm()
        for fi, (fn, ft) in enumerate(v.ty.fields(0)):
            if fn == name:
                return View(v.c, v.root, v.proj + (("f", 0, fi),), ft)
