"""Models (trusted contracts) of the std / serde_json / as-any functions the code under verification calls."""
import re, itertools
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, StringVal, Select, Store, ForAll, Const, Int, BoolSort, IntSort, StringSort, ArraySort, Function, K
from engine import *
from engine import AnchorLost, is_ctor_app, fld, con, vlen, varr, mkvec, marr, msize, isv, sel, simp, uid, INT_RANGES, COLL_MAX
from mir import canon

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def norm(n):
    """strip turbofish generics"""
    out, d = [], 0
    i = 0
    while i < len(n):
        if n.startswith("::<", i) and not n.startswith("::<impl", i):
            # skip balanced
            j = i + 3
            depth = 1
            while depth and j < len(n):
                if n[j] == "<":
                    depth += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    depth -= 1
                j += 1
            i = j
            continue
        out.append(n[i])
        i += 1
    s = "".join(out)
    s = re.sub(r"::::", "::", s)
    s = re.sub(r"<impl \[T\]>", "slice", s).replace("<impl str>", "str").replace("<impl char>", "char")
    s = re.sub(r"<impl (i32|f32|f64|usize|i64|u32|u64|u8|isize)>", r"\1", s)
    s = s.replace("core::", "std::").replace("alloc::", "std::")
    return s


class Models:
    FORCE = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call", "std::option::unwrap_failed",
             "std::option::expect_failed", "std::result::unwrap_failed", "std::cmp::min", "std::cmp::max"}

    def __init__(self, extra=None, host_traits=()):
        self.consts = {"bladeink::story_state::DEFAULT_FLOW_NAME": lambda M, st, ty: M.new_tmp(st, StringVal("DEFAULT_FLOW"), ty.elem)}
        self.extra = extra or {}
        self._frozen = None

    def frozen_heaps(self, M):
        return ()

    def layout_const(self, M, st, ty, b, pv):
        # Option<niche> constants made only of a null niche
        if ty.is_adt("std::option::Option", "core::option::Option") and not pv and all((x or 0) == 0 for x in b):
            a = ty.args[0]
            if a.k == "ref" or M.S.kind(a) in ("rc",):
                return Agg(ty, 0, [])
        if ty.k == "adt" and ty.variants and len(ty.variants) == 1 and not pv:
            # struct constant: only the shape (null niche pointer, integers) used by pointer::NULL
            fs = ty.fields(0)
            if len(fs) == 2 and fs[0][1].is_adt("std::option::Option") and fs[1][1].k == "int" and all(x == 0 for x in b[:8]):
                n = int.from_bytes(bytes(b[8:12]), "little", signed=True)
                return Agg(ty, 0, [Agg(fs[0][1], 0, []), IntVal(n)])
        return None

    def lookup(self, M, name, un, callee, args, fn):
        nu, nn = norm(un), norm(name)
        if nu in self.extra:
            return self.extra[nu]
        if nn in self.extra:
            return self.extra[nn]
        if fn is not None and nu not in self.FORCE and nn not in self.FORCE:
            return None
        if callee["kind"] == "virtual" and nu.startswith("bladeink::"):
            return MODELS.get(nu) or virtual_call
        return MODELS.get(nu) or MODELS.get(nn)

    def blen(self, M, st, v):
        v = v if isinstance(v, z3.ExprRef) else M.term(st, v, None)
        if z3.is_string_value(v):
            return IntVal(len(pystr(v).encode("utf8")))
        f = Function("blen", StringSort(), IntSort())
        r = f(v)
        i = ("bl", r.get_id())
        if i not in st.rng:
            st.rng = st.rng | {i}
            M.keep(r)
            st.assume(And(r >= z3.Length(v), r <= COLL_MAX, (r == 0) == (v == StringVal(""))))
        return r

    def frem(self, a, b):
        return Function("f_rem_%s" % a.sort().ebits(), a.sort(), a.sort(), a.sort())(a, b)


def pystr(v):
    s = v.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


# --------------------------------------------------------------------------------------------- helpers
def deref_val(M, st, v, ty):
    """read the value behind a reference; returns (value, innerty, ref-or-None)"""
    if ty.k in ("ref", "ptr"):
        if isinstance(v, Ref):
            t = ty.elem if ty.elem.k != "dyn" else (v.ty or ty.elem)
            return M.read(st, v.root, v.proj, t), t, v
        return v, ty.elem, None
    return v, ty, None


def full(M, st, v, ty):
    """follow references / guards to a non-reference value"""
    while True:
        k = M.S.kind(ty)
        if k == "ref":
            v, ty, _ = deref_val(M, st, v, ty)
        elif k == "guard":
            if isinstance(v, Ref):
                v = M.read(st, v.root, v.proj, ty.args[0])
            ty = ty.args[0]
        elif k == "transp":
            ty = ty.args[0]
        else:
            return v, ty


def sref(M, st, v, ty):
    """(value term, type) of &T argument"""
    v, t = full(M, st, v, ty)
    return M.term(st, v, t), t


def place_of(M, st, v, ty):
    """the referent place as a Ref for a &mut T / & T argument (following nested refs and guards)"""
    r = v
    t = ty
    while True:
        k = M.S.kind(t)
        if k == "ref":
            inner = t.elem
        elif k == "guard":
            inner = t.args[0]
        elif k == "transp":
            t = t.args[0]
            if isinstance(r, Ref):
                r = Ref(r.root, r.proj, t)
            continue
        else:
            return r, t
        ik = M.S.kind(inner)
        if ik in ("ref", "guard"):
            if isinstance(r, Ref):
                r = M.read(st, r.root, r.proj, inner)
            t = inner
            continue
        if not isinstance(r, Ref):
            r = Ref(("I", r), (), inner)
        t = inner
        if M.S.kind(t) == "transp":
            t = M.strip(t)
        return Ref(r.root, r.proj, t if t.k != "dyn" else (r.ty or t)), t


def wr(M, st, ref, val):
    M.write(st, ref.root, list(ref.proj), ref.ty, val)


def opt_some(M, ty, v):
    return Agg(ty, 1, [v])


def opt_none(M, ty):
    return Agg(ty, 0, [])


def unit(M, dty):
    return Agg(dty, 0, [])


def sub(ref, proj, ty):
    return Ref(ref.root, tuple(ref.proj) + tuple(proj), ty)


def vec_of(M, st, v, t):
    """z3 vector term"""
    if isinstance(v, Agg) and t.k == "array":
        return M.arr_to_vec(st, v, t)
    if isinstance(v, PV):
        raise Unsupported("vec of %r" % v)
    return M.term(st, v, t)


def panic_fork(M, st, good, kind, where):
    """continue under `good`; its negation panics"""
    good = simp(good)
    if z3.is_true(good):
        return True
    if not M.silent and M.panics != "ignore" and M.feasible(st, Not(good)):
        s2 = st.copy()
        s2.assume(Not(good))
        M.panic(s2, kind, where)
    if not M.feasible(st, good):
        return False
    st.assume(good)
    return True


# --------------------------------------------------------------------------------------------- identity-like
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut", "std::string::String::as_str", "std::vec::Vec::as_slice",
       "std::vec::Vec::as_mut_slice", "std::boxed::Box::as_ref")
def m_deref(M, st, args, dty, callee, where):
    v, ty = args[0]
    # &X where X: Rc / String / Vec / Ref guard / Box / RefMut
    it = ty.elem
    k = M.S.kind(it)
    if k == "rc":
        loc = M.term(st, M.read(st, v.root, v.proj, it) if isinstance(v, Ref) else v, it)
        target = it.args[0]
        if target.k == "str":
            raise Unsupported("Rc<str>")
        return [(st, Ref(("H", target, loc), (), target))]
    if k == "guard":
        g = M.read(st, v.root, v.proj, it) if isinstance(v, Ref) else v
        return [(st, g)]
    if k == "ref":
        g = M.read(st, v.root, v.proj, it) if isinstance(v, Ref) else v
        # AsRef on &T : one more level
        if dty.k == "ref" and M.sort(dty.elem) == M.sort(it.elem):
            return [(st, g)]
        return m_deref(M, st, [(g, it)], dty, callee, where)
    if k in ("str", "vec", "transp"):
        if isinstance(v, Ref):
            return [(st, Ref(v.root, v.proj, dty.elem))]
        return [(st, v)]
    if k == "opaque" or k == "data":
        if M.S.kind(dty.elem) == k and M.sort(dty.elem) == M.sort(it):
            return [(st, v)]
    raise Unsupported("deref of %s" % it)


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::RefCell::as_ptr")
def m_borrow(M, st, args, dty, callee, where):
    v, ty = args[0]
    if isinstance(v, Ref):
        inner = M.strip(ty.elem)
        return [(st, Ref(v.root, v.proj, v.ty.args[0] if v.ty is not None and M.S.kind(v.ty) == "transp" else inner))]
    return [(st, v)]


@model("std::cell::RefCell::new", "std::cell::Cell::new", "std::boxed::Box::new", "std::cell::RefCell::into_inner", "std::convert::identity",
       "std::hint::must_use", "std::rc::Rc::into_inner_unused", "std::iter::IntoIterator::into_iter_id", "std::cell::Cell::into_inner",
       "std::mem::ManuallyDrop::new")
def m_id(M, st, args, dty, callee, where):
    return [(st, args[0][0])]


@model("std::boxed::Box::new_uninit")
def m_box_uninit(M, st, args, dty, callee, where):
    return [(st, UNINIT)]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(M, st, args, dty, callee, where):
    v, ty = args[0]
    t = M.strip(ty)
    while t.k != "array":
        t = M.strip(t.args[0]) if t.k == "adt" else t
    if isinstance(v, Agg):
        v = unwrap_array(M, v)
        return [(st, M.arr_to_vec(st, v, t))]
    return [(st, v)]


def unwrap_array(M, v):
    # MaybeUninit/ManuallyDrop wrappers are transparent but box init may write through union fields
    while isinstance(v, Agg) and not (v.ty is not None and v.ty.k == "array") and len(v.fields) == 1 and isinstance(v.fields[0], Agg):
        v = v.fields[0]
    return v


@model("std::cell::Cell::get")
def m_cell_get(M, st, args, dty, callee, where):
    v, t, r = deref_val(M, st, *args[0])
    return [(st, v)]


@model("std::cell::Cell::set")
def m_cell_set(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    wr(M, st, r, args[1][0])
    return [(st, unit(M, dty))]


@model("std::cell::RefCell::replace", "std::mem::replace", "std::cell::Cell::replace")
def m_replace(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    old = M.read(st, r.root, r.proj, r.ty)
    wr(M, st, r, args[1][0])
    return [(st, old)]


@model("std::mem::swap")
def m_swap(M, st, args, dty, callee, where):
    a, ta = place_of1(M, st, *args[0])
    b, tb = place_of1(M, st, *args[1])
    x, y = M.read(st, a.root, a.proj, ta), M.read(st, b.root, b.proj, tb)
    wr(M, st, a, y)
    wr(M, st, b, x)
    return [(st, unit(M, dty))]


def place_of1(M, st, v, ty):
    """one level only"""
    t = ty.elem if ty.k == "ref" else ty.args[0]
    if isinstance(v, Ref):
        return Ref(v.root, v.proj, t), t
    return Ref(("I", v), (), t), t


@model("std::mem::take")
def m_take(M, st, args, dty, callee, where):
    r, t = place_of1(M, st, *args[0])
    old = M.read(st, r.root, r.proj, t)
    wr(M, st, r, default_val(M, st, t))
    return [(st, old)]


def default_val(M, st, t):
    k = M.S.kind(t)
    if k == "transp":
        return default_val(M, st, t.args[0])
    if k == "vec":
        return empty_vec(M, M.sort(t))
    if k == "str":
        return StringVal("")
    if k == "int":
        return IntVal(0)
    if k == "bool":
        return BoolVal(False)
    if k in ("map", "jmap"):
        return empty_map(M.sort(t))
    if k == "set":
        return empty_set(M.sort(t))
    if k == "float":
        return z3.FPVal(0.0, M.sort(t))
    if k == "once":
        return con(M.sort(t), 0)
    if k == "weak":
        return IntVal(0)
    if t.is_adt("std::option::Option"):
        return Agg(t, 0, [])
    raise Unsupported("default of %s" % t)


@model("std::default::Default::default")
def m_default(M, st, args, dty, callee, where):
    return [(st, default_val(M, st, dty))]


def empty_vec(M, s):
    es = s.accessor(0, 1).range().range()
    return mkvec(s, IntVal(0), Const("nil_%s" % re.sub(r"\W+", "_", str(s)), ArraySort(IntSort(), es)))


def empty_map(s):
    a = s.accessor(0, 0).range()
    return con(s, 0, K(a.domain(), con(a.range(), 0)), IntVal(0))


def empty_set(s):
    a = s.accessor(0, 0).range()
    return con(s, 0, K(a.domain(), BoolVal(False)), IntVal(0))


# --------------------------------------------------------------------------------------------- clone / eq / conversions
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::to_vec", "std::slice::slice::to_vec", "std::str::to_owned",
       "std::option::Option::cloned")
def m_clone(M, st, args, dty, callee, where):
    v, t, r = deref_val(M, st, *args[0])
    if t.k == "array" and isinstance(v, Agg) and M.S.kind(dty) == "vec" and dty.k == "adt":
        v = M.arr_to_vec(st, v, t)
    return [(st, v)]


def vals_eq(M, st, a, b, t):
    k = M.S.kind(t)
    if k in ("ref", "guard", "transp"):
        it = t.elem if k == "ref" else t.args[0]
        a2 = M.read(st, a.root, a.proj, it) if isinstance(a, Ref) else a
        b2 = M.read(st, b.root, b.proj, it) if isinstance(b, Ref) else b
        return vals_eq(M, st, a2, b2, it)
    if k == "rc":
        it = t.args[0]
        raise Unsupported("Rc eq")
    a, b = M.term(st, a, t), M.term(st, b, t)
    if k == "vec":
        i = Int("qi!%d" % uid())
        et = M.vec_elem(t)
        if a.eq(b):
            return BoolVal(True)
        return And(vlen(a) == vlen(b), ForAll([i], Implies(And(i >= 0, i < vlen(a)), Select(varr(a), i) == Select(varr(b), i))))
    if k in ("map", "set", "jmap"):
        return marr(a) == marr(b)
    if k == "float":
        return z3.fpEQ(a, b)
    return a == b


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(M, st, args, dty, callee, where):
    a, ta = full(M, st, *args[0])
    b, tb = full(M, st, *args[1])
    e = vals_eq(M, st, a, b, ta)
    if callee["u"].endswith("ne"):
        e = Not(e)
    return [(st, simp(e))]


@model("std::ptr::eq", "std::rc::Rc::ptr_eq")
def m_ptr_eq(M, st, args, dty, callee, where):
    a, ta = args[0]
    b, tb = args[1]
    if "Rc" in callee["u"]:
        x, _ = sref(M, st, a, ta)
        y, _ = sref(M, st, b, tb)
        return [(st, simp(x == y))]
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root[0] == "H" and b.root[0] == "H" and not a.proj and not b.proj:
            return [(st, simp(a.root[2] == b.root[2]))]
        try:
            return [(st, M.same_place(a, b))]
        except Unsupported:
            return [(st, Const("pe!%d" % uid(), BoolSort()))]
    st.flag("pointer comparison of snapshots")
    return [(st, Const("pe!%d" % uid(), BoolSort()))]


@model("std::convert::From::from", "std::convert::Into::into")
def m_from(M, st, args, dty, callee, where):
    v, t = args[0]
    if M.S.kind(dty) == "str":
        if t.k == "char":
            return [(st, chr_str(M.term(st, v, t)))]
        x, tx = sref(M, st, v, t)
        if M.S.kind(tx) != "str":
            raise Unsupported("from %s -> %s" % (t, dty))
        return [(st, x)]
    if t.k != "ref" and M.sort(t) == M.sort(dty):
        return [(st, v)]
    if dty.k == "int" and t.k == "int":
        return [(st, M.cast(st, "IntToInt", v, t, dty))]
    raise Unsupported("from %s -> %s" % (t, dty))


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_try_into(M, st, args, dty, callee, where):
    v, t = args[0]
    if t.k == "int":
        ot = dty.fields(0)[0][1]
        et = dty.fields(1)[0][1]
        if ot.k == "int":
            lo, hi = INT_RANGES[ot.d["s"]]
            if ot.d["s"] == "usize":
                hi = 2**63 - 1
            x = M.term(st, v, t)
            return M.fork(st, [(And(x >= lo, x <= hi), Agg(dty, 0, [x])), (Not(And(x >= lo, x <= hi)), Agg(dty, 1, [Const("tie!%d" % uid(), M.sort(et))]))])
    raise Unsupported("try_into %s" % t)


# --------------------------------------------------------------------------------------------- Rc / Weak / dyn Any
@model("std::rc::Rc::new")
def m_rc_new(M, st, args, dty, callee, where):
    v, t = args[0]
    return [(st, M.alloc(st, v, t))]


@model("std::rc::Rc::downgrade")
def m_downgrade(M, st, args, dty, callee, where):
    x, t = sref(M, st, *args[0])
    return [(st, x)]


@model("std::rc::Weak::new")
def m_weak_new(M, st, args, dty, callee, where):
    return [(st, IntVal(0))]


@model("std::rc::Weak::upgrade")
def m_upgrade(M, st, args, dty, callee, where):
    x, t = sref(M, st, *args[0])
    alive = Function("alive", IntSort(), BoolSort())
    return M.fork(st, [(And(x != 0, alive(x)), Agg(dty, 1, [x])), (Or(x == 0, Not(alive(x))), Agg(dty, 0, []))])


@model("bladeink::object::IntoAny::into_any")
def m_into_any(M, st, args, dty, callee, where):
    return [(st, args[0][0])]


@model("as_any::AsAny::as_any", "as_any::AsAny::as_any_mut")
def m_as_any(M, st, args, dty, callee, where):
    return [(st, args[0][0])]


def dyn_loc(M, st, v, t):
    """location of a &dyn / &mut dyn value"""
    if isinstance(v, Ref):
        if v.root[0] == "H" and not v.proj:
            return v.root[2], v.root[1]
        if v.root[0] in ("T", "I", "L") and (v.ty is None or v.ty.k == "dyn"):
            x = M.read(st, v.root, v.proj, None)
            if isinstance(x, z3.ExprRef) and x.sort() == IntSort():
                M.constrain(st, x, v.ty) if v.ty is not None else None
                return x, None
        if v.ty is None or v.ty.k == "dyn":
            x = M.read(st, v.root, v.proj, None)
            if isinstance(x, Agg):
                return None, x.ty
            if isinstance(x, z3.ExprRef) and x.sort().name() in M.S.tyof:
                return None, M.S.tyof[x.sort().name()]
            raise Unsupported("dyn loc")
        return None, v.ty
    if isinstance(v, z3.ExprRef) and v.sort() == IntSort():
        return v, None
    raise Unsupported("dyn loc %r" % (v,))


@model("<(dyn std::any::Any)>::downcast_ref", "<(dyn std::any::Any)>::downcast_mut", "as_any::Downcast::downcast_ref", "as_any::Downcast::downcast_mut")
def m_downcast_ref(M, st, args, dty, callee, where):
    v, t = args[0]
    target = dty.fields(1)[0][1].elem
    loc, cty = dyn_loc(M, st, v, t)
    if cty is not None and cty.k != "dyn":
        if cty.disp == target.disp:
            return [(st, Agg(dty, 1, [Ref(v.root, v.proj, target)]))]
        return [(st, Agg(dty, 0, []))]
    c = M.kind_uf(loc) == M.kindid(target)
    return M.fork(st, [(c, Agg(dty, 1, [Ref(("H", target, loc), (), target)])), (Not(c), Agg(dty, 0, []))])


@model("<(dyn std::any::Any)>::is", "as_any::Downcast::is")
def m_is(M, st, args, dty, callee, where):
    v, t = args[0]
    loc, cty = dyn_loc(M, st, v, t)
    ua = [M.db.ty(a) for a in callee["ua"]]
    target = ua[-1]
    if cty is not None and cty.k != "dyn":
        return [(st, BoolVal(cty.disp == target.disp))]
    return [(st, M.kind_uf(loc) == M.kindid(target))]


@model("std::rc::Rc::downcast")
def m_rc_downcast(M, st, args, dty, callee, where):
    v, t = args[0]
    x = M.term(st, v, t)
    M.constrain(st, x, t)
    target = dty.fields(0)[0][1].args[0]
    c = M.kind_uf(x) == M.kindid(target)
    return M.fork(st, [(c, Agg(dty, 0, [x])), (Not(c), Agg(dty, 1, [x]))])


HOST_TRAITS = {}


def virtual_call(M, st, args, dty, callee, where):
    """call of a trait-object method: host callbacks are logged in the ghost trace, engine-object methods are abstracted"""
    u = norm(canon(callee["u"]))
    short = u.split("::")[-2] + "::" + u.split("::")[-1]
    if short in ("ErrorHandler::error", "VariableObserver::changed", "ExternalFunction::call"):
        ev = [vals(M, st, a, t) for a, t in args]
        r = M.fresh_val(st, dty, "host") if not (dty.k == "tuple" and not dty.args) else unit(M, dty)
        if short == "ExternalFunction::call":
            ev.append(M.term(st, r, dty))
        M.log_add(st, short, ev)
        return [(st, r)]
    if short == "RTObject::get_object":
        v, t = args[0]
        loc, cty = dyn_loc(M, st, v, t)
        ot = dty.elem
        f = Function("objof", IntSort(), M.sort(ot))
        if loc is None:
            loc = Int("ol!%d" % uid())
        k = ("objof", loc.get_id())
        r = st.ghost.get(k)
        if r is None:
            M.keep(loc)
            r = M.new_tmp(st, f(loc), ot)
            M.tmp_ty[r.root[1]] = ot
            st.ghost = dict(st.ghost)
            st.ghost[k] = r
        return [(st, r)]
    raise Unsupported("virtual " + u)


def vals(M, st, a, t):
    try:
        v, ty = full(M, st, a, t)
        if M.S.kind(ty) in ("dyn",) and isinstance(a, Ref):
            return dyn_loc(M, st, a, t)[0]
        return M.term(st, v, ty)
    except Unsupported:
        return None


# --------------------------------------------------------------------------------------------- Vec / slices
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity")
def m_vec_new(M, st, args, dty, callee, where):
    return [(st, empty_vec(M, M.sort(dty)))]


@model("std::vec::Vec::len", "std::slice::slice::len", "std::slice::len", "std::collections::VecDeque::len")
def m_vec_len(M, st, args, dty, callee, where):
    v, t = full(M, st, *args[0])
    return [(st, M.length(st, v, t))]


@model("std::vec::Vec::is_empty", "std::slice::slice::is_empty", "std::slice::is_empty", "std::collections::VecDeque::is_empty")
def m_vec_is_empty(M, st, args, dty, callee, where):
    v, t = full(M, st, *args[0])
    return [(st, simp(M.length(st, v, t) == 0))]


def rd(M, st, r):
    return vec_of(M, st, M.read(st, r.root, r.proj, r.ty), r.ty)


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def m_push(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    et = M.vec_elem(t)
    x = M.term(st, args[1][0], args[1][1])
    wr(M, st, r, mkvec(v.sort(), simp(vlen(v) + 1), Store(varr(v), simp(vlen(v)), x)))
    return [(st, unit(M, dty))]


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def m_pop(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    n = vlen(v)
    outs = []
    for s, ne in M.fork(st, [(simp(n > 0), True), (simp(n == 0), False)]):
        if ne:
            x = sel(varr(v), simp(n - 1))
            M.constrain(s, x, M.vec_elem(t))
            M.write(s, r.root, list(r.proj), r.ty, mkvec(v.sort(), simp(n - 1), varr(v)))
            outs.append((s, Agg(dty, 1, [x])))
        else:
            outs.append((s, Agg(dty, 0, [])))
    return outs


@model("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def m_clear(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    wr(M, st, r, empty_vec(M, M.sort(t)))
    return [(st, unit(M, dty))]


@model("std::vec::Vec::truncate")
def m_truncate(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    n = M.term(st, *args[1])
    wr(M, st, r, mkvec(v.sort(), If(n < vlen(v), n, vlen(v)), varr(v)))
    return [(st, unit(M, dty))]


@model("std::vec::Vec::dedup", "std::vec::Vec::<T, A>::dedup")
def m_dedup(M, st, args, dty, callee, where):
    """no longer than it was, every element one of those there were, the first one first"""
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    w = M.fresh_val(st, t, "dedup")
    w = M.term(st, w, t)
    i, f = Int("i!dd"), Function("dd!%d" % uid(), IntSort(), IntSort())
    st.assume(And(vlen(w) <= vlen(v), vlen(w) >= 0, (vlen(w) == 0) == (vlen(v) == 0), Implies(vlen(v) > 0, Select(varr(w), 0) == Select(varr(v), 0)),
                  ForAll([i], Implies(And(0 <= i, i < vlen(w)), And(f(i) >= 0, f(i) < vlen(v), Select(varr(w), i) == Select(varr(v), f(i)))), patterns=[Select(varr(w), i)])))
    wr(M, st, r, w)
    return [(st, unit(M, dty))]


@model("std::vec::Vec::remove")
def m_remove(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    i = M.term(st, *args[1])
    if not panic_fork(M, st, i < vlen(v), "Vec::remove out of range", where):
        return []
    x = sel(varr(v), i)
    M.constrain(st, x, M.vec_elem(t))
    k = Int("ix!")
    if z3.eq(simp(i + 1), simp(vlen(v))):
        a = varr(v)
    else:
        a = z3.Lambda([k], If(k < i, Select(varr(v), k), Select(varr(v), k + 1)))
    wr(M, st, r, mkvec(v.sort(), simp(vlen(v) - 1), a))
    return [(st, x)]


@model("std::vec::Vec::insert")
def m_insert(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    i = M.term(st, *args[1])
    if not panic_fork(M, st, i <= vlen(v), "Vec::insert out of range", where):
        return []
    x = M.term(st, *args[2])
    k = Int("ix!")
    a = z3.Lambda([k], If(k < i, Select(varr(v), k), If(k == i, x, Select(varr(v), k - 1))))
    wr(M, st, r, mkvec(v.sort(), simp(vlen(v) + 1), a))
    return [(st, unit(M, dty))]


@model("std::vec::Vec::extend_from_slice", "std::vec::Vec::append_clone")
def m_extend(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    w, wt = full(M, st, *args[1])
    w = vec_of(M, st, w, wt)
    wr(M, st, r, vconcat(v, w))
    return [(st, unit(M, dty))]


def vconcat(v, w):
    k = Int("ix!")
    n = vlen(v)
    if z3.is_int_value(simp(n)) and simp(n).as_long() == 0:
        return w
    return mkvec(v.sort(), simp(n + vlen(w)), z3.Lambda([k], If(k < n, Select(varr(v), k), Select(varr(w), k - n))))


@model("std::slice::slice::reverse", "std::slice::reverse")
def m_reverse(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    k = Int("ix!")
    n = vlen(v)
    wr(M, st, r, mkvec(v.sort(), n, z3.Lambda([k], Select(varr(v), n - 1 - k))))
    return [(st, unit(M, dty))]


@model("std::slice::slice::first", "std::slice::slice::last", "std::slice::slice::last_mut", "std::slice::slice::first_mut", "std::slice::first",
       "std::slice::last", "std::slice::last_mut", "std::slice::first_mut")
def m_first_last(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    n = vlen(v)
    i = simp(n - 1) if "last" in callee["u"] else IntVal(0)
    et = M.vec_elem(t)
    return M.fork(st, [(simp(n > 0), Agg(dty, 1, [sub(r, [("e", i)], et)])), (simp(n == 0), Agg(dty, 0, []))])


@model("std::slice::slice::get", "std::slice::slice::get_mut", "std::slice::get", "std::slice::get_mut")
def m_get(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    if args[1][1].k != "int":
        raise Unsupported("range get")
    v = rd(M, st, r)
    i = M.term(st, *args[1])
    et = M.vec_elem(t)
    ok = simp(And(i >= 0, i < vlen(v)))
    return M.fork(st, [(ok, Agg(dty, 1, [sub(r, [("e", i)], et)])), (simp(Not(ok)), Agg(dty, 0, []))])


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    it = args[1][1]
    k = M.S.kind(t)
    if k == "vec" and it.k == "int":
        v = rd(M, st, r)
        i = M.term(st, *args[1])
        if not panic_fork(M, st, And(i >= 0, i < vlen(v)), "index out of bounds", where):
            return []
        return [(st, sub(r, [("e", i)], M.vec_elem(t)))]
    if k in ("map", "jmap"):
        m = M.term(st, M.read(st, r.root, r.proj, t), t)
        key, _ = sref(M, st, *args[1])
        if not panic_fork(M, st, isv(sel(marr(m), key), 1), "map index: missing key", where):
            return []
        return [(st, sub(r, [("mv", key)], dty.elem))]
    if k == "vec" and it.k == "adt" and it.name.startswith("std::ops::Range"):
        v = rd(M, st, r)
        lo, hi = range_bounds(M, st, args[1][0], it, vlen(v))
        if not panic_fork(M, st, And(lo >= 0, lo <= hi, hi <= vlen(v)), "slice index out of range", where):
            return []
        return [(st, sub(r, [("sl", lo, simp(hi - lo))], dty.elem))]
    if k == "str":
        s = M.term(st, M.read(st, r.root, r.proj, t), t)
        n = M.models.blen(M, st, s)
        lo, hi = range_bounds(M, st, args[1][0], it, n)
        bnd = Function("is_char_boundary", StringSort(), IntSort(), BoolSort())
        st.assume(And(bnd(s, 0), bnd(s, n)))
        k0 = 0
        if z3.is_int_value(lo) and 1 <= lo.as_long() <= 4:
            # a prefix of single-byte characters: bytes and characters coincide
            k = lo.as_long()
            pre = And(z3.Length(s) >= k, *[z3.StrToCode(z3.SubString(s, i, 1)) < 128 for i in range(k)])
            st.assume(z3.Implies(pre, And(bnd(s, k), n >= k)))
            if not M.feasible(st, Not(pre)):
                k0 = k
        if not panic_fork(M, st, And(lo >= 0, lo <= hi, hi <= n, bnd(s, lo), bnd(s, hi)), "str slice out of range or not on a char boundary", where):
            return []
        f = Function("bslice", StringSort(), IntSort(), IntSort(), StringSort())
        if k0:
            st.assume(f(s, lo, n) == z3.SubString(s, k0, z3.Length(s) - k0))
        return [(st, M.new_tmp(st, f(s, lo, hi), dty.elem))]
    raise Unsupported("index %s[%s]" % (t, it))


def range_bounds(M, st, v, t, n):
    nm = t.name.split("::")[-1]
    g = lambda i: M.term(st, M.proj1(st, v, ("f", 0, i)), t.args[0])
    if nm == "Range":
        return g(0), g(1)
    if nm == "RangeFrom":
        return g(0), n
    if nm == "RangeTo":
        return IntVal(0), g(0)
    if nm == "RangeToInclusive":
        return IntVal(0), simp(g(0) + 1)
    if nm == "RangeFull":
        return IntVal(0), n
    raise Unsupported("range " + nm)


@model("std::vec::Vec::drain")
def m_drain(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    lo, hi = range_bounds(M, st, args[1][0], args[1][1], vlen(v))
    if not panic_fork(M, st, And(lo >= 0, lo <= hi, hi <= vlen(v)), "drain out of range", where):
        return []
    k = Int("ix!")
    x = Int("ix!")
    part = mkvec(v.sort(), simp(hi - lo), z3.Lambda([x], Select(varr(v), x + lo)))
    if z3.eq(simp(hi), simp(vlen(v))):
        rest = mkvec(v.sort(), lo, varr(v))
    else:
        rest = mkvec(v.sort(), simp(vlen(v) - (hi - lo)), z3.Lambda([k], If(k < lo, Select(varr(v), k), Select(varr(v), k + (hi - lo)))))
    wr(M, st, r, rest)
    return [(st, VecIter(src=M.new_tmp(st, part, t), lo=IntVal(0), hi=simp(hi - lo), rev=False, mode="val", ety=M.vec_elem(t)))]


@model("std::slice::slice::sort_by", "std::slice::slice::sort", "std::slice::slice::sort_unstable", "std::slice::slice::sort_by_key", "std::slice::sort_by", "std::slice::sort")
def m_sort(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    a = Const("sorted!%d" % uid(), varr(v).sort())
    st.flag("sort abstracted")
    wr(M, st, r, mkvec(v.sort(), vlen(v), a))
    return [(st, unit(M, dty))]


@model("std::slice::slice::join", "std::slice::join", "std::slice::slice::concat")
def m_join(M, st, args, dty, callee, where):
    v, t = sref(M, st, *args[0])
    sep = sref(M, st, *args[1])[0] if len(args) > 1 else StringVal("")
    f = Function("joinstr_%s" % re.sub(r"\W+", "_", str(v.sort())), v.sort(), sep.sort(), StringSort())
    return [(st, f(v, sep))]


@model("std::vec::Vec::retain")
def m_retain(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = rd(M, st, r)
    nv = M.fresh_val(st, t, "retained")
    st.assume(vlen(nv) <= vlen(v))
    i0 = Int("pi!%d" % uid())
    st_i = st.copy()
    st_i.assume(And(i0 >= 0, i0 < vlen(v)))
    et = M.vec_elem(t)
    p = pure_pred(M, st_i, args[1][0], lambda s, i: Ref(r.root, tuple(r.proj) + (("e", i),), et), i0, where, False)
    if p is not None:
        # the elements kept, in their order: up takes a place in the new sequence to its place in the old one, down back
        n = uid()
        up, down = Function("up!%d" % n, IntSort(), IntSort()), Function("down!%d" % n, IntSort(), IntSort())
        i, j = Int("i!rt"), Int("j!rt")
        P = lambda x: z3.substitute(p, (i0, x))
        st.assume(ForAll([i], Implies(And(0 <= i, i < vlen(nv)), And(0 <= up(i), up(i) < vlen(v), down(up(i)) == i, Select(varr(nv), i) == Select(varr(v), up(i)), P(up(i)))),
                         patterns=[Select(varr(nv), i)]))
        st.assume(ForAll([i], Implies(And(0 <= i, i < vlen(nv)), And(0 <= up(i), up(i) < vlen(v), P(up(i)))), patterns=[up(i)]))
        st.assume(ForAll([j], Implies(And(0 <= j, j < vlen(v), P(j)), And(0 <= down(j), down(j) < vlen(nv), up(down(j)) == j, Select(varr(nv), down(j)) == Select(varr(v), j))),
                         patterns=[Select(varr(v), j)]))
        st.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < vlen(nv)), up(i) < up(j)), patterns=[z3.MultiPattern(up(i), up(j))]))
        M.write(st, r.root, list(r.proj), t, nv)
        return [(st, unit(M, dty))]
    st.flag("retain abstracted")
    M.write(st, r.root, list(r.proj), t, nv)
    return [(st, unit(M, dty))]


@model("std::collections::HashMap::retain", "std::collections::BTreeMap::retain")
def m_map_retain(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    m = M.term(st, M.read(st, r.root, r.proj, t), t)
    a = marr(m)
    k0 = Const("pk!%d" % uid(), a.sort().domain())
    st_i = st.copy()
    st_i.assume(isv(Select(a, k0), 1))
    kt, vt = t.args[0], t.args[1]
    p = pure_pred(M, st_i, args[1][0], lambda s, k: [M.new_tmp(s, k, kt), Ref(r.root, tuple(r.proj) + (("mv", k),), vt)], k0, where, False)
    if p is None:
        raise Unsupported("retain with effects")
    nv = M.fresh_val(st, t, "retained")
    k = Const("k!rt", a.sort().domain())
    na = marr(M.term(st, nv, t))
    st.assume(ForAll([k], Select(na, k) == If(And(isv(Select(a, k), 1), z3.substitute(p, (k0, k))), Select(a, k), con(na.sort().range(), 0)), patterns=[Select(na, k)]))
    M.write(st, r.root, list(r.proj), t, nv)
    return [(st, unit(M, dty))]


# --------------------------------------------------------------------------------------------- iterators
class VecIter(PV):
    # src: Ref to vec place; lo, hi; rev; mode ref|val ; ety
    def length(self):
        return simp(self.hi - self.lo)

    def havoc(self, M, st):
        lo = Int("it!%d" % uid())
        hi = self.hi
        if self.rev:
            hi = lo
            lo = self.lo
            st.assume(And(hi >= lo, hi <= self.hi))
        else:
            st.assume(And(lo >= self.lo, lo <= hi))
        return self.upd(lo=lo, hi=hi)

    def next(self, M, st):
        out = []
        c = simp(self.lo < self.hi)
        for s, ne in M.fork(st, [(c, True), (simp(Not(c)), False)]):
            if not ne:
                out.append((s, self, None))
                continue
            if self.rev:
                i = simp(self.hi - 1)
                nx = self.upd(hi=i)
            else:
                i = self.lo
                nx = self.upd(lo=simp(i + 1))
            ref = Ref(self.src.root, tuple(self.src.proj) + (("e", i),), self.ety)
            if self.mode == "val":
                item = M.read(s, ref.root, ref.proj, self.ety)
            else:
                item = ref
            out.append((s, nx, item))
        return out

    def item_at(self, M, st, i):
        ref = Ref(self.src.root, tuple(self.src.proj) + (("e", i),), self.ety)
        if self.mode == "val":
            return M.read(st, ref.root, ref.proj, self.ety)
        return ref


class NoneIter(PV):
    def length(self):
        return IntVal(0)

    def havoc(self, M, st):
        return self

    def next(self, M, st):
        return [(st, self, None)]


class MapIter(PV):
    # src Ref to map place; m map term at creation; visited Array(K,Bool); kty, vty; mode kv,k,v ; own
    def length(self):
        return Int("mil!%d" % uid())

    def havoc(self, M, st):
        ks = marr(self.m).sort().domain()
        vis = Const("vis!%d" % uid(), ArraySort(ks, BoolSort()))
        k = Const("kq!%d" % uid(), ks)
        a = marr(self.m)
        # only keys of the map are ever handed out
        st.assume(ForAll([k], Implies(Select(vis, k), Select(a, k) if self.isset else isv(Select(a, k), 1))))
        return self.upd(visited=vis)

    def next(self, M, st):
        a = marr(self.m)
        ks = a.sort().domain()
        k = Const("mk!%d" % uid(), ks)
        q = Const("mq!%d" % uid(), ks)
        inm = (lambda x: Select(a, x)) if self.isset else (lambda x: isv(Select(a, x), 1))
        some = And(inm(k), Not(Select(self.visited, k)))
        none = ForAll([q], Implies(inm(q), Select(self.visited, q)))
        out = []
        s2 = st.copy()
        st.assume(some)
        if M.feasible(st, BoolVal(True)) if False else M.feasible(st, some):
            M.constrain(st, k, self.kty)
            nx = self.upd(visited=Store(self.visited, k, BoolVal(True)), lastkey=k)
            kref = k if self.own else M.new_tmp(st, k, self.kty)
            if self.mode == "k":
                item = kref
            else:
                if self.own:
                    vv = fld(Select(a, k), 1, 0)
                else:
                    vv = Ref(self.src.root, tuple(self.src.proj) + (("mv", k),), self.vty)
                item = vv if self.mode == "v" else ("kv", kref, vv)
            out.append((st, nx, item))
        if M.feasible(s2, none):
            s2.assume(none)
            out.append((s2, self, None))
        return out


class CharIter(PV):
    # s: string term; lo, hi over char indices; rev
    def length(self):
        return simp(self.hi - self.lo)

    def havoc(self, M, st):
        x = Int("ci!%d" % uid())
        st.assume(And(x >= self.lo, x <= self.hi))
        return self.upd(hi=x) if self.rev else self.upd(lo=x)

    def next(self, M, st):
        out = []
        c = simp(self.lo < self.hi)
        for s, ne in M.fork(st, [(c, True), (simp(Not(c)), False)]):
            if not ne:
                out.append((s, self, None))
                continue
            if self.rev:
                i = simp(self.hi - 1)
                nx = self.upd(hi=i)
            else:
                i = self.lo
                nx = self.upd(lo=simp(i + 1))
            ch = char_at(M, s, self.s, i)
            if self.idx:
                out.append((s, nx, ("tup", bidx(self.s, i), ch)))
            else:
                out.append((s, nx, ch))
        return out


def bidx(s, i):
    return Function("byte_index", StringSort(), IntSort(), IntSort())(s, i)


def char_at(M, st, s, i):
    ch = z3.StrToCode(z3.SubString(s, i, 1))
    st.assume(And(ch >= 0, ch <= 0x10FFFF))
    return ch


class RangeIter(PV):
    def length(self):
        return simp(self.hi - self.lo)

    def havoc(self, M, st):
        x = Int("ri!%d" % uid())
        if self.rev:
            st.assume(And(Or(x == self.hi, And(x >= self.lo, x <= self.hi))))
            return self.upd(hi=x)
        st.assume(Or(x == self.lo, And(x >= self.lo, x <= self.hi)))
        return self.upd(lo=x)

    def next(self, M, st):
        out = []
        c = simp(self.lo < self.hi)
        for s, ne in M.fork(st, [(c, True), (simp(Not(c)), False)]):
            if not ne:
                out.append((s, self, None))
            elif self.rev:
                out.append((s, self.upd(hi=simp(self.hi - 1)), simp(self.hi - 1)))
            else:
                out.append((s, self.upd(lo=simp(self.lo + 1)), self.lo))
        return out


class EnumIter(PV):
    def havoc(self, M, st):
        n = Int("en!%d" % uid())
        inner = self.inner.havoc(M, st)
        # the counter and the position of the inner iterator advance together
        if isinstance(inner, (VecIter, CharIter, RangeIter)):
            if inner.rev:
                st.assume(n - self.n == self.inner.hi - inner.hi)
            else:
                st.assume(n - self.n == inner.lo - self.inner.lo)
        else:
            st.assume(And(n >= self.n, n <= COLL_MAX))
        return self.upd(inner=inner, n=n)

    def next(self, M, st):
        out = []
        for s, nx, it in self.inner.next(M, st):
            if it is None:
                out.append((s, self.upd(inner=nx), None))
            else:
                out.append((s, self.upd(inner=nx, n=simp(self.n + 1)), ("tup", self.n, it)))
        return out


class MapFnIter(PV):
    def havoc(self, M, st):
        return self.upd(inner=self.inner.havoc(M, st))

    def next(self, M, st):
        out = []
        for s, nx, it in self.inner.next(M, st):
            if it is None:
                out.append((s, self.upd(inner=nx), None))
            else:
                for s2, v in M.call_value(s, self.f, [mk_item(M, s, it, None)], None, "closure"):
                    out.append((s2, self.upd(inner=nx), v))
        return out


class FilterIter(PV):
    def havoc(self, M, st):
        return self.upd(inner=self.inner.havoc(M, st))

    def next(self, M, st):
        # some later accepted item, or none: the skipped prefix is abstracted
        st.flag("filter abstracted")
        inner = self.inner.havoc(M, st)
        out = []
        for s, nx, it in inner.next(M, st):
            if it is None:
                out.append((s, self.upd(inner=nx), None))
            else:
                item = mk_item(M, s, it, None)
                for s2, v in M.call_value(s, self.f, [M.new_tmp(s, item, None)], None, "closure"):
                    s2.assume(M.term(s2, v, None) if isinstance(v, z3.ExprRef) else BoolVal(True))
                    out.append((s2, self.upd(inner=nx), item))
        return out


class ClonedIter(PV):
    def havoc(self, M, st):
        return self.upd(inner=self.inner.havoc(M, st))

    def next(self, M, st):
        out = []
        for s, nx, it in self.inner.next(M, st):
            if isinstance(it, Ref):
                it = M.read(s, it.root, it.proj, it.ty)
            out.append((s, self.upd(inner=nx), it))
        return out


class TakeIter(PV):
    def havoc(self, M, st):
        n = Int("tk!%d" % uid())
        st.assume(And(n >= 0, n <= self.n))
        return self.upd(inner=self.inner.havoc(M, st), n=n)

    def next(self, M, st):
        out = []
        c = simp(self.n > 0)
        for s, ne in M.fork(st, [(c, True), (simp(Not(c)), False)]):
            if not ne:
                out.append((s, self, None))
            else:
                for s2, nx, it in self.inner.next(M, s):
                    out.append((s2, self.upd(inner=nx, n=simp(self.n - 1)), it))
        return out


class ChainIter(PV):
    def havoc(self, M, st):
        return self.upd(a=self.a.havoc(M, st), b=self.b.havoc(M, st))

    def next(self, M, st):
        out = []
        for s, nx, it in self.a.next(M, st):
            if it is not None:
                out.append((s, self.upd(a=nx), it))
            else:
                for s2, nb, it2 in self.b.next(M, s):
                    out.append((s2, self.upd(a=nx, b=nb), it2))
        return out


class AbsIter(PV):
    """arbitrary finite iterator over items of a type"""

    def havoc(self, M, st):
        return self

    def next(self, M, st):
        b = Const("ai!%d" % uid(), BoolSort())
        s2 = st.copy()
        st.assume(b)
        s2.assume(Not(b))
        return [(st, self, M.fresh_val(st, self.ity, "item")), (s2, self, None)]


def mk_item(M, st, it, ity):
    if isinstance(it, tuple):
        if it[0] == "kv":
            return Agg(ity, 0, [it[1], mk_item(M, st, it[2], None)])
        if it[0] == "tup":
            return Agg(ity, 0, [it[1], mk_item(M, st, it[2], None)])
    return it


def to_iter(M, st, v, ty, dty=None):
    """python iterator for an IntoIterator / Iterator value"""
    if isinstance(v, PV):
        return v
    if ty is None:
        raise Unsupported("iter of untyped")
    k = M.S.kind(ty)
    if k in ("ref", "guard"):
        if isinstance(v, Ref) and v.root[0] != "I":
            inner = M.read(st, v.root, v.proj, ty.elem if k == "ref" else ty.args[0])
            if isinstance(inner, PV):
                return inner
        r, t = place_of(M, st, v, ty)
        tk = M.S.kind(t)
        if tk == "vec":
            vv = M.read(st, r.root, r.proj, t)
            if isinstance(vv, Agg):
                vv = M.arr_to_vec(st, vv, t)
                r = M.new_tmp(st, vv, t)
            return VecIter(src=r, lo=IntVal(0), hi=M.length(st, vv, t), rev=False, mode="ref", ety=M.vec_elem(t))
        if tk in ("map", "jmap", "set"):
            return map_iter(M, st, r, t, "k" if tk == "set" else "kv", False)
        if t.is_adt("std::option::Option"):
            raise Unsupported("option iter")
        raise Unsupported("iter over & %s" % t)
    if k == "vec":
        r = M.new_tmp(st, v, ty)
        return VecIter(src=r, lo=IntVal(0), hi=M.length(st, v, ty), rev=False, mode="val", ety=M.vec_elem(ty))
    if k in ("map", "jmap", "set"):
        r = M.new_tmp(st, v, ty)
        return map_iter(M, st, r, ty, "k" if k == "set" else "kv", True)
    if ty.k == "adt" and ty.name in ("std::ops::Range",):
        lo = M.term(st, M.proj1(st, v, ("f", 0, 0)), ty.args[0])
        hi = M.term(st, M.proj1(st, v, ("f", 0, 1)), ty.args[0])
        return RangeIter(lo=lo, hi=hi, rev=False)
    raise Unsupported("iter of %s" % ty)


def map_iter(M, st, r, t, mode, own):
    m = M.term(st, M.read(st, r.root, r.proj, t), t)
    ks = marr(m).sort().domain()
    isset = M.S.kind(t) == "set"
    if M.S.kind(t) == "jmap":
        kty, vty = t.args[0], t.args[1] if len(t.args) > 1 else M.db.find_ty("serde_json::Value")
    else:
        kty, vty = t.args[0], (t.args[1] if not isset and len(t.args) > 1 else None)
    M.events.append(("hash_iter", t.disp)) if M.S.kind(t) != "jmap" else None
    return MapIter(src=r, m=m, visited=K(ks, BoolVal(False)), kty=kty, vty=vty, mode=mode, own=own, isset=isset, lastkey=None)


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(M, st, args, dty, callee, where):
    v, t = args[0]
    if isinstance(v, PV):
        return [(st, v)]
    return [(st, to_iter(M, st, v, t))]


@model("std::iter::Iterator::flatten")
def m_flatten(M, st, args, dty, callee, where):
    v, t = args[0]
    if t is not None and t.is_adt("std::option::IntoIter"):
        o = M.proj1(st, M.proj1(st, v, ("f", 0, 0)), ("f", 0, 0))
        alts = [(st, o.variant == 1)] if isinstance(o, Agg) else M.fork(st, [(isv(o, 1), True), (isv(o, 0), False)])
        return [(s, to_iter(M, s, M.proj1(s, o, ("f", 1, 0)), t.args[0]) if some else NoneIter()) for s, some in alts]
    raise Unsupported("flatten")


@model("std::slice::slice::iter", "std::slice::slice::iter_mut", "std::slice::iter", "std::slice::iter_mut", "std::collections::HashMap::iter", "std::collections::HashMap::iter_mut",
       "std::collections::HashSet::iter", "serde_json::Map::iter", "std::collections::VecDeque::iter", "std::collections::BTreeMap::iter")
def m_iter(M, st, args, dty, callee, where):
    return [(st, to_iter(M, st, *args[0]))]


@model("std::collections::HashMap::keys", "std::collections::HashMap::values", "std::collections::HashMap::values_mut", "serde_json::Map::keys", "serde_json::Map::values",
       "std::collections::BTreeMap::keys", "std::collections::BTreeMap::values")
def m_keys(M, st, args, dty, callee, where):
    it = to_iter(M, st, *args[0])
    return [(st, it.upd(mode="k" if callee["u"].endswith("keys") else "v"))]


@model("std::iter::Iterator::rev")
def m_rev(M, st, args, dty, callee, where):
    it = to_iter(M, st, *args[0])
    if isinstance(it, (VecIter, RangeIter, CharIter)):
        return [(st, it.upd(rev=not it.rev))]
    raise Unsupported("rev")


@model("std::iter::Iterator::enumerate")
def m_enumerate(M, st, args, dty, callee, where):
    return [(st, EnumIter(inner=to_iter(M, st, *args[0]), n=IntVal(0)))]


@model("std::iter::Iterator::skip")
def m_skip(M, st, args, dty, callee, where):
    it = to_iter(M, st, *args[0])
    n = M.term(st, *args[1])
    if isinstance(it, (VecIter, RangeIter, CharIter)) and not it.rev:
        return [(st, it.upd(lo=simp(If(it.lo + n < it.hi, it.lo + n, it.hi))))]
    raise Unsupported("skip")


@model("std::iter::Iterator::take")
def m_itake(M, st, args, dty, callee, where):
    it = to_iter(M, st, *args[0])
    n = M.term(st, *args[1])
    if isinstance(it, (VecIter, RangeIter, CharIter)) and not it.rev:
        return [(st, it.upd(hi=simp(If(it.lo + n < it.hi, it.lo + n, it.hi))))]
    return [(st, TakeIter(inner=it, n=n))]


@model("std::iter::Iterator::map")
def m_imap(M, st, args, dty, callee, where):
    return [(st, MapFnIter(inner=to_iter(M, st, *args[0]), f=args[1][0]))]


@model("std::iter::Iterator::filter")
def m_ifilter(M, st, args, dty, callee, where):
    return [(st, FilterIter(inner=to_iter(M, st, *args[0]), f=args[1][0]))]


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_icloned(M, st, args, dty, callee, where):
    return [(st, ClonedIter(inner=to_iter(M, st, *args[0])))]


@model("std::iter::Iterator::chain")
def m_ichain(M, st, args, dty, callee, where):
    return [(st, ChainIter(a=to_iter(M, st, *args[0]), b=to_iter(M, st, *args[1])))]


@model("std::iter::Iterator::peekable", "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse")
def m_ipeek(M, st, args, dty, callee, where):
    if "peekable" in callee["u"]:
        raise Unsupported("peekable")
    return [(st, args[0][0])]


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(M, st, args, dty, callee, where):
    v, ty = args[0]
    ref = v
    rty = ty.elem
    if not isinstance(ref, Ref):
        raise Unsupported("next on %r" % (v,))
    cur = M.read(st, ref.root, ref.proj, rty)
    isrange = False
    if not isinstance(cur, PV):
        if rty.k == "adt" and rty.name == "std::ops::Range":
            isrange = True
            it = to_iter(M, st, cur, rty)
        else:
            raise Unsupported("next on %s" % rty)
    else:
        it = cur
    if "next_back" in callee["u"]:
        if not isinstance(it, (VecIter, RangeIter, CharIter)):
            raise Unsupported("next_back")
        st.flag("two-ended iterator")
        it = it.upd(rev=not it.rev)
    ity = dty.fields(1)[0][1]
    outs = []
    for s, nx, item in it.next(M, st):
        if "next_back" in callee["u"]:
            nx = nx.upd(rev=not nx.rev)
        if isrange:
            nv = Agg(rty, 0, [nx.lo, nx.hi])
        else:
            nv = nx
        if item is not None or True:
            M.write(s, ref.root, list(ref.proj), rty, nv)
        if item is None:
            outs.append((s, Agg(dty, 0, [])))
        else:
            outs.append((s, Agg(dty, 1, [typed_item(M, s, item, ity)])))
    return outs


def typed_item(M, st, item, ity):
    if isinstance(item, tuple):
        fts = ity.args
        return Agg(ity, 0, [typed_item(M, st, item[1], fts[0]), typed_item(M, st, item[2], fts[1])])
    if isinstance(item, Agg) and item.ty is None:
        return Agg(ity, item.variant, item.fields)
    return item


def run_closure_bool(M, st, f, item, where):
    """-> list of (state, bool term)"""
    return M.call_value(st, f, [item], None, where)


def pure_pred(M, st, f, mk, i, where, byref):
    """closure as an expression over the symbolic index i, or None when it has effects / new symbols"""
    s = st.copy()
    u0 = uid()
    try:
        M.silent += 1
        try:
            item = mk(s, i)
            if byref:
                item = M.new_tmp(s, item, None)
            outs = M.call_value(s, f, item if isinstance(item, list) else [item], None, where)
        finally:
            M.silent -= 1
    except Unsupported:
        return None
    base = st
    exprs = []
    for s2, v in outs:
        for k, h in s2.heaps.items():
            if k in base.heaps and not h.eq(base.heaps[k]):
                return None
        for k in base.mem:
            if s2.mem.get(k) is not base.mem[k] and not (isinstance(base.mem[k], z3.ExprRef) and isinstance(s2.mem.get(k), z3.ExprRef) and base.mem[k].eq(s2.mem[k])):
                return None
        for k in base.tmps:
            if s2.tmps.get(k) is not base.tmps[k]:
                return None
        if not isinstance(v, z3.ExprRef):
            return None
        pcs = s2.pclist()[len(base.pclist()):]
        if has_new(v, u0):
            return None
        exprs.append((pcs, v))
    if not exprs:
        return None
    if len(exprs) == 1:
        return exprs[0][1]
    if any(has_new(p, u0) for ps, _ in exprs for p in ps):
        return None
    r = exprs[-1][1]
    for ps, v in exprs[-2::-1]:
        r = If(And(*ps) if ps else BoolVal(True), v, r)
    return r


def has_new(e, u0, seen=None):
    seen = seen if seen is not None else set()
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if "!" in n:
            x = n.rsplit("!", 1)[1]
            if x.isdigit() and (n.startswith("new!") or int(x) > u0):
                return True
        return False
    if z3.is_quantifier(e):
        return has_new(e.body(), u0, seen)
    return any(has_new(c, u0, seen) for c in e.children())


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::position", "std::iter::Iterator::find")
def m_any(M, st, args, dty, callee, where):
    op = callee["u"].split("::")[-1]
    v, ty = args[0]
    it = to_iter(M, st, v, ty) if not isinstance(v, Ref) else None
    if it is None:
        cur = M.read(st, v.root, v.proj, ty.elem)
        it = to_iter(M, st, cur, ty.elem)
    f = args[1][0]
    en = False
    byref = op == "find"
    if isinstance(it, (VecIter, CharIter)) and not (isinstance(it, CharIter) and it.idx):
        if isinstance(it, VecIter):
            mk = lambda s, i: it.item_at(M, s, i)
        else:
            mk = lambda s, i: z3.StrToCode(z3.SubString(it.s, i, 1))
        i0 = Int("pi!%d" % uid())
        st_i = st.copy()
        st_i.assume(And(i0 >= it.lo, i0 < it.hi))
        p = pure_pred(M, st_i, f, mk, i0, where, byref)
        # panics inside the closure, for an arbitrary element
        if not M.silent and M.panics != "ignore":
            sx = st_i.copy()
            if M.feasible(sx, BoolVal(True)):
                item = mk(sx, i0)
                M.call_value(sx, f, [M.new_tmp(sx, item, None) if byref else item], None, where)
        if p is not None:
            P = lambda i: z3.substitute(p, (i0, i))
            w = Int("wi!%d" % uid())
            q = Int("qi!%d" % uid())
            rng = lambda i: And(i >= it.lo, i < it.hi)
            if op == "any" or op == "all":
                want = op == "any"
                hit = And(rng(w), P(w) if want else Not(P(w)))
                nohit = ForAll([q], Implies(rng(q), Not(P(q)) if want else P(q)))
                return M.fork(st, [(hit, BoolVal(want)), (nohit, BoolVal(not want))])
            first = ForAll([q], Implies(And(q >= it.lo, q < w), Not(P(q)))) if not it.rev else ForAll([q], Implies(And(q > w, q < it.hi), Not(P(q))))
            hit = And(rng(w), P(w), first)
            nohit = ForAll([q], Implies(rng(q), Not(P(q))))
            if op == "position":
                r = simp(w - it.lo) if not it.rev else simp(it.hi - 1 - w)
                return M.fork(st, [(hit, Agg(dty, 1, [r])), (nohit, Agg(dty, 0, []))])
            return M.fork(st, [(hit, Agg(dty, 1, [mk(st, w)])), (nohit, Agg(dty, 0, []))])
    # general: run the closure on an arbitrary element with effects havocked
    outs = abstract_iterate(M, st, it, lambda s, item: M.call_value(s, f, [M.new_tmp(s, item, None) if byref else item], None, where))
    st2 = outs
    st2.flag("iterator search abstracted")
    return [(st2, M.fresh_val(st2, dty, "srch"))]


def abstract_iterate(M, st, it, body, spec=None, end=False):
    """havoc everything the body may write (fixpoint over write sets), run the body once for its obligations"""
    W = set()
    st0 = st.copy()
    fr, fn = M.stackfrs[-1], M.stackfns[-1]

    def inv(s, i):
        from engine import LoopCtx
        if spec is None:
            return []
        c = LoopCtx(M, s, st0, fr, fn)
        c.extra = [i]
        try:
            return list(spec(c))
        except AnchorLost as e:
            s.flag("loop anchor lost: %s" % e)
            return []

    def assume(s, i):
        for _, e in inv(s, i):
            s.assume(e)

    def check(s, i, what):
        if not M.silent:
            for nm, e in inv(s, i):
                M.prove(s, "%s::loop:%s:%s" % (M.cur_name, nm, what), e)
    check(st, it, "init")
    pre = st.copy()
    pre.ghost = dict(pre.ghost)
    pre.ghost["_uidmax"] = uid()
    pre.ghost["_newmax"] = next(M.newc)
    for _ in range(6):
        s1 = st.copy()
        mark, tmark = next(M.frames), next(M.tmpc)
        M.havoc_writes(s1, W, pre, None, None)
        s1.rec = []
        ih = it.havoc(M, s1)
        assume(s1, ih)
        newW = set()
        M.silent += 1
        try:
            for s2, nx, item in ih.next(M, s1):
                if item is None:
                    continue
                for s3, _v in body(s2, mk_item(M, s2, item, None)):
                    for w in s3.rec:
                        nw = M.stable_write(w, pre, mark, tmark, None)
                        if nw is not None:
                            newW.add(nw)
        finally:
            M.silent -= 1
        newW = M.norm_writes(newW | W)
        if newW == W:
            break
        W = newW
    else:
        raise Unsupported("closure write set")
    M.havoc_writes(st, W, pre, None, None)
    st.flag("~loop")
    if not M.silent:
        s1 = st.copy()
        ih = it.havoc(M, s1)
        assume(s1, ih)
        for s2, nx, item in ih.next(M, s1):
            if item is not None:
                for s3, _v in body(s2, mk_item(M, s2, item, None)):
                    check(s3, nx, "preserved")
    if end:
        ih = it.havoc(M, st)
        assume(st, ih)
        ends = [s2 for s2, nx, item in ih.next(M, st.copy()) if item is None]
        if len(ends) == 1:
            return ends[0]
    return st


@model("std::iter::Iterator::for_each")
def m_for_each(M, st, args, dty, callee, where):
    it = to_iter(M, st, *args[0])
    f = args[1][0]
    fn = M.stackfns[-1] if M.stackfns else None
    spec = M.loopspecs.get((fn.name, 0)) if fn is not None and not fn.loops else None
    s = abstract_iterate(M, st, it, lambda s, item: M.call_value(s, f, [item], None, where), spec=spec, end=True)
    return [(s, unit(M, dty))]


@model("std::iter::Iterator::collect", "std::iter::Iterator::sum", "std::iter::Iterator::count", "std::iter::Iterator::max", "std::iter::Iterator::min",
       "std::iter::Iterator::fold", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by", "std::iter::Iterator::last")
def m_collect(M, st, args, dty, callee, where):
    op = callee["u"].split("::")[-1]
    it = to_iter(M, st, *args[0])
    k = M.S.kind(dty)
    if op == "count" and isinstance(it, (VecIter, RangeIter, CharIter)):
        return [(st, it.length())]
    if op == "collect" and k == "vec":
        et = M.vec_elem(dty)
        es = M.sort(et)
        base, f, cl = it, None, False
        if isinstance(base, MapFnIter):
            base, f = base.inner, base.f
        if isinstance(base, ClonedIter):
            base, cl = base.inner, True
        if isinstance(base, VecIter) and not base.rev:
            i0 = Int("pi!%d" % uid())

            def mk(s, i):
                x = base.item_at(M, s, i)
                if cl and isinstance(x, Ref):
                    x = M.read(s, x.root, x.proj, x.ty)
                return x
            if f is None:
                x = mk(st, i0)
                e = M.term(st, x, et) if not isinstance(x, Ref) else M.term(st, M.read(st, x.root, x.proj, x.ty), x.ty)
            else:
                e = pure_pred(M, st, f, mk, i0, where, False)
            if e is not None and e.sort() == es:
                k0 = Int("ix!")
                n = simp(base.hi - base.lo)
                if f is None and z3.is_int_value(simp(base.lo)) and simp(base.lo).as_long() == 0:
                    src = M.read(st, base.src.root, base.src.proj, base.src.ty)
                    a = varr(src)
                else:
                    a = z3.Lambda([k0], z3.substitute(e, (i0, k0 + base.lo)))
                return [(st, mkvec(M.sort(dty), n, a))]
        v = M.fresh_val(st, dty, "coll")
        if isinstance(base, (VecIter, RangeIter)) :
            n = base.length()
            st.assume(vlen(v) == If(n >= 0, n, 0))
        if isinstance(base, MapIter):
            st.assume(vlen(v) == msize(base.m))
        if f is not None:
            abstract_iterate(M, st, it.inner, lambda s, item: M.call_value(s, f, [item], None, where))
        st.flag("collect abstracted")
        return [(st, v)]
    st.flag("iterator fold abstracted")
    if isinstance(it, MapFnIter):
        abstract_iterate(M, st, it.inner, lambda s, item: M.call_value(s, it.f, [item], None, where))
    return [(st, M.fresh_val(st, dty, "fold"))]


# --------------------------------------------------------------------------------------------- HashMap / HashSet / serde Map
@model("std::collections::HashMap::new", "std::collections::HashMap::with_capacity", "serde_json::Map::new", "serde_json::Map::with_capacity",
       "std::collections::HashSet::new", "std::collections::HashSet::with_capacity", "std::collections::BTreeMap::new")
def m_map_new(M, st, args, dty, callee, where):
    return [(st, default_val(M, st, dty))]


def map_of(M, st, args):
    r, t = place_of(M, st, *args[0])
    m = M.term(st, M.read(st, r.root, r.proj, t), t)
    return r, t, m


@model("std::collections::HashMap::len", "std::collections::HashSet::len", "serde_json::Map::len", "std::collections::BTreeMap::len")
def m_map_len(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    return [(st, msize(m))]


@model("std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty", "serde_json::Map::is_empty", "std::collections::BTreeMap::is_empty")
def m_map_is_empty(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    a = marr(m)
    return [(st, simp(msize(m) == 0))]


@model("std::collections::HashMap::clear", "std::collections::HashSet::clear", "serde_json::Map::clear")
def m_map_clear(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    wr(M, st, r, default_val(M, st, t))
    return [(st, unit(M, dty))]


@model("std::collections::HashMap::contains_key", "serde_json::Map::contains_key", "std::collections::HashSet::contains", "std::collections::BTreeMap::contains_key")
def m_contains_key(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    e = sel(marr(m), k)
    return [(st, e if M.S.kind(t) == "set" else simp(isv(e, 1)))]


def map_vty(M, t):
    if M.S.kind(t) == "map":
        return t.args[1]
    return M.db.find_ty("serde_json::Value")


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "serde_json::Map::get", "serde_json::Map::get_mut", "std::collections::BTreeMap::get")
def m_map_get(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    e = isv(sel(marr(m), k), 1)
    return M.fork(st, [(simp(e), Agg(dty, 1, [sub(r, [("mv", k)], map_vty(M, t))])), (simp(Not(e)), Agg(dty, 0, []))])


@model("std::collections::HashMap::insert", "serde_json::Map::insert", "std::collections::BTreeMap::insert")
def m_map_insert(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    v = M.term(st, *args[2])
    a = marr(m)
    old = sel(a, k)
    os = a.sort().range()
    nm = con(m.sort(), 0, Store(a, k, con(os, 1, v)), simp(msize(m) + If(isv(old, 1), 0, 1)))
    wr(M, st, r, nm)
    # the returned previous value, as an Option
    ret = If(isv(old, 1), con(M.sort(dty), 1, fld(old, 1, 0)), con(M.sort(dty), 0)) if M.sort(dty).kind() == z3.Z3_DATATYPE_SORT else None
    return [(st, simp(ret) if z3.is_true(isv(old, 1)) or z3.is_false(isv(old, 1)) else ret)]


@model("std::collections::HashMap::remove", "serde_json::Map::remove", "std::collections::BTreeMap::remove")
def m_map_remove(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    a = marr(m)
    old = sel(a, k)
    os = a.sort().range()
    present = simp(isv(old, 1))
    outs = []
    for s, p in M.fork(st, [(present, True), (simp(Not(present)), False)]):
        if p:
            M.write(s, r.root, list(r.proj), t, con(m.sort(), 0, Store(a, k, con(os, 0)), simp(msize(m) - 1)))
            x = fld(old, 1, 0)
            M.constrain(s, x, map_vty(M, t))
            outs.append((s, Agg(dty, 1, [x])))
        else:
            outs.append((s, Agg(dty, 0, [])))
    return outs


@model("std::collections::HashSet::insert")
def m_set_insert(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    a = marr(m)
    old = sel(a, k)
    wr(M, st, r, con(m.sort(), 0, Store(a, k, BoolVal(True)), simp(msize(m) + If(old, 0, 1))))
    return [(st, simp(Not(old)))]


@model("std::collections::HashSet::remove")
def m_set_remove(M, st, args, dty, callee, where):
    r, t, m = map_of(M, st, args)
    k, _ = sref(M, st, *args[1])
    a = marr(m)
    old = sel(a, k)
    wr(M, st, r, con(m.sort(), 0, Store(a, k, BoolVal(False)), simp(msize(m) - If(old, 1, 0))))
    return [(st, simp(old))]


# --------------------------------------------------------------------------------------------- OnceCell
@model("std::cell::OnceCell::new")
def m_once_new(M, st, args, dty, callee, where):
    return [(st, con(M.sort(dty), 0))]


@model("std::cell::OnceCell::set")
def m_once_set(M, st, args, dty, callee, where):
    v, ty = args[0]
    r = Ref(v.root, v.proj, ty.elem)
    cur = M.read(st, r.root, r.proj, ty.elem)
    outs = []
    x = M.term(st, *args[1])
    for s, none in M.fork(st, [(isv(cur, 0), True), (simp(Not(isv(cur, 0))), False)]):
        if none:
            M.write(s, r.root, list(r.proj), ty.elem, con(cur.sort(), 1, x))
            outs.append((s, Agg(dty, 0, [Agg(dty.fields(0)[0][1], 0, [])])))
        else:
            outs.append((s, Agg(dty, 1, [x])))
    return outs


@model("std::cell::OnceCell::get")
def m_once_get(M, st, args, dty, callee, where):
    v, ty = args[0]
    cur = M.term(st, M.read(st, v.root, v.proj, ty.elem) if isinstance(v, Ref) else v, ty.elem)
    x = M.new_tmp(st, fld(cur, 1, 0), ty.elem.args[0])
    return M.fork(st, [(isv(cur, 1), Agg(dty, 1, [x])), (simp(Not(isv(cur, 1))), Agg(dty, 0, []))])


@model("std::cell::OnceCell::get_or_init")
def m_once_goi(M, st, args, dty, callee, where):
    v, ty = args[0]
    t = ty.elem
    cur = M.term(st, M.read(st, v.root, v.proj, t) if isinstance(v, Ref) else v, t)
    outs = []
    for s, some in M.fork(st, [(isv(cur, 1), True), (simp(Not(isv(cur, 1))), False)]):
        if some:
            outs.append((s, M.new_tmp(s, fld(cur, 1, 0), t.args[0])))
        else:
            for s2, x in M.call_value(s, args[1][0], [], t.args[0], where):
                xt = M.term(s2, x, t.args[0])
                if isinstance(v, Ref):
                    M.write(s2, v.root, list(v.proj), t, con(cur.sort(), 1, xt))
                outs.append((s2, M.new_tmp(s2, xt, t.args[0])))
    return outs


# --------------------------------------------------------------------------------------------- strings
@model("std::string::String::new", "std::string::String::with_capacity")
def m_str_new(M, st, args, dty, callee, where):
    return [(st, StringVal(""))]


@model("std::string::String::clear")
def m_str_clear(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    wr(M, st, r, StringVal(""))
    return [(st, unit(M, dty))]


@model("std::string::String::push_str")
def m_push_str(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = M.term(st, M.read(st, r.root, r.proj, t), t)
    x, _ = sref(M, st, *args[1])
    wr(M, st, r, simp(z3.Concat(v, x)))
    return [(st, unit(M, dty))]


def chr_str(c):
    if z3.is_int_value(c):
        return StringVal(chr(c.as_long()))
    return z3.StrFromCode(c)


@model("std::string::String::push")
def m_push_char(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    v = M.term(st, M.read(st, r.root, r.proj, t), t)
    wr(M, st, r, simp(z3.Concat(v, chr_str(M.term(st, *args[1])))))
    return [(st, unit(M, dty))]


@model("std::string::String::is_empty", "std::str::str::is_empty", "std::str::is_empty")
def m_str_is_empty(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, simp(v == StringVal("")))]


@model("std::string::String::len", "std::str::str::len", "std::str::len")
def m_str_len(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, M.models.blen(M, st, v))]


@model("std::str::str::chars", "std::str::chars", "std::str::str::char_indices", "std::str::char_indices")
def m_chars(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, CharIter(s=v, lo=IntVal(0), hi=simp(z3.Length(v)), rev=False, idx="char_indices" in callee["u"]))]


def pat_str(M, st, a, t):
    v, ty = full(M, st, a, t)
    if ty.k == "char":
        return chr_str(M.term(st, v, ty))
    if M.S.kind(ty) == "str":
        return M.term(st, v, ty)
    raise Unsupported("str pattern %s" % ty)


@model("std::str::str::starts_with", "std::str::starts_with")
def m_starts(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, simp(z3.PrefixOf(pat_str(M, st, *args[1]), v)))]


@model("std::str::str::ends_with", "std::str::ends_with")
def m_ends(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, simp(z3.SuffixOf(pat_str(M, st, *args[1]), v)))]


@model("std::str::str::contains", "std::str::contains")
def m_str_contains(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    return [(st, simp(z3.Contains(v, pat_str(M, st, *args[1]))))]


@model("std::str::str::trim", "std::str::str::trim_start", "std::str::str::trim_end", "std::str::str::to_lowercase", "std::str::str::to_uppercase",
       "std::str::trim", "std::str::to_lowercase", "std::str::to_uppercase", "std::str::trim_end", "std::str::trim_start")
def m_trim(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    f = Function("str_" + callee["u"].split("::")[-1], StringSort(), StringSort())
    r = f(v)
    if "trim" in callee["u"]:
        st.assume(And(z3.Contains(v, r), z3.Length(r) <= z3.Length(v), Implies(v == StringVal(""), r == StringVal(""))))
    return [(st, M.new_tmp(st, r, dty.elem) if dty.k == "ref" else r)]


@model("std::str::str::replace", "std::str::replace")
def m_str_replace(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    p = pat_str(M, st, *args[1])
    r, _ = sref(M, st, *args[2])
    f = Function("str_replace_all", StringSort(), StringSort(), StringSort(), StringSort())
    return [(st, f(v, p, r))]


@model("std::str::str::as_bytes", "std::str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def m_as_bytes(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    t = dty.elem if dty.k == "ref" else dty
    s = M.sort(t)
    f = Function("bytes_of", StringSort(), s)
    b = f(v)
    n = M.models.blen(M, st, v)
    st.assume(vlen(b) == n)
    M.constrain(st, b, t)
    return [(st, M.new_tmp(st, b, t) if dty.k == "ref" else b)]


@model("std::str::str::parse", "std::str::parse")
def m_parse(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    ot = dty.fields(0)[0][1]
    et = dty.fields(1)[0][1]
    okf = Function("parse_ok_%s" % ot.disp, StringSort(), BoolSort())
    vf = Function("parse_%s" % ot.disp, StringSort(), M.sort(ot))
    val = vf(v)
    M.constrain(st, val, ot)
    if ot.k == "int" and ot.d["s"].startswith("u"):
        # decimal digits with an optional '+'
        n = z3.StrToInt(v)
        st.assume(Implies(And(okf(v), n >= 0), val == n))
        hi = INT_RANGES[ot.d["s"]][1]
        st.assume(Implies(And(n >= 0, n <= hi), okf(v)))
        if not z3.is_string_value(v):
            st.assume(Implies(v == StringVal(""), Not(okf(v))))
        elif pystr(v) == "":
            st.assume(Not(okf(v)))
    return M.fork(st, [(okf(v), Agg(dty, 0, [val])), (Not(okf(v)), Agg(dty, 1, [Const("pe!%d" % uid(), M.sort(et))]))])


@model("std::str::str::split", "std::str::split", "std::str::str::lines", "std::str::lines", "std::str::str::split_whitespace")
def m_split(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    vs = M.S.vec(StringSort())
    p = pat_str(M, st, *args[1]) if len(args) > 1 else StringVal(callee["u"].split("::")[-1])
    f = Function("str_split", StringSort(), StringSort(), vs)
    parts = f(v, p)
    st.assume(And(vlen(parts) >= (1 if len(args) > 1 else 0), vlen(parts) <= COLL_MAX))
    strty = next(t for t in M.db.types if t.k == "str")
    r = M.new_tmp(st, parts, None)
    return [(st, VecIter(src=r, lo=IntVal(0), hi=vlen(parts), rev=False, mode="ref", ety=strty))]


@model("std::char::methods::char::is_whitespace", "std::char::methods::char::is_ascii_digit", "std::char::methods::char::is_alphanumeric", "std::char::methods::char::is_numeric",
       "std::char::methods::char::is_alphabetic", "std::char::methods::char::is_ascii_alphabetic", "std::char::methods::char::is_control", "std::char::methods::char::is_ascii_whitespace",
       "std::char::methods::char::is_digit", "std::char::methods::char::is_ascii_alphanumeric", "std::char::methods::char::is_ascii_hexdigit")
def m_is_ws(M, st, args, dty, callee, where):
    c, _ = sref(M, st, *args[0])
    n = callee["u"].split("::")[-1]
    if n == "is_whitespace":
        ws = [0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
        return [(st, simp(Or(And(c >= 9, c <= 13), And(c >= 0x2000, c <= 0x200A), *[c == x for x in ws])))]
    if n == "is_ascii_whitespace":
        return [(st, simp(Or(c == 32, c == 9, c == 10, c == 12, c == 13)))]
    if n == "is_ascii_digit":
        return [(st, simp(And(c >= 48, c <= 57)))]
    if n == "is_control":
        return [(st, simp(Or(c < 32, And(c >= 127, c <= 159))))]
    if n in ("is_ascii_alphabetic",):
        return [(st, simp(Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122))))]
    return [(st, Function("char_" + n, IntSort(), BoolSort())(c))]


@model("std::ops::Add::add", "std::ops::Sub::sub", "std::ops::Mul::mul", "std::ops::Neg::neg", "std::ops::Div::div", "std::ops::Rem::rem")
def m_ops(M, st, args, dty, callee, where):
    a, ta = sref(M, st, *args[0])
    op = callee["u"].split("::")[-1]
    if M.S.kind(ta) == "str":
        b, _ = sref(M, st, *args[1])
        return [(st, simp(z3.Concat(a, b)))]
    if op == "neg":
        if ta.k == "float":
            return [(st, z3.fpNeg(a))]
        lo, hi = INT_RANGES[ta.d["s"]]
        if not panic_fork(M, st, a != lo, "OverflowNeg", where):
            return []
        return [(st, simp(-a))]
    b, tb = sref(M, st, *args[1])
    if ta.k == "float":
        return [(st, M.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[op], a, ta, b, tb, dty))]
    if ta.k == "int":
        lo, hi = INT_RANGES[ta.d["s"]]
        if op in ("div", "rem"):
            if not panic_fork(M, st, b != 0, "DivisionByZero", where):
                return []
            if not panic_fork(M, st, Not(And(a == lo, b == -1)), "OverflowDiv", where):
                return []
            return [(st, M.binop(st, {"div": "Div", "rem": "Rem"}[op], a, ta, b, tb, dty))]
        x = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op]()
        if not panic_fork(M, st, And(x >= lo, x <= hi), "Overflow", where):
            return []
        return [(st, simp(x))]
    raise Unsupported("op %s on %s" % (op, ta))


def int_method(op):
    def f(M, st, args, dty, callee, where):
        a = M.term(st, *args[0])
        ta = args[0][1]
        lo, hi = INT_RANGES[ta.d["s"]]
        b = M.term(st, *args[1]) if len(args) > 1 else None
        tb = args[1][1] if len(args) > 1 else None
        if op.startswith("wrapping_"):
            o = op[9:]
            if o == "neg":
                return [(st, simp(M.wrap(-a, ta)))]
            if o in ("add", "sub", "mul"):
                return [(st, M.binop(st, o.capitalize(), a, ta, b, tb, dty))]
            if o in ("div", "rem"):
                if not panic_fork(M, st, b != 0, "DivisionByZero", where):
                    return []
                return [(st, M.wrap(M.binop(st, o.capitalize(), a, ta, b, tb, dty), ta))]
        if op.startswith("checked_"):
            o = op[8:]
            if o in ("add", "sub", "mul"):
                x = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[o]()
                ok = And(x >= lo, x <= hi)
            elif o in ("div", "rem"):
                x = M.binop(st, o.capitalize(), a, ta, b, tb, dty)
                ok = And(b != 0, Not(And(a == lo, b == -1)) if lo < 0 else BoolVal(True))
            elif o == "neg":
                x, ok = -a, a != lo
            else:
                raise Unsupported(op)
            return M.fork(st, [(ok, Agg(dty, 1, [x])), (Not(ok), Agg(dty, 0, []))])
        if op.startswith("saturating_"):
            o = op[11:]
            x = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[o]()
            return [(st, simp(If(x < lo, lo, If(x > hi, hi, x))))]
        if op == "rem_euclid":
            if not panic_fork(M, st, b != 0, "DivisionByZero", where):
                return []
            if not panic_fork(M, st, Not(And(a == lo, b == -1)), "OverflowRem", where):
                return []
            return [(st, simp(a % If(b < 0, -b, b)))]
        if op == "wrapping_rem_euclid":
            if not panic_fork(M, st, b != 0, "DivisionByZero", where):
                return []
            return [(st, simp(a % If(b < 0, -b, b)))]
        if op == "abs":
            if not panic_fork(M, st, a != lo, "OverflowNeg", where):
                return []
            return [(st, simp(If(a < 0, -a, a)))]
        if op == "min":
            return [(st, simp(If(b < a, b, a)))]
        if op == "max":
            return [(st, simp(If(b >= a, b, a)))]
        raise Unsupported(op)
    return f


for _t in ("i32", "usize", "i64", "u32", "u64", "u8"):
    for _o in ("wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "wrapping_div", "wrapping_rem", "checked_add", "checked_sub", "checked_mul",
               "checked_div", "checked_rem", "checked_neg", "saturating_add", "saturating_sub", "saturating_mul", "rem_euclid", "abs"):
        MODELS["std::num::%s::%s" % (_t, _o)] = int_method(_o)
        MODELS["std::num::<impl %s>::%s" % (_t, _o)] = int_method(_o)


@model("std::intrinsics::integer_min", "std::cmp::min", "std::cmp::Ord::min")
def m_imin(M, st, args, dty, callee, where):
    a, b = M.term(st, *args[0]), M.term(st, *args[1])
    return [(st, simp(If(b < a, b, a)))]


@model("std::intrinsics::integer_max", "std::cmp::max", "std::cmp::Ord::max")
def m_imax(M, st, args, dty, callee, where):
    a, b = M.term(st, *args[0]), M.term(st, *args[1])
    return [(st, simp(If(b >= a, b, a)))]


@model("std::f32::f32::powf", "std::f32::f32::floor", "std::f32::f32::ceil", "std::f32::f32::min", "std::f32::f32::max", "std::f32::f32::powi", "std::f32::f32::round",
       "std::f32::powf", "std::f32::floor", "std::f32::ceil", "std::f32::min", "std::f32::max", "std::f32::round", "std::f32::trunc")
def m_f32(M, st, args, dty, callee, where):
    op = callee["u"].split("::")[-1]
    a = M.term(st, *args[0])
    if op == "floor":
        return [(st, Function("f_floor", a.sort(), a.sort())(a))]
    if op == "ceil":
        return [(st, Function("f_ceil", a.sort(), a.sort())(a))]
    if op == "trunc":
        return [(st, Function("f_rtz", a.sort(), a.sort())(a))]
    b = M.term(st, *args[1]) if len(args) > 1 else None
    s = a.sort()
    if op in ("min", "max"):
        lt = z3.fpLT(a, b) if op == "min" else z3.fpGT(a, b)
        return [(st, If(z3.fpIsNaN(a), b, If(z3.fpIsNaN(b), a, If(lt, a, b))))]
    if b is None:
        return [(st, Function("f32_" + op, s, s)(a))]
    return [(st, Function("f32_" + op, s, b.sort(), s)(a, b))]


@model("std::f32::f32::to_bits", "std::f32::to_bits", "core::f32::<impl f32>::to_bits")
def m_to_bits(M, st, args, dty, callee, where):
    """different bits for different numbers, the same for the same"""
    a = simp(M.term(st, *args[0]))
    r = Function("f32_bits", a.sort(), IntSort())(a)
    st.assume(And(r >= 0, r < 2**32, Or(z3.fpIsNaN(a), Function("f32_of_bits", IntSort(), a.sort())(r) == a)))
    return [(st, r)]


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp", "std::f32::f32::total_cmp")
def m_cmp(M, st, args, dty, callee, where):
    a, ta = sref(M, st, *args[0])
    b, tb = sref(M, st, *args[1])
    if callee["u"].endswith("partial_cmp"):
        od = dty.args[0]
        if ta.k == "float":
            os_, names = M.sort(od), [v["n"] for v in od.variants]
            L, E, G = (con(os_, names.index(n)) for n in ("Less", "Equal", "Greater"))
            o = M.sort(dty)
            v = If(z3.fpLT(a, b), L, If(z3.fpEQ(a, b), E, G))
            return [(st, If(Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), con(o, 0), con(o, 1, v)))]
        return [(s2, con(M.sort(dty), 1, M.term(s2, r, od))) for s2, r in m_cmp(M, st, args, od, {"u": "std::cmp::Ord::cmp"}, where)]
    names = [v["n"] for v in dty.variants]
    s = M.sort(dty)
    L, E, G = (con(s, names.index(n)) for n in ("Less", "Equal", "Greater"))
    if ta.k == "int":
        return [(st, If(a < b, L, If(a == b, E, G)))]
    if M.S.kind(ta) == "str":
        return [(st, If(a == b, E, If(M.strlt(st, a, b), L, G)))]
    raise Unsupported("cmp of %s" % ta)


# --------------------------------------------------------------------------------------------- formatting
@model("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug")
def m_arg(M, st, args, dty, callee, where):
    v, t = args[0]
    x, ty = full(M, st, v, t)
    return [(st, FmtArg(v=show(M, st, x, ty, "debug" if "debug" in callee["u"] else "disp", v)))]


def show(M, st, v, ty, how="disp", ref=None):
    k = M.S.kind(ty)
    if how == "disp":
        if k == "str":
            return M.term(st, v, ty)
        if k == "int":
            x = M.term(st, v, ty)
            return If(x >= 0, z3.IntToStr(x), z3.Concat(StringVal("-"), z3.IntToStr(-x)))
        if k == "char":
            return chr_str(M.term(st, v, ty))
        if k == "bool":
            return If(M.term(st, v, ty), StringVal("true"), StringVal("false"))
    if k == "rc" or k == "dyn":
        # engine object behind a pointer
        if ty.k == "adt" and ty.args[0].k != "dyn":
            it = ty.args[0]
            return show(M, st, M.read(st, ("H", it, M.term(st, v, ty)), (), it), M.strip(it), how)
        if k == "dyn" and isinstance(ref, Ref):
            v = dyn_loc(M, st, ref, None)[0]
        x = v if isinstance(v, z3.ExprRef) else Int("sh!%d" % uid())
        return Function("show_dyn", IntSort(), StringSort())(x)
    try:
        x = M.term(st, v, ty)
    except Unsupported:
        return Const("sh!%d" % uid(), StringSort())
    return Function("show_%s_%s" % (how, re.sub(r"\W+", "_", ty.disp)), x.sort(), StringSort())(x)


@model("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1")
def m_arguments(M, st, args, dty, callee, where):
    op = callee["u"]
    if "from_str" in op:
        v, _ = sref(M, st, *args[0])
        return [(st, Fmt(parts=(v,)))]
    tv, tt = full(M, st, *args[0])
    av, at = full(M, st, *args[1])
    if not isinstance(tv, Agg):
        return [(st, Fmt(parts=(Const("fmt!%d" % uid(), StringSort()),)))]
    b = [x.as_long() for x in tv.fields]
    argl = list(av.fields) if isinstance(av, Agg) else []
    parts = []
    i = 0
    na = 0
    ok = True
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            parts.append(StringVal(bytes(b[i + 1:i + 1 + x]).decode("utf8")))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | (b[i + 2] << 8)
            parts.append(StringVal(bytes(b[i + 3:i + 3 + n]).decode("utf8")))
            i += 3 + n
        elif x == 0xC0:
            if na < len(argl) and isinstance(argl[na], FmtArg):
                parts.append(argl[na].v)
            else:
                ok = False
                break
            na += 1
            i += 1
        else:
            ok = False
            break
    if not ok:
        parts = [Const("fmt!%d" % uid(), StringSort())]
    return [(st, Fmt(parts=tuple(parts)))]


def fmt_str(M, v):
    if not isinstance(v, Fmt):
        return Const("fmt!%d" % uid(), StringSort())
    ps = list(v.parts)
    if not ps:
        return StringVal("")
    if len(ps) == 1:
        return ps[0]
    return z3.Concat(*ps)


@model("std::fmt::format")
def m_format(M, st, args, dty, callee, where):
    return [(st, fmt_str(M, args[0][0]))]


@model("std::string::ToString::to_string")
def m_to_string(M, st, args, dty, callee, where):
    v, t = args[0]
    x, ty = full(M, st, v, t)
    return [(st, show(M, st, x, ty, "disp", v))]


@model("std::fmt::Formatter::write_fmt", "std::fmt::Formatter::write_str", "std::fmt::Display::fmt", "std::fmt::Debug::fmt", "std::fmt::Formatter::debug_tuple_field1_finish",
       "std::fmt::Formatter::debug_struct_field2_finish", "std::fmt::Formatter::debug_c_like_enum_write_str", "std::fmt::Formatter::debug_struct_field1_finish")
def m_fmt(M, st, args, dty, callee, where):
    b = Const("fe!%d" % uid(), BoolSort())
    return [(st, M.fresh_val(st, dty, "fmtres"))]


@model("std::io::_print", "std::io::_eprint")
def m_print(M, st, args, dty, callee, where):
    st.ghost = dict(st.ghost)
    k = "stdout" if "_print" in callee["u"] and "_eprint" not in callee["u"] else "stderr"
    return [(st, unit(M, dty))]


# --------------------------------------------------------------------------------------------- panics
@model("std::panicking::panic", "std::panicking::panic_fmt", "std::panicking::panic_default_msg", "std::panicking::panic_const", "std::option::unwrap_failed",
       "std::option::expect_failed", "std::result::unwrap_failed", "std::panicking::assert_failed", "std::panicking::unreachable_display", "std::panicking::panic_explicit",
       "std::result::unwrap_failed::unwrap_failed_inner", "std::panicking::panic_nounwind", "std::panicking::panic_display", "std::panicking::panic_str_2015")
def m_panic(M, st, args, dty, callee, where):
    fns = [f for f in M.stackfns if f.local]
    M.panic(st, norm(callee["u"]).split("::")[-1], "%s%s" % (fns[-1].name.split("::", 1)[-1] if fns else "", " via " + where if fns and not where.startswith(fns[-1].name.split("::", 1)[-1]) else " at " + where))
    return []


@model("std::process::exit", "std::process::abort")
def m_exit(M, st, args, dty, callee, where):
    return []


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_call_once(M, st, args, dty, callee, where):
    f = args[0][0]
    tup = args[1][0]
    if isinstance(tup, Agg):
        vals = list(tup.fields)
    else:
        n = len(args[1][1].args)
        vals = [fld(tup, 0, i) for i in range(n)]
    return M.call_value(st, f, vals, dty, where)


# --------------------------------------------------------------------------------------------- serde_json
JK = {"null": 0, "bool": 1, "i64": 2, "u64": 3, "f64": 4, "str": 5, "arr": 6, "obj": 7}


class J:
    """accessors on the abstract Json sort"""

    def __init__(self, M):
        self.M = M
        s = M.S.json()
        self.s = s
        self.kind = Function("jkind", s, IntSort())
        self.bool = Function("jbool", s, BoolSort())
        self.int = Function("jint", s, IntSort())
        self.f64 = Function("jf64", s, z3.Float64())
        self.str = Function("jstr", s, StringSort())
        self.arr = Function("jarr", s, M.S.vec(s))
        self.obj = Function("jobj", s, M.S.map(StringSort(), s))


JV = {0: ("null",), 1: ("bool",), 2: ("i64", "u64", "f64"), 3: ("str",), 4: ("arr",), 5: ("obj",)}


def json_variant(M, st, j, i):
    jinv(M, st, j)
    k = J(M).kind(j)
    cs = [k == JK[n] for n in JV[i]]
    return cs[0] if len(cs) == 1 else Or(*cs)


def json_agg(M, st, i, vs):
    x = J(M)
    if i == 0:
        j = Const("jnull", x.s)
        st.assume(x.kind(j) == 0)
        return j
    if i == 2:
        return M.term(st, *vs[0])
    return mk_json(M, st, *vs[0])


def json_field(M, st, j, i):
    x = J(M)
    return {1: x.bool, 3: x.str, 4: x.arr, 5: x.obj}[i](j) if i != 2 else j


def jinv(M, st, j):
    i = ("ji", j.get_id())
    if i in st.rng:
        return
    st.rng = st.rng | {i}
    M.keep(j)
    x = J(M)
    st.assume(And(x.kind(j) >= 0, x.kind(j) <= 7))
    st.assume(Implies(x.kind(j) == JK["i64"], And(x.int(j) >= -2**63, x.int(j) <= 2**63 - 1)))
    st.assume(Implies(x.kind(j) == JK["u64"], And(x.int(j) > 2**63 - 1, x.int(j) <= 2**64 - 1)))


def jarg(M, st, args):
    v, t = sref(M, st, *args[0])
    jinv(M, st, v)
    return v, J(M)


@model("serde_json::Value::as_str")
def j_as_str(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = x.kind(j) == JK["str"]
    strty = dty.fields(1)[0][1].elem
    return M.fork(st, [(c, Agg(dty, 1, [M.new_tmp(st, x.str(j), strty)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::as_bool")
def j_as_bool(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = x.kind(j) == JK["bool"]
    return M.fork(st, [(c, Agg(dty, 1, [x.bool(j)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::as_i64")
def j_as_i64(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = x.kind(j) == JK["i64"]
    return M.fork(st, [(c, Agg(dty, 1, [x.int(j)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::as_u64")
def j_as_u64(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = And(Or(x.kind(j) == JK["i64"], x.kind(j) == JK["u64"]), x.int(j) >= 0)
    return M.fork(st, [(c, Agg(dty, 1, [x.int(j)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::as_f64")
def j_as_f64(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    k = x.kind(j)
    c = And(k >= 2, k <= 4)
    return M.fork(st, [(c, Agg(dty, 1, [x.f64(j)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::is_number", "serde_json::Value::is_i64", "serde_json::Value::is_string", "serde_json::Value::is_object", "serde_json::Value::is_array",
       "serde_json::Value::is_null", "serde_json::Value::is_boolean", "serde_json::Value::is_f64", "serde_json::Value::is_u64")
def j_is(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    k = x.kind(j)
    n = callee["u"].split("::")[-1]
    return [(st, {"is_number": And(k >= 2, k <= 4), "is_i64": k == 2, "is_string": k == 5, "is_object": k == 7, "is_array": k == 6, "is_null": k == 0,
                  "is_boolean": k == 1, "is_f64": k == 4, "is_u64": And(k >= 2, k <= 3, x.int(j) >= 0)}[n])]


@model("serde_json::Value::as_object")
def j_as_object(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = x.kind(j) == JK["obj"]
    mt = dty.fields(1)[0][1].elem
    o = x.obj(j)
    M.constrain(st, o, mt)
    return M.fork(st, [(c, Agg(dty, 1, [M.new_tmp(st, o, mt)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::as_array")
def j_as_array(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    c = x.kind(j) == JK["arr"]
    mt = dty.fields(1)[0][1].elem
    o = x.arr(j)
    M.constrain(st, o, mt)
    return M.fork(st, [(c, Agg(dty, 1, [M.new_tmp(st, o, mt)])), (Not(c), Agg(dty, 0, []))])


@model("serde_json::Value::get")
def j_get(M, st, args, dty, callee, where):
    j, x = jarg(M, st, args)
    kt = args[1][1]
    k, kty = sref(M, st, *args[1])
    jt = dty.fields(1)[0][1].elem
    if M.S.kind(kty) == "str":
        o = x.obj(j)
        e = sel(marr(o), k)
        c = And(x.kind(j) == JK["obj"], isv(e, 1))
        return M.fork(st, [(c, Agg(dty, 1, [M.new_tmp(st, fld(e, 1, 0), jt)])), (Not(c), Agg(dty, 0, []))])
    a = x.arr(j)
    c = And(x.kind(j) == JK["arr"], k < vlen(a))
    return M.fork(st, [(c, Agg(dty, 1, [M.new_tmp(st, Select(varr(a), k), jt)])), (Not(c), Agg(dty, 0, []))])


def mk_json(M, st, v, t):
    """Json value of a Rust value"""
    x = J(M)
    v, t = full(M, st, v, t)
    k = M.S.kind(t)
    if k == "json":
        return M.term(st, v, t)
    tm = M.term(st, v, t)
    f = Function("to_json_%s" % re.sub(r"\W+", "_", str(tm.sort())), tm.sort(), x.s)
    j = f(tm)
    if k == "str":
        st.assume(And(x.kind(j) == JK["str"], x.str(j) == tm))
    elif k == "bool":
        st.assume(And(x.kind(j) == JK["bool"], x.bool(j) == tm))
    elif k == "int":
        st.assume(And(x.kind(j) == If(tm <= 2**63 - 1, IntVal(JK["i64"]), IntVal(JK["u64"])), x.int(j) == tm))
    elif k == "float":
        # non-finite floats become null
        fin = Not(Or(z3.fpIsNaN(tm), z3.fpIsInf(tm)))
        st.assume(x.kind(j) == If(fin, IntVal(JK["f64"]), IntVal(JK["null"])))
        st.assume(Implies(fin, x.f64(j) == z3.fpToFP(z3.RNE(), tm, z3.Float64())))
    elif k == "jmap":
        st.assume(And(x.kind(j) == JK["obj"], x.obj(j) == tm))
    elif k == "vec" and M.S.kind(M.vec_elem(t)) == "json":
        st.assume(And(x.kind(j) == JK["arr"], x.arr(j) == tm))
    elif k == "vec":
        et = M.vec_elem(t)
        ef = None
        st.assume(And(x.kind(j) == JK["arr"], vlen(x.arr(j)) == vlen(tm)))
        if M.S.kind(et) == "str":
            es = M.sort(et)
            g = Function("to_json_String", es, x.s)
            q = Int("jq!%d" % uid())
            st.assume(ForAll([q], And(x.kind(Select(varr(x.arr(j)), q)) == JK["str"], x.str(Select(varr(x.arr(j)), q)) == Select(varr(tm), q))))
    elif k == "map":
        vt = t.args[1]
        st.assume(x.kind(j) == JK["obj"])
        q = Const("jk!%d" % uid(), marr(tm).sort().domain())
        e = Select(marr(tm), q)
        je = Select(marr(x.obj(j)), q)
        body = [isv(je, 1) == isv(e, 1)]
        if M.S.kind(vt) == "int":
            body.append(Implies(isv(e, 1), And(x.kind(fld(je, 1, 0)) == 2, x.int(fld(je, 1, 0)) == fld(e, 1, 0))))
        if marr(tm).sort().domain() == StringSort():
            st.assume(ForAll([q], And(*body)))
    elif k == "data" and t.is_adt("std::option::Option"):
        st.flag("json of option")
    else:
        st.flag("json of " + t.disp[:30])
    return j


@model("serde_json::to_value")
def j_to_value(M, st, args, dty, callee, where):
    return [(st, Agg(dty, 0, [mk_json(M, st, *args[0])]))]


@model("serde_json::from_str")
def j_from_str(M, st, args, dty, callee, where):
    v, _ = sref(M, st, *args[0])
    x = J(M)
    ok = Function("json_ok", StringSort(), BoolSort())
    val = Function("json_of", StringSort(), x.s)
    ot = dty.fields(0)[0][1]
    if M.S.kind(ot) != "json":
        raise Unsupported("from_str")
    jinv(M, st, val(v))
    return M.fork(st, [(ok(v), Agg(dty, 0, [val(v)])), (Not(ok(v)), Agg(dty, 1, [Const("jerr!%d" % uid(), M.sort(dty.fields(1)[0][1]))]))])


# --------------------------------------------------------------------------------------------- randomness / time
@model("rand::SeedableRng::seed_from_u64")
def m_seed(M, st, args, dty, callee, where):
    s = M.term(st, *args[0])
    M.events.append(("seeded_rng", where))
    f = Function("rng_of_seed", IntSort(), M.sort(dty))
    return [(st, f(s))]


@model("rand::RngExt::random", "rand::Rng::random")
def m_random(M, st, args, dty, callee, where):
    r, t = place_of(M, st, *args[0])
    g = M.term(st, M.read(st, r.root, r.proj, t), t)
    f = Function("rng_next_%s" % dty.disp, g.sort(), M.sort(dty))
    n = Function("rng_adv", g.sort(), g.sort())
    v = f(g)
    M.constrain(st, v, dty)
    M.write(st, r.root, list(r.proj), t, n(g))
    return [(st, v)]


@model("rand::rng")
def m_rng(M, st, args, dty, callee, where):
    M.events.append(("thread_rng", where))
    return [(st, Const("trng!%d" % uid(), M.sort(dty)))]


@model("rand::RngExt::random_range", "rand::Rng::random_range")
def m_random_range(M, st, args, dty, callee, where):
    v = M.fresh_val(st, dty, "rnd")
    rt = args[1][1]
    if rt.k == "adt" and rt.name == "std::ops::Range":
        lo = M.term(st, M.proj1(st, args[1][0], ("f", 0, 0)), rt.args[0])
        hi = M.term(st, M.proj1(st, args[1][0], ("f", 0, 1)), rt.args[0])
        if not panic_fork(M, st, lo < hi, "random_range: empty range", where):
            return []
        st.assume(And(v >= lo, v < hi))
    return [(st, v)]


@model("web_time::Instant::now", "std::time::Instant::now", "web_time::Instant::elapsed", "std::time::Instant::elapsed", "web_time::Duration::as_millis", "std::time::Duration::as_millis",
       "std::time::Duration::as_secs_f64")
def m_now(M, st, args, dty, callee, where):
    M.events.append(("clock", where))
    return [(st, M.fresh_val(st, dty, "clock"))]


@model("std::io::error::<impl std::io::Error>::new", "std::io::Error::new")
def m_ioerr(M, st, args, dty, callee, where):
    return [(st, M.fresh_val(st, dty, "ioerr"))]


def io_err(M, st, dty, kind):
    """an io::Error of the kind, as a Result's"""
    e = M.fresh_val(st, dty.args[1], "ioerr")
    kt = M.db.find_ty("std::io::ErrorKind")
    if kind is not None and kt is not None:
        n = [v["n"] for v in kt.variants]
        if kind in n:
            f = Function("io_kind", M.sort(dty.args[1]), M.sort(kt))
            st.assume(f(M.term(st, e, dty.args[1])) == con(M.sort(kt), n.index(kind)))
    return Agg(dty, 1, [e])


@model("std::io::impls::read_exact", "alloc::io::impls::read_exact", "std::io::Read::read_exact")
def m_read_exact(M, st, args, dty, callee, where):
    """of a slice of bytes: as many as the buffer has, which are then gone from it"""
    if args[0][1].k != "ref" or args[0][1].elem.k != "ref" or args[0][1].elem.elem.k != "slice":
        raise Unsupported("read_exact")
    src, t = place_of1(M, st, *args[0])
    s = M.term(st, M.read(st, src.root, src.proj, t), t)
    b = args[1][0]
    buf = M.read(st, b.root, b.proj, b.ty)
    agg = isinstance(buf, Agg)
    if not agg:
        buf = M.term(st, buf, b.ty)
    n = len(buf.fields) if agg else simp(vlen(buf))
    outs = []
    for s1, ok in M.fork(st, [(simp(vlen(s) >= n), True), (simp(vlen(s) < n), False)]):
        if ok:
            if agg:
                els = [sel(varr(s), i) for i in range(n)]
                for e in els:
                    M.constrain(s1, e, M.vec_elem(t.elem))
                M.write(s1, b.root, list(b.proj), b.ty, Agg(buf.ty, 0, els))
            else:
                M.write(s1, b.root, list(b.proj), b.ty, mkvec(buf.sort(), n, varr(s)))
            k = Int("ix!")
            M.write(s1, src.root, list(src.proj), t, mkvec(s.sort(), simp(vlen(s) - n), z3.Lambda([k], Select(varr(s), k + n))))
            outs.append((s1, Agg(dty, 0, [Agg(dty.args[0], 0, [])])))
        else:
            M.write(s1, src.root, list(src.proj), t, mkvec(s.sort(), IntVal(0), varr(s)))
            outs.append((s1, io_err(M, s1, dty, "UnexpectedEof")))
    return outs


@model("std::str::from_utf8")
def m_from_utf8(M, st, args, dty, callee, where):
    """a single byte below 128 is that character, another single byte is none; of more bytes nothing is said"""
    w, wt = full(M, st, *args[0])
    w = vec_of(M, st, w, wt)
    b0 = sel(varr(w), IntVal(0))
    x = Const("utf8!%d" % uid(), StringSort())
    ok = Bool("utf8ok!%d" % uid())
    st.assume(Implies(vlen(w) == 1, ok == (b0 < 128)))
    st.assume(Implies(And(ok, vlen(w) == 1), And(z3.Length(x) == 1, z3.StrToCode(x) == b0)))
    outs = []
    for s1, k in M.fork(st, [(ok, True), (simp(Not(ok)), False)]):
        outs.append((s1, Agg(dty, 0, [x]) if k else Agg(dty, 1, [M.fresh_val(s1, dty.args[1], "utf8err")])))
    return outs


@model("std::io::Error::kind")
def m_io_kind(M, st, args, dty, callee, where):
    e, t = full(M, st, *args[0])
    f = Function("io_kind", M.sort(t), M.sort(dty))
    return [(st, f(M.term(st, e, t)))]


@model("std::ops::RangeInclusive::new")
def m_ri_new(M, st, args, dty, callee, where):
    lo, hi = M.term(st, *args[0]), M.term(st, *args[1])
    return [(st, RangeIter(lo=lo, hi=simp(hi + 1), rev=False))]


@model("std::option::Option::is_some_and")
def m_nope(M, st, args, dty, callee, where):
    raise Unsupported("is_some_and")

Models.json_variant = staticmethod(json_variant)
Models.json_agg = staticmethod(json_agg)
Models.json_field = staticmethod(json_field)
