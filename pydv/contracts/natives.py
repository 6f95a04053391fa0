"""The native operators on values of one type: what each gives for every pair of operands, and when it is an error (C07, C04, C03)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal, IntVal, Int
from specs import contract, loop
from engine import AnchorLost, con
from view import View, pats
from . import lists as li
from . import listdefs as ld

N = "native_function_call::NativeFunctionCall::"
ARITY = {}


def value_ty(c):
    t = c.M.db.find_ty("value::Value")
    if t is None:
        raise AnchorLost("type Value")
    return t


def value_at(c, loc):
    t = value_ty(c)
    return View(c, ("H", t, loc), (), t).norm().value


def res_value(c):
    """the value that is handed back (meaningful when the result is Ok)"""
    return value_at(c, c.ret.ok.t)


def is_value(c):
    return c.M.kind_uf(c.ret.ok.t) == c.M.kindid(value_ty(c))


def par(c, i):
    return c.arg(1)[i].value


class Ops:
    def __init__(self, c):
        self.c = c
        ft = c.M.db.find_ty("value::Value")
        self.i32 = None

    def ity(self, v):
        return v.norm().ty


def wrap(c, x, v):
    return c.M.wrap(x, v.norm().ty)


def tdiv(a, b):
    return If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))


REM = z3.Function("ink_rem", z3.IntSort(), z3.IntSort(), z3.IntSort())


def rem_defined(c):
    """REM: what is left of a/b rounded towards zero, a name that keeps products out of the callers' proofs"""
    x, y = z3.Ints("x!rem y!rem")
    return ForAll([x, y], REM(x, y) == c.M.wrap(x - y * tdiv(x, y), i32(c)), patterns=[REM(x, y)])


def i32(c):
    t = c.M.db.find_ty("i32")
    if t is None:
        raise AnchorLost("type i32")
    return t


def f2i(c, x, v):
    """`as i32` of a float: truncated, saturated, 0 of NaN"""
    return c.M.float_to_int(x, v.norm().ty)


F32 = z3.Float32()


def i2f(c, x):
    return c.M.int_to_float(x, F32)


def fa(op):
    """Rust's own f32 operator, on the operands in this order"""
    return lambda c, r, a, b: r.t == c.M.farith(op, a.t, b.t)


def fu(name):
    return lambda c, r, a, b: r.t == z3.Function(name, F32, F32)(a.t)




def fmin(a, b):
    return If(z3.fpIsNaN(a), b, If(z3.fpIsNaN(b), a, If(z3.fpLT(a, b), a, b)))


def fmax(a, b):
    return If(z3.fpIsNaN(a), b, If(z3.fpIsNaN(b), a, If(z3.fpGT(a, b), a, b)))


def fnz(x):
    return Not(z3.fpEQ(x, z3.FPVal(0.0, z3.Float32())))


B, I, F, S, L, D = "Bool", "Int", "Float", "String", "List", "DivertTarget"


def eqt(f):
    """the result's payload is this term"""
    return lambda c, r, a, b: r.t == f(a.t, b.t if b is not None else None)


def eqw(f):
    return lambda c, r, a, b: r.t == wrap(c, f(a.t, b.t if b is not None else None), r)


def strings(f):
    return lambda c, r, a, b: r.t == f(a.field("string").t, b.field("string").t)


def pw(f):
    """list result: what it says of each possible item"""
    return lambda c, r, a, b: li.pointwise(r, lambda k: f(li.arr(a), li.arr(b) if b is not None else None, k, li.arr(r)))


def empty(v):
    return v.items.len == 0


def lcontains(a, b):
    return And(Not(empty(a)), Not(empty(b)), li.subset(b, a))


def leq(a, b):
    return And(a.items.len == b.items.len, li.subset(a, b))


def lgt(a, b):
    return And(Not(empty(a)), Or(empty(b), li.all_pairs(a, b, lambda x, y: x > y)))


def llt(a, b):
    return And(Not(empty(b)), Or(empty(a), li.all_pairs(a, b, lambda x, y: x < y)))


def lge(a, b):
    return And(Not(empty(a)), Or(empty(b), And(li.bounds(a, b, li.GE, True), li.bounds(a, b, li.GE, False))))


def lle(a, b):
    return And(Not(empty(b)), Or(empty(a), And(li.bounds(b, a, li.GE, True), li.bounds(b, a, li.GE, False))))


def lst(f):
    return lambda c, r, a, b: r.t == f(a, b)


def new_string(c, r, a, b):
    return r.field("string").t == z3.Concat(a.field("string").t, b.field("string").t)


def extreme(le):
    def f(c, r, a, b):
        k, q = li.qk(a), li.qk(a, "p")
        return And(empty(r) == empty(a), r.items.len <= 1,
                   ForAll([k, q], Implies(And(li.has(li.arr(r), k), li.has(li.arr(a), q)),
                                          And(Select(li.arr(r), k) == Select(li.arr(a), k), le(li.val(li.arr(a), q), li.val(li.arr(a), k))))))
    return f


def maxval(c, r, a, b):
    """the greatest value in the list, 0 of an empty one"""
    k, q = li.qk(a), li.qk(a, "p")
    return And(Implies(empty(a), r.t == 0),
               Implies(Not(empty(a)), And(z3.Exists([k], And(li.has(li.arr(a), k), li.val(li.arr(a), k) == r.t)),
                                          ForAll([q], Implies(li.has(li.arr(a), q), li.val(li.arr(a), q) <= r.t)))))


def path_eq(c, r, a, b):
    return None


ZERO = lambda c, a, b: b.t == 0
POW = z3.Function("f32_powf", z3.Float32(), z3.Float32(), z3.Float32())

# operator -> {type of both operands: (type of the result, relation, when it's an error)}
TABLE = {
    "add_op": (2, {I: (I, eqw(lambda a, b: a + b)), F: (F, fa("Add")), S: (S, new_string),
                   L: (L, pw(lambda a, b, k, r: If(li.has(b, k), Select(b, k), Select(a, k))))}),
    "subtract_op": (2, {I: (I, eqw(lambda a, b: a - b)), F: (F, fa("Sub")),
                        L: (L, pw(lambda a, b, k, r: If(li.has(b, k), li.none(r), Select(a, k))))}),
    "multiply_op": (2, {I: (I, eqw(lambda a, b: a * b)), F: (F, fa("Mul"))}),
    "divide_op": (2, {I: (I, eqw(tdiv), ZERO), F: (F, fa("Div"))}),
    "mod_op": (2, {I: (I, eqt(lambda a, b: REM(a, b)), ZERO), F: (F, fa("Rem"))}),
    "pow_op": (2, {I: (F, lambda c, r, a, b: r.t == POW(i2f(c, a.t), i2f(c, b.t))), F: (F, eqt(lambda a, b: POW(a, b)))}),
    "min_op": (2, {I: (I, eqt(lambda a, b: If(a < b, a, b))), F: (F, eqt(fmin))}),
    "max_op": (2, {I: (I, eqt(lambda a, b: If(a > b, a, b))), F: (F, eqt(fmax))}),
    "equal_op": (2, {B: (B, eqt(lambda a, b: a == b)), I: (B, eqt(lambda a, b: a == b)), F: (B, eqt(z3.fpEQ)), S: (B, strings(lambda a, b: a == b)),
                     L: (B, lst(leq)), D: (B, path_eq)}),
    "not_equals_op": (2, {B: (B, eqt(lambda a, b: a != b)), I: (B, eqt(lambda a, b: a != b)), F: (B, eqt(lambda a, b: Not(z3.fpEQ(a, b)))),
                          S: (B, strings(lambda a, b: a != b)), L: (B, lst(lambda a, b: Not(leq(a, b)))), D: (B, path_eq)}),
    "greater_op": (2, {I: (B, eqt(lambda a, b: a > b)), F: (B, eqt(z3.fpGT)), L: (B, lst(lgt))}),
    "less_op": (2, {I: (B, eqt(lambda a, b: a < b)), F: (B, eqt(z3.fpLT)), L: (B, lst(llt))}),
    "greater_than_or_equals_op": (2, {I: (B, eqt(lambda a, b: a >= b)), F: (B, eqt(z3.fpGEQ)), L: (B, lst(lge))}),
    "less_than_or_equals_op": (2, {I: (B, eqt(lambda a, b: a <= b)), F: (B, eqt(z3.fpLEQ)), L: (B, lst(lle))}),
    "and_op": (2, {B: (B, eqt(lambda a, b: And(a, b))), I: (B, eqt(lambda a, b: And(a != 0, b != 0))), F: (B, eqt(lambda a, b: And(fnz(a), fnz(b)))),
                   L: (B, lst(lambda a, b: And(Not(empty(a)), Not(empty(b)))))}),
    "or_op": (2, {B: (B, eqt(lambda a, b: Or(a, b))), I: (B, eqt(lambda a, b: Or(a != 0, b != 0))), F: (B, eqt(lambda a, b: Or(fnz(a), fnz(b)))),
                  L: (B, lst(lambda a, b: Or(Not(empty(a)), Not(empty(b)))))}),
    "not_op": (1, {I: (B, eqt(lambda a, b: a == 0)), F: (B, eqt(lambda a, b: Not(fnz(a)))), L: (I, lst(lambda a, b: If(empty(a), 1, 0)))}),
    "negate_op": (1, {I: (I, eqw(lambda a, b: -a)), F: (F, eqt(lambda a, b: z3.fpNeg(a)))}),
    "floor_op": (1, {I: (I, eqt(lambda a, b: a)), F: (F, fu("f_floor"))}),
    "ceiling_op": (1, {I: (I, eqt(lambda a, b: a)), F: (F, fu("f_ceil"))}),
    "int_op": (1, {I: (I, eqt(lambda a, b: a)), F: (I, lambda c, r, a, b: r.t == f2i(c, a.t, r))}),
    "float_op": (1, {I: (F, lambda c, r, a, b: r.t == i2f(c, a.t)), F: (F, eqt(lambda a, b: a))}),
    "has": (2, {S: (B, strings(lambda a, b: z3.Contains(a, b))), L: (B, lst(lcontains))}),
    "hasnt": (2, {S: (B, strings(lambda a, b: Not(z3.Contains(a, b)))), L: (B, lst(lambda a, b: Not(lcontains(a, b))))}),
    "intersect_op": (2, {L: (L, pw(lambda a, b, k, r: If(li.has(b, k), Select(a, k), li.none(r))))}),
    "list_min_op": (1, {L: (L, extreme(li.GE))}),
    "list_max_op": (1, {L: (L, extreme(li.LE))}),
    "count_op": (1, {L: (I, lambda c, r, a, b: r.t == wrap(c, a.items.len, r))}),
    "value_of_list_op": (1, {L: (I, maxval)}),
    "all_op": (1, {L: (L, lambda c, r, a, b: And(*[e for _, e in ld.from_defs(r, a.origins, a.origins.len)]))}),
    "inverse_op": (1, {L: (L, lambda c, r, a, b: And(*[e for _, e in ld.from_defs(r, a.origins, a.origins.len, a)]))}),
}


def clauses(c, arity, rows, pa=None):
    """the operator's table, as clauses"""
    a = par(c, 0)
    b = par(c, 1) if arity == 2 else None
    out = []
    ok = []
    for ty, row in rows.items():
        rty, rel = row[0], row[1]
        bad = row[2] if len(row) > 2 else None
        pre = a.is_(ty) if b is None else And(a.is_(ty), b.is_(ty))
        pa = a.payload(ty)
        pb = b.payload(ty) if b is not None else None
        if bad is not None:
            pre = And(pre, Not(bad(c, pa, pb)))
        ok.append(pre)
        rv = res_value(c)
        r = rel(c, rv.payload(rty), pa, pb)
        out.append((ty.lower(), Implies(pre, And(rv.is_(rty), r if r is not None else BoolVal(True)))))
    out.append(("defined", c.ret.is_ok == Or(*ok)))
    out.append(("a_value", Implies(c.ret.is_ok, is_value(c))))
    return out


def origins_only(c):
    """of all values, only what the first operand's definitions have cached may change"""
    v0, v1 = c.pre.arg(1)[0], c.arg(1)[0]
    a0, a1 = v0.value.payload(L), v1.value.payload(L)
    return [("others_stay", c.heap_same("value::Value", [v0.loc])),
            ("operand_stays", And(v1.value.is_(L) == v0.value.is_(L),
                                  Implies(v0.value.is_(L), And(a1.items.same(a0.items), ld.same_defs(a1.origins, a0.origins))),
                                  Implies(Not(v0.value.is_(L)), v1.value.same(v0.value))))]


def op(nm, arity, rows):
    caching = nm in ("all_op", "inverse_op")
    contract(N + nm, props=["C07", "C04"], frame=["value::Value"] if caching else [], requires=lambda c: [("arity", c.arg(1).len == arity)],
             ensures=lambda c: clauses(c, arity, rows) + (origins_only(c) if caching else []),
             opts={"definitions": rem_defined} if nm == "mod_op" else {})


for _n, (_a, _r) in TABLE.items():
    ARITY[_n] = _a
    op(_n, _a, _r)


# ---- what the operators are called on
ORD = {"Bool": 0, "Int": 1, "Float": 2, "List": 3, "String": 4, "DivertTarget": 5, "VariablePointer": 6}


def isval(c, loc):
    return c.M.kind_uf(loc) == c.M.kindid(value_ty(c))


def ordinal(v):
    r = IntVal(0)
    for t, n in ORD.items():
        r = If(v.is_(t), IntVal(n), r)
    return r


def conv(c, v, w, d):
    """w is v made a value of type d"""
    i, b, f = v.payload(I), v.payload(B), v.payload(F)
    return And(ordinal(w) == d,
               Implies(And(v.is_(B), d == 1), w.payload(I).t == If(b.t, 1, 0)),
               Implies(And(v.is_(B), d == 2), w.payload(F).t == If(b.t, z3.FPVal(1.0, F32), z3.FPVal(0.0, F32))),
               Implies(And(v.is_(I), d == 2), w.payload(F).t == i2f(c, i.t)),
               Implies(And(v.is_(B), d == 4), w.payload(S).field("string").t == If(b.t, z3.StringVal("true"), z3.StringVal("false"))),
               Implies(And(v.is_(I), d == 4), w.payload(S).field("string").t == If(i.t >= 0, z3.IntToStr(i.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-i.t)))))


def dest_so_far(c, ps, n, d):
    k = Int("k!dest")
    o = lambda k: ordinal(value_at(c, ps[k].t))
    here = And(0 <= k, k < n, isval(c, ps[k].t))
    return [("at_least", And(d >= 1, d <= 6, ForAll([k], Implies(here, o(k) <= d)))), ("reached", Or(d == 1, z3.Exists([k], And(here, o(k) == d))))]


def cast_so_far(c, ps, rs, n, d):
    k = Int("k!cast")
    v, w = value_at(c, ps[k].t), value_at(c, rs[k].t)
    return [("as_many", rs.len == n),
            ("a_value_each", ForAll([k], Implies(And(0 <= k, k < n), And(isval(c, ps[k].t), rs[k].t >= 1, rs[k].t < c.st.nalloc)))),
            ("as_it_is", ForAll([k], Implies(And(0 <= k, k < n, ordinal(v) == d), rs[k].t == ps[k].t))),
            ("cast", ForAll([k], Implies(And(0 <= k, k < n, ordinal(v) != d), conv(c, v, w, d))))]


def coerced(c):
    ps, rs = c.arg(1), c.ret.ok
    ps0 = c.pre.arg(1)
    d = ordinal(value_at(c, rs[0].t))
    out = [("none_of_none", Implies(c.ret.is_ok, rs.len == ps0.len))]
    for n, e in dest_so_far(c, ps0, ps0.len, d) + cast_so_far(c, ps0, rs, ps0.len, d):
        out.append((n, Implies(And(c.ret.is_ok, ps0.len > 0), e)))
    k = Int("k!fit")
    o = lambda i: ordinal(value_at(c.pre, ps0[i].t))
    every = lambda f: ForAll([k], Implies(And(0 <= k, k < ps0.len), And(isval(c, ps0[k].t), f(k))))
    out.append(("numbers_fit", Implies(every(lambda k: o(k) <= 2), c.ret.is_ok)))
    out.append(("one_type_fits", Implies(every(lambda k: o(k) == o(IntVal(0))), c.ret.is_ok)))
    return out


contract(N + "coerce_values_to_single_type", props=["C07"], frame=[], ensures=coerced, opts={"allocated": [1]})


def vec_iter(l):
    its = [i for i in l.iters() if hasattr(i, "lo") and hasattr(i, "src")]
    if not its:
        raise AnchorLost("iterator over the operands")
    return its[-1]


def u8(l):
    vs = l.locals_of(lambda t: t.k == "int" and t.disp == "u8")
    if not vs:
        raise AnchorLost("destination type")
    return vs[0].t


@loop(N + "coerce_values_to_single_type", 0)
def l_dest(l):
    return dest_so_far(l.c, l.arg(1), vec_iter(l).lo, u8(l))


def values_stay(l):
    """no value made before the function was entered has changed"""
    k = Int("k!st")
    h1, h0 = l.c.heap("value::Value"), l.prec.heap("value::Value")
    return BoolVal(True) if h1.eq(h0) else ForAll([k], Implies(And(k >= 1, k < l.prec.st.nalloc), Select(h1, k) == Select(h0, k)), **pats(Select(h1, k)))


@loop(N + "coerce_values_to_single_type", 1)
def l_cast(l):
    vs = l.locals_of(lambda t: t.disp.startswith("std::vec::Vec<std::rc::Rc<value::Value>"))
    if not vs:
        raise AnchorLost("operands cast")
    c = l.c
    n = vec_iter(l).lo
    return dest_so_far(c, l.arg(1), l.arg(1).len, u8(l)) + [("values_stay", values_stay(l))] + cast_so_far(c, l.arg(1), vs[-1], n, u8(l))


# ---- dispatch
OPS = {"Add": "add_op", "Subtract": "subtract_op", "Divide": "divide_op", "Multiply": "multiply_op", "Mod": "mod_op", "Negate": "negate_op", "Equal": "equal_op",
       "Greater": "greater_op", "Less": "less_op", "GreaterThanOrEquals": "greater_than_or_equals_op", "LessThanOrEquals": "less_than_or_equals_op",
       "NotEquals": "not_equals_op", "Not": "not_op", "And": "and_op", "Or": "or_op", "Min": "min_op", "Max": "max_op", "Pow": "pow_op", "Floor": "floor_op",
       "Ceiling": "ceiling_op", "Int": "int_op", "Float": "float_op", "Has": "has", "Hasnt": "hasnt", "Intersect": "intersect_op", "ListMin": "list_min_op",
       "ListMax": "list_max_op", "All": "all_op", "Count": "count_op", "ValueOfList": "value_of_list_op", "Invert": "inverse_op"}
CACHING = ("All", "Invert")


def arity_is(c, n):
    op = c.arg(0).op
    return And(*[Implies(op.is_(o), n == ARITY[m]) for o, m in OPS.items()])


def is_caching(op):
    return Or(*[op.is_(o) for o in CACHING])


def dispatch(c):
    out = []
    op = c.arg(0).op
    for o, m in OPS.items():
        for n, e in clauses(c, ARITY[m], TABLE[m][1]):
            out.append(("%s_%s" % (m, n), Implies(op.is_(o), e)))
    for n, e in origins_only(c):
        out.append((n, Implies(is_caching(op), e)))
    out.append(("values_stay", Implies(Not(is_caching(op)), c.heap_same("value::Value"))))
    return out


contract(N + "get_number_of_parameters", props=["C07", "C04"], frame=[], ensures=lambda c: [("arity", arity_is(c, c.ret.t))])
contract(N + "call_type", props=["C07"], frame=["value::Value"], requires=lambda c: [("arity", arity_is(c, c.arg(1).len))], ensures=dispatch,
         opts={"allocated": [1]})


class Term:
    """an operand after its cast"""

    def __init__(self, t):
        self.t = t

    def field(self, n):
        return self


def as_type(c, v, ty):
    """(condition, operand) for operand v of an operation done on type ty (Int or Float)"""
    b, i, f = v.payload(B), v.payload(I), v.payload(F)
    if ty == I:
        return Or(v.is_(B), v.is_(I)), Term(If(v.is_(B), If(b.t, IntVal(1), IntVal(0)), i.t))
    return Or(v.is_(B), v.is_(I), v.is_(F)), Term(If(v.is_(B), If(b.t, z3.FPVal(1.0, F32), z3.FPVal(0.0, F32)), If(v.is_(I), i2f(c, i.t), f.t)))


def called(c):
    """operators on operands of any types"""
    out = []
    op, ps = c.arg(0).op, c.pre.arg(1)
    p = [value_at(c.pre, ps[i].t) for i in (0, 1)]
    vals = [isval(c, ps[i].t) for i in (0, 1)]
    void = c.M.db.find_ty("void::Void")
    if void is None:
        raise AnchorLost("type Void")
    k = Int("k!call")
    n = ps.len
    out.append(("operands_wanted", Implies(Not(arity_is(c, n)), c.ret.is_err)))
    out.append(("void_is_an_error", Implies(z3.Exists([k], And(0 <= k, k < n, c.M.kind_uf(ps[k].t) == c.M.kindid(void))), c.ret.is_err)))
    out.append(("a_value", Implies(c.ret.is_ok, is_value(c))))
    rv = res_value(c)
    for o, m in OPS.items():
        ar, rows = TABLE[m]
        for ty in (I, F):
            c0, x = as_type(c, p[0], ty)
            conds = [op.is_(o), n == ar, vals[0], c0]
            y = None
            has_f = [p[0].is_(F)]
            if ar == 2:
                c1, y = as_type(c, p[1], ty)
                conds += [vals[1], c1]
                has_f.append(p[1].is_(F))
            if ty == F:
                conds.append(Or(*has_f))
            name = "%s_%s" % (o, "numbers" if ty == F else "ints")
            if ty not in rows:
                out.append((name, Implies(And(*conds), c.ret.is_err)))
                continue
            rty, rel = rows[ty][0], rows[ty][1]
            if len(rows[ty]) > 2:
                bad = rows[ty][2](c, x, y)
                out.append((name + "_undefined", Implies(And(*conds, bad), c.ret.is_err)))
                conds.append(Not(bad))
            out.append((name, Implies(And(*conds), And(c.ret.is_ok, rv.is_(rty), rel(c, rv.payload(rty), x, y)))))
        if ar == 2:
            for ty in (S, D):
                conds = And(op.is_(o), n == 2, *vals, p[0].is_(ty), p[1].is_(ty))
                if ty not in rows:
                    out.append(("%s_%s" % (o, ty.lower()), Implies(conds, c.ret.is_err)))
                elif ty == S:
                    rty, rel = rows[ty][:2]
                    out.append(("%s_%s" % (o, ty.lower()), Implies(conds, And(c.ret.is_ok, rv.is_(rty), rel(c, rv.payload(rty), p[0].payload(ty), p[1].payload(ty))))))
        conds = And(op.is_(o), n == ar, vals[0], p[0].is_(L), *([vals[1], p[1].is_(L)] if ar == 2 else []))
        if L not in rows:
            out.append((o + "_list", Implies(conds, c.ret.is_err)))
        else:
            rty, rel = rows[L][:2]
            out.append((o + "_list", Implies(conds, And(c.ret.is_ok, rv.is_(rty), rel(c, rv.payload(rty), p[0].payload(L), p[1].payload(L) if ar == 2 else None)))))
    return out


def by_operator(c):
    op = c.arg(0).op
    i = {v: k for k, v in enumerate(v["n"] for v in op.ty.variants)}
    if any(o not in i for o in OPS):
        raise AnchorLost("operators")
    return [(o, [(op.t, con(op.t.sort(), i[o]))]) for o in OPS]


contract(N + "call", props=["C07", "C04"], frame=["value::Value"], ensures=called, opts={"allocated": [1], "cases": by_operator, "case_labels": tuple(OPS)})


@loop(N + "call", 0)
def l_call(l):
    c = l.c
    ps = l.arg(1)
    n = vec_iter(l).lo
    void = c.M.db.find_ty("void::Void")
    hl = [v for v in l.locals_of(lambda t: t.k == "bool")]
    if void is None or not hl:
        raise AnchorLost("operands looked at")
    k = Int("k!seen")
    here = And(0 <= k, k < n)
    return [("values_stay", values_stay(l)), ("no_void", ForAll([k], Implies(here, c.M.kind_uf(ps[k].t) != c.M.kindid(void)))),
            ("list_seen", hl[0].t == z3.Exists([k], And(here, isval(c, ps[k].t), value_at(c, ps[k].t).is_(L))))]


def binary_list(c):
    op, ps = c.arg(0).op, c.pre.arg(1)
    p = [value_at(c.pre, ps[i].t) for i in (0, 1)]
    vals = [isval(c, ps[i].t) for i in (0, 1)]
    rv = res_value(c)
    out = [("a_value", Implies(c.ret.is_ok, is_value(c)))]
    for o, m in OPS.items():
        ar, rows = TABLE[m]
        if ar != 2:
            continue
        conds = And(op.is_(o), *vals, p[0].is_(L), p[1].is_(L))
        if L not in rows:
            out.append((o + "_list", Implies(conds, c.ret.is_err)))
        else:
            rty, rel = rows[L][:2]
            out.append((o + "_list", Implies(conds, And(c.ret.is_ok, rv.is_(rty), rel(c, rv.payload(rty), p[0].payload(L), p[1].payload(L))))))
    truth = lambda v: Or(And(v.is_(B), v.payload(B).t), And(v.is_(I), v.payload(I).t != 0), And(v.is_(F), fnz(v.payload(F).t)),
                         And(v.is_(S), v.payload(S).field("string").t != ""), And(v.is_(L), v.payload(L).items.len != 0))
    other = And(*vals, Or(p[0].is_(L), p[1].is_(L)), Not(And(p[0].is_(L), p[1].is_(L))), *[Not(v.is_(t)) for v in p for t in ("DivertTarget", "VariablePointer")])
    out.append(("and_of_a_list_and_another", Implies(And(op.is_("And"), other), And(c.ret.is_ok, rv.is_(B), rv.payload(B).t == And(truth(p[0]), truth(p[1]))))))
    out.append(("or_of_a_list_and_another", Implies(And(op.is_("Or"), other), And(c.ret.is_ok, rv.is_(B), rv.payload(B).t == Or(truth(p[0]), truth(p[1]))))))
    step = And(*vals, Or(op.is_("Add"), op.is_("Subtract")), p[0].is_(L), p[1].is_(I))
    out.append(("a_list_stepped_is_a_list", Implies(step, And(c.ret.is_ok, rv.is_(L)))))
    out.append(("nothing_else", Implies(And(other, Not(op.is_("And")), Not(op.is_("Or")), Not(step)), c.ret.is_err)))
    return out


contract(N + "call_binary_list_operation", props=["C07"], frame=[], opts={"allocated": [1]}, ensures=binary_list,
         requires=lambda c: [("two", c.arg(1).len == 2), ("binary", arity_is(c, 2))])


def moved(c, op, a, n, r, seen):
    """every item of r is one that an item of a stands n steps away from, in a definition of that item's name"""
    from engine import isv, fld
    k, s = li.qk(a, "k"), li.qk(a, "s")
    j = Int("j!org")
    ds = a.origins
    to = wrap(c, If(op.is_("Add"), li.val(li.arr(a), s) + n.t, li.val(li.arr(a), s) - n.t), n)
    org = ld.field_of(c, s, "origin_name")
    oname = If(isv(org, 1), fld(org, 1, 0), z3.StringVal(""))
    src = z3.Exists([s, j], And(seen(s), 0 <= j, j < ds.len, ds[j].field("name").t == oname, ld.in_def(ds[j], k), ld.def_val(ds[j], k) == to,
                                li.val(li.arr(r), k) == to),
                     patterns=[z3.MultiPattern(Select(li.arr(a), s), Select(ds.arr, j))])
    return ("moved_along_its_definition", ForAll([k], Implies(li.has(li.arr(r), k), src)))


def stepped(c):
    op, ps = c.arg(0).op, c.arg(1)
    a, n = value_at(c.pre, ps[0].t).payload(L), value_at(c.pre, ps[1].t).payload(I)
    r = value_at(c, c.retval).payload(L)
    return [("a_list", value_at(c, c.retval).is_(L)), moved(c, op, a, n, r, lambda s: li.has(li.arr(a), s))]


@loop(N + "call_list_increment_operation", 0)
def l_stepped(l):
    c = l.c
    op, ps = l.arg(0).op, l.arg(1)
    a, n = value_at(l.prec, ps[0].t).payload(L), value_at(l.prec, ps[1].t).payload(I)
    it = li.the_iter(l)
    return [moved(c, op, a, n, li.the_list(l), lambda s: Select(it.visited, s))]


contract(N + "call_list_increment_operation", props=["C07"], frame=[], opts={"allocated": [1]}, ensures=stepped,
         requires=lambda c: [("two", c.arg(1).len == 2), ("list_and_int", And(isval(c, c.arg(1)[0].t), isval(c, c.arg(1)[1].t), value_at(c, c.arg(1)[0].t).is_(L), value_at(c, c.arg(1)[1].t).is_(I)))])
