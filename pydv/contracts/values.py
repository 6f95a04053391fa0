"""Values: casts between types, truthiness, the host's coercions (C07, C09, C12)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, BoolVal, IntVal, StringVal
from specs import contract
from . import lists as li
from .natives import maxval, fnz

V = "value::Value::"
T = "value_type::ValueType::"
B, I, F, L, S, D, P = "Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer"
ORD = {B: 0, I: 1, F: 2, L: 3, S: 4, D: 5, P: 6}

contract(V + "get_cast_ordinal", props=["C07"], frame=[], ensures=lambda c: [
    ("ordinal_" + t.lower(), c.arg(0).value.is_(t) == (c.ret.t == n)) for t, n in ORD.items()])


def err(c):
    return c.ret.is_err


contract(V + "is_truthy", props=["C07"], frame=[], ensures=lambda c: [
    (t.lower(), Implies(c.arg(0).value.is_(t), And(c.ret.is_ok, c.ret.ok.t == f(c.arg(0).value.payload(t))))) for t, f in (
        (B, lambda v: v.t), (I, lambda v: v.t != 0), (F, lambda v: fnz(v.t)), (S, lambda v: v.field("string").t != ""), (L, lambda v: v.items.len != 0))]
    + [("no_truth", Implies(Or(c.arg(0).value.is_(D), c.arg(0).value.is_(P)), err(c)))])


def cast(c):
    v, d, r = c.arg(0).value, c.arg(1).t, c.ret
    M = c.M
    o = r.ok
    rv = o.some.value
    fo = z3.Float32()
    out = []

    def row(ty, dest, name, rty, rel):
        p = v.payload(ty)
        out.append(("%s_to_%s" % (ty.lower(), name), Implies(And(v.is_(ty), d == dest), And(r.is_ok, o.is_some, rv.is_(rty), rel(p, rv.payload(rty))))))
    # nothing to do when it is of that type
    for t, n in ORD.items():
        out.append(("%s_stays" % t.lower(), Implies(And(v.is_(t), d == n), And(r.is_ok, o.is_none))))
    row(B, 1, "int", I, lambda p, q: q.t == If(p.t, 1, 0))
    row(B, 2, "float", F, lambda p, q: q.t == If(p.t, z3.FPVal(1.0, fo), z3.FPVal(0.0, fo)))
    row(B, 4, "string", S, lambda p, q: q.field("string").t == If(p.t, StringVal("true"), StringVal("false")))
    row(I, 0, "bool", B, lambda p, q: q.t == (p.t != 0))
    row(I, 2, "float", F, lambda p, q: q.t == M.int_to_float(p.t, fo))
    row(I, 4, "string", S, lambda p, q: q.field("string").t == If(p.t >= 0, z3.IntToStr(p.t), z3.Concat(StringVal("-"), z3.IntToStr(-p.t))))
    row(F, 0, "bool", B, lambda p, q: q.t == fnz(p.t))
    row(F, 1, "int", I, lambda p, q: q.t == M.float_to_int(p.t, q.norm().ty))
    row(L, 1, "int", I, lambda p, q: maxval(c, q, p, None))
    # never anything but: a value of the wanted type, nothing, an error
    out.append(("wanted_type", Implies(And(r.is_ok, o.is_some), And(*[Implies(d == n, rv.is_(t)) for t, n in ORD.items()]))))
    out.append(("no_cast", Implies(Or(And(v.is_(B), Or(d == 3, d > 4)), And(v.is_(I), Or(d == 3, d > 4)), And(v.is_(F), Or(d == 3, d > 4)), And(v.is_(S), Or(d == 0, d == 3, d > 4)),
                                      And(v.is_(L), Or(d == 0, d > 4)), And(v.is_(D), d != 5), And(v.is_(P), d != 6)), r.is_err)))
    out.append(("cast_or_same", Implies(r.is_ok, o.is_none == Or(*[And(v.is_(t), d == n) for t, n in ORD.items()]))))
    return out


contract(V + "cast", props=["C07"], frame=[], ensures=cast)

# what the host reads
contract(T + "coerce_to_int", props=["C09", "C12"], frame=[], ensures=lambda c: [
    ("bool", Implies(c.arg(0).is_(B), And(c.ret.is_ok, c.ret.ok.t == If(c.arg(0).payload(B).t, 1, 0)))),
    ("int", Implies(c.arg(0).is_(I), And(c.ret.is_ok, c.ret.ok.t == c.arg(0).payload(I).t))),
    ("float", Implies(c.arg(0).is_(F), And(c.ret.is_ok, c.ret.ok.t == c.M.float_to_int(c.arg(0).payload(F).t, c.ret.ok.norm().ty)))),
    ("else", Implies(Or(*[c.arg(0).is_(t) for t in (L, S, D, P)]), c.ret.is_err))])
contract(T + "coerce_to_float", props=["C09", "C12"], frame=[], ensures=lambda c: [
    ("bool", Implies(c.arg(0).is_(B), And(c.ret.is_ok, c.ret.ok.t == If(c.arg(0).payload(B).t, z3.FPVal(1.0, z3.Float32()), z3.FPVal(0.0, z3.Float32()))))),
    ("int", Implies(c.arg(0).is_(I), And(c.ret.is_ok, c.ret.ok.t == c.M.int_to_float(c.arg(0).payload(I).t, z3.Float32())))),
    ("float", Implies(c.arg(0).is_(F), And(c.ret.is_ok, c.ret.ok.t == c.arg(0).payload(F).t))),
    ("else", Implies(Or(*[c.arg(0).is_(t) for t in (L, S, D, P)]), c.ret.is_err))])
contract(T + "coerce_to_bool", props=["C09", "C12"], frame=[], ensures=lambda c: [
    ("bool", Implies(c.arg(0).is_(B), And(c.ret.is_ok, c.ret.ok.t == c.arg(0).payload(B).t))),
    ("int", Implies(c.arg(0).is_(I), And(c.ret.is_ok, c.ret.ok.t == (c.arg(0).payload(I).t == 1)))),
    ("else", Implies(Or(*[c.arg(0).is_(t) for t in (F, L, S, D, P)]), c.ret.is_err))])


def same_value(c):
    a, b, r = c.arg(0), c.arg(1), c.ret.t
    both = lambda t: And(a.is_(t), b.is_(t))
    pa, pb = (lambda t: a.payload(t)), (lambda t: b.payload(t))
    out = [("bool", Implies(both(B), r == (pa(B).t == pb(B).t))), ("int", Implies(both(I), r == (pa(I).t == pb(I).t))),
           ("string", Implies(both(S), r == (pa(S).field("string").t == pb(S).field("string").t))),
           ("pointer", Implies(both(P), r == And(pa(P).variable_name.t == pb(P).variable_name.t, pa(P).context_index.t == pb(P).context_index.t))),
           # with the float read back bit by bit, 0 and -0 differ and a value is the same as itself
           ("float", Implies(And(both(F), Not(z3.fpIsNaN(pa(F).t)), Not(z3.fpIsNaN(pb(F).t))), r == (pa(F).t == pb(F).t))),
           ("other_types", Implies(And(*[Not(both(t)) for t in ORD]), Not(r)))]
    x, y = pa(L), pb(L)
    out.append(("list", Implies(And(both(L), r), And(x.items.len == y.items.len, li.subset(x, y)))))
    return out


contract(T + "is_same_value", props=["C02", "C11"], frame=[], ensures=same_value)
