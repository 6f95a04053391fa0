"""Ink lists are finite maps from items to values; their operators are the set operations (C07, C03)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal
from specs import contract, loop
from engine import isv, con, fld, AnchorLost

L = "ink_list::InkList::"


def arr(v):
    return v.items.arr


def qk(v, n="q"):
    return z3.Const("%s!list" % n, arr(v).sort().domain())


def has(a, k):
    return isv(Select(a, k), 1)


def val(a, k):
    return fld(Select(a, k), 1, 0)


def none(a):
    return con(a.sort().range(), 0)


def empty(v):
    return v.items.len == 0


def pointwise(v, f):
    k = qk(v)
    return ForAll([k], Select(arr(v), k) == f(k))


def the_list(l, which=-1):
    """the list under construction: the local that holds a list by value"""
    vs = l.locals_of(lambda t: t.k == "adt" and t.disp == "ink_list::InkList")
    if not vs:
        raise AnchorLost("list under construction")
    return vs[which]


def the_iter(l):
    its = [i for i in l.iters() if hasattr(i, "visited")]
    if len(its) != 1:
        raise AnchorLost("iterator over the items")
    return its[0]


def same_items(c, a, b):
    return pointwise(a, lambda k: Select(arr(b), k))


contract(L + "new", props=["C07"], use=False, ensures=lambda c: [("empty", empty(c.ret)), ("no_items", pointwise(c.ret, lambda k: none(arr(c.ret))))])
contract(L + "from_single_element", props=["C07"], ensures=lambda c: [
    ("one", And(c.ret.items.len == 1, pointwise(c.ret, lambda k: If(k == c.arg(0).field("0").t, con(arr(c.ret).sort().range(), 1, c.arg(0).field("1").t), none(arr(c.ret))))))])
contract(L + "from_other_list", props=["C07"], ensures=lambda c: [
    ("same_items", same_items(c, c.ret, c.arg(0))), ("same_origins", c.ret.origins.same(c.arg(0).origins))])


@loop(L + "from_other_list", 0)
def l_from_other(l):
    it, r, o = the_iter(l), the_list(l), l.arg(0)
    return [("copied", pointwise(r, lambda k: If(Select(it.visited, k), Select(arr(o), k), none(arr(r)))))]


contract(L + "union", props=["C07"], ensures=lambda c: [
    ("union", pointwise(c.ret, lambda k: If(has(arr(c.arg(1)), k), Select(arr(c.arg(1)), k), Select(arr(c.arg(0)), k))))])


@loop(L + "union", 0)
def l_union(l):
    it, r = the_iter(l), the_list(l)
    return [("added", pointwise(r, lambda k: If(Select(it.visited, k), Select(arr(l.arg(1)), k), Select(arr(l.arg(0)), k))))]


contract(L + "without", props=["C07"], ensures=lambda c: [
    ("difference", pointwise(c.ret, lambda k: If(has(arr(c.arg(1)), k), none(arr(c.ret)), Select(arr(c.arg(0)), k))))])


@loop(L + "without", 0)
def l_without(l):
    it, r = the_iter(l), the_list(l)
    return [("removed", pointwise(r, lambda k: If(Select(it.visited, k), none(arr(r)), Select(arr(l.arg(0)), k))))]


for nm in ("intersect", "has"):
    contract(L + nm, props=["C07"], ensures=lambda c: [
        ("intersection", pointwise(c.ret, lambda k: If(has(arr(c.arg(1)), k), Select(arr(c.arg(0)), k), none(arr(c.ret)))))])

    @loop(L + nm, 0)
    def l_inter(l):
        it, r = the_iter(l), the_list(l)
        return [("kept", pointwise(r, lambda k: If(And(Select(it.visited, k), has(arr(l.arg(1)), k)), Select(arr(l.arg(0)), k), none(arr(r)))))]


def subset(a, b):
    k = qk(a)
    return ForAll([k], Implies(has(arr(a), k), has(arr(b), k)))


contract(L + "contains", props=["C07"], ensures=lambda c: [
    ("contains", c.ret.t == And(Not(empty(c.arg(0))), Not(empty(c.arg(1))), subset(c.arg(1), c.arg(0))))])


@loop(L + "contains", 0)
def l_contains(l):
    it = the_iter(l)
    k = qk(l.arg(0))
    return [("so_far", ForAll([k], Implies(Select(it.visited, k), has(arr(l.arg(0)), k))))]


EQ = "<bladeink::ink_list::InkList as std::cmp::PartialEq>::eq"
contract(EQ, props=["C07"], ensures=lambda c: [
    ("same_set", c.ret.t == And(c.arg(0).items.len == c.arg(1).items.len, subset(c.arg(0), c.arg(1))))])


def l_eq(l):
    it = the_iter(l)
    k = qk(l.arg(0))
    return [("so_far", ForAll([k], Implies(Select(it.visited, k), has(arr(l.arg(1)), k))))]


import specs as _s  # noqa: E402
_s.LOOPS.setdefault("bladeink", {})[(EQ, 0)] = l_eq


def extreme(c, o, le):
    s = o
    r = c.ret
    k = qk(s)
    p = r.payload("Some")
    return [("none_iff_empty", r.is_none == empty(s)),
            ("an_item", Implies(r.is_some, And(has(arr(s), p.field("0").t), val(arr(s), p.field("0").t) == p.field("1").t))),
            ("extreme", Implies(r.is_some, ForAll([k], Implies(has(arr(s), k), le(val(arr(s), k), p.field("1").t)))))]


def l_extreme(le):
    def inv(l):
        it = the_iter(l)
        s = l.arg(0)
        vs = l.locals_of(lambda t: t.k == "adt" and t.disp.startswith("std::option::Option<(&ink_list_item::InkListItem, i32)>"))
        if not vs:
            raise AnchorLost("best so far")
        r = vs[0]
        p = r.payload("Some")
        k = qk(s)
        return [("none_iff_nothing_seen", r.is_none == ForAll([k], Not(Select(it.visited, k)))),
                ("best_is_an_item", Implies(r.is_some, And(has(arr(s), p.field("0").t), val(arr(s), p.field("0").t) == p.field("1").t))),
                ("best_so_far", Implies(r.is_some, ForAll([k], Implies(Select(it.visited, k), le(val(arr(s), k), p.field("1").t)))))]
    return inv


GE = lambda a, b: a >= b
LE = lambda a, b: a <= b
contract(L + "get_max_item", props=["C07"], ensures=lambda c: extreme(c, c.arg(0), LE))
loop(L + "get_max_item", 0)(l_extreme(LE))
contract(L + "get_min_item", props=["C07"], ensures=lambda c: extreme(c, c.arg(0), GE))
loop(L + "get_min_item", 0)(l_extreme(GE))


def all_pairs(a, b, f):
    x, y = qk(a, "x"), qk(b, "y")
    return ForAll([x, y], Implies(And(has(arr(a), x), has(arr(b), y)), f(val(arr(a), x), val(arr(b), y))))


def bounds(a, b, f, mx):
    """the extreme value of a compares so with that of b"""
    x, y, z = qk(a, "x"), qk(b, "y"), qk(b, "z")
    # max(a) >= max(b): every value of b is reached by some value of a;  min(a) >= min(b): every value of a reaches some value of b
    if mx:
        return ForAll([y], Implies(has(arr(b), y), z3.Exists([x], And(has(arr(a), x), f(val(arr(a), x), val(arr(b), y))))))
    return ForAll([x], Implies(has(arr(a), x), z3.Exists([y], And(has(arr(b), y), f(val(arr(a), x), val(arr(b), y))))))


contract(L + "greater_than", props=["C07"], ensures=lambda c: [
    ("all_greater", c.ret.t == And(Not(empty(c.arg(0))), Or(empty(c.arg(1)), all_pairs(c.arg(0), c.arg(1), lambda a, b: a > b))))])
contract(L + "less_than", props=["C07"], ensures=lambda c: [
    ("all_less", c.ret.t == And(Not(empty(c.arg(1))), Or(empty(c.arg(0)), all_pairs(c.arg(0), c.arg(1), lambda a, b: a < b))))])
contract(L + "greater_than_or_equals", props=["C07"], ensures=lambda c: [
    ("ge", c.ret.t == And(Not(empty(c.arg(0))), Or(empty(c.arg(1)), And(bounds(c.arg(0), c.arg(1), GE, True), bounds(c.arg(0), c.arg(1), GE, False)))))])
contract(L + "less_than_or_equals", props=["C07"], ensures=lambda c: [
    ("le", c.ret.t == And(Not(empty(c.arg(1))), Or(empty(c.arg(0)), And(bounds(c.arg(1), c.arg(0), GE, True), bounds(c.arg(1), c.arg(0), GE, False)))))])
for nm in ("max_as_list", "min_as_list"):
    le = LE if nm[:3] == "max" else GE

    def ens(c, le=le):
        s, r = c.arg(0), c.ret
        k, q = qk(s), qk(s, "p")
        return [("empty_iff_empty", empty(r) == empty(s)), ("at_most_one", r.items.len <= 1),
                ("extreme", ForAll([k, q], Implies(And(has(arr(r), k), has(arr(s), q)), And(Select(arr(r), k) == Select(arr(s), k), le(val(arr(s), q), val(arr(s), k))))))]
    contract(L + nm, props=["C07"], ensures=ens)
