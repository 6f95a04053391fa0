"""List definitions: names and values, and the items of a definition in terms of them (C07, C03)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int
from specs import contract, loop, refinement
from engine import con, isv, fld, AnchorLost
from . import lists as li

D = "list_definition::ListDefinition::"


def iname(c, k, dm):
    """the name within its list of item k"""
    return field_of(c, k, "item_name")


def field_of(c, k, name):
    t = c.M.db.find_ty("ink_list_item::InkListItem")
    if t is None:
        raise AnchorLost("type InkListItem")
    for i, (n, _) in enumerate(t.fields(0)):
        if n == name:
            return fld(k, 0, i)
    raise AnchorLost("field %s of InkListItem" % name)


def origin_is(c, k, name):
    o = field_of(c, k, "origin_name")
    return And(isv(o, 1), fld(o, 1, 0) == name)


def names(d):
    return d.item_name_to_values.arr


def in_def(d, k):
    """item k is one of the definition's"""
    c = d.c
    return And(origin_is(c, k, d.field("name").t), isv(Select(names(d), field_of(c, k, "item_name")), 1))


def def_val(d, k):
    return fld(Select(names(d), field_of(d.c, k, "item_name")), 1, 0)


def items_fit(d, m):
    """map m holds exactly the items of the definition"""
    k = z3.Const("k!def", m.sort().domain())
    return ForAll([k], Select(m, k) == If(in_def(d, k), con(m.sort().range(), 1, def_val(d, k)), con(m.sort().range(), 0)))


@refinement("bladeink::list_definition::ListDefinition")
def cached(d):
    """once made, the table of items is what the names and values say"""
    return [Implies(d.field("items").is_some, items_fit(d, d.field("items").some.arr))]


def same_def(a, b):
    return And(a.field("name").t == b.field("name").t, a.item_name_to_values.t == b.item_name_to_values.t)


contract(D + "get_items", props=["C07"], frame=[], modifies=lambda md: md.havoc(md.c.arg(0)),
         ensures=lambda c: [("same_definition", same_def(c.arg(0), c.pre.arg(0))), ("its_items", items_fit(c.arg(0), c.ret.arr))])


@loop(D + "get_items", 0)
def l_items(l):
    it = li.the_iter(l)
    d = l.arg(0)
    vs = l.locals_of(lambda t: t.disp.startswith("std::collections::HashMap<ink_list_item::InkListItem"))
    if not vs:
        raise AnchorLost("table under construction")
    m = vs[-1].arr
    k = z3.Const("k!def", m.sort().domain())
    nm = field_of(l.c, k, "item_name")
    return [("items_so_far", ForAll([k], Select(m, k) == If(And(origin_is(l.c, k, d.field("name").t), Select(it.visited, nm)),
                                                            con(m.sort().range(), 1, def_val(d, k)), con(m.sort().range(), 0))))]


contract(D + "get_item_with_value", props=["C07", "C03"], frame=[], ensures=lambda c: gi(c))


def gi(c):
    d, r = c.arg(0), c.ret
    q = z3.String("q!nm")
    a = names(d)
    v = c.arg(1).t
    has = lambda n: And(isv(Select(a, n), 1), fld(Select(a, n), 1, 0) == v)
    i = r.some
    return [("none_iff_no_such_value", r.is_some == Exists([q], has(q))),
            ("an_item_of_that_value", Implies(r.is_some, And(i.origin_name.is_some, i.origin_name.some.t == d.field("name").t, has(i.item_name.t)))),
            ("the_first_by_name", Implies(r.is_some, ForAll([q], Implies(has(q), Not(c.M.strlt(c.st, q, i.item_name.t))))))]


@loop(D + "get_item_with_value", 0)
def l_gi(l):
    it = li.the_iter(l)
    d = l.arg(0)
    a = names(d)
    v = l.arg(1).t
    f = l.locals_of(lambda t: t.disp.startswith("std::option::Option<&std::string::String"))
    if not f:
        raise AnchorLost("name found so far")
    f = f[0]
    q = z3.String("q!nm")
    has = lambda n: And(Select(it.visited, n), fld(Select(a, n), 1, 0) == v)
    return [("found", f.is_some == Exists([q], has(q))), ("it_has_the_value", Implies(f.is_some, has(f.some.t))),
            ("first_so_far", Implies(f.is_some, ForAll([q], Implies(has(q), Not(l.M.strlt(l.st, q, f.some.t))))))]


# ---- the lists made of definitions
L = li.L


def from_defs(r, ds, n, but=None):
    """list r holds exactly the items of the first n definitions (but those of `but`), each with a value of its definition"""
    k = li.qk(r)
    j = Int("j!defs")
    a = li.arr(r)
    out = Not(li.has(li.arr(but), k)) if but is not None else z3.BoolVal(True)
    here = And(0 <= j, j < n)
    return [("its_items", ForAll([k], li.has(a, k) == And(out, Exists([j], And(here, in_def(ds[j], k)))))),
            ("their_values", ForAll([k], Implies(li.has(a, k), Exists([j], And(here, in_def(ds[j], k), def_val(ds[j], k) == li.val(a, k))))))]


def same_defs(ds, old):
    j = Int("j!sd")
    return And(ds.len == old.len, ForAll([j], Implies(And(0 <= j, j < ds.len), same_def(ds[j], old[j]))))


def upd_origins(md):
    md.havoc(md.c.arg(0).origins)


for nm in ("get_all", "inverse"):
    contract(L + nm, props=["C07"], frame=[], modifies=upd_origins,
             ensures=lambda c, nm=nm: [("origins_stay", same_defs(c.arg(0).origins, c.pre.arg(0).origins)),
                                       ("items_stay", c.arg(0).items.same(c.pre.arg(0).items))]
             + from_defs(c.ret, c.arg(0).origins, c.arg(0).origins.len, c.arg(0) if nm == "inverse" else None))

    @loop(L + nm, 0)
    def l_outer(l, nm=nm):
        it = [i for i in l.iters() if hasattr(i, "lo") and hasattr(i, "src")]
        if len(it) != 1:
            raise AnchorLost("iterator over the origins")
        n = it[0].lo
        o = l.arg(0).origins
        return [("origins_stay", same_defs(o, l.prearg(0).origins)), ("items_stay", l.arg(0).items.same(l.prearg(0).items))] + from_defs(li.the_list(l), o, n, l.arg(0) if nm == "inverse" else None)

    @loop(L + nm, 1)
    def l_inner(l, nm=nm):
        it = li.the_iter(l)
        o = [i for i in l.iters() if hasattr(i, "lo") and hasattr(i, "src")]
        if len(o) != 1:
            raise AnchorLost("iterator over the origins")
        n = o[0].lo - 1
        ds = l.arg(0).origins
        r = li.the_list(l)
        k = li.qk(r)
        j = Int("j!defs")
        a = li.arr(r)
        but = Not(li.has(li.arr(l.arg(0)), k)) if nm == "inverse" else z3.BoolVal(True)
        here = And(0 <= j, j < n)
        return [("origins_stay", same_defs(ds, l.prearg(0).origins)), ("items_stay", l.arg(0).items.same(l.prearg(0).items)),
                ("its_items", ForAll([k], li.has(a, k) == And(but, Or(Select(it.visited, k), Exists([j], And(here, in_def(ds[j], k))))))),
                ("their_values", ForAll([k], Implies(li.has(a, k), Or(And(Select(it.visited, k), li.val(it.m_view if hasattr(it, "m_view") else __import__("engine").marr(it.m), k) == li.val(a, k)),
                                                                       Exists([j], And(here, in_def(ds[j], k), def_val(ds[j], k) == li.val(a, k)))))))]
