"""Global and temporary variables, the patch over them, and who is told of a change (C02, C09, C10, C11, C17)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal, IntVal, Int, StringVal
from specs import contract, loop
from stdmodel import MapIter
from view import View
from .util import *  # noqa: F401,F403
from .callstack import context

V = "variables_state::VariablesState::"
VAL = "value::Value"


def opt(m, key):
    """what map m has at key, as an option"""
    return Select(m.arr, key)


def patched(v, key):
    """what a global has now: the patch's value, or else the table's"""
    p = v.patch
    g = opt(v.global_variables, key)
    return If(And(p.is_some, mhas(p.some.globals, key)), opt(p.some.globals, key), g)


def rest(c, *but):
    return ("rest", c.self_.same_except(c.pre.self_, *but))


contract(V + "start_variable_observation", props=["C11"], ensures=lambda c: [
    ("observing", c.self_.batch_observing_variable_changes.t), ("nothing_yet", And(c.self_.changed_variables_for_batch_obs.is_some, map_empty(c.self_.changed_variables_for_batch_obs.some))),
    rest(c, "batch_observing_variable_changes", "changed_variables_for_batch_obs")])
contract(V + "set_callstack", props=["C10"], ensures=lambda c: [("set", c.self_.callstack.loc == c.arg(1).loc), rest(c, "callstack")])
contract(V + "global_variable_exists_with_name", props=["C09", "C11"], ensures=lambda c: [
    ("declared", c.ret.t == Or(mhas(c.arg(0).global_variables, c.arg(1).t), mhas(c.arg(0).default_global_variables, c.arg(1).t)))])


# ---- the defaults
def defaults(a, g, d, done):
    k = mkey(g)
    return ForAll([k], opt(a, k) == If(And(mhas(g, k), done(k)), opt(g, k), opt(d, k)), **pats(opt(a, k)))


contract(V + "snapshot_default_globals", props=["C17", "C02"], ensures=lambda c: [
    ("defaults", defaults(c.self_.default_global_variables, c.pre.self_.global_variables, c.pre.self_.default_global_variables, lambda k: BoolVal(True))),
    rest(c, "default_global_variables")])


def the_iter(l):
    its = [i for i in l.iters() if isinstance(i, MapIter)]
    if not its:
        raise AnchorLost("loop over a table")
    return its[-1]


@loop(V + "snapshot_default_globals", 0)
def l_defaults(l):
    it = the_iter(l)
    a, b = l.arg(0), l.start(0)
    return [("so_far", defaults(a.default_global_variables, b.global_variables, b.default_global_variables, lambda k: Select(it.visited, k))),
            ("rest", a.same_except(b, "default_global_variables"))]


contract(V + "new_for_loading", props=["C02"], ensures=lambda c: [
    ("defaults", And(map_same(c.ret.global_variables, c.arg(0).default_global_variables), map_same(c.ret.default_global_variables, c.arg(0).default_global_variables))),
    ("call_stack", c.ret.callstack.loc == c.arg(1).loc), ("not_observing", And(Not(c.ret.batch_observing_variable_changes.t), c.ret.changed_variables_for_batch_obs.is_none)),
    ("no_patch", c.ret.patch.is_none)])


# ---- the patch put in place
def patch_applied(c):
    a, b = c.self_, c.pre.self_
    p = b.patch
    g = lambda k: opt(a.global_variables, k) == If(And(p.is_some, mhas(p.some.globals, k)), opt(p.some.globals, k), opt(b.global_variables, k))
    k = mkey(b.global_variables)
    ca, cb = a.changed_variables_for_batch_obs, b.changed_variables_for_batch_obs
    old = slot(cb.some, opt(b.global_variables, k))
    return [("none_left", a.patch.is_none), ("values", ForAll([k], g(k))),
            ("changes_kept", And(ca.is_some == cb.is_some, Implies(cb.is_some, ForAll([k], opt(ca.some, k) == If(
                And(p.is_some, Select(p.some.changed_variables.arr, k), Not(mhas(cb.some, k))), old, opt(cb.some, k)))))),
            rest(c, "patch", "global_variables", "changed_variables_for_batch_obs")]


contract(V + "apply_patch", props=["C11", "C08", "C02"], ensures=patch_applied)


@loop(V + "apply_patch", 0)
def l_changes(l):
    it = the_iter(l)
    a, b = l.arg(0), l.start(0)
    ca, cb = a.changed_variables_for_batch_obs, b.changed_variables_for_batch_obs
    k = mkey(b.global_variables)
    old = slot(cb.some, opt(b.global_variables, k))
    return [("so_far", And(ca.is_some, cb.is_some, ForAll([k], opt(ca.some, k) == If(And(Select(it.visited, k), Not(mhas(cb.some, k))), old, opt(cb.some, k))))),
            ("taken", a.patch.is_none), ("rest", a.same_except(b, "patch", "changed_variables_for_batch_obs"))]


@loop(V + "apply_patch", 1)
def l_values(l):
    it = the_iter(l)
    a, b = l.arg(0), l.start(0)
    p = b.patch.some
    k = mkey(b.global_variables)
    return [("so_far", ForAll([k], opt(a.global_variables, k) == If(And(Select(it.visited, k), mhas(p.globals, k)), opt(p.globals, k), opt(b.global_variables, k)))),
            ("taken", a.patch.is_none), ("rest", a.same_except(b, "patch", "global_variables", "changed_variables_for_batch_obs"))]


# ---- reading
def got(c):
    v, k = c.arg(0), c.arg(1).t
    g, d = patched(v, k), opt(v.default_global_variables, k)
    x = If(isv(g, 1), g, d)
    val = lambda o: View(c, ("I", fld(o, 1, 0)), (), v.global_variables.norm().ty.args[1]).deref().value
    return [("when", c.ret.is_some == isv(x, 1)), ("the_value", Implies(c.ret.is_some, c.ret.some.t == val(x).t))]


contract(V + "get", props=["C11", "C09"], ensures=got)


def raw(c):
    v, k, i = c.arg(0), c.arg(1).t, c.arg(2).t
    g, d = patched(v, k), opt(v.default_global_variables, k)
    x = If(isv(g, 1), g, d)
    glob = Or(i == 0, i == -1)
    cs = v.callstack.deref()
    j = context(cs, i)
    st = cs.threads.last.callstack
    return [("a_global", Implies(And(glob, isv(x, 1)), And(c.ret.is_some, c.ret.some.t == fld(x, 1, 0)))),
            ("a_temporary", Implies(Not(glob), And(c.ret.is_some == And(0 <= j, j < st.len, mhas(st[j].temporary_variables, k)),
                                                   Implies(c.ret.is_some, c.ret.some.t == mget(st[j].temporary_variables, k)))))]


contract(V + "get_raw_variable_with_name", props=["C10", "C11"], ensures=raw, frame=[VAL])


# ---- writing
def empty_list_taken(c, old, new):
    """an empty list put where a list was: the one case where another value than the one given is stored"""
    return And(isv(old, 1), View(c, ("I", fld(old, 1, 0)), (), c.self_.global_variables.norm().ty.args[1]).deref().value.is_("List"),
               new.deref().value.is_("List"), new.deref().value.payload("List").items.len == 0)


def global_set(c):
    a, b, k, new = c.self_, c.pre.self_, c.arg(1).t, c.arg(2)
    old = patched(b, k)
    special = And(isv(old, 1), c.pre.arg(2).deref().value.is_("List"), c.pre.arg(2).deref().value.payload("List").items.len == 0)
    now = patched(a, k)
    p, q = a.patch, b.patch
    o = mkey(b.global_variables)
    same_ref = And(isv(old, 1), fld(old, 1, 0) == new.t)
    changed = Not(same_ref)
    ca, cb = a.changed_variables_for_batch_obs, b.changed_variables_for_batch_obs
    batch = b.batch_observing_variable_changes.t
    noted = And(changed, batch, q.is_none, cb.is_some, Not(mhas(cb.some, k)))
    plain = Not(special)
    return [("set", And(isv(now, 1), Implies(plain, fld(now, 1, 0) == new.t))),
            ("other_variables", ForAll([o], Implies(o != k, patched(a, o) == patched(b, o)))),
            ("in_the_patch_only", Implies(q.is_some, And(p.is_some, a.global_variables.same(b.global_variables), p.some.same_except(q.some, "globals", "changed_variables")))),
            ("no_patch_started", Implies(q.is_none, p.is_none)),
            ("noted_in_the_patch", Implies(And(q.is_some, plain), ForAll([o], Select(p.some.changed_variables.arr, o) == Or(Select(q.some.changed_variables.arr, o), And(o == k, changed, batch))))),
            ("noted_once", And(ca.is_some == cb.is_some, Implies(And(plain, cb.is_some), ForAll([o], opt(ca.some, o) == If(
                And(noted, o == k), slot(cb.some, old), opt(cb.some, o)))))),
            ("notify_at_once", Implies(plain, c.ret.t == And(changed, Not(batch)))),
            ("never_while_observing", Implies(batch, Not(c.ret.t))),
            rest(c, "global_variables", "patch", "changed_variables_for_batch_obs")]


contract(V + "set_global", props=["C11", "C10", "C02"], ensures=global_set)


def host_set(c):
    a, b, k = c.self_, c.pre.self_, c.arg(1).t
    declared = mhas(b.default_global_variables, k)
    o = mkey(b.global_variables)
    v = c.pre.arg(2)
    plain = Not(And(v.is_("List"), v.payload("List").items.len == 0))
    from .natives import value_at
    stored = value_at(c, fld(patched(a, k), 1, 0))
    return [("notify_unless_observing", Implies(And(c.ret.is_ok, plain), c.ret.ok.t == Not(b.batch_observing_variable_changes.t))),
            ("the_value_given", Implies(And(c.ret.is_ok, plain), stored.same(v))),
            ("when", c.ret.is_ok == declared), ("refused_without_change", Implies(c.ret.is_err, a.same(b))),
            ("other_variables", ForAll([o], Implies(o != k, patched(a, o) == patched(b, o)))), ("set", Implies(c.ret.is_ok, isv(patched(a, k), 1))),
            ("notify_between_continues", Implies(c.ret.is_ok, Implies(c.ret.ok.t, Not(b.batch_observing_variable_changes.t)))),
            rest(c, "global_variables", "patch", "changed_variables_for_batch_obs")]


def values_exist(c):
    """what the tables refer to exists already (a fact of every reference, told to the solver)"""
    v = c.arg(0)
    o = mkey(v.global_variables)
    x = patched(v, o)
    return ForAll([o], Implies(isv(x, 1), And(fld(x, 1, 0) >= 1, fld(x, 1, 0) < c.st.nalloc)))


contract(V + "set", props=["C09", "C11"], opts={"definitions": values_exist}, ensures=host_set)


# ---- what observers are told
def previous(v, k):
    """what table v.changed_variables_for_batch_obs, completed by the patch, says variable k was before; an option of an option"""
    cb, p = v.changed_variables_for_batch_obs, v.patch
    r = cb.some.arr.sort().range()
    mine = If(cb.is_some, opt(cb.some, k), con(r, 0))
    return If(And(p.is_some, Select(p.some.changed_variables.arr, k), Not(isv(mine, 1))), slot(cb.some, opt(v.global_variables, k)), mine)


def value_of(v, ref):
    return View(v.c, ("I", ref), (), v.global_variables.norm().ty.args[1]).deref().value


def told(v, m, k):
    """of variable k, if it was assigned: whether map m of changes tells of it, and what"""
    was, now = previous(v, k), patched(v, k)
    assigned, is_now = isv(was, 1), isv(now, 1)
    had = fld(was, 1, 0)
    had_some = isv(had, 1)
    a, b = value_of(v, fld(had, 1, 0)), value_of(v, fld(now, 1, 0))
    differ = Or(*[Not(a.is_(t)) for t in ()] + [And(a.is_(t), Or(Not(b.is_(t)), f(a.payload(t)) != f(b.payload(t)))) for t, f in (
        ("Int", lambda x: x.t), ("Bool", lambda x: x.t), ("String", lambda x: x.field("string").t))])
    same = Or(*[And(a.is_(t), b.is_(t), f(a.payload(t)) == f(b.payload(t))) for t, f in (
        ("Int", lambda x: x.t), ("Bool", lambda x: x.t), ("String", lambda x: x.field("string").t))])
    return [("only_assigned", Implies(mhas(m, k), And(assigned, is_now))),
            ("final_value", Implies(And(mhas(m, k), is_now), mget(m, k) == b.t)),
            ("new_ones", Implies(And(assigned, is_now, Not(had_some)), mhas(m, k))),
            ("changed_ones", Implies(And(assigned, is_now, had_some, differ), mhas(m, k))),
            ("unchanged_ones", Implies(And(assigned, is_now, had_some, same), Not(mhas(m, k))))]


def completed(c):
    b = c.pre.self_
    k = z3.Const("k!told", StringVal("").sort())
    return [("not_observing", And(Not(c.self_.batch_observing_variable_changes.t), c.self_.changed_variables_for_batch_obs.is_none))] + [
        (n, ForAll([k], e)) for n, e in told(b, c.ret, k)] + [rest(c, "batch_observing_variable_changes", "changed_variables_for_batch_obs")]


contract(V + "complete_variable_observation", props=["C11"], ensures=completed)


def table(l):
    """the table of previous values"""
    vs = l.locals_of(lambda t: t.disp.startswith("std::collections::HashMap<"))
    if not vs:
        raise AnchorLost("table of previous values")
    return vs[-1]


@loop(V + "complete_variable_observation", 0)
def l_previous(l):
    it, b, m = the_iter(l), l.start(0), table(l)
    cb = b.changed_variables_for_batch_obs
    k = mkey(b.global_variables)
    mine = If(cb.is_some, opt(cb.some, k), con(m.arr.sort().range(), 0))
    return [("so_far", ForAll([k], opt(m, k) == If(And(Select(it.visited, k), Not(isv(mine, 1))), slot(m, opt(b.global_variables, k)), mine)))]


@loop(V + "complete_variable_observation", 1)
def l_told(l):
    it, b = the_iter(l), l.start(0)
    vs = l.locals_of(lambda t: t.disp.startswith("std::collections::BTreeMap<"))
    if not vs:
        raise AnchorLost("table of changes")
    m = vs[-1]
    k = mkey(b.global_variables)
    return [(n, ForAll([k], Implies(Select(it.visited, k), e))) for n, e in told(b, m, k)] + [("none_else", ForAll([k], Implies(mhas(m, k), Select(it.visited, k))))]
