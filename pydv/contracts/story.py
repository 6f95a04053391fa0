"""The story as the host sees it: what is refused and that a refusal changes nothing, flows, observers, external functions (C08, C09, C10, C11, C12, C13, C17)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal, IntVal, Int, StringVal
from specs import contract, loop, effects
from view import View
from stdmodel import VecIter, MapIter
from .util import *  # noqa: F401,F403
from .callstack import cur
from . import state as st_

Y = "story::Story::"
ERR, OBS, EXT = "ErrorHandler::error", "VariableObserver::changed", "ExternalFunction::call"


def host(fn):
    """the module a host call is implemented in does not matter: it is found by its name"""
    return fn


contract(Y + "if_async_we_cant", props=["C08", "C09"], ensures=lambda c: [
    ("while_unfinished", c.ret.is_err == c.arg(0).async_continue_active.t)])
contract(Y + "can_continue", props=["C13", "C09"], use=False, ensures=lambda c: [
    ("somewhere_and_no_error", c.ret.t == And(cur(st_.cs(c.arg(0).state)).current_pointer.container.is_some, c.arg(0).state.current_errors.len == 0))])


def unchanged(c):
    """nothing of the story itself; that nothing it refers to has changed either is the frame"""
    return [("refused", c.ret.is_err), ("nothing_changed", c.self_.same(c.pre.self_))]


# ---- while a time-limited continue is unfinished
ASYNC = ["choose_choice_index", "choose_path_string", "evaluate_function", "switch_flow", "remove_flow", "set_variable", "observe_variable", "remove_variable_observer",
         "load_state", "reset_state", "reset_callstack", "bind_external_function", "unbind_external_function", "continue_maximally"]
for _f in ASYNC:
    contract(Y + _f + "@unfinished", use=False, props=["C08", "C09"], opts={"fn_name": "bladeink::" + Y + _f},
             requires=lambda c: [("unfinished", c.arg(0).async_continue_active.t)], ensures=unchanged)
contract(Y + "switch_to_default_flow@unfinished", use=False, props=["C08", "C09"], opts={"fn_name": "bladeink::" + Y + "switch_to_default_flow"},
         requires=lambda c: [("unfinished", c.arg(0).async_continue_active.t)], ensures=lambda c: [("nothing_changed", c.self_.same(c.pre.self_))])


def going(c):
    s = c.arg(0).state
    return And(cur(st_.cs(s)).current_pointer.container.is_some, s.current_errors.len == 0)


contract(Y + "continue_internal@cannot", use=False, props=["C09", "C13"], opts={"fn_name": "bladeink::" + Y + "continue_internal"},
         requires=lambda c: [("finished", Not(c.arg(0).async_continue_active.t)), ("nowhere_to_go", Not(going(c)))], ensures=unchanged)
CH = "choice::Choice"
contract(Y + "get_current_choices", props=["C09", "C10"], frame=[CH], ensures=lambda c: [
    ("from_the_list", c.ret.len <= c.arg(0).state.current_flow.current_choices.len), ("none_while_it_can_go_on", Implies(going(c), c.ret.len == 0))])


@loop(Y + "get_current_choices", 0)
def l_visible(l):
    i = [x for x in l.iters() if isinstance(x, VecIter)]
    return [("at_most", l.var("choices").len <= i[-1].lo)] if i else []


contract(Y + "choose_choice_index@range", use=False, props=["C09"], frame=[CH], opts={"fn_name": "bladeink::" + Y + "choose_choice_index"},
         requires=lambda c: [("out_of_range", c.arg(1).t >= c.arg(0).state.current_flow.current_choices.len)], ensures=unchanged)


# ---- a refusal changes nothing, whatever the reason
def err_unchanged(c):
    return ("refused_without_change", Implies(c.ret.is_err, c.self_.same(c.pre.self_)))


def wait(c):
    return c.pre.self_.async_continue_active.t


def assigned(c):
    a, b = c.self_, c.pre.self_
    n, v = c.arg(1).t, c.arg(2)
    l0, l1 = c.pre.log(OBS), c.log(OBS)
    obs = b.variable_observers
    k = If(mhas(obs, n), at(c, obs, n, Like(obs.norm().ty.args[1])).len, 0)
    i = Int("i!set")
    plain = Not(And(v.is_("List"), v.payload("List").items.len == 0))
    return [err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), mhas(b.state.variables_state.default_global_variables, n))),
            ("each_observer_once_or_none", Or(l1.n == l0.n, And(c.ret.is_ok, l1.n == l0.n + k))),
            ("at_once", Implies(And(c.ret.is_ok, plain, Not(b.state.variables_state.batch_observing_variable_changes.t)), l1.n == l0.n + k)),
            ("with_the_value_set", ForAll([i], Implies(And(l0.n <= i, i < l1.n), And(Select(l1.a(1), i) == n, Select(l1.a(2), i) == v.t)), patterns=[Select(l1.a(1), i)])),
            ("only_the_variables", And(a.same_except(b, "state"), a.state.same_except(b.state, "variables_state")))]


contract(Y + "set_variable", use=False, props=["C09", "C11"], frame=["!" + OBS], ensures=assigned)
contract(Y + "get_variable", use=False, props=["C09"], ensures=lambda c: [])


def observers(c):
    a, b, n = c.self_.variable_observers, c.pre.self_.variable_observers, c.arg(1).t
    k = mkey(b)
    there = mhas(b, n)
    va, vb = at(c, a, n, b_like(c)), at(c, b, n, b_like(c))
    declared = Or(mhas(c.pre.self_.state.variables_state.global_variables, n), mhas(c.pre.self_.state.variables_state.default_global_variables, n))
    return [err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), declared)),
            ("others_stay", ForAll([k], Implies(k != n, Select(a.arr, k) == Select(b.arr, k)))),
            ("added", Implies(c.ret.is_ok, And(mhas(a, n), va.len == If(there, vb.len, 0) + 1, va.last.t == c.arg(2).loc, Implies(there, prefix(va, vb, vb.len))))),
            ("rest", c.self_.same_except(c.pre.self_, "variable_observers"))]


class Like:
    def __init__(self, ty):
        self.ty = ty

    def norm(self):
        return self


def b_like(c):
    return Like(c.pre.self_.variable_observers.norm().ty.args[1])


contract(Y + "observe_variable", use=False, props=["C11", "C09"], ensures=observers)
def stopped(c):
    """of one variable's observers, exactly the one given is taken out; the others keep their order"""
    a, b, n, o = c.self_.variable_observers, c.pre.self_.variable_observers, c.arg(2).some.t, c.arg(1).t
    k, i, j = mkey(b), Int("i!rv"), Int("j!rv")
    va, vb = at(c, a, n, b_like(c)), at(c, b, n, b_like(c))
    here = z3.Exists([i], And(0 <= i, i < vb.len, Select(vb.arr, i) == o))
    return [err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), mhas(b, n), here)),
            ("others_stay", ForAll([k], Implies(k != n, Select(a.arr, k) == Select(b.arr, k)))),
            ("it_is_gone", Implies(And(c.ret.is_ok, mhas(a, n)), ForAll([i], Implies(And(0 <= i, i < va.len), Select(va.arr, i) != o)))),
            ("none_left_none_kept", Implies(And(c.ret.is_ok, mhas(a, n)), va.len > 0)),
            ("the_others_remain", Implies(c.ret.is_ok, ForAll([j], Implies(And(0 <= j, j < vb.len, Select(vb.arr, j) != o), And(
                mhas(a, n), z3.Exists([i], And(0 <= i, i < va.len, Select(va.arr, i) == Select(vb.arr, j)))))))),
            ("no_new_ones", Implies(And(c.ret.is_ok, mhas(a, n)), And(va.len <= vb.len, ForAll([i], Implies(And(0 <= i, i < va.len), z3.Exists([j], And(
                0 <= j, j < vb.len, Select(vb.arr, j) == Select(va.arr, i)))))))),
            ("rest", c.self_.same_except(c.pre.self_, "variable_observers"))]


contract(Y + "remove_variable_observer@named", use=False, props=["C11", "C09"], opts={"fn_name": "bladeink::" + Y + "remove_variable_observer"},
         requires=lambda c: [("one_variable", c.arg(2).is_some)], ensures=stopped)


def all_stopped(c):
    a, b, o = c.self_.variable_observers, c.pre.self_.variable_observers, c.arg(1).t
    k, i = mkey(b), Int("i!rv")
    va = at(c, a, k, b_like(c))
    return [err_unchanged(c), ("gone_everywhere", Implies(c.ret.is_ok, ForAll([k, i], Implies(And(mhas(a, k), 0 <= i, i < va.len), Select(va.arr, i) != o)))),
            ("no_new_names", Implies(c.ret.is_ok, ForAll([k], Implies(mhas(a, k), mhas(b, k))))),
            ("rest", c.self_.same_except(c.pre.self_, "variable_observers"))]


@loop(Y + "remove_variable_observer", 0)
def l_all(l):
    it = [x for x in l.iters() if isinstance(x, MapIter)]
    if not it:
        return []
    a, b, o = l.arg(0).variable_observers, l.prearg(0).variable_observers, l.start(1).t
    k, i = mkey(b), Int("i!rv")
    va = at(l.c, a, k, Like(b.norm().ty.args[1]))
    return [("gone_so_far", ForAll([k, i], Implies(And(Select(it[-1].visited, k), mhas(a, k), 0 <= i, i < va.len), Select(va.arr, i) != o))),
            ("same_names", ForAll([k], mhas(a, k) == mhas(b, k))), ("rest", l.arg(0).same_except(l.prearg(0), "variable_observers"))]


contract(Y + "remove_variable_observer@all", use=False, props=["C11", "C09"], opts={"fn_name": "bladeink::" + Y + "remove_variable_observer"},
         requires=lambda c: [("all_variables", c.arg(2).is_none)], ensures=all_stopped)
contract(Y + "switch_flow", use=False, props=["C10", "C09"], ensures=lambda c: [
    err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), Not(c.pre.self_.async_saving.t))), ("only_the_state", c.self_.same_except(c.pre.self_, "state")),
    ("named", Implies(c.ret.is_ok, c.self_.state.current_flow.name.t == c.arg(1).t)),
    ("globals", c.self_.state.variables_state.same_except(c.pre.self_.state.variables_state, "callstack"))])
contract(Y + "remove_flow", use=False, props=["C10", "C09"], ensures=lambda c: [
    err_unchanged(c), ("only_the_state", c.self_.same_except(c.pre.self_, "state")),
    ("globals", c.self_.state.variables_state.same_except(c.pre.self_.state.variables_state, "callstack"))])
contract(Y + "reset_callstack", use=False, props=["C17", "C09"], frame=["callstack::CallStack"], ensures=lambda c: [
    err_unchanged(c), ("when", c.ret.is_ok == Not(wait(c))), ("only_the_state", c.self_.same_except(c.pre.self_, "state")),
    ("abandoned", Implies(c.ret.is_ok, And(st_.cs(c.self_.state).threads.len == 1, st_.cs(c.self_.state).threads[0].callstack.len == 1,
                                           c.self_.state.current_flow.current_choices.len == 0, c.self_.state.evaluation_stack.len == 0))),
    ("variables_and_counts_stay", c.self_.state.same_except(c.pre.self_.state, "current_flow", "evaluation_stack", "did_safe_exit"))])


# ---- external functions
def bound(c):
    a, b, n = c.self_.externals, c.pre.self_.externals, c.arg(1).t
    k = mkey(b)
    d = at(c, a, n, Like(b.norm().ty.args[1]))
    return [err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), Not(mhas(b, n)))),
            ("others_stay", ForAll([k], Implies(k != n, Select(a.arr, k) == Select(b.arr, k)))),
            ("bound", Implies(c.ret.is_ok, And(mhas(a, n), d.function.loc == c.arg(2).loc, d.lookahead_safe.t == c.arg(3).t))),
            ("rest", c.self_.same_except(c.pre.self_, "externals"))]


def unbound(c):
    a, b, n = c.self_.externals, c.pre.self_.externals, c.arg(1).t
    return [err_unchanged(c), ("when", c.ret.is_ok == And(Not(wait(c)), mhas(b, n))), ("gone", Implies(c.ret.is_ok, map_del(a, b, n))),
            ("rest", c.self_.same_except(c.pre.self_, "externals"))]


contract(Y + "bind_external_function", use=False, props=["C12", "C09"], ensures=bound)
contract(Y + "unbind_external_function", use=False, props=["C12", "C09"], ensures=unbound)

# ---- errors
contract(Y + "reset_errors", props=["C13"], ensures=lambda c: [
    ("no_messages", And(c.self_.state.current_errors.len == 0, c.self_.state.current_warnings.len == 0, c.self_.state.reported_warnings.t == 0)),
    ("rest", And(c.self_.same_except(c.pre.self_, "state"), c.self_.state.same_except(c.pre.self_.state, "current_errors", "current_warnings", "reported_warnings")))])


def added(c):
    a, b = c.self_.state, c.pre.self_.state
    w = c.arg(2).t
    return [("an_error", Implies(Not(w), And(pushed(a.current_errors, b.current_errors), a.current_warnings.same(b.current_warnings)))),
            ("a_warning", Implies(w, And(pushed(a.current_warnings, b.current_warnings), a.current_errors.same(b.current_errors)))),
            ("an_error_stops", Implies(Not(w), And(cur(st_.cs(a)).current_pointer.container.is_none, a.current_flow.current_choices.len == 0, a.did_safe_exit.t))),
            ("a_warning_does_not", Implies(w, a.same_except(b, "current_warnings"))),
            ("rest", And(c.self_.same_except(c.pre.self_, "state"),
                         a.same_except(b, "current_errors", "current_warnings", "current_flow", "evaluation_stack", "did_safe_exit")))]


contract(Y + "add_error", props=["C13"], frame=["callstack::CallStack", "object::Object"], ensures=added)


# ---- snapshots
contract(Y + "discard_snapshot", use=False, props=["C08", "C10"], frame=None, ensures=lambda c: [
    ("none_left", c.self_.state_snapshot_at_last_new_line.is_none), ("rest", c.self_.same_except(c.pre.self_, "state", "state_snapshot_at_last_new_line"))])
contract(Y + "restore_state_snapshot", use=False, props=["C08", "C10", "C11"], frame=None, ensures=lambda c: [
    ("none_left", c.self_.state_snapshot_at_last_new_line.is_none), ("rest", c.self_.same_except(c.pre.self_, "state", "state_snapshot_at_last_new_line"))])


# ---- one continue
ST = ("state", "state_snapshot_at_last_new_line", "saw_lookahead_unsafe_function_after_new_line", "prev_containers", "steps_left")
effects(Y + "continue_single_step", "story::Story", ST, ["C08", "C11", "C12", "C13"], hosts=("ExternalFunction::call",))


contract(Y + "notify_variable_changed", props=["C11"], frame=["!VariableObserver::changed"], ensures=lambda c: notified(c))


def notified(c):
    """each observer of the variable is called once, in order, with the name and the value"""
    a, b = c.log(OBS), c.pre.log(OBS)
    obs = c.arg(0).variable_observers
    n = c.arg(1).t
    there = mhas(obs, n)
    v = at(c, obs, n, Like(obs.norm().ty.args[1]))
    k = If(there, v.len, 0)
    i = Int("i!obs")
    return [("as_many_as_observers", a.n == b.n + k),
            ("each_with_name_and_value", ForAll([i], Implies(And(b.n <= i, i < a.n), And(Select(a.a(1), i) == n, Select(a.a(2), i) == c.arg(2).t)), patterns=[Select(a.a(1), i)])),
            ("in_order", ForAll([i], Implies(And(b.n <= i, i < a.n), Select(a.a(0), i) == Select(v.arr, i - b.n)), patterns=[Select(a.a(0), i)])),
            ("earlier_calls_stay", a.extends(b))]


@loop(Y + "notify_variable_changed", 0)
def l_obs(l):
    it = [x for x in l.iters() if isinstance(x, VecIter)]
    if not it:
        return []
    a, b = l.c.log(OBS), l.prec.log(OBS)
    n, val = l.start(1), l.start(2)
    obs = l.start(0).variable_observers
    v = at(l.c, obs, n.t, Like(obs.norm().ty.args[1]))
    i = Int("i!obs")
    return [("so_far", a.n == b.n + it[-1].lo),
            ("named", ForAll([i], Implies(And(b.n <= i, i < a.n), And(Select(a.a(1), i) == n.t, Select(a.a(2), i) == val.t)), patterns=[Select(a.a(1), i)])),
            ("in_order", ForAll([i], Implies(And(b.n <= i, i < a.n), Select(a.a(0), i) == Select(v.arr, i - b.n)), patterns=[Select(a.a(0), i)])),
            ("earlier", a.extends(b))]


def delivered(c):
    a, b = c.self_, c.pre.self_
    lim = c.arg(1).t
    done = Not(a.async_continue_active.t)
    e0, e1 = c.pre.log(ERR), c.log(ERR)
    return [
        ("a_blocking_continue_completes", Implies(Not(z3.fpGT(lim, z3.FPVal(0.0, lim.sort()))), done)),
        ("count_restored", a.recursive_continue_count.t == b.recursive_continue_count.t),
        ("nothing_left_for_the_handler", Implies(And(done, c.ret.is_ok, a.on_error.is_some), And(a.state.current_errors.len == 0, a.state.current_warnings.len == 0))),
        ("an_error_is_an_Err_without_handler", Implies(And(done, a.on_error.is_none, Or(going_or(b))), c.ret.is_err == (a.state.current_errors.len > 0))),
        ("handler_means_Ok", Implies(And(a.on_error.is_some, Or(going_or(b))), c.ret.is_ok)),
        ("none_while_unfinished", Implies(Not(done), And(c.ret.is_ok, e1.n == e0.n, c.log(OBS).n == c.pre.log(OBS).n))),
        ("no_handler_no_calls", Implies(a.on_error.is_none, e1.n == e0.n)),
        ("warnings_once", Implies(And(done, a.on_error.is_none, Or(going_or(b)), a.state.current_warnings.len > 0), a.state.reported_warnings.t == a.state.current_warnings.len)),
        ("nothing_half_done_remains", Implies(And(done, Or(going_or(b))), a.state_snapshot_at_last_new_line.is_none)),
        ("setting_stays", a.same_except(b, "async_continue_active", *ST)),
    ]


def going_or(b):
    s = b.state
    return [b.async_continue_active.t, And(cur(st_.cs(s)).current_pointer.container.is_some, s.current_errors.len == 0)]


@loop(Y + "continue_internal", 0)
def l_steps(l):
    a, b = l.arg(0), l.prearg(0)
    return [("setting", a.same_except(b, *ST)), ("no_handler_call", l.c.log(ERR).n == l.prec.log(ERR).n), ("no_observer_call", l.c.log(OBS).n == l.prec.log(OBS).n)]


def before_the_count_falls(M, fn):
    """where the count of nested continues is taken down again: the evaluation is over, nothing has been told to the host"""
    i = [n for n, _ in M.db.find_ty("story::Story").fields(0)].index("recursive_continue_count")
    hs = [k for k, b in enumerate(fn.blocks) for s in b["s"] if s[0] == "=" and s[2][0] == "cbin" and s[2][1] == "Sub" and s[2][2][0] == "copy"
          and s[2][2][1][0] == 1 and s[2][2][1][1][-1][:2] == ["f", i]]
    return hs[0] if len(hs) == 1 else None


def evaluated(l):
    a, b = l.arg(0), l.prearg(0)
    lim = l.arg(1).t
    done, ch = l.var("completed").t, l.var("changed_variables_to_observe")
    return [("it_was_going_on", Or(*going_or(b))), ("setting", a.same_except(b, "async_continue_active", "recursive_continue_count", *ST)),
            ("counted", a.recursive_continue_count.t == b.recursive_continue_count.t + 1), ("finished_or_paused", done == Not(a.async_continue_active.t)),
            ("blocking_is_not_paused", Implies(Not(z3.fpGT(lim, z3.FPVal(0.0, lim.sort()))), done)), ("no_snapshot", Implies(done, a.state_snapshot_at_last_new_line.is_none)),
            ("told_when_done", Implies(ch.is_some, done)),
            ("no_handler_call", l.c.log(ERR).n == l.prec.log(ERR).n), ("no_observer_call", l.c.log(OBS).n == l.prec.log(OBS).n)]


def before_it_is_complete(M, fn):
    """where the line is known to be complete: the last of the two places the safe exit is forgotten"""
    hs = [k for k, b in enumerate(fn.blocks) if b["t"][0] == "call" and str(b["t"][1].get("u", "")).endswith("StoryState::set_did_safe_exit")]
    if len(hs) != 2:
        return None
    last = max(hs, key=lambda k: fn.blocks[k]["l"])
    ps = [k for k in range(len(fn.blocks)) if last in fn.succs(k)]
    return ps[0] if len(ps) == 1 else last


def before_the_steps(M, fn):
    """where the steps are about to start"""
    i = [n for n, _ in M.db.find_ty("story::Story").fields(0)].index("saw_lookahead_unsafe_function_after_new_line")
    hs = [k for k, b in enumerate(fn.blocks) for s in b["s"] if s[0] == "=" and s[1][0] == 1 and s[1][1][-1:] and s[1][1][-1][:2] == ["f", i]]
    return min(hs, key=lambda k: fn.blocks[k]["l"]) if hs else None


def begun(l):
    a, b = l.arg(0), l.prearg(0)
    lim = l.arg(1).t
    return [("it_was_going_on", Or(*going_or(b))), ("setting", a.same_except(b, "async_continue_active", "recursive_continue_count", *ST)),
            ("counted", a.recursive_continue_count.t == b.recursive_continue_count.t + 1), ("sliced_only_if_asked", Implies(a.async_continue_active.t, l.var("is_async_time_limited").t)),
            ("blocking_is_not_sliced", Implies(l.var("is_async_time_limited").t, z3.fpGT(lim, z3.FPVal(0.0, lim.sort())))),
            ("stopwatch", Implies(a.async_continue_active.t, l.var("duration_stopwatch").is_some)),
            ("no_handler_call", l.c.log(ERR).n == l.prec.log(ERR).n), ("no_observer_call", l.c.log(OBS).n == l.prec.log(OBS).n)]


def before_the_end_is_judged(M, fn):
    """where it is asked, of the line as it stands after any rewinding, whether it was the last: the last such question"""
    hs = [k for k, b in enumerate(fn.blocks) if b["t"][0] == "call" and str(b["t"][1].get("u", "")).endswith("Story::can_continue")]
    return max(hs, key=lambda k: fn.blocks[k]["l"]) if hs else None


def complete(l):
    a, b = l.arg(0), l.prearg(0)
    return [("it_was_going_on", Or(*going_or(b))), ("setting", a.same_except(b, "async_continue_active", "recursive_continue_count", *ST)),
            ("counted", a.recursive_continue_count.t == b.recursive_continue_count.t + 1), ("no_snapshot", a.state_snapshot_at_last_new_line.is_none),
            ("not_told_yet", l.var("changed_variables_to_observe").is_none),
            ("no_handler_call", l.c.log(ERR).n == l.prec.log(ERR).n), ("no_observer_call", l.c.log(OBS).n == l.prec.log(OBS).n)]


contract(Y + "continue_internal", use=False, props=["C08", "C11", "C13"], frame=None, opts={"light_paths": True, "no_inv": True, "cuts": [(before_the_steps, begun), (before_the_end_is_judged, complete), (before_it_is_complete, complete), (before_the_count_falls, evaluated)]}, ensures=delivered)


# ---- a call of the host
def called(c):
    """at most one call; of what the name is bound to; with the arguments in the order they were pushed; its result on the stack"""
    from .natives import value_at, isval
    a, b = c.self_, c.pre.self_
    n, k = c.arg(1).t, c.arg(2).t
    l0, l1 = c.pre.log(EXT), c.log(EXT)
    there = mhas(b.externals, n)
    d = at(c, b.externals, n, Like(b.externals.norm().ty.args[1]))
    ea, eb = a.state.evaluation_stack, b.state.evaluation_stack
    one = l1.n == l0.n + 1
    args = Select(l1.a(2), l0.n)
    vt = c.M.db.find_ty("std::vec::Vec<value_type::ValueType>")
    av = View(c, ("I", args), (), vt)
    i = Int("i!ext")
    src = value_at(c.pre, Select(eb.arr, eb.len - k + i)).t
    res = View(c, ("I", Select(l1.a(3), l0.n)), (), c.M.db.find_ty("std::option::Option<value_type::ValueType>"))
    top = ea.last.t
    val = value_at(c, top)
    rv = res.some
    it = And(isval(c, top), *[val.is_(x) == rv.is_(x) for x in ("Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer")],
             Implies(Not(rv.is_("List")), val.same(rv)), Implies(rv.is_("List"), val.payload("List").items.same(rv.payload("List").items)))
    return [("at_most_once", Or(l1.n == l0.n, one)), ("earlier_calls_stay", l1.extends(l0)),
            ("an_error_means_no_call", Implies(c.ret.is_err, l1.n == l0.n)),
            ("unbound_is_not_called", Implies(Not(there), l1.n == l0.n)),
            ("unbound_without_fallback_is_an_error", Implies(And(Not(there), Not(b.allow_external_function_fallbacks.t)), And(c.ret.is_err, a.same(b)))),
            ("unsafe_never_ahead_of_the_line", Implies(And(there, Not(d.lookahead_safe.t), b.state_snapshot_at_last_new_line.is_some), l1.n == l0.n)),
            ("then_the_line_is_wound_back", Implies(And(there, Not(d.lookahead_safe.t), b.state_snapshot_at_last_new_line.is_some, c.ret.is_ok),
                                                    And(a.saw_lookahead_unsafe_function_after_new_line.t, ea.same(eb)))),
            ("safe_is_called", Implies(And(there, d.lookahead_safe.t, c.ret.is_ok), one)),
            ("what_is_bound", Implies(one, And(there, Select(l1.a(0), l0.n) == d.function.loc, Select(l1.a(1), l0.n) == n))),
            ("its_arguments_in_order", Implies(one, And(k <= eb.len, av.len == k, ForAll([i], Implies(And(0 <= i, i < k), Select(av.arr, i) == src))))),
            ("its_result_on_the_stack", Implies(one, And(ea.len == eb.len - k + 1, prefix(ea, eb, eb.len - k), Implies(res.is_some, it)))),
            ("setting_stays", a.same_except(b, "state", "saw_lookahead_unsafe_function_after_new_line"))]


contract(Y + "call_external_function", use=False, props=["C12"], frame=["callstack::CallStack", "value::Value", "object::Object", "!" + EXT], ensures=called)


@loop(Y + "call_external_function", 0)
def l_popped(l):
    from .natives import value_at
    vs = l.locals_of(lambda t: t.disp.startswith("std::vec::Vec<value_type::ValueType"))
    if not vs:
        raise AnchorLost("arguments popped")
    it = [x for x in l.iters() if hasattr(x, "lo")]
    n = it[-1].lo
    av = vs[-1]
    ea, eb = l.arg(0).state.evaluation_stack, l.prearg(0).state.evaluation_stack
    i = Int("i!pop")
    return [("so_many", av.len == n), ("off_the_stack", And(ea.len == eb.len - n, eb.len >= n, prefix(ea, eb, eb.len - n))),
            ("last_first", ForAll([i], Implies(And(0 <= i, i < n), Select(av.arr, i) == value_at(l.c, Select(eb.arr, eb.len - 1 - i)).t))),
            ("rest", And(l.arg(0).same_except(l.prearg(0), "state"), l.arg(0).state.same_except(l.prearg(0).state, "evaluation_stack")))]
