"""The state of a story: flows, pending output and values, errors and warnings, counts (C02, C08, C09, C10, C13, C16, C17)."""
from z3 import And, Or, Not, Implies, If, IntVal, StringVal
from specs import contract, loop
from view import View
from .util import *  # noqa: F401,F403
from .callstack import cur, at_root, top_only, popped as _p

S = "story_state::StoryState::"
CS = "callstack::CallStack"
DEFAULT = StringVal("DEFAULT_FLOW")


def cs(v):
    """the call stack of the current flow"""
    return v.current_flow.callstack.deref()


def others(c, *but):
    """every call stack but that of the current flow is left alone"""
    return ("other_call_stacks", c.heap_same(CS, [c.self_.current_flow.callstack.loc]))


def field_is(c, *but):
    return ("rest", c.self_.same_except(c.pre.self_, *but))


# ---- reading
contract(S + "has_error", props=["C13", "C08"], ensures=lambda c: [("errors", c.ret.t == (c.arg(0).current_errors.len > 0))])
contract(S + "has_warning", props=["C13"], ensures=lambda c: [("warnings", c.ret.t == (c.arg(0).current_warnings.len > 0))])
contract(S + "can_continue", props=["C13", "C10", "C09"], ensures=lambda c: [
    ("somewhere_and_no_error", c.ret.t == And(cur(cs(c.arg(0))).current_pointer.container.is_some, c.arg(0).current_errors.len == 0))])
contract(S + "get_current_pointer", props=["C10", "C16"], ensures=lambda c: [("it", c.ret.same(cur(cs(c.arg(0))).current_pointer))])
contract(S + "get_previous_pointer", props=["C10", "C16"], ensures=lambda c: [("it", c.ret.same(cs(c.arg(0)).threads.last.previous_pointer))])
contract(S + "get_in_expression_evaluation", props=["C10", "C16"], ensures=lambda c: [
    ("it", c.ret.t == cur(cs(c.arg(0))).in_expression_evaluation.t)])
contract(S + "get_current_choices", props=["C10", "C16"], use=False, ensures=lambda c: [
    ("none_while_it_can_continue", c.ret.is_none == And(cur(cs(c.arg(0))).current_pointer.container.is_some, c.arg(0).current_errors.len == 0)),
    ("those_of_the_flow", Implies(c.ret.is_some, c.ret.some.same(c.arg(0).current_flow.current_choices)))])


# ---- the place the flow is at
def place(c, *fields):
    a, b = cs(c.self_), cs(c.pre.self_)
    n = b.threads.last.callstack.len
    sa, sb = a.threads.last.callstack, b.threads.last.callstack
    return [("call_stack", And(top_only(a, b, "callstack"), sa.len == n, prefix(sa, sb, n - 1), cur(a).same_except(cur(b), *fields))), others(c)]


contract(S + "set_current_pointer", props=["C10", "C16", "C17"], frame=[CS], ensures=lambda c: place(c, "current_pointer") + [("set", cur(cs(c.self_)).current_pointer.same(c.arg(1)))])
contract(S + "set_in_expression_evaluation", props=["C10", "C16", "C17"], frame=[CS], ensures=lambda c: place(c, "in_expression_evaluation") + [
    ("set", cur(cs(c.self_)).in_expression_evaluation.t == c.arg(1).t)])
contract(S + "set_previous_pointer", props=["C10", "C16", "C17"], frame=[CS], ensures=lambda c: [
    ("call_stack", top_only(cs(c.self_), cs(c.pre.self_), "previous_pointer")), ("set", cs(c.self_).threads.last.previous_pointer.same(c.arg(1))), others(c)])


def ended(c):
    a, b = c.self_, c.pre.self_
    f = a.current_flow
    s = cs(a)
    e = cur(s)
    return [("call_stack_reset", And(s.threads.len == 1, s.threads[0].callstack.len == 1, e.push_pop_type.is_("Tunnel"), Not(e.in_expression_evaluation.t), map_empty(e.temporary_variables),
                                     s.same_except(cs(b), "threads"))),
            ("nowhere", And(e.current_pointer.container.is_none, s.threads[0].previous_pointer.container.is_none)),
            ("no_choices", emptied(f.current_choices)), ("nothing_pending", emptied(a.evaluation_stack)), ("safely", a.did_safe_exit.t),
            ("rest", And(a.same_except(b, "current_flow", "evaluation_stack", "did_safe_exit"), f.same_except(b.current_flow, "current_choices"))), others(c)]


contract(S + "force_end", props=["C13", "C17", "C04"], frame=[CS], ensures=ended)

# ---- errors and warnings
contract(S + "add_error", props=["C13"], ensures=lambda c: [
    ("error_added", Implies(Not(c.arg(2).t), And(pushed(c.self_.current_errors, c.pre.self_.current_errors), c.self_.current_errors.last.t == c.arg(1).t,
                                                 c.self_.current_warnings.same(c.pre.self_.current_warnings)))),
    ("warning_added", Implies(c.arg(2).t, And(pushed(c.self_.current_warnings, c.pre.self_.current_warnings), c.self_.current_warnings.last.t == c.arg(1).t,
                                              c.self_.current_errors.same(c.pre.self_.current_errors)))),
    field_is(c, "current_errors", "current_warnings")])
contract(S + "reset_errors", props=["C13", "C17"], ensures=lambda c: [
    ("no_messages", And(emptied(c.self_.current_errors), emptied(c.self_.current_warnings), c.self_.reported_warnings.t == 0)),
    field_is(c, "current_errors", "current_warnings", "reported_warnings")])
contract(S + "mark_warnings_reported", props=["C13"], ensures=lambda c: [
    ("all_of_them", c.self_.reported_warnings.t == c.self_.current_warnings.len), field_is(c, "reported_warnings")])


# ---- pending output and values
def dirty(v):
    return And(v.output_stream_text_dirty.t, v.output_stream_tags_dirty.t)


OUT = ("current_flow", "output_stream_text_dirty", "output_stream_tags_dirty")


def out_only(c):
    a, b = c.self_, c.pre.self_
    return [("text_is_made_again", dirty(a)), ("rest", And(a.same_except(b, *OUT), a.current_flow.same_except(b.current_flow, "output_stream")))]


contract(S + "pop_from_output_stream", props=["C10", "C04"], ensures=lambda c: out_only(c) + [
    ("popped", If(c.arg(1).t <= c.pre.self_.current_flow.output_stream.len,
                  And(c.self_.current_flow.output_stream.len == c.pre.self_.current_flow.output_stream.len - c.arg(1).t,
                      prefix(c.self_.current_flow.output_stream, c.pre.self_.current_flow.output_stream, c.self_.current_flow.output_stream.len)),
                  seq_same(c.self_.current_flow.output_stream, c.pre.self_.current_flow.output_stream)))])
contract(S + "pop_evaluation_stack", props=["C04", "C07", "C12"], ensures=lambda c: [
    ("when", c.ret.is_ok == (c.pre.self_.evaluation_stack.len > 0)),
    ("the_last", Implies(c.ret.is_ok, And(popped(c.self_.evaluation_stack, c.pre.self_.evaluation_stack), c.ret.ok.t == c.pre.self_.evaluation_stack.last.t))),
    ("refused", Implies(c.ret.is_err, seq_same(c.self_.evaluation_stack, c.pre.self_.evaluation_stack))),
    field_is(c, "evaluation_stack")])


def popped_many(c):
    n, k = c.arg(1).t, Int("k!pm")
    a, b = c.self_.evaluation_stack, c.pre.self_.evaluation_stack
    r = c.ret.ok
    return [("when", c.ret.is_ok == (n <= b.len)), ("refused", Implies(c.ret.is_err, seq_same(a, b))), field_is(c, "evaluation_stack"),
            ("the_last_ones", Implies(c.ret.is_ok, And(a.len == b.len - n, prefix(a, b, a.len), r.len == n))),
            ("in_the_order_pushed", Implies(c.ret.is_ok, ForAll([k], Implies(And(0 <= k, k < n), Select(r.arr, k) == Select(b.arr, b.len - n + k)))))]


contract(S + "pop_evaluation_stack_multiple", props=["C04", "C07", "C12"], ensures=popped_many)


# ---- flows
def switched(c):
    a, b, name = c.self_, c.pre.self_, c.arg(1).t
    fa, fb = a.current_flow, b.current_flow
    na, nb = a.named_flows, b.named_flows
    away = fb.name.t != name
    kept = And(nb.is_some, mhas(nb.some, name))
    k = mkey(na.some)
    old = View(c, ("I", mget(na.some, fb.name.t)), (), fb.norm().ty)
    nxt = View(c, ("I", mget(nb.some, name)), (), fb.norm().ty)
    frame = a.same_except(b, "current_flow", "evaluation_stack", "named_flows", "variables_state", "output_stream_text_dirty", "output_stream_tags_dirty", "alive_flow_names_dirty")
    return [("to_itself", Implies(Not(away), a.same(b))), ("named", fa.name.t == name), ("some_are_kept", Implies(away, na.is_some)),
            ("one_left_is_kept", Implies(And(away, fb.name.t != name), And(mhas(na.some, fb.name.t), old.same_except(fb, "evaluation_stack"), old.evaluation_stack.same(b.evaluation_stack)))),
            ("one_taken_up", Implies(And(away, kept), And(fa.same_except(nxt, "evaluation_stack"), a.evaluation_stack.same(nxt.evaluation_stack)))),
            ("one_started", Implies(And(away, Not(kept)), And(emptied(fa.output_stream), emptied(fa.current_choices), emptied(a.evaluation_stack), *[
                e for n, e in at_root(cs(a), cs(a).start_of_root)], cs(a).start_of_root.container.is_some, cs(a).start_of_root.container.some.t == b.main_content_container.t,
                cs(a).start_of_root.index.t == 0))),
            ("one_current_is_not_kept", Implies(away, Not(mhas(na.some, name)))),
            ("others_stay", Implies(away, ForAll([k], Implies(And(k != name, k != fb.name.t), Select(na.some.arr, k) == If(nb.is_some, Select(nb.some.arr, k), con(na.some.arr.sort().range(), 0)))))),
            ("variables", Implies(away, And(a.variables_state.same_except(b.variables_state, "callstack"), a.variables_state.callstack.loc == fa.callstack.loc))),
            ("text_is_made_again", Implies(away, dirty(a))), ("rest", frame)]


contract(S + "switch_flow_internal", props=["C10"], ensures=switched)


def removed(c):
    a, b, name = c.self_, c.pre.self_, c.arg(1).t
    na, nb = a.named_flows, b.named_flows
    fb = b.current_flow
    current = fb.name.t == name
    there = And(name != DEFAULT, Or(And(nb.is_some, mhas(nb.some, name)), And(current, nb.is_some)))
    k = mkey(na.some)
    return [("when", c.ret.is_ok == there), ("refused", Implies(c.ret.is_err, a.same(b))),
            ("gone", Implies(c.ret.is_ok, And(na.is_some, Not(mhas(na.some, name)), a.current_flow.name.t != name))),
            ("another_than_the_current", Implies(And(c.ret.is_ok, Not(current)), And(a.same_except(b, "named_flows", "alive_flow_names_dirty"), map_del(na.some, nb.some, name)))),
            ("the_current", Implies(And(c.ret.is_ok, current), And(a.current_flow.name.t == DEFAULT, ForAll([k], Implies(And(k != name, k != DEFAULT), Select(na.some.arr, k) == Select(nb.some.arr, k)))))),
            ("rest", a.same_except(b, "current_flow", "evaluation_stack", "named_flows", "variables_state", "output_stream_text_dirty", "output_stream_tags_dirty", "alive_flow_names_dirty")),
            ("globals", a.variables_state.same_except(b.variables_state, "callstack"))]


contract(S + "remove_flow_internal", props=["C10", "C09"], ensures=removed)
contract(S + "switch_to_default_flow_internal", props=["C10"], use=False)
