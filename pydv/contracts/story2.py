"""The larger operations of the host, over the contracts of what they are made of (C02, C08, C09, C10, C11, C13, C16, C17)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal, IntVal, Int
from specs import contract, loop, effects, pure
from view import View
from .util import *  # noqa: F401,F403
from .callstack import cur
from .state import cs
from .state2 import fresh, any_bad
from .story import Y, ERR, OBS, EXT, ST, err_unchanged, wait, unchanged, going_or

ALL = (ERR, OBS, EXT)

# ---- what a continue may change of the story: nothing the host has set
CONT = ST + ("recursive_continue_count", "async_continue_active", "has_validated_externals")
effects(Y + "cont", "story::Story", CONT, ["C08", "C11", "C12", "C13", "C16"], hosts=ALL)
effects(Y + "validate_external_bindings", "story::Story", ("has_validated_externals",), ["C12", "C13"])
effects(Y + "choose_path", "story::Story", ("state", "prev_containers"), ["C09", "C11", "C12"])


pure("story::Story::pointer_at_path", ["C09"])
pure("container::Container::count_content", ["C17"])

# ---- loading
effects("story_state::StoryState::load_json", "story_state::StoryState", ("current_flow", "did_safe_exit", "output_stream_text_dirty", "output_stream_tags_dirty", "variables_state", "alive_flow_names_dirty",
        "evaluation_stack", "main_content_container", "current_errors", "current_warnings", "reported_warnings", "current_text", "patch", "named_flows", "diverted_pointer", "visit_counts", "turn_indices",
        "current_turn_index", "story_seed", "previous_random", "current_tags", "list_definitions"), ["C02", "C09", "C15"])
contract(Y + "load_state", use=False, props=["C02", "C09", "C15"], frame=None, opts={"host_calls_kept": ALL}, ensures=lambda c: [
    err_unchanged(c), ("not_while_waiting", Implies(wait(c), c.ret.is_err)), ("nothing_of_the_line_before_remains", Implies(c.ret.is_ok, c.self_.state_snapshot_at_last_new_line.is_none)),
    ("setting_stays", c.self_.same_except(c.pre.self_, "state", "state_snapshot_at_last_new_line"))])


# ---- starting again
def as_new(c):
    s = c.arg(0)
    return fresh(s.state, s.main_content_container, s.list_definitions) + [
        ("no_snapshot", s.state_snapshot_at_last_new_line.is_none), ("nothing_entered", s.prev_containers.len == 0), ("not_within_a_continue", s.recursive_continue_count.t == 0),
        ("not_waiting", Not(s.async_continue_active.t)), ("nothing_unsafe_seen", Not(s.saw_lookahead_unsafe_function_after_new_line.t)), ("to_be_validated", Not(s.has_validated_externals.t))]


effects(Y + "reset_globals", "story::Story", ST + ("recursive_continue_count", "async_continue_active"), ["C17"], hosts=ALL, requires=as_new)
contract(Y + "reset_state", use=False, props=["C17", "C09"], frame=None, ensures=lambda c: [
    ("not_while_waiting", Implies(wait(c), And(c.ret.is_err, c.self_.same(c.pre.self_)))),
    ("setting_stays", c.self_.same_except(c.pre.self_, *CONT))])
effects("json::json_read::load_from_string", None, (), ["C17"])
contract(Y + "new", use=False, props=["C17"], frame=None, panics="ignore", ensures=lambda c: [
    ("nothing_set", Implies(c.ret.is_ok, And(c.ret.ok.on_error.is_none, map_empty(c.ret.ok.variable_observers), map_empty(c.ret.ok.externals), Not(c.ret.ok.allow_external_function_fallbacks.t))))])


# ---- functions evaluated for the host
contract(Y + "evaluate_function@bad_arguments", use=False, props=["C16", "C09"], opts={"fn_name": "bladeink::" + Y + "evaluate_function"},
         requires=lambda c: [("bad", any_bad(c, c.arg(2)))], ensures=unchanged)
contract(Y + "evaluate_function@unknown", use=False, props=["C16", "C09"], opts={"fn_name": "bladeink::" + Y + "evaluate_function"},
         requires=lambda c: [("unknown", Not(mhas(c.arg(0).main_content_container.deref().named_content, c.arg(1).t)))], ensures=unchanged)


def evaluated(c):
    a, b = c.self_, c.pre.self_
    sa, sb = a.state, b.state
    return [("output_as_it_was", Implies(c.ret.is_ok, seq_same(sa.current_flow.output_stream, sb.current_flow.output_stream))),
            ("entered_from_where_it_was", Implies(c.ret.is_ok, cs(sa).threads.last.previous_pointer.same(cs(sb).threads.last.previous_pointer))),
            ("setting_stays", a.same_except(b, *CONT))]


contract(Y + "evaluate_function", use=False, props=["C16"], frame=None, opts={"no_inv": True}, ensures=evaluated)


@loop(Y + "evaluate_function", 0)
def l_eval(l):
    return [("setting", l.arg(0).same_except(l.prearg(0), *CONT))]


@loop(Y + "continue_maximally", 0)
def l_maximally(l):
    return [("setting", l.arg(0).same_except(l.start(0), *CONT))]


contract(Y + "continue_maximally", use=False, props=["C13", "C11"], frame=None, opts={"no_inv": True}, ensures=lambda c: [
    ("setting_stays", c.self_.same_except(c.pre.self_, *CONT)),
    ("to_the_end", Implies(c.ret.is_ok, Not(And(cur(cs(c.self_.state)).current_pointer.container.is_some, c.self_.state.current_errors.len == 0))))])


# ---- going elsewhere
def in_function(c):
    return And(Not(c.arg(2).t), cur(cs(c.arg(0).state)).push_pop_type.is_("Function"))


contract(Y + "choose_path_string@in_function", use=False, props=["C09"], opts={"fn_name": "bladeink::" + Y + "choose_path_string"},
         requires=lambda c: [("within_a_function", in_function(c))], ensures=unchanged)
contract(Y + "choose_path_string@bad_arguments", use=False, props=["C09"], opts={"fn_name": "bladeink::" + Y + "choose_path_string"},
         requires=lambda c: [("bad", any_bad(c, c.arg(3)))], ensures=unchanged)
contract(Y + "choose_path_string", use=False, props=["C09", "C11"], frame=None, opts={"no_inv": True, "host_calls_kept": ALL}, ensures=lambda c: [
    ("not_while_waiting", Implies(wait(c), And(c.ret.is_err, c.self_.same(c.pre.self_)))), ("setting_stays", c.self_.same_except(c.pre.self_, "state", "prev_containers"))])
contract(Y + "choose_choice_index", use=False, props=["C09", "C11"], frame=None, opts={"no_inv": True, "host_calls_kept": ALL}, ensures=lambda c: [
    ("not_while_waiting", Implies(wait(c), And(c.ret.is_err, c.self_.same(c.pre.self_)))), ("setting_stays", c.self_.same_except(c.pre.self_, "state", "prev_containers"))])
