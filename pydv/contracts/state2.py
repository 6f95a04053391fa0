"""The state of a story, continued: making states, patches, evaluation from the host, output."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, IntVal, BoolVal, Int, StringVal
from specs import contract, loop
from stdmodel import MapIter, VecIter
from view import View, pats
from .util import *  # noqa: F401,F403
from .callstack import cur, at_root, top_only, poppable
from .state import S, CS, cs, out_only, dirty, place, others, field_is, DEFAULT, OUT
from .variables import opt, the_iter

VAL = "value::Value"
B, I, F, L, ST, D, P = "Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer"


def vec_iter(l):
    its = [i for i in l.iters() if isinstance(i, VecIter)]
    if not its:
        raise AnchorLost("loop over a sequence")
    return its[-1]


# ---- made anew
def flow_new(c):
    f = c.ret
    s = f.callstack.deref()
    return [("named", f.name.t == c.arg(0).t), ("nothing_said", And(emptied(f.output_stream), emptied(f.current_choices), emptied(f.evaluation_stack)))] + [
        (n, e) for n, e in at_root(s, s.start_of_root)] + [("at_main", And(s.start_of_root.container.is_some, s.start_of_root.container.some.t == c.arg(1).t, s.start_of_root.index.t == 0)),
                                                         ("own_call_stack", f.callstack.loc >= c.pre.st.nalloc)]


contract("flow::Flow::new", props=["C10", "C17"], ensures=flow_new)
contract("state_patch::StatePatch::new", props=["C08"], use=False, ensures=lambda c: [
    ("empty", And(map_empty(c.ret.globals), map_empty(c.ret.visit_counts), map_empty(c.ret.turn_indices), c.ret.changed_variables.len == 0))])
contract("variables_state::VariablesState::new", use=False, props=["C17"], ensures=lambda c: [
    ("no_variables", And(map_empty(c.ret.global_variables), map_empty(c.ret.default_global_variables))), ("call_stack", c.ret.callstack.loc == c.arg(0).loc),
    ("not_observing", And(Not(c.ret.batch_observing_variable_changes.t), c.ret.changed_variables_for_batch_obs.is_none)), ("no_patch", c.ret.patch.is_none)])


def fresh(s, main, lists):
    """as a story's state is before anything is played"""
    k = cs(s)
    return [("default_flow", s.current_flow.name.t == DEFAULT), ("only_flow", s.named_flows.is_none),
            ("nothing_said", And(emptied(s.current_flow.output_stream), emptied(s.current_flow.current_choices), emptied(s.evaluation_stack), emptied(s.current_tags), s.current_text.is_none, dirty(s))),
            ("no_messages", And(emptied(s.current_errors), emptied(s.current_warnings), s.reported_warnings.t == 0)),
            ("no_counts", And(map_empty(s.visit_counts), map_empty(s.turn_indices), s.current_turn_index.t == -1)),
            ("no_patch", s.patch.is_none), ("nowhere_diverted", s.diverted_pointer.container.is_none), ("not_over", Not(s.did_safe_exit.t)), ("no_random_yet", s.previous_random.t == 0),
            ("variables_of_its_own", And(map_empty(s.variables_state.global_variables), map_empty(s.variables_state.default_global_variables), s.variables_state.callstack.loc == s.current_flow.callstack.loc,
                                         s.variables_state.patch.is_none, Not(s.variables_state.batch_observing_variable_changes.t), s.variables_state.changed_variables_for_batch_obs.is_none)),
            ("main", s.main_content_container.t == main.t), ("lists", s.list_definitions.t == lists.t)] + at_root(k, k.start_of_root) + [
            ("at_main", And(k.start_of_root.container.is_some, k.start_of_root.container.some.t == main.t))]


def fresh_state(c):
    return fresh(c.ret, c.arg(0), c.arg(1)) + [("own_call_stack", c.ret.current_flow.callstack.loc >= c.pre.st.nalloc)]


contract(S + "new", props=["C17", "C02"], frame=[], ensures=fresh_state)


# ---- patches
def count_changed(c):
    a, b = c.self_, c.pre.self_
    w = c.arg(3).t
    n, v = c.arg(1).t, c.arg(2).t
    return [("visits", If(w, map_put(a.visit_counts, b.visit_counts, n, v), a.visit_counts.same(b.visit_counts))),
            ("turns", If(w, a.turn_indices.same(b.turn_indices), map_put(a.turn_indices, b.turn_indices, n, v))), field_is(c, "visit_counts", "turn_indices")]


contract(S + "apply_count_changes", props=["C08", "C10"], ensures=count_changed)


def over(a, new, b, done=None):
    """map a is b with what `new` has put over it"""
    k = mkey(b)
    d = (lambda k: BoolVal(True)) if done is None else done
    return ForAll([k], opt(a, k) == If(And(mhas(new, k), d(k)), opt(new, k), opt(b, k)))


def patch_in(c):
    a, b = c.self_, c.pre.self_
    p = b.patch
    return [("none", Implies(p.is_none, a.same(b))), ("taken", a.patch.is_none),
            ("visits", Implies(p.is_some, over(a.visit_counts, p.some.visit_counts, b.visit_counts))),
            ("turns", Implies(p.is_some, over(a.turn_indices, p.some.turn_indices, b.turn_indices))),
            ("rest", And(a.same_except(b, "patch", "visit_counts", "turn_indices", "variables_state"),
                         a.variables_state.same_except(b.variables_state, "patch", "global_variables", "changed_variables_for_batch_obs")))]


contract(S + "apply_any_patch", props=["C08", "C10"], ensures=patch_in)


@loop(S + "apply_any_patch", 0)
def l_visits(l):
    a, b, it = l.arg(0), l.start(0), the_iter(l)
    return [("so_far", And(b.patch.is_some, over(a.visit_counts, b.patch.some.visit_counts, b.visit_counts, lambda k: Select(it.visited, k)))), ("taken", a.patch.is_none),
            ("rest", And(a.same_except(b, "patch", "visit_counts", "variables_state"), a.variables_state.same_except(b.variables_state, "patch", "global_variables", "changed_variables_for_batch_obs")))]


@loop(S + "apply_any_patch", 1)
def l_turns(l):
    a, b, it = l.arg(0), l.start(0), the_iter(l)
    return [("so_far", And(b.patch.is_some, over(a.visit_counts, b.patch.some.visit_counts, b.visit_counts), over(a.turn_indices, b.patch.some.turn_indices, b.turn_indices, lambda k: Select(it.visited, k)))),
            ("taken", a.patch.is_none),
            ("rest", And(a.same_except(b, "patch", "visit_counts", "turn_indices", "variables_state"), a.variables_state.same_except(b.variables_state, "patch", "global_variables", "changed_variables_for_batch_obs")))]


contract(S + "restore_after_patch", props=["C08", "C10"], ensures=lambda c: [
    ("own_call_stack", c.self_.variables_state.callstack.loc == c.self_.current_flow.callstack.loc), ("own_patch", c.self_.variables_state.patch.same(c.pre.self_.patch)),
    ("rest", And(c.self_.same_except(c.pre.self_, "variables_state"), c.self_.variables_state.same_except(c.pre.self_.variables_state, "callstack", "patch")))])


def patching(c):
    a, b = c.ret, c.arg(0)
    fa, fb = a.current_flow, b.current_flow
    va, vb = a.variables_state, b.variables_state
    sa, sb = cs(a), cs(b)
    return [("own_call_stack", And(fa.callstack.loc >= c.pre.st.nalloc, va.callstack.loc == fa.callstack.loc)),
            ("call_stack_copied", And(sa.threads.len == sb.threads.len, sa.thread_counter.t == sb.thread_counter.t)),
            ("flow", And(fa.name.t == fb.name.t, fa.output_stream.same(fb.output_stream), fa.current_choices.len == fb.current_choices.len)),
            ("a_patch", And(a.patch.is_some, va.patch.is_some)), ("patch_goes_on", Implies(b.patch.is_some, And(a.patch.some.same(b.patch.some), va.patch.some.same(b.patch.some)))),
            ("patch_starts", Implies(b.patch.is_none, And(map_empty(a.patch.some.globals), map_empty(a.patch.some.visit_counts), map_empty(a.patch.some.turn_indices)))),
            ("counts", And(map_same(a.visit_counts, b.visit_counts), map_same(a.turn_indices, b.turn_indices), a.current_turn_index.t == b.current_turn_index.t)),
            ("random", And(a.story_seed.t == b.story_seed.t, a.previous_random.t == b.previous_random.t)),
            ("variables", va.same_except(vb, "callstack", "patch")), ("values", a.evaluation_stack.same(b.evaluation_stack)),
            ("messages", And(seq_same(a.current_errors, b.current_errors), seq_same(a.current_warnings, b.current_warnings))),
            ("safe_exit", a.did_safe_exit.t == b.did_safe_exit.t), ("flows", a.named_flows.same(b.named_flows))]


contract(S + "copy_and_start_patching", use=False, props=["C08", "C10", "C11", "C13"], frame=None,
         requires=lambda c: [("not_in_the_background", Not(c.arg(1).t))], ensures=patching)

contract(S + "new_for_loading", props=["C02", "C09"], frame=[], ensures=lambda c: [
    ("messages_stay", And(seq_same(c.ret.current_errors, c.arg(0).current_errors), seq_same(c.ret.current_warnings, c.arg(0).current_warnings), c.ret.reported_warnings.t == c.arg(0).reported_warnings.t)),
    ("seed_stays", c.ret.story_seed.t == c.arg(0).story_seed.t), ("default_values", map_same(c.ret.variables_state.global_variables, c.arg(0).variables_state.default_global_variables)),
    ("own_call_stack", And(c.ret.current_flow.callstack.loc >= c.pre.st.nalloc, c.ret.variables_state.callstack.loc == c.ret.current_flow.callstack.loc)),
    ("no_counts", And(map_empty(c.ret.visit_counts), map_empty(c.ret.turn_indices)))])


# ---- output
def reset_out(c):
    o, a = c.arg(1), c.self_.current_flow.output_stream
    return out_only(c) + [("cleared", Implies(o.is_none, emptied(a))), ("put_back", Implies(o.is_some, seq_same(a, o.some)))]


contract(S + "reset_output", props=["C16", "C10"], ensures=reset_out)


@loop(S + "reset_output", 0)
def l_out(l):
    it = vec_iter(l)
    a, b, o = l.arg(0), l.start(0), l.start(1)
    s = a.current_flow.output_stream
    return [("so_far", And(o.is_some, s.len == it.lo, prefix(s, o.some, it.lo))), ("rest", And(a.same_except(b, "current_flow"), a.current_flow.same_except(b.current_flow, "output_stream")))]


contract(S + "output_stream_dirty", props=["C10"], use=False, ensures=lambda c: [("dirty", dirty(c.self_)), ("rest", c.self_.same_except(c.pre.self_, "output_stream_text_dirty", "output_stream_tags_dirty"))])


def only_out(c):
    a, b = c.self_, c.pre.self_
    return [("only_the_output", And(a.same_except(b, *OUT), a.current_flow.same_except(b.current_flow, "output_stream")))]


def l_only_out(l):
    a, b = l.arg(0), l.start(0)
    return [("only_the_output", And(a.same_except(b, *OUT), a.current_flow.same_except(b.current_flow, "output_stream")))]


contract(S + "trim_whitespace_from_function_end", props=["C10", "C16"], ensures=lambda c: only_out(c) + [
    ("cut", And(c.self_.current_flow.output_stream.len <= c.pre.self_.current_flow.output_stream.len))])
loop(S + "trim_whitespace_from_function_end", 0)(lambda l: l_only_out(l) + [("cut", l.arg(0).current_flow.output_stream.len <= l.start(0).current_flow.output_stream.len)])
contract(S + "remove_existing_glue", props=["C10", "C16"], ensures=only_out)
loop(S + "remove_existing_glue", 0)(l_only_out)
contract(S + "trim_newlines_from_output_stream", props=["C10", "C16"], ensures=only_out)
loop(S + "trim_newlines_from_output_stream", 0)(l_only_out)
loop(S + "trim_newlines_from_output_stream", 1)(l_only_out)


# ---- the call stack
def popped_cs(c):
    a, b = cs(c.self_), cs(c.pre.self_)
    t = c.arg(1)
    ok = poppable(b, t)
    return only_out(c) + [("when", c.ret.is_ok == ok), ("threads", Implies(ok, top_only(a, b, "callstack"))),
                          ("one_less", Implies(ok, And(a.threads.last.callstack.len == b.threads.last.callstack.len - 1, prefix(a.threads.last.callstack, b.threads.last.callstack, a.threads.last.callstack.len)))),
                          ("refused", Implies(Not(ok), a.same(b))), others(c)]


contract(S + "pop_callstack", props=["C10", "C16", "C04"], frame=[CS], ensures=popped_cs)


def exited(c):
    a, b = c.self_, c.pre.self_
    asked = cur(cs(b)).push_pop_type.is_("FunctionEvaluationFromGame")
    return [("when", c.ret.t == asked), ("otherwise", Implies(Not(asked), And(a.same(b), cs(a).same(cs(b))))),
            ("safely", Implies(asked, And(a.did_safe_exit.t, cur(cs(a)).current_pointer.container.is_none))), ("rest", a.same_except(b, "did_safe_exit"))] + place(c, "current_pointer")


contract(S + "try_exit_function_evaluation_from_game", props=["C16"], frame=[CS], ensures=exited)
contract(S + "go_to_start", props=["C17"], frame=[CS], ensures=lambda c: place(c, "current_pointer") + [
    ("start", And(cur(cs(c.self_)).current_pointer.container.is_some, cur(cs(c.self_)).current_pointer.container.some.t == c.self_.main_content_container.t, cur(cs(c.self_)).current_pointer.index.t == 0))])


# ---- evaluation from the host
def bad_arg(v):
    return Or(v.is_(D), v.is_(P))


def any_bad(c, a, n=None):
    k = Int("k!arg")
    n = a.some.len if n is None else n
    return And(a.is_some, z3.Exists([k], And(0 <= k, k < n, bad_arg(a.some[k]))))


contract(S + "check_arguments", props=["C16", "C09"], ensures=lambda c: [("when", c.ret.is_err == any_bad(c, c.arg(0)))])


@loop(S + "check_arguments", 0)
def l_args(l):
    k = Int("k!arg")
    its = [i for i in l.iters()]
    a = l.start(0)
    v = [i for i in its if isinstance(i, VecIter)]
    if not v:
        return []
    return [("good_so_far", Implies(a.is_some, ForAll([k], Implies(And(0 <= k, k < v[-1].lo), Not(bad_arg(a.some[k]))))))]


def passed(c):
    a, b = c.self_, c.pre.self_
    n = If(c.arg(1).is_some, c.arg(1).some.len, 0)
    return [("when", c.ret.is_err == any_bad(c, c.arg(1))), ("refused_without_change", Implies(c.ret.is_err, a.same(b))),
            ("pushed", Implies(c.ret.is_ok, And(a.evaluation_stack.len == b.evaluation_stack.len + n, prefix(a.evaluation_stack, b.evaluation_stack, b.evaluation_stack.len)))),
            field_is(c, "evaluation_stack")]


def the_value_but_origins(c, p, loc):
    """only what a list value knows of where its items are declared may have changed"""
    from .natives import value_at
    a, b = value_at(c, loc), value_at(p, loc)
    return And(*[a.is_(v) == b.is_(v) for v in ("Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer")],
               Implies(Not(b.is_("List")), a.same(b)), Implies(b.is_("List"), a.payload("List").items.same(b.payload("List").items)))


contract(S + "push_evaluation_stack", props=["C12", "C16", "C10"], frame=[VAL], ensures=lambda c: [
    ("pushed", And(pushed(c.self_.evaluation_stack, c.pre.self_.evaluation_stack), c.self_.evaluation_stack.last.t == c.arg(1).t)), field_is(c, "evaluation_stack"),
    ("other_values", c.heap_same(VAL, but=[c.arg(1).t])), ("the_value", the_value_but_origins(c, c.pre, c.arg(1).t))])


@loop(S + "push_evaluation_stack", 0)
def l_origins(l):
    loc = l.start(1).t
    k = Int("k!pes")
    h1, h0 = l.c.heap(VAL), l.entryc.heap(VAL)
    return [("only_the_value", l.arg(0).same(l.start(0))), ("its_origins", the_value_but_origins(l.c, l.entryc, loc)),
            ("others", ForAll([k], Implies(And(k >= 1, k < l.entryc.st.nalloc, k != loc), Select(h1, k) == Select(h0, k)), **pats(Select(h1, k))))]


contract(S + "pass_arguments_to_evaluation_stack", props=["C16", "C09"], frame=[VAL], ensures=passed)


@loop(S + "pass_arguments_to_evaluation_stack", 0)
def l_passed(l):
    it = vec_iter(l)
    a, b = l.arg(0), l.start(0)
    return [("so_far", And(a.evaluation_stack.len == b.evaluation_stack.len + it.lo, prefix(a.evaluation_stack, b.evaluation_stack, b.evaluation_stack.len))),
            ("rest", a.same_except(b, "evaluation_stack"))]


def started(c):
    a, b = c.self_, c.pre.self_
    sa, sb = cs(a), cs(b)
    n = If(c.arg(2).is_some, c.arg(2).some.len, 0)
    e = cur(sa)
    bad = any_bad(c, c.arg(2))
    return [("when", c.ret.is_err == bad), ("refused_without_change", Implies(c.ret.is_err, And(a.same(b), sa.same(sb)))),
            ("pushed", Implies(c.ret.is_ok, And(top_only(sa, sb, "callstack"), pushed(sa.threads.last.callstack, sb.threads.last.callstack)))),
            ("at_the_function", Implies(c.ret.is_ok, And(e.push_pop_type.is_("FunctionEvaluationFromGame"), e.current_pointer.container.is_some, e.current_pointer.container.some.t == c.arg(1).t,
                                                         e.current_pointer.index.t == 0, e.evaluation_stack_height_when_pushed.t == b.evaluation_stack.len, map_empty(e.temporary_variables)))),
            ("arguments", Implies(c.ret.is_ok, And(a.evaluation_stack.len == b.evaluation_stack.len + n, prefix(a.evaluation_stack, b.evaluation_stack, b.evaluation_stack.len)))),
            field_is(c, "evaluation_stack"), others(c)]


contract(S + "start_function_evaluation_from_game", props=["C16", "C09"], frame=[CS, VAL], ensures=started)


def finished(c):
    a, b = c.self_, c.pre.self_
    sa, sb = cs(a), cs(b)
    h = cur(sb).evaluation_stack_height_when_pushed.t
    m = If(h < b.evaluation_stack.len, h, b.evaluation_stack.len)
    right = cur(sb).push_pop_type.is_("FunctionEvaluationFromGame")
    ok = And(right, sb.threads.last.callstack.len > 1)
    return [("when", c.ret.is_ok == ok), ("frame_popped", Implies(ok, And(top_only(sa, sb, "callstack"), popped(sa.threads.last.callstack, sb.threads.last.callstack)))),
            ("values_of_the_story_stay", Implies(ok, And(a.evaluation_stack.len == m, prefix(a.evaluation_stack, b.evaluation_stack, m)))),
            ("refused", Implies(Not(right), And(a.same(b), sa.same(sb)))), field_is(c, "evaluation_stack"), others(c)]


contract(S + "complete_function_evaluation_from_game", props=["C16"], frame=[CS], ensures=finished)


@loop(S + "complete_function_evaluation_from_game", 0)
def l_finished(l):
    a, b = l.arg(0), l.start(0)
    sb = cs(b)
    h = cur(sb).evaluation_stack_height_when_pushed.t
    sa = cs(a)
    m = If(h < b.evaluation_stack.len, h, b.evaluation_stack.len)
    return [("so_far", And(a.evaluation_stack.len >= m, a.evaluation_stack.len <= b.evaluation_stack.len, prefix(a.evaluation_stack, b.evaluation_stack, a.evaluation_stack.len))),
            ("rest", And(a.same_except(b, "evaluation_stack"), sa.same(sb)))]
