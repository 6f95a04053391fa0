"""What the contracts say of calls made one after the other."""
from z3 import And, Or, Not, Implies, If, Select
from specs import lemma
from .util import *  # noqa: F401,F403
from .state import cs, dirty

S = "story_state::StoryState::"


def back(c):
    a, b = c.v("self"), c.pre.v("self")
    return [("the_flow_is_as_it_was", And(a.current_flow.same_except(b.current_flow, "evaluation_stack"), a.evaluation_stack.same(b.evaluation_stack))),
            ("the_variables_go_with_it", a.variables_state.same(b.variables_state)),
            ("nothing_else", a.same_except(b, "current_flow", "evaluation_stack", "named_flows", "variables_state", "output_stream_text_dirty", "output_stream_tags_dirty", "alive_flow_names_dirty")),
            ("the_other_flows_stay", Implies(b.named_flows.is_some, ForAll([K], Implies(And(K != c.v("other").t, K != b.current_flow.name.t), Select(a.named_flows.some.arr, K) == Select(b.named_flows.some.arr, K)))))]


K = z3.Const("k!lem", z3.StringSort())
lemma("away and back", ["C10"], [(S + "switch_flow_internal", ("self", "other"), None), (S + "switch_flow_internal", ("self", "own"), None)],
      back, requires=lambda c: [("its_name", c.v("own").t == c.v("self").current_flow.name.t), ("another", c.v("own").t != c.v("other").t)])

Y = "story::Story::"
lemma("bound and unbound", ["C12", "C09"], [(Y + "bind_external_function", ("self", "name", "function", "safe"), "r1"), (Y + "unbind_external_function", ("self", "name"), "r2")],
      lambda c: [("both_done", And(c.v("r1").is_ok, c.v("r2").is_ok)), ("as_before", c.v("self").same_except(c.pre.v("self"), "externals")),
                 ("bindings_as_before", map_same(c.v("self").externals, c.pre.v("self").externals))],
      requires=lambda c: [("finished", Not(c.v("self").async_continue_active.t)), ("not_bound", Not(mhas(c.v("self").externals, c.v("name").t)))])
lemma("bound twice", ["C12", "C09"], [(Y + "bind_external_function", ("self", "name", "function", "safe"), "r1"), (Y + "bind_external_function", ("self", "name", "other", "safe2"), "r2")],
      lambda c: [("once", Not(c.v("r2").is_ok))])


lemma("evaluation refused", ["C16"], [(S + "start_function_evaluation_from_game", ("self", "function", "arguments"), "r1")],
      lambda c: [(n, Implies(c.v("r1").is_err, e)) for n, e in [("state", c.v("self").same(c.pre.v("self"))), ("call_stack", cs(c.v("self")).same(cs(c.pre.v("self"))))]])
