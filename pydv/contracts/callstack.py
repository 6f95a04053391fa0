"""The call stack: threads of elements (C02, C08, C10, C16, C17)."""
from z3 import And, Or, Not, Implies, If, IntVal
from specs import contract
from .util import *  # noqa: F401,F403

C = "callstack::CallStack::"
PROPS = ["C10", "C16", "C17", "C02"]

contract("callstack::Thread::new", opts={"raw_result": True}, use=False, props=["C17"], ensures=lambda c: [
    ("no_elements", emptied(c.ret.callstack)), ("nowhere_before", c.ret.previous_pointer.container.is_none), ("first", c.ret.thread_index.t == 0)])


def cur(v):
    """the current element"""
    return v.threads.last.callstack.last


def at_root(v, root):
    """as a call stack is before anything is played"""
    e = cur(v)
    return [("one_thread", v.threads.len == 1), ("one_element", v.threads[0].callstack.len == 1),
            ("nowhere_before", v.threads[0].previous_pointer.container.is_none), ("first_thread", v.threads[0].thread_index.t == 0),
            ("at_the_start", And(e.current_pointer.container.same(root.container), e.current_pointer.index.t == root.index.t)),
            ("a_tunnel", e.push_pop_type.is_("Tunnel")), ("not_evaluating", Not(e.in_expression_evaluation.t)), ("no_temporaries", map_empty(e.temporary_variables)),
            ("nothing_evaluated", And(e.evaluation_stack_height_when_pushed.t == 0, e.function_start_in_output_stream.t == 0))]


def new_at(c, v, container):
    e = cur(v)
    out = []
    for n, x in at_root(v, v.start_of_root):
        out.append((n, x))
    r = v.start_of_root
    out.append(("root", And(r.container.is_some, r.container.some.t == container.t, r.index.t == 0)))
    out.append(("counter", v.thread_counter.t == 0))
    return out


contract(C + "new", props=PROPS, ensures=lambda c: new_at(c, c.ret, c.arg(0)))
contract(C + "reset", props=PROPS, ensures=lambda c: at_root(c.self_, c.pre.self_.start_of_root) + [("rest", c.self_.same_except(c.pre.self_, "threads"))])


def top_only(a, b, *but):
    """threads below the current one, and of that all but the listed fields, are the same"""
    n = b.threads.len
    return And(a.threads.len == n, prefix(a.threads, b.threads, n - 1), a.threads.last.same_except(b.threads.last, *but), a.same_except(b, "threads"))


def el_pushed(c):
    a, b = c.self_, c.pre.self_
    e, old = cur(a), cur(b)
    return [("threads", top_only(a, b, "callstack")), ("one_more", pushed(a.threads.last.callstack, b.threads.last.callstack)),
            ("stays_where_it_was", e.current_pointer.same(old.current_pointer)), ("type", e.push_pop_type.t == c.arg(1).t),
            ("heights", And(e.evaluation_stack_height_when_pushed.t == c.arg(2).t, e.function_start_in_output_stream.t == c.arg(3).t)),
            ("fresh", And(Not(e.in_expression_evaluation.t), map_empty(e.temporary_variables)))]


contract(C + "push", props=PROPS, ensures=el_pushed)


def poppable(v, t):
    st = v.threads.last.callstack
    return And(st.len > 1, Or(t.is_none, cur(v).push_pop_type.t == t.some.t))


def el_popped(c):
    a, b = c.self_, c.pre.self_
    return [("when", c.ret.is_ok == poppable(b, c.arg(1))), ("threads", Implies(c.ret.is_ok, top_only(a, b, "callstack"))),
            ("one_less", Implies(c.ret.is_ok, popped(a.threads.last.callstack, b.threads.last.callstack))), ("refused", Implies(c.ret.is_err, a.same(b)))]


contract(C + "pop", props=PROPS, ensures=el_popped)
contract(C + "can_pop_type", props=PROPS, ensures=lambda c: [("when", c.ret.t == poppable(c.arg(0), c.arg(1)))], use=False)


def th_poppable(v):
    return And(v.threads.len > 1, Not(cur(v).push_pop_type.is_("FunctionEvaluationFromGame")))


contract(C + "can_pop_thread", props=PROPS, use=False, ensures=lambda c: [("when", c.ret.t == th_poppable(c.arg(0)))])
contract(C + "pop_thread", props=PROPS, ensures=lambda c: [
    ("when", c.ret.is_ok == th_poppable(c.pre.self_)), ("one_less", Implies(c.ret.is_ok, And(popped(c.self_.threads, c.pre.self_.threads), c.self_.same_except(c.pre.self_, "threads")))),
    ("refused", Implies(c.ret.is_err, c.self_.same(c.pre.self_)))])
contract(C + "push_thread", props=PROPS, ensures=lambda c: [
    ("one_more", pushed(c.self_.threads, c.pre.self_.threads)), ("forked", c.self_.threads.last.same_except(c.pre.self_.threads.last, "thread_index")),
    ("numbered", And(c.self_.threads.last.thread_index.t == c.self_.thread_counter.t, c.self_.thread_counter.t == c.pre.self_.thread_counter.t + 1)),
    ("rest", c.self_.same_except(c.pre.self_, "threads", "thread_counter"))])
contract(C + "fork_thread", props=PROPS, ensures=lambda c: [
    ("forked", c.ret.same_except(c.pre.self_.threads.last, "thread_index")),
    ("numbered", And(c.ret.thread_index.t == c.self_.thread_counter.t, c.self_.thread_counter.t == c.pre.self_.thread_counter.t + 1)),
    ("rest", c.self_.same_except(c.pre.self_, "thread_counter"))])
contract(C + "set_current_thread", props=PROPS, requires=lambda c: [("a_thread", c.arg(1).callstack.len >= 1)], ensures=lambda c: [
    ("only_that", And(c.self_.threads.len == 1, c.self_.threads[0].same(c.arg(1)))), ("rest", c.self_.same_except(c.pre.self_, "threads"))])


def context(v, i):
    """the element a variable is looked up in"""
    n = v.threads.last.callstack.len
    return If(i == -1, n - 1, i - 1)


def tmp_set(c):
    a, b = c.self_, c.pre.self_
    i = context(b, c.arg(4).t)
    sa, sb = a.threads.last.callstack, b.threads.last.callstack
    inside = And(0 <= i, i < sb.len)
    had = mhas(sb[i].temporary_variables, c.arg(1).t)
    k = Int("k!ctx")
    others = ForAll([k], Implies(And(0 <= k, k < sb.len, k != i), Select(sa.arr, k) == Select(sb.arr, k)))
    kk = mkey(sa[i].temporary_variables)
    ta, tb = sa[i].temporary_variables, sb[i].temporary_variables
    return [("when", c.ret.is_ok == And(inside, Or(c.arg(3).t, had))), ("refused", Implies(c.ret.is_err, a.same(b))),
            ("elsewhere", Implies(c.ret.is_ok, And(top_only(a, b, "callstack"), sa.len == sb.len, others, sa[i].same_except(sb[i], "temporary_variables")))),
            ("only_it", Implies(c.ret.is_ok, ForAll([kk], Implies(kk != c.arg(1).t, Select(ta.arr, kk) == Select(tb.arr, kk))))),
            ("set", Implies(c.ret.is_ok, mhas(ta, c.arg(1).t))),
            ("to_the_value", Implies(And(c.ret.is_ok, Or(Not(had), Not(c.arg(2).deref().value.is_("List")))), mget(ta, c.arg(1).t) == c.arg(2).t))]


contract(C + "set_temporary_variable", props=["C10", "C04", "C02"], ensures=tmp_set, frame=[])


def tmp_get(c):
    v = c.arg(0)
    i = context(v, c.arg(2).t)
    s = v.threads.last.callstack
    inside = And(0 <= i, i < s.len)
    t = s[i].temporary_variables
    return [("when", c.ret.is_some == And(inside, mhas(t, c.arg(1).t))), ("it", Implies(c.ret.is_some, c.ret.some.t == mget(t, c.arg(1).t)))]


contract(C + "get_temporary_variable_with_name", props=["C10", "C04", "C02"], ensures=tmp_get)
contract(C + "context_for_variable_named", props=["C10", "C04"], ensures=lambda c: [
    ("where", c.ret.t == If(mhas(cur(c.arg(0)).temporary_variables, c.arg(1).t), c.arg(0).threads.last.callstack.len, 0))])
contract(C + "get_thread_with_index", props=["C02"], use=False, ensures=lambda c: [("that_one", Implies(c.ret.is_some, c.ret.some.thread_index.t == c.arg(1).t))])
