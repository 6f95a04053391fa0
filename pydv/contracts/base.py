"""Type invariants: assumed of every value met on the heap or behind an argument, proved of every value written or handed back."""
import z3
from z3 import And, Implies, ForAll, Int
from specs import invariant, refinement


@invariant("bladeink::callstack::CallStack")
def callstack(v):
    """there is a current thread, and every thread has a current element"""
    i = Int("i!cs")
    return [v.threads.len >= 1, ForAll([i], Implies(And(0 <= i, i < v.threads.len), v.threads[i].callstack.len >= 1))]


def thread_ok(v):
    return v.callstack.len >= 1


@invariant("bladeink::choice::Choice")
def choice(v):
    t = v.thread_at_generation
    return [Implies(t.is_some, thread_ok(t.some))]


@invariant("bladeink::callstack::Thread")
def thread(v):
    return [thread_ok(v)]


@refinement("bladeink::path::Component")
def component(v):
    """an index or a name, never both, never neither"""
    return [v.index.is_some != v.name.is_some]


def flows_apart(v):
    """kept flows go by their own names, the current one is not kept, and no two flows share a call stack"""
    from .util import mkey, mhas, mget, at
    c, f, n = v.c, v.current_flow, v.named_flows
    k, j = mkey(n.some), mkey(n.some)
    fk, fj = at(c, n.some, k, f), at(c, n.some, j, f)
    return [Implies(n.is_some, ForAll([k], Implies(mhas(n.some, k), And(fk.name.t == k, fk.name.t != f.name.t, fk.callstack.loc != f.callstack.loc,
                                                                       fk.callstack.loc >= 1, fk.callstack.loc < c.st.nalloc)))),
            Implies(n.is_some, ForAll([k, j], Implies(And(mhas(n.some, k), mhas(n.some, j), k != j), fk.callstack.loc != fj.callstack.loc))),
            v.variables_state.callstack.loc == f.callstack.loc]


@invariant("bladeink::story_state::StoryState")
def state(v):
    return flows_apart(v)


@invariant("bladeink::story::Story")
def story(v):
    s = v.state_snapshot_at_last_new_line
    return flows_apart(v.state) + [Implies(s.is_some, e) for e in flows_apart(s.some)]
