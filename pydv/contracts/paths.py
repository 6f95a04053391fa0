"""Paths and the content they lead to."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Int, If, BoolVal
from specs import contract, loop, custom
from view import View
from .util import mhas, mget

P = "path::Path::"
Q = "path::Component::"


# ---- components and paths
def same_comp(a, b):
    return And(a.index.is_some == b.index.is_some, Implies(a.index.is_some, a.index.some.t == b.index.some.t), a.name.is_some == b.name.is_some, Implies(a.name.is_some, a.name.some.t == b.name.some.t))


def same_comps(a, b):
    i = Int("i!comp")
    return And(a.len == b.len, ForAll([i], Implies(And(0 <= i, i < a.len), same_comp(a[i], b[i]))))


contract("<bladeink::path::Component as std::cmp::PartialEq>::eq", props=["C19"], frame=[], ensures=lambda c: [("equal", c.ret.t == same_comp(c.arg(0), c.arg(1)))])
contract("<bladeink::path::Path as std::cmp::PartialEq>::eq", use=False, props=["C19"], frame=[], ensures=lambda c: [
    ("equal", c.ret.t == And(c.arg(0).is_relative.t == c.arg(1).is_relative.t, same_comps(c.arg(0).components, c.arg(1).components)))])


@loop("<bladeink::path::Path as std::cmp::PartialEq>::eq", 0)
def l_eq(l):
    it = [x for x in l.iters() if hasattr(x, "lo")]
    a, b = l.start(0).components, l.start(1).components
    i = Int("i!comp")
    return [("same_so_far", ForAll([i], Implies(And(0 <= i, i < it[-1].lo), same_comp(a[i], b[i]))))] if it else []


contract(Q + "is_parent", props=["C19"], frame=[], ensures=lambda c: [("named_so", c.ret.t == And(c.arg(0).name.is_some, c.arg(0).name.some.t == "^"))])
contract(Q + "new", use=False, props=["C19"], frame=[], ensures=lambda c: [("named", And(c.ret.index.is_none, c.ret.name.is_some, c.ret.name.some.t == c.arg(0).t))])
contract(Q + "new_i", use=False, props=["C19"], frame=[], ensures=lambda c: [("numbered", And(c.ret.name.is_none, c.ret.index.is_some, c.ret.index.some.t == c.arg(0).t))])


def tail(c):
    a, r = c.arg(0).components, c.ret.components
    i = Int("i!tail")
    return [("relative_only_if_nothing_is_left", c.ret.is_relative.t == (a.len < 2)), ("one_less", r.len == If(a.len >= 2, a.len - 1, 0)),
            ("the_rest", ForAll([i], Implies(And(0 <= i, i < r.len), same_comp(r[i], a[i + 1]))))]


contract(P + "get_tail", use=False, props=["C19"], frame=[], ensures=tail)


def appended(c):
    a, r = c.arg(0).components, c.ret.components
    i = Int("i!app")
    return [("absolute", Not(c.ret.is_relative.t)), ("one_more", r.len == a.len + 1), ("at_the_end", same_comp(r.last, c.arg(1))),
            ("before_it", ForAll([i], Implies(And(0 <= i, i < a.len), same_comp(r[i], a[i]))))]


contract(P + "path_by_appending_component", use=False, props=["C19"], frame=[], ensures=appended)


U = Int("up!app")      # how many components at the start of the second path go up: there is exactly one such number


def up(x):
    return And(x.name.is_some, x.name.some.t == "^")


def leading(b, u):
    i = Int("i!lead")
    return And(0 <= u, u <= b.len, ForAll([i], Implies(And(0 <= i, i < u), up(b[i]))), Or(u == b.len, Not(up(b[u]))))


def kept(a, r, n):
    i = Int("i!app")
    return ForAll([i], Implies(And(0 <= i, i < n), same_comp(r[i], a[i])))


def joined(c):
    """the first path without as many components as the second goes up, then what the second has after it"""
    a, b, r = c.arg(0).components, c.arg(1).components, c.ret.components
    i = Int("i!app")
    keep = If(a.len > U, a.len - U, 0)
    return [("absolute", Not(c.ret.is_relative.t)), ("so_many", r.len == keep + b.len - U), ("of_the_first", kept(a, r, keep)),
            ("of_the_second", ForAll([i], Implies(And(keep <= i, i < r.len), same_comp(r[i], b[i - keep + U]))))]


contract(P + "path_by_appending_path", use=False, props=["C19"], frame=[], requires=lambda c: [("ups", leading(c.arg(1).components, U))], ensures=joined)


@loop(P + "path_by_appending_path", 0)
def l_up(l):
    it = [x for x in l.iters() if hasattr(x, "lo")]
    u = l.var("upward_moves").t
    i = Int("i!app")
    b = l.start(1).components
    return [("counted", u == it[-1].lo), ("not_past", u <= U), ("ups", ForAll([i], Implies(And(0 <= i, i < u), up(b[i]))))] if it else []


@loop(P + "path_by_appending_path", 1)
def l_first(l):
    it = [x for x in l.iters() if hasattr(x, "lo")]
    a, r = l.start(0).components, l.var("components")
    return [("counted", l.var("upward_moves").t == U), ("so_many", r.len == it[-1].lo), ("copied", kept(a, r, r.len))] if it else []


@loop(P + "path_by_appending_path", 2)
def l_second(l):
    a, b, r = l.start(0).components, l.start(1).components, l.var("components")
    it = [x for x in l.iters() if hasattr(x, "lo")]
    i = Int("i!app")
    keep = If(a.len > U, a.len - U, 0)
    return [("counted", l.var("upward_moves").t == U), ("so_many", r.len == keep + it[-1].lo - U), ("of_the_first", kept(a, r, keep)),
            ("of_the_second", ForAll([i], Implies(And(keep <= i, i < r.len), same_comp(r[i], b[i - keep + U]))))] if it else []


# ---- one step into the content
def stepped(c):
    s, k, r = c.arg(0), c.arg(1), c.ret
    i = k.index.some.t
    n = k.name.some.t
    nc = s.named_content
    byname = And(k.index.is_none, k.name.is_some, n != "^")
    return [("by_index", Implies(k.index.is_some, And(r.is_some == (i < s.content.len), Implies(r.is_some, r.some.t == s.content[i].t)))),
            ("by_name", Implies(byname, And(r.is_some == mhas(nc, n), Implies(r.is_some, r.some.t == mget(nc, n)))))]


contract("container::Container::content_with_path_component", props=["C19"], frame=[], ensures=stepped)

contract("container::Container::content_at_path", frame=[], props=["C19"],
         requires=lambda c: [("partial", And(c.arg(3).t >= -1, c.arg(3).t <= c.arg(1).components.len))])



def objof(c, i):
    """the Object header of the trait object behind argument i"""
    from stdmodel import dyn_loc
    from view import View
    M = c.M
    t0 = c.args_tys[i]
    if t0.k == "ref" and M.S.kind(t0.elem) == "rc":
        loc = View.of(c, c.args_vals[i], t0).t
    elif M.S.kind(t0) == "rc":
        loc = c.args_vals[i]
    else:
        loc, _ = dyn_loc(M, c.st, c.args_vals[i], c.args_tys[i])
    t = M.db.find_ty("object::Object")
    if loc is None:
        loc = z3.Int("ol!%d" % id(c))
    r = c.st.ghost.get(("objof", loc.get_id()))
    if r is None:
        f = z3.Function("objof", z3.IntSort(), M.sort(t))
        return View(c, ("I", f(loc)), (), t), loc, t, None
    return View(c, r.root, r.proj, t), loc, t, r


def cache_path(md):
    """the path is remembered in the object"""
    v, loc, t, r = objof(md.c, 0)
    M, st = md.M, md.st
    if r is None:
        M.keep(loc)
        r = M.new_tmp(st, z3.Function("objof", z3.IntSort(), M.sort(t))(loc), t)
        M.tmp_ty[r.root[1]] = t
        st.ghost = dict(st.ghost)
        st.ghost[("objof", loc.get_id())] = r
    v, loc, t, r = objof(md.c, 0)
    md.havoc(v.field("path"))


contract("object::Object::get_path", frame=[], modifies=cache_path, props=["C19"],
         ensures=lambda c: [("remembered", objof(c, 0)[0].path.is_some), ("is_result", objof(c, 0)[0].path.some.same(c.ret))])


SH = Int("shared!rel")      # how many components the two paths share at the start: there is exactly one such number


def shared(a, b, n):
    m = If(a.len < b.len, a.len, b.len)
    i = Int("i!sh")
    return And(0 <= n, n <= m, ForAll([i], Implies(And(0 <= i, i < n), same_comp(a[i], b[i]))), Or(n == m, Not(same_comp(a[n], b[n]))))


def relative(c):
    """up from the object to what is shared, then down to the other: the path itself if nothing is shared"""
    own, g, r = objof(c.pre, 0)[0].path.some.components, c.arg(1).components, c.ret.components
    i = Int("i!rel")
    ups = own.len - SH
    return [("nothing_shared", Implies(SH == 0, And(c.ret.is_relative.t == c.arg(1).is_relative.t, same_comps(r, g)))),
            ("relative", Implies(SH > 0, c.ret.is_relative.t)), ("so_many", Implies(SH > 0, r.len == ups + g.len - SH)),
            ("first_up", Implies(SH > 0, ForAll([i], Implies(And(0 <= i, i < ups), up(r[i]))))),
            ("then_down", Implies(SH > 0, ForAll([i], Implies(And(ups <= i, i < r.len), same_comp(r[i], g[i - ups + SH])))))]


contract("object::Object::convert_path_to_relative", props=["C19"], requires=lambda c: [("own_path_known", objof(c, 0)[0].path.is_some)], frame=[])
contract("object::Object::convert_path_to_relative@exact", use=False, props=["C19"], frame=[], opts={"fn_name": "bladeink::object::Object::convert_path_to_relative", "light_paths": True},
         requires=lambda c: [("own_path_known", objof(c, 0)[0].path.is_some), ("lengths", And(objof(c, 0)[0].path.some.components.len >= 0, objof(c, 0)[0].path.some.components.len < 2**31, c.arg(1).components.len < 2**31)),
                             ("shared", shared(objof(c, 0)[0].path.some.components, c.arg(1).components, SH))], ensures=relative)


def own_of(l):
    v = l.var("own_path")
    return v.components if v.norm().ty.disp == "path::Path" else v.some.components


@loop("object::Object::convert_path_to_relative", 0)
def conv_loop(l):
    x = l.var("last_shared_path_comp_index").t
    it = [y for y in l.iters() if hasattr(y, "lo")]
    i = Int("i!sh")
    return [("shared", And(x >= -1, x < l.var("min_path_length").t))] + ([("all_before", x == it[-1].lo - 1), ("not_past", Implies(shared(own_of(l), l.start(1).components, SH), x < SH)),
                                                                                         ("same", ForAll([i], Implies(And(0 <= i, i <= x), same_comp(own_of(l)[i], l.start(1).components[i]))))] if it else [])


@loop("object::Object::convert_path_to_relative", 1)
def up_loop(l):
    r = l.var("new_path_comps")
    it = [y for y in l.iters() if hasattr(y, "lo")]
    i = Int("i!rel")
    return [("so_many", r.len == it[-1].lo), ("ups", ForAll([i], Implies(And(0 <= i, i < r.len), up(r[i]))))] if it else []


@loop("object::Object::convert_path_to_relative", 2)
def down_loop(l):
    r, g, n, x = l.var("new_path_comps"), l.start(1).components, l.var("num_upwards_moves").t, l.var("last_shared_path_comp_index").t
    it = [y for y in l.iters() if hasattr(y, "lo")]
    i = Int("i!rel")
    return [("so_many", r.len == n + it[-1].lo - x - 1), ("ups", ForAll([i], Implies(And(0 <= i, i < n), up(r[i])))),
            ("downs", ForAll([i], Implies(And(n <= i, i < r.len), same_comp(r[i], g[i - n + x + 1]))))] if it else []


for _k, _f in enumerate((conv_loop, up_loop, down_loop)):
    loop("divert::Divert::convert_path_to_relative", _k)(_f)


@custom("there and back", ["C19"])
def there_and_back(db, job):
    """over the two contracts above: a path from the root, made relative to an object's own path and put after that path again, is the path it was"""
    import time
    t0 = time.time()
    E = z3.DeclareSort("Comp")
    isup = z3.Function("isup", E, z3.BoolSort())
    A = z3.ArraySort(z3.IntSort(), E)
    own, g, r, j = z3.Consts("own g r j", A)
    n, m, rl, jl, u, sh = z3.Ints("n m rl jl u sh")
    i, k = z3.Ints("i k")
    S = z3.Select
    lo = If(n < m, n, m)
    pre = [n >= 0, m >= 0, ForAll([i], Implies(And(0 <= i, i < m), Not(isup(S(g, i))))),
           0 <= sh, sh <= lo, ForAll([i], Implies(And(0 <= i, i < sh), S(own, i) == S(g, i))), Or(sh == lo, S(own, sh) != S(g, sh)), sh > 0,
           # relative()
           rl == n - sh + m - sh, ForAll([i], Implies(And(0 <= i, i < n - sh), isup(S(r, i)))), ForAll([i], Implies(And(n - sh <= i, i < rl), S(r, i) == S(g, i - (n - sh) + sh))),
           # leading() and joined()
           0 <= u, u <= rl, ForAll([i], Implies(And(0 <= i, i < u), isup(S(r, i)))), Or(u == rl, Not(isup(S(r, u)))),
           jl == If(n > u, n - u, 0) + rl - u, ForAll([i], Implies(And(0 <= i, i < If(n > u, n - u, 0)), S(j, i) == S(own, i))),
           ForAll([i], Implies(And(If(n > u, n - u, 0) <= i, i < jl), S(j, i) == S(r, i - If(n > u, n - u, 0) + u)))]
    obs = []
    for nm, goal, want in (("as_many_goes_up_as_leave_what_is_shared", u == n - sh, z3.unsat), ("as_long", jl == m, z3.unsat),
                           ("the_same", Implies(And(0 <= k, k < m), S(j, k) == S(g, k)), z3.unsat), ("such_paths_exist", BoolVal(False), z3.sat)):
        s = z3.Solver()
        s.set("timeout", 20000)
        if want == z3.sat:
            s.add(n == 2, m == 2, sh == 1)
        s.add(*pre, Not(goal))
        x = s.check()
        obs.append({"n": "paths::there_and_back:" + nm, "s": "discharged" if x == want else "undecided", "k": 1, "t": 0, "d": None if x == want else {"goal": str(goal), "reason": str(x)}})
    return {"obs": obs, "wall": time.time() - t0, "paths": 0, "job": job[:4]}


# ---- a whole path: the object it leads to is the one come to by taking its components one by one
CO = "container::Container"
WAY = z3.Array("way!path", z3.IntSort(), z3.IntSort())      # where each component leads, beginning at the container: there is always such a way


def cont(c, loc):
    t = c.M.db.find_ty(CO)
    return View(c, ("I", z3.Select(c.heap(CO), loc)), (), t)


def way(c, me, comps, start):
    i = Int("i!way")
    k = comps[i]
    s = cont(c, z3.Select(WAY, i))
    n = k.name.some.t
    return And(z3.Select(WAY, start) == me, ForAll([i], Implies(And(start <= i, i < comps.len), And(
        Implies(And(k.index.is_some, k.index.some.t < s.content.len), z3.Select(WAY, i + 1) == s.content[k.index.some.t].t),
        Implies(And(k.index.is_none, k.name.is_some, n != "^", mhas(s.named_content, n)), z3.Select(WAY, i + 1) == mget(s.named_content, n)))), patterns=[z3.Select(WAY, i)]))


def forth(comps):
    i = Int("i!way")
    return ForAll([i], Implies(And(0 <= i, i < comps.len), Not(And(comps[i].name.is_some, comps[i].name.some.t == "^"))))


contract(CO + "::content_at_path@forth", use=False, props=["C19"], frame=[], opts={"fn_name": "bladeink::" + CO + "::content_at_path", "light_paths": True},
         requires=lambda c: [("whole", c.arg(3).t == -1), ("from", And(c.arg(2).t >= 0, c.arg(2).t <= c.arg(1).components.len)), ("not_too_long", c.arg(1).components.len < 2**31),
                             ("never_up", forth(c.arg(1).components)), ("way", way(c, c.arg(0).t, c.arg(1).components, c.arg(2).t))],
         ensures=lambda c: [("leads_there", Implies(Not(c.ret.approximate.t), c.ret.obj.t == z3.Select(WAY, c.arg(1).components.len)))])


@loop(CO + "::content_at_path", 0)
def l_way(l):
    it = [x for x in l.iters() if hasattr(x, "lo")]
    if not it:
        return []
    i = it[-1].lo
    comps = l.start(1).components
    cc, obj = l.var("current_container"), l.var("current_obj")
    n = l.var("partial_path_length").t
    whole = And(l.start(3).t == -1, comps.len < 2**31, l.start(2).t <= comps.len, forth(comps), way(l.prec, l.start(0).t, comps, l.start(2).t))
    return [("far_enough", i >= l.start(2).t), ("so_far", Implies(whole, And(obj.t == z3.Select(WAY, i), Implies(cc.is_some, cc.some.t == obj.t)))), ("exactly", Not(l.var("approximate").t))]


# ---- paths as texts
def parsed(c):
    o, r = c.arg(0), c.ret
    t = o.some.t
    z = z3.StringVal
    none = Or(o.is_none, t == z(""))
    return [("nothing_is_the_root", Implies(none, And(Not(r.is_relative.t), r.components.len == 0))),
            ("a_dot_first_means_relative", Implies(Not(none), r.is_relative.t == z3.PrefixOf(z("."), t))),
            ("a_dot_alone_is_the_object_itself", Implies(And(Not(none), t == z(".")), r.components.len == 0))]


contract(P + "new_with_components_string", use=False, props=["C19"], frame=[], ensures=parsed)
contract(P + "get_self", use=False, props=["C19"], frame=[], ensures=lambda c: [("relative_and_empty", And(c.ret.is_relative.t, c.ret.components.len == 0))])
