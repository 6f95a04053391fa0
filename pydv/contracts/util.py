"""Words the contracts share."""
import itertools
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, BoolVal, IntVal, Int
from view import View, pats
from engine import isv, con, fld, varr, AnchorLost

_n = itertools.count()


def prefix(a, b, n):
    """the first n elements of sequences a and b are the same"""
    i = Int("i!pre%d" % next(_n))
    x, y = Select(a.arr, i), Select(b.arr, i)
    return ForAll([i], Implies(And(0 <= i, i < n), x == y), **pats(x))


def seq_same(a, b):
    return And(a.len == b.len, prefix(a, b, a.len))


def pushed(a, b):
    """sequence a is b with one element added at the end"""
    return And(a.len == b.len + 1, prefix(a, b, b.len))


def popped(a, b):
    return And(a.len == b.len - 1, prefix(a, b, a.len))


def emptied(a):
    return a.len == 0


def mkey(m):
    return z3.Const("k!map%d" % next(_n), m.arr.sort().domain())


def map_put(a, b, key, val):
    """map a is b with key bound to val"""
    k = mkey(a)
    r = a.arr.sort().range()
    return ForAll([k], Select(a.arr, k) == If(k == key, con(r, 1, val), Select(b.arr, k)), **pats(Select(a.arr, k)))


def map_del(a, b, key):
    k = mkey(a)
    r = a.arr.sort().range()
    return ForAll([k], Select(a.arr, k) == If(k == key, con(r, 0), Select(b.arr, k)), **pats(Select(a.arr, k)))


def map_same(a, b):
    if a.arr.eq(b.arr):
        return BoolVal(True)
    k = mkey(a)
    return ForAll([k], Select(a.arr, k) == Select(b.arr, k), **pats(Select(a.arr, k)))


def map_empty(a):
    k = mkey(a)
    return ForAll([k], Select(a.arr, k) == con(a.arr.sort().range(), 0), **pats(Select(a.arr, k)))


def mhas(m, key):
    return isv(Select(m.arr, key), 1)


def mget(m, key):
    return fld(Select(m.arr, key), 1, 0)


def at(c, m, key, like):
    """the value at key of map m, a value of the type of view `like`"""
    return View(c, ("I", mget(m, key)), (), like.norm().ty)


def as_opt(o, like):
    """what a map has at a key (o) as a value of the option type of slot sort `like`"""
    w = like.constructor(1).domain(0)
    if w == o.sort():
        return o
    return If(isv(o, 1), con(w, 1, fld(o, 1, 0)), con(w, 0))


def slot(m, o):
    """o, as what map m (of options) has at a key"""
    r = m.arr.sort().range()
    return con(r, 1, as_opt(o, r))
