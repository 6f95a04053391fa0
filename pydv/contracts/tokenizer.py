"""The tokenizer of the streaming loader: what it takes of the text, and when."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Int, If
from specs import contract, loop
from stdmodel import J, JK

T = "json::json_tokenizer::JsonTokenizer::::"


def ch(c):
    return z3.IntVal(ord(c))


def any_of(x, cs):
    return Or(*[x == ch(k) for k in cs])


WHITE = " \n\t\r"


def rest(new, old, n):
    i = Int("i!tok")
    return And(new.len == old.len - n, ForAll([i], Implies(And(0 <= i, i < new.len), new[i].t == old[i + n].t)))


contract("json::json_tokenizer::is_json_whitespace", props=["C14", "C15"], frame=[], use=True, ensures=lambda c: [("these_four", c.ret.t == any_of(c.arg(0).t, WHITE))])


def utf8(c):
    s, o = c.arg(0), c.pre.arg(0)
    b = o.json[0].t
    return [("nothing_left", Implies(o.json.len == 0, c.ret.is_err)),
            ("an_ascii_one", Implies(And(o.json.len > 0, b < 128), And(c.ret.is_ok, c.ret.ok.t == b, rest(s.json, o.json, 1)))),
            ("kept", s.same_except(o, "json"))]


contract(T + "read_utf8_char", props=["C14", "C15"], frame=None, ensures=utf8)


@loop(T + "read_utf8_char", 0)
def l_utf8(l):
    """either nothing is read yet, or a first byte that is no character alone"""
    n, s, o = l.var("utf8_char").len, l.arg(0), l.start(0)
    return [("a_byte_at_a_time", l.var("temp_buf").len == 1), ("a_few", And(n >= 0, n <= 3)), ("those_read", rest(s.json, o.json, n)), ("none_alone", Implies(n > 0, And(o.json.len > 0, o.json[0].t >= 128))),
            ("kept", s.same_except(o, "json"))]


def skipping(c):
    """without skipping, the next one; an ASCII character that is no whitespace is never skipped"""
    s, o = c.arg(0), c.pre.arg(0)
    b = o.json[0].t
    return [("nothing_left", Implies(o.json.len == 0, c.ret.is_err)),
            ("next", Implies(And(o.json.len > 0, b < 128, Or(Not(o.skip_whitespaces.t), Not(any_of(b, WHITE)))), And(c.ret.is_ok, c.ret.ok.t == b, rest(s.json, o.json, 1)))),
            ("no_whitespace", Implies(And(c.ret.is_ok, o.skip_whitespaces.t), Not(any_of(c.ret.ok.t, WHITE)))),
            ("kept", s.same_except(o, "json"))]


contract(T + "read_no_lookahead", props=["C14", "C15"], frame=None, ensures=skipping)


@loop(T + "read_no_lookahead", 0)
def l_skip(l):
    s, o = l.arg(0), l.start(0)
    b = o.json[0].t
    return [("kept", s.same_except(o, "json")), ("nothing_comes_of_nothing", Implies(o.json.len == 0, s.json.len == 0)),
            ("not_past_it", Implies(And(o.json.len > 0, b < 128, Or(Not(o.skip_whitespaces.t), Not(any_of(b, WHITE)))), s.json.same(o.json)))]


def reading(c, takes):
    """with a character looked at already: that one; otherwise the next of the text"""
    s, o = c.arg(0), c.pre.arg(0)
    b = o.json[0].t
    had = o.lookahead.is_some
    at_hand = Implies(had, And(c.ret.is_ok, c.ret.ok.t == o.lookahead.some.t, s.json.same(o.json)))
    after = s.lookahead.is_none if takes else And(s.lookahead.is_some, Implies(c.ret.is_ok, s.lookahead.some.t == c.ret.ok.t))
    return [("the_one_at_hand", at_hand), ("nothing_left", Implies(And(Not(had), o.json.len == 0), c.ret.is_err)),
            ("next", Implies(And(Not(had), o.json.len > 0, b < 128, Or(Not(o.skip_whitespaces.t), Not(any_of(b, WHITE)))), And(c.ret.is_ok, c.ret.ok.t == b, rest(s.json, o.json, 1)))),
            ("no_whitespace", Implies(And(c.ret.is_ok, Not(had), o.skip_whitespaces.t), Not(any_of(c.ret.ok.t, WHITE)))),
            ("looked_at", Implies(c.ret.is_ok, after)), ("err_keeps", Implies(c.ret.is_err, s.lookahead.is_none)),
            ("kept", s.same_except(o, "json", "lookahead"))]


contract(T + "read", props=["C14", "C15"], frame=None, ensures=lambda c: reading(c, True))
contract(T + "peek", props=["C14", "C15"], frame=None, ensures=lambda c: reading(c, False))


def expecting(c):
    s, o, k = c.arg(0), c.pre.arg(0), c.arg(1).t
    had = o.lookahead.is_some
    b = o.json[0].t
    plain = And(Not(had), o.json.len > 0, b < 128, Or(Not(o.skip_whitespaces.t), Not(any_of(b, WHITE))))
    return [("the_one_at_hand", Implies(had, And(c.ret.is_ok == (o.lookahead.some.t == k), s.json.same(o.json)))), ("next", Implies(plain, And(c.ret.is_ok == (b == k), rest(s.json, o.json, 1)))),
            ("taken", s.lookahead.is_none), ("nothing_left", Implies(And(Not(had), o.json.len == 0), c.ret.is_err)), ("kept", s.same_except(o, "json", "lookahead"))]


contract(T + "expect", props=["C14", "C15"], frame=None, ensures=expecting)


def entering(c):
    s, o = c.arg(0), c.pre.arg(0)
    return [("a_level_more", s.depth.t == o.depth.t + 1), ("not_too_deep", c.ret.is_ok == (s.depth.t <= 127)), ("kept", s.same_except(o, "depth"))]


contract(T + "enter", props=["C14", "C15"], frame=None, requires=lambda c: [("counted", c.arg(0).depth.t < 2**63)], ensures=entering)

SEPARATORS = ",}]:" + WHITE


def separating(c):
    s, o = c.arg(0), c.pre.arg(0)
    had = o.lookahead.is_some
    return [("one_of_these", Implies(s.lookahead.is_some, c.ret.t == any_of(s.lookahead.some.t, SEPARATORS))), ("the_end_too", Implies(s.lookahead.is_none, c.ret.t)),
            ("the_one_at_hand", Implies(had, And(s.lookahead.is_some, s.lookahead.some.t == o.lookahead.some.t, s.json.same(o.json)))), ("kept", s.same_except(o, "json", "lookahead"))]


contract(T + "next_is_separator", props=["C14", "C15"], frame=None, ensures=separating)


def element(c):
    s, o = c.arg(0), c.pre.arg(0)
    close, first = c.arg(1).t, c.arg(2).t
    had, x = o.lookahead.is_some, o.lookahead.some.t
    end = And(c.ret.is_ok, Not(c.ret.ok.t))
    more = And(c.ret.is_ok, c.ret.ok.t)
    return [("the_end", Implies(And(had, x == close), And(end, s.lookahead.is_none, s.json.same(o.json)))), ("only_there", Implies(And(had, end), x == close)),
            ("up_again", Implies(end, s.depth.t == If(o.depth.t > 0, o.depth.t - 1, 0))), ("same_depth", Implies(more, s.depth.t == o.depth.t)),
            ("first", Implies(And(had, first, x != close), And(more, s.lookahead.is_some, s.lookahead.some.t == x, s.json.same(o.json)))),
            ("comma", Implies(And(had, Not(first), x != close, x != ch(",")), c.ret.is_err)), ("an_element_is_there", Implies(more, And(s.lookahead.is_some, s.lookahead.some.t != close))),
            ("kept", s.same_except(o, "json", "lookahead", "depth"))]


contract(T + "next_element", props=["C14", "C15"], frame=None, requires=lambda c: [("a_bracket", any_of(c.arg(1).t, "]}"))], ensures=element)


def until_separator(c):
    s, o = c.arg(0), c.pre.arg(0)
    return [("skips_again", Implies(c.ret.is_ok, s.skip_whitespaces.t)), ("up_to_one", Implies(And(c.ret.is_ok, s.lookahead.is_some), any_of(s.lookahead.some.t, ",}]:"))),
            ("kept", s.same_except(o, "json", "lookahead", "skip_whitespaces"))]


contract(T + "read_until_separator", props=["C14", "C15"], frame=None, ensures=until_separator)


@loop(T + "read_until_separator", 0)
def l_until(l):
    return [("kept", l.arg(0).same_except(l.start(0), "json", "lookahead", "skip_whitespaces")), ("all_of_it", Not(l.arg(0).skip_whitespaces.t))]


def string(c):
    s, o = c.arg(0), c.pre.arg(0)
    return [("skips_again", Implies(c.ret.is_ok, s.skip_whitespaces.t)), ("quoted", Implies(And(o.lookahead.is_some, o.lookahead.some.t != ch('"')), c.ret.is_err)),
            ("to_its_end", Implies(c.ret.is_ok, s.lookahead.is_none)), ("kept", s.same_except(o, "json", "lookahead", "skip_whitespaces"))]


contract(T + "read_string", props=["C14", "C15"], frame=None, ensures=string)


@loop(T + "read_string", 0)
def l_string(l):
    s = l.arg(0)
    o, x = l.start(0), l.var("literal").t
    n = 1 + o.json.len - s.json.len
    known = And(o.lookahead.is_some, o.lookahead.some.t == ch('"'), literal(o.json))
    return [("kept", s.same_except(l.start(0), "json", "lookahead", "skip_whitespaces")), ("all_of_it", Not(s.skip_whitespaces.t)), ("taken", s.lookahead.is_none),
            ("that_text", Implies(known, And(n >= 1, n < END, x == PRE[n], rest(s.json, o.json, n - 1), l.var("escape").t == ESC[n])))]


def value(c):
    s, o = c.arg(0), c.pre.arg(0)
    had, x = o.lookahead.is_some, o.lookahead.some.t
    a, b = And(c.ret.is_ok, c.ret.ok.is_("Array")), And(c.ret.is_ok, c.ret.ok.is_("Object"))
    return [("array", Implies(And(had, x == ch("[")), And(a == (o.depth.t < 127), c.ret.is_ok == a, s.json.same(o.json)))),
            ("object", Implies(And(had, x == ch("{")), And(b == (o.depth.t < 127), c.ret.is_ok == b, s.json.same(o.json)))),
            ("scalar", Implies(And(had, x != ch("{"), x != ch("["), c.ret.is_ok), c.ret.ok.is_("Scalar"))),
            ("as_deep", Implies(c.ret.is_ok, s.depth.t == If(c.ret.ok.is_("Scalar"), o.depth.t, o.depth.t + 1))), ("kept", s.same_except(o, "json", "lookahead", "skip_whitespaces", "depth"))]


contract(T + "read_value", props=["C14", "C15"], frame=None, requires=lambda c: [("counted", c.arg(0).depth.t < 2**62)], ensures=value)


# ---- a string's text: everything from its first quote to the next one that no backslash precedes, whatever it is
END = z3.Int("end!string")                                        # how many characters that is, both quotes among them
PRE = z3.Array("pre!string", z3.IntSort(), z3.StringSort())       # its first n characters
ESC = z3.Array("esc!string", z3.IntSort(), z3.BoolSort())         # whether its n-th comes after a backslash that is none itself


def literal(json):
    """these three are about the text at hand: there is just one way they can be"""
    i = Int("i!lit")
    c = json[i - 1].t
    return And(END >= 2, END - 1 <= json.len, PRE[1] == z3.StringVal('"'), Not(ESC[1]), json[END - 2].t == ch('"'), Not(ESC[END - 1]),
               ForAll([i], Implies(And(1 <= i, i < END), And(0 <= c, c < 128, PRE[i + 1] == z3.Concat(PRE[i], z3.StrFromCode(c)), ESC[i + 1] == And(Not(ESC[i]), c == ch("\\")), Implies(And(i < END - 1, Not(ESC[i])), c != ch('"')))),
                      patterns=[ESC[i]]))


PARSE = z3.Function("parsed!json", z3.StringSort(), z3.StringSort())
PARSES = z3.Function("parses!json", z3.StringSort(), z3.BoolSort())


def scalar(c):
    """what Serde makes of it: the same for the same text"""
    t, r = c.arg(0).t, c.ret
    x = J(c.M)
    return [("same_text_same_value", And(r.is_ok == PARSES(t), Implies(And(r.is_ok, x.kind(r.ok.t) == JK["str"]), x.str(r.ok.t) == PARSE(t))))]


contract("json::json_tokenizer::parse_scalar", props=["C14", "C15"], assume_only=True, frame=[], ensures=scalar)


def whole(c):
    s, o = c.arg(0), c.pre.arg(0)
    return [("rest_follows", rest(s.json, o.json, END - 1)), ("of_that_text", Implies(c.ret.is_ok, And(PARSES(PRE[END]), c.ret.ok.t == PARSE(PRE[END]))))]


contract(T + "read_string@ascii", use=False, props=["C14"], frame=None, opts={"fn_name": "bladeink::" + T + "read_string"},
         requires=lambda c: [("at_the_quote", And(c.arg(0).lookahead.is_some, c.arg(0).lookahead.some.t == ch('"'))), ("a_string", literal(c.arg(0).json))], ensures=whole)
