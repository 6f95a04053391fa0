"""A weaker reading of an obligation: strings are members of an unknown sort, literals are different members of it, every string
function is unknown.  What holds of all such sorts and functions holds of strings, so `unsat` carries over; nothing else does."""
import re
import z3

TOK = re.compile(r'\s+|;[^\n]*|"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()";]+')
RESULT = {"str.len": "Int", "str.++": "Str!", "str.at": "Str!", "str.substr": "Str!", "str.prefixof": "Bool", "str.suffixof": "Bool", "str.contains": "Bool",
          "str.indexof": "Int", "str.replace": "Str!", "str.replace_all": "Str!", "str.to_int": "Int", "str.from_int": "Str!", "str.<": "Bool", "str.<=": "Bool",
          "str.to_code": "Int", "str.from_code": "Str!", "str.to.int": "Int", "int.to.str": "Str!", "str.is_digit": "Bool"}
ARGS = {"str.len": ["S"], "str.++": None, "str.at": ["S", "Int"], "str.substr": ["S", "Int", "Int"], "str.prefixof": ["S", "S"], "str.suffixof": ["S", "S"],
        "str.contains": ["S", "S"], "str.indexof": ["S", "S", "Int"], "str.replace": ["S"] * 3, "str.replace_all": ["S"] * 3, "str.to_int": ["S"], "str.from_int": ["Int"],
        "str.<": ["S", "S"], "str.<=": ["S", "S"], "str.to_code": ["S"], "str.from_code": ["Int"], "str.to.int": ["S"], "int.to.str": ["Int"], "str.is_digit": ["S"]}


class Beyond(Exception):
    pass


def abstract(text):
    """the SMT-LIB text with strings made a sort of its own; None where it uses more than that can express"""
    out, lits, funs = [], {}, {}
    toks = [t for t in TOK.findall(text) if not (t[0].isspace() or t[0] == ";")]
    n = len(toks)
    close = {}
    st = []
    for i, t in enumerate(toks):
        if t == "(":
            st.append(i)
        elif t == ")":
            close[st.pop()] = i

    def arity(i):
        """arguments of the application whose '(' is at i"""
        k, a, e = i + 2, 0, close[i]
        while k < e:
            k = close[k] + 1 if toks[k] == "(" else k + 1
            a += 1
        return a
    for i, t in enumerate(toks):
        if t[0] == '"':
            out.append(lits.setdefault(t, "lit!%d" % len(lits)))
        elif t == "String":
            out.append("Str!")
        elif t.startswith(("seq.", "re.", "str.in")) or t in ("RegLan", "Seq", "Unicode"):
            raise Beyond(t)
        elif t in RESULT or t.startswith("str."):
            if t not in RESULT or toks[i - 1] != "(":
                raise Beyond(t)
            a = arity(i - 1)
            if t in ("str.indexof",) and a != 3:
                raise Beyond(t)
            f = "%s!%d" % (t.replace("++", "cat").replace("<=", "le").replace("<", "lt"), a)
            funs[f] = (["S"] * a if ARGS[t] is None else ARGS[t], RESULT[t])
            out.append(f)
        else:
            out.append(t)
    if not lits and not funs and "Str!" not in out:
        raise Beyond("no strings")
    head = ["(declare-sort Str! 0)"]
    head += ["(declare-fun %s () Str!)" % l for l in lits.values()]
    head += ["(declare-fun %s (%s) %s)" % (f, " ".join("Str!" if x == "S" else x for x in a), r) for f, (a, r) in funs.items()]
    if len(lits) > 1:
        head.append("(assert (distinct %s))" % " ".join(lits.values()))
    if "str.len!1" in funs:
        for t, l in lits.items():
            if "\\" not in t:
                head.append("(assert (= (str.len!1 %s) %d))" % (l, len(t[1:-1].replace('""', '"'))))
        head.append("(assert (forall ((x Str!)) (! (>= (str.len!1 x) 0) :pattern ((str.len!1 x)))))")
    return "\n".join(head) + "\n" + " ".join(out)


def unsat(assertions, ms, guarded):
    """whether the weaker reading already is contradictory"""
    s = z3.Solver()
    for e in assertions:
        s.add(e)
    try:
        t = abstract(s.to_smt2())
    except Beyond:
        return False
    s = z3.Solver(ctx=z3.Context())
    s.set("timeout", ms)
    try:
        s.from_string(t)
        return guarded(s, ms) == z3.unsat
    except z3.Z3Exception:
        return False
