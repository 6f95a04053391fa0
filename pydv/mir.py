"""Loading of the MIR dump produced by /verif/mirdump and basic CFG facts."""
import json, re, functools

_LT = re.compile(r"'[a-zA-Z_0-9]+\s?(\+\s)?|, '[a-z_0-9]+|for<[^>]*> ")


def canon(s):
    s = re.sub(r"for<[^>]*> ", "", s)
    s = re.sub(r"\s?\+ '[a-zA-Z_0-9]+", "", s)
    s = re.sub(r"'[a-zA-Z_0-9]+, ", "", s)
    s = re.sub(r"<'[a-zA-Z_0-9]+>", "", s)
    s = re.sub(r"'[a-zA-Z_0-9]+ ", "", s)
    s = s.replace("alloc::", "std::")
    return s


class Ty:
    __slots__ = ("db", "id", "d", "k", "disp")

    def __init__(self, db, i, d):
        self.db, self.id, self.d = db, i, d
        self.k = d["k"]
        self.disp = canon(d["disp"])

    def __repr__(self):
        return "Ty<%s>" % self.disp

    @property
    def elem(self):
        return self.db.ty(self.d["t"])

    @property
    def args(self):
        return [self.db.ty(a) for a in self.d.get("a", [])]

    @property
    def name(self):
        return self.d.get("n", "")

    @property
    def variants(self):
        return self.d.get("v")

    def fields(self, v=0):
        return [(n, self.db.ty(t)) for n, t in self.d["v"][v]["f"]]

    def is_adt(self, *names):
        return self.k == "adt" and self.d["n"] in names

    def upvars(self):
        return [self.db.ty(t) for t in self.d["up"]]


class Fn:
    def __init__(self, db, d):
        self.db = db
        self.d = d
        self.key = d["key"]
        self.name = canon(d["name"])
        self.nargs = d["nargs"]
        self.locals = [db.ty(t) for t in d["locals"]]
        self.blocks = d["blocks"]
        self.local = d["local"]
        self.file = d["file"]
        self._loops = None
        self.dbg = d["dbg"]

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k in ("drop",):
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    @property
    def loops(self):
        """head -> set of blocks of the natural loop"""
        if self._loops is None:
            n = len(self.blocks)
            # reachable, preorder, dominators (simple iterative)
            order, seen, stack = [], set(), [(0, iter(self.succs(0)))]
            seen.add(0)
            post = []
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    post.append(b)
                    stack.pop()
            rpo = post[::-1]
            preds = {b: [] for b in seen}
            for b in seen:
                for s in self.succs(b):
                    preds[s].append(b)
            dom = {b: None for b in seen}
            dom[0] = {0}
            changed = True
            while changed:
                changed = False
                for b in rpo:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in preds[b] if dom[p] is not None]
                    if not ps:
                        continue
                    nd = set.intersection(*ps) | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        changed = True
            loops = {}
            for b in seen:
                for s in self.succs(b):
                    if s in dom[b]:
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(preds[x])
            self._loops = loops
            self.rpo = rpo
        return self._loops

    def loop_ordinal(self, h):
        hs = sorted(self.loops, key=lambda b: self.rpo.index(b))
        return hs.index(h)

    def user_var(self, local):
        for n, p in self.dbg:
            if p[0] == local and not p[1]:
                return n
        return None


class DB:
    def __init__(self, path):
        # a method goes by its type, whichever module its impl block is in
        d = json.loads(re.sub(r"\b(?:bladeink|bladeink_compiler|rinklecate)(?:::\w+)*::<impl ((?:bladeink|bladeink_compiler|rinklecate)(?:::\w+)+)>::", r"\1::", open(path).read()))
        self.crate = d["crate"]
        self.raw = d
        self.types = [Ty(self, i, t) for i, t in enumerate(d["types"])]
        self.fns = {}
        self.byname = {}
        for f in d["fns"]:
            fn = Fn(self, f)
            self.fns[fn.key] = fn
            self.byname.setdefault(fn.name, []).append(fn)
        self.bydisp = {}
        for t in self.types:
            self.bydisp.setdefault(t.disp, t)

    def ty(self, i):
        return self.types[i]

    def find_ty(self, disp):
        return self.bydisp.get(canon(disp))

    def find(self, name):
        """function by (suffix of) name; None if missing, the unique one otherwise"""
        c = self.byname.get(name)
        if c is None:
            c = [f for n, fs in self.byname.items() if n.endswith(name) for f in fs if f.local]
        c = c or []
        if len(c) == 1:
            return c[0]
        return None
