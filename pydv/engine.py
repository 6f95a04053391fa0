"""pydv: a deductive verifier over rustc MIR.

Path-wise weakest-precondition style VC generation: every function under contract is executed symbolically over its
real MIR, calls to functions with a contract are replaced by the contract, other crate-local calls are inlined, loops
are cut by invariants (given or the trivial one: the written locations are havocked), and every obligation is
discharged by z3.  No bound on inputs or on iterations.
"""
import os, re, sys, threading, time, itertools, struct
import z3
from z3 import (And, Or, Not, Implies, If, BoolVal, IntVal, StringVal, Select, Store, ForAll, Exists, Const, Int, Bool,
                BoolSort, IntSort, StringSort, ArraySort, Datatype, Function, K, is_true, is_false)
import strabs
from mir import DB, Ty, Fn, canon

INT_RANGES = {"i8": (-2**7, 2**7-1), "i16": (-2**15, 2**15-1), "i32": (-2**31, 2**31-1), "i64": (-2**63, 2**63-1),
              "i128": (-2**127, 2**127-1), "isize": (-2**63, 2**63-1),
              "u8": (0, 2**8-1), "u16": (0, 2**16-1), "u32": (0, 2**32-1), "u64": (0, 2**64-1),
              "u128": (0, 2**128-1), "usize": (0, 2**63-1)}
COLL_MAX = 2**31 - 1


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class AnchorLost(Exception):
    pass


# ----------------------------------------------------------------------------------------------- values
class Agg:
    """aggregate with known variant; fields are values"""
    __slots__ = ("ty", "variant", "fields")

    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, tuple(fields)

    def __repr__(self):
        return "Agg(%s#%s %s)" % (self.ty.disp[:30] if self.ty else "", self.variant, list(self.fields))


class Ref:
    """reference to a place; root in {('L',frame,local), ('H',heapkey,loc), ('T',id), ('I',value)}"""
    __slots__ = ("root", "proj", "ty")

    def __init__(self, root, proj, ty):
        self.root, self.proj, self.ty = root, tuple(proj), ty  # ty: type of the referent

    def __repr__(self):
        return "Ref(%s %s)" % (self.root, self.proj)


class Discr:
    __slots__ = ("val", "ty")

    def __init__(self, val, ty):
        self.val, self.ty = val, ty


class PV:
    """python-level immutable model value (iterators, format arguments...)"""
    kind = ""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def upd(self, **kw):
        o = self.__class__.__new__(self.__class__)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, self.__dict__)


class Uninit:
    def __repr__(self):
        return "Uninit"


UNINIT = Uninit()


class Fmt(PV):
    pass


class FmtArg(PV):
    pass


# ----------------------------------------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "tmps", "heaps", "pc", "pcset", "flags", "ghost", "rec", "nalloc", "trace", "rng", "hlog")

    def __init__(self):
        self.mem = {}      # (frame, local) -> value
        self.tmps = {}     # id -> (value)
        self.heaps = {}    # key -> z3 array
        self.pc = ()       # linked tuple (prev, expr)
        self.flags = frozenset()
        self.ghost = {}
        self.rec = None
        self.nalloc = None
        self.trace = ()
        self.rng = frozenset()
        self.hlog = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.tmps = dict(self.tmps)
        s.heaps = dict(self.heaps)
        s.pc = self.pc
        s.flags = self.flags
        s.ghost = dict(self.ghost)
        s.rec = self.rec
        s.nalloc = self.nalloc
        s.trace = self.trace
        s.rng = self.rng
        s.hlog = self.hlog
        return s

    def assume(self, e):
        if z3.is_true(e):
            return self
        self.pc = (self.pc, e)
        return self

    def pclist(self, upto=None):
        r = []
        p = self.pc
        while p and p is not upto:
            r.append(p[1])
            p = p[0]
        r.reverse()
        return r

    def flag(self, f):
        self.flags = self.flags | {f}
        return self


def guarded(s, ms):
    """s.check(), interrupted from outside where z3 does not heed its own time limit"""
    w = threading.Timer(ms / 1000.0 * 1.5 + 0.5, s.ctx.interrupt)
    w.daemon = True
    w.start()
    try:
        return s.check()
    finally:
        w.cancel()


class SolverPool:
    """one incremental z3 solver following the current path prefix"""

    def __init__(self, timeout_ms=4000, mbqi=True):
        self.s = z3.Solver()
        if not mbqi:
            self.s.set("smt.mbqi", False)
        self.s.set("timeout", timeout_ms)
        self.stack = []
        self.time = 0.0
        self.checks = 0
        self.timeout = timeout_ms
        self.cache = {}

    def sync(self, pcl):
        n = 0
        m = min(len(pcl), len(self.stack))
        while n < m and (self.stack[n] is pcl[n] or self.stack[n].eq(pcl[n])):
            n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for e in pcl[n:]:
            self.s.push()
            self.s.add(e)
            self.stack.append(e)

    def check(self, pcl, extra, timeout=None):
        t = time.time()
        self.checks += 1
        self.sync(pcl)
        if timeout:
            self.s.set("timeout", timeout)
        self.s.push()
        for e in extra:
            self.s.add(e)
        try:
            try:
                r = guarded(self.s, timeout or self.timeout)
            except z3.Z3Exception:
                r = z3.unknown
            m = None
            if r == z3.sat:
                try:
                    m = self.s.model()
                except z3.Z3Exception:
                    m = None
        finally:
            self.s.pop()
            if timeout:
                self.s.set("timeout", self.timeout)
            self.time += time.time() - t
        return r, m


_fresh = itertools.count()


def uid():
    return next(_fresh)


# ----------------------------------------------------------------------------------------------- types / sorts
class Sorts:
    def __init__(self, db):
        self.db = db
        self.cache = {}
        self.names = {}
        self.inprog = set()
        self.opaque = {}
        self.tyof = {}

    def opaque_sort(self, name):
        if name not in self.opaque:
            self.opaque[name] = z3.DeclareSort("U_" + re.sub(r"\W+", "_", name)[:60] + "_%d" % len(self.opaque))
        return self.opaque[name]

    def dt(self, key, variants):
        """variants: [(vname,[(fname,sort)])] -> datatype sort"""
        d = Datatype(re.sub(r"[^\w]+", "_", key)[:50] + "_%d" % len(self.names))
        self.names[key] = 1
        base = "%s" % (re.sub(r"[^\w]+", "_", key)[-24:],)
        n = len(self.names)
        for vi, (vn, fs) in enumerate(variants):
            d.declare("%s_%d_%s" % (base, n, vn), *[("%s_%d_%d_%s" % (base, n, vi, "%d_%s" % (i, fn)), s) for i, (fn, s) in enumerate(fs)])
        return d.create()

    def vec(self, es):
        k = ("vec", es)
        if k not in self.cache:
            self.cache[k] = self.dt("Vec<%s>" % es, [("v", [("len", IntSort()), ("arr", ArraySort(IntSort(), es))])])
        return self.cache[k]

    def opt(self, s):
        k = ("opt", s)
        if k not in self.cache:
            self.cache[k] = self.dt("Opt<%s>" % s, [("none", []), ("some", [("0", s)])])
        return self.cache[k]

    def map(self, ks, vs):
        k = ("map", ks, vs)
        if k not in self.cache:
            self.cache[k] = self.dt("Map<%s,%s>" % (ks, vs), [("m", [("arr", ArraySort(ks, self.opt(vs))), ("size", IntSort())])])
        return self.cache[k]

    def set(self, ks):
        k = ("set", ks)
        if k not in self.cache:
            self.cache[k] = self.dt("Set<%s>" % ks, [("s", [("arr", ArraySort(ks, BoolSort())), ("size", IntSort())])])
        return self.cache[k]

    def json(self):
        return self.opaque_sort("Json")

    def kind(self, t):
        """model kind of a type"""
        k = t.k
        if k == "adt":
            n = t.name
            if n in ("std::string::String", "alloc::string::String"):
                return "str"
            if n in ("std::vec::Vec", "std::collections::VecDeque", "alloc::vec::Vec"):
                return "vec"
            if n in ("std::boxed::Box",):
                a = t.args[0]
                if a.k == "slice":
                    return "vec"
                return "transp"
            if n in ("std::cell::RefCell", "std::cell::Cell", "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::cell::UnsafeCell",
                     "core::mem::ManuallyDrop", "core::mem::MaybeUninit"):
                return "transp"
            if n in ("std::cell::OnceCell",):
                return "once"
            if n in ("std::rc::Rc", "std::sync::Arc"):
                return "rc"
            if n in ("std::rc::Weak",):
                return "weak"
            if n in ("std::cell::Ref", "std::cell::RefMut"):
                return "guard"
            if n in ("std::collections::HashMap", "std::collections::BTreeMap"):
                return "map"
            if n in ("std::collections::HashSet", "std::collections::BTreeSet"):
                return "set"
            if n == "serde_json::Map":
                return "jmap"
            if n in ("serde_json::Value", "serde_json::Number", "serde_json::value::Value"):
                return "json"
            if t.variants is not None and not n.startswith("std::ops::Fn") and t.d.get("kind") != "Union":
                return "data"
            return "opaque"
        if k in ("slice", "array"):
            return "vec"
        if k == "tuple":
            return "data"
        if k == "ptr":
            return "ref"
        if k in ("closure", "fndef"):
            return "fnlike"
        return k

    def inner(self, t):
        return t.args[0]

    def heapkey(self, t):
        """key of the heap that holds values of type t behind Rc (RefCell & Box transparent)"""
        while self.kind(t) == "transp":
            t = t.args[0]
        return t.disp

    def heapty(self, t):
        while self.kind(t) == "transp":
            t = t.args[0]
        return t

    def mapkv(self, t):
        k = self.kind(t)
        if k == "map":
            return self.sort(t.args[0]), self.sort(t.args[1])
        return StringSort(), self.json()

    def sort(self, t):
        c = self.cache.get(t.disp)
        if c is None:
            c = self._sort(t)
            self.cache[t.disp] = c
            if self.kind(t) == "data":
                self.tyof[c.name()] = t
        return c

    def _sort(self, t):
        k = self.kind(t)
        if k == "bool":
            return BoolSort()
        if k in ("char", "int"):
            return IntSort()
        if k == "float":
            return z3.Float32() if t.d["s"] == "f32" else z3.Float64()
        if k == "str":
            return StringSort()
        if k == "vec":
            e = t.args[0] if t.k == "adt" else t.elem
            if t.k == "adt" and t.name == "std::boxed::Box":
                e = e.elem
            return self.vec(self.sort(e))
        if k == "ref":
            return self.sort(t.elem)
        if k == "guard":
            return self.sort(t.args[0])
        if k == "transp":
            return self.sort(t.args[0])
        if k == "once":
            return self.opt(self.sort(t.args[0]))
        if k in ("rc", "weak"):
            return IntSort()
        if k == "dyn":
            return IntSort()
        if k in ("map", "jmap"):
            return self.map(*self.mapkv(t))
        if k == "set":
            return self.set(self.sort(t.args[0]))
        if k == "json":
            return self.json()
        if k == "data":
            if t.disp in self.inprog:
                return self.opaque_sort("rec_" + t.disp)
            self.inprog.add(t.disp)
            try:
                if t.k == "tuple":
                    vs = [("t", [(str(i), self.sort(a)) for i, a in enumerate(t.args)])]
                else:
                    vs = [(v["n"], [(n, self.sort(self.db.ty(ft))) for n, ft in v["f"]]) for v in t.variants]
                    if not vs:
                        return self.opaque_sort("never")
                # two types with equal disp and variants share
                return self.dt(t.disp, vs)
            finally:
                self.inprog.discard(t.disp)
        if k == "never":
            return self.opaque_sort("never")
        return self.opaque_sort("op_" + t.disp)


def is_ctor_app(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR


def fld(e, vi, fi):
    """accessor with peephole"""
    s = e.sort()
    if is_ctor_app(e) and e.decl().eq(s.constructor(vi)):
        return e.arg(fi)
    return s.accessor(vi, fi)(e)


def con(s, vi, *args):
    args = [a for a in args]
    # eta: con(acc0(x),acc1(x)..) == x for single-constructor sorts
    if args and s.num_constructors() == 1:
        a0 = args[0]
        if z3.is_app(a0) and a0.num_args() == 1 and a0.decl().eq(s.accessor(0, 0)):
            x = a0.arg(0)
            if all(z3.is_app(a) and a.num_args() == 1 and a.decl().eq(s.accessor(0, i)) and a.arg(0).eq(x) for i, a in enumerate(args)):
                return x
    return s.constructor(vi)(*args)


def vlen(v):
    return fld(v, 0, 0)


def varr(v):
    return fld(v, 0, 1)


def mkvec(s, n, a):
    return con(s, 0, n, a)


def marr(m):
    return fld(m, 0, 0)


def msize(m):
    return fld(m, 0, 1)


def isv(e, vi):
    """recognizer with peephole"""
    s = e.sort()
    if is_ctor_app(e):
        return BoolVal(e.decl().eq(s.constructor(vi)))
    if s.num_constructors() == 1:
        return BoolVal(True)
    return s.recognizer(vi)(e)


def sel(a, i):
    """select with peephole over stores with syntactically equal / distinct literals"""
    b = a
    while z3.is_store(b):
        j = b.arg(1)
        if j.eq(i):
            return b.arg(2)
        if (z3.is_int_value(i) and z3.is_int_value(j)) or (z3.is_string_value(i) and z3.is_string_value(j)):
            b = b.arg(0)
            continue
        break
    if z3.is_K(b):
        return b.arg(0)
    return Select(b, i)


def simp(e):
    return z3.simplify(e)


# ----------------------------------------------------------------------------------------------- obligations
class Ob:
    __slots__ = ("name", "status", "detail", "n", "t")

    def __init__(self, name):
        self.name = name
        self.status = "discharged"   # discharged | failed | undecided
        self.detail = None
        self.n = 0
        self.t = 0.0


class Panic:
    def __init__(self, kind, where):
        self.kind, self.where = kind, where


class Contract:
    """contract of one function"""

    def __init__(self, name, use=True, verify=True, props=(), requires=None, ensures=None, modifies=None, panics="check",
                 setup=None, assume_only=False, note="", loops=None, opts=None, cases=None, pure=False, inline_callees=(), no_inline=(), frame=()):
        self.name = name
        self.use = use
        self.verify = verify
        self.props = tuple(props)
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies
        self.frame = frame
        self.panics = panics
        self.setup = setup
        self.assume_only = assume_only
        self.note = note
        self.loops = loops or {}
        self.opts = opts or {}
        self.cases = cases
        self.pure = pure


from view import View, Ctx  # noqa: E402


class Machine:
    def __init__(self, db, contracts=None, models=None, opts=None):
        self.db = db
        self.S = Sorts(db)
        self.contracts = contracts or {}
        self.models = models
        self.sp = SolverPool()
        self.fsp = SolverPool(mbqi=False)
        self.qcache = {}
        self.cur_contract = None
        self.opts = opts or {}
        self.unroll = self.opts.get("unroll", 0)
        self.cut_short = 0
        self.obs = {}
        self.frames = itertools.count(1)
        self.tmpc = itertools.count(1)
        self.newc = itertools.count(1)
        self.npaths = 0
        self.nsteps = 0
        self.deadline = None
        self.silent = 0
        self.stackfns = []
        self.stackfrs = []
        self.used_contracts = set()
        self.inlined = set()
        self.modelled = set()
        self.havocked = set()
        self.loopcache = {}
        self.invs = {}       # heapkey/type disp -> fn(View) -> [z3]  (type invariants)
        self.panics = "check"
        self.panic_sites = {}
        self.pre_assumed = set()
        self.loopspecs = {}
        self.cuts = {}         # (function, block) -> what holds there
        self.cut_done = set()
        self.feas_unknown = 0
        self.case_subst = []
        self.abs_first = False
        self.heap_sorts = {}
        self.refine_sorts = None
        self.refine = {}     # type disp -> fn(View): holds of every value ever built (proved where one is built, assumed where one is met)
        self.events = []
        self.ob_timeout = self.opts.get("ob_timeout", 12000)
        self.max_paths = self.opts.get("max_paths", 6000)
        self.kind_uf = Function("dynkind", IntSort(), IntSort())
        self.kinds = {}
        self.cur_contract = None

    # ---- misc
    def kindid(self, t):
        d = self.S.heapkey(t)
        if d not in self.kinds:
            self.kinds[d] = len(self.kinds) + 1
        return IntVal(self.kinds[d])

    def sort(self, t):
        return self.S.sort(t)

    def tick(self):
        self.nsteps += 1
        if self.deadline and (self.nsteps & 15) == 0 and time.time() > self.deadline:
            raise Budget("time budget")

    def fresh(self, s, name="h"):
        if z3.is_bool(s) or isinstance(s, z3.SortRef):
            return Const("%s!%d" % (name, uid()), s)

    def fresh_val(self, st, ty, name="h"):
        """arbitrary value of a Rust type (with its representation invariant assumed)"""
        k = self.S.kind(ty)
        if ty.k == "never":
            return UNINIT
        if k == "ref":
            if ty.elem.k == "dyn" and False:
                pass
            inner = self.fresh_val(st, ty.elem, name)
            return self.new_tmp(st, inner, ty.elem)
        if k == "guard":
            inner = self.fresh_val(st, ty.args[0], name)
            return self.new_tmp(st, inner, ty.args[0])
        if k == "fnlike":
            if ty.k == "fndef":
                return Agg(ty, 0, [])
            return Agg(ty, 0, [self.fresh_val(st, u, name) for u in ty.upvars()])
        if k == "data" and ty.k == "tuple":
            return Agg(ty, 0, [self.fresh_val(st, a, name) for a in ty.args])
        v = Const("%s!%d" % (name, uid()), self.sort(ty))
        self.constrain(st, v, ty)
        return v

    def constrain(self, st, v, ty):
        """assume the representation invariant of a symbolic leaf value"""
        if not isinstance(v, z3.ExprRef):
            return
        if ty is None:
            return
        k = self.S.kind(ty)
        if k == "ref" or k == "transp" or k == "guard":
            t = ty.elem if k == "ref" else ty.args[0]
            return self.constrain(st, v, t)
        if k == "data" and self.refine:
            f = self.refine.get(ty.disp)
            if f is None or is_ctor_app(v):
                return
            i = ("rf", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            for e in f(View(Ctx(self, st), ("I", v), (), ty)):
                st.assume(e)
            return
        if k in ("int", "char", "rc", "weak", "dyn") and not z3.is_int(v):
            return
        if k in ("vec", "map", "jmap", "set") and v.sort().kind() != z3.Z3_DATATYPE_SORT:
            return
        if k == "int":
            if z3.is_int_value(v):
                return
            i = ("r", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            lo, hi = INT_RANGES[ty.d["s"]]
            st.assume(And(v >= lo, v <= hi))
        elif k == "char":
            if z3.is_int_value(v):
                return
            i = ("r", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            st.assume(And(v >= 0, v <= 0x10FFFF))
        elif k == "vec":
            if is_ctor_app(v):
                return
            n = vlen(v)
            i = ("r", n.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(n)
            st.assume(And(n >= 0, n <= COLL_MAX))
            if ty.k == "array":
                st.assume(n == ty.d["n"])
        elif k in ("map", "jmap", "set"):
            if is_ctor_app(v):
                return
            n = msize(v)
            i = ("r", n.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(n)
            a = marr(v)
            ks = a.sort().domain()
            x = Const("kk!", ks)
            if k == "set":
                emp = a == K(ks, BoolVal(False))
            else:
                emp = a == K(ks, con(a.sort().range(), 0))
            st.assume(And(n >= 0, n <= COLL_MAX, (n == 0) == emp))
        elif k == "rc":
            i = ("r", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            if z3.is_const(v) and v.decl().name().startswith("new!"):
                return
            st.assume(And(v >= 1, v < st.nalloc))
            if ty.args[0].k not in ("dyn", "slice", "str") and self.S.heapkey(ty.args[0]) in self.kinds:
                st.assume(self.kind_uf(v) == self.kindid(ty.args[0]))
        elif k == "weak":
            i = ("r", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            st.assume(And(v >= 0, v < st.nalloc))
        elif k == "dyn":
            i = ("r", v.get_id())
            if i in st.rng:
                return
            st.rng = st.rng | {i}
            self.keep(v)
            st.assume(And(v >= 1, v < st.nalloc))

    _kept = []

    def keep(self, v):
        self._kept.append(v)

    def new_tmp(self, st, val, ty):
        i = next(self.tmpc)
        st.tmps[i] = val
        return Ref(("T", i), (), ty)

    def alloc(self, st, val, ty):
        """Rc::new"""
        loc = Int("new!%d" % next(self.newc))
        st.assume(And(loc >= st.nalloc, loc >= 1))
        na = Int("na!%d" % uid())
        st.assume(na > loc)
        st.nalloc = na
        if ty.k not in ("dyn", "slice", "str"):
            st.assume(self.kind_uf(loc) == self.kindid(ty))
        self.heap_write(st, ty, loc, (), val, ty)
        return loc

    def heap(self, st, ty):
        key = self.S.heapkey(ty)
        h = st.heaps.get(key)
        if h is None:
            self.heap_sorts[key] = ArraySort(IntSort(), self.sort(self.S.heapty(ty)))
            h = st.heaps[key] = self.heap0(st, key)
        return h

    def heap0(self, st, key):
        """the heap of a type no step has touched since the entry (or since the last call that may write anything)"""
        ep = st.ghost.get("epoch", 0)
        nm = re.sub(r"\W+", "_", key)
        return Const("heap!%s" % nm if not ep else "heap!%s!%d" % (nm, ep), self.heap_sorts[key])

    # the calls of the host's traits so far, as sequences of what they were given
    HOST = {"ErrorHandler::error": ("loc", "str", "story_callbacks::ErrorType"), "VariableObserver::changed": ("loc", "str", "value_type::ValueType"),
            "ExternalFunction::call": ("loc", "str", "std::vec::Vec<value_type::ValueType>", "std::option::Option<value_type::ValueType>")}

    def log_keys(self, short):
        ks = [("!n:" + short, IntSort())]
        for i, x in enumerate(self.HOST[short]):
            if x == "loc":
                so = IntSort()
            elif x == "str":
                so = z3.StringSort()
            else:
                t = next((self.db.find_ty(canon(y)) for y in (x, x.replace("story_callbacks", "story::errors")) if self.db.find_ty(canon(y)) is not None), None)
                if t is None:
                    raise AnchorLost("type " + x)
                so = self.sort(t)
            ks.append(("!a%d:%s" % (i, short), so))
        for k, so in ks:
            self.heap_sorts.setdefault(k, ArraySort(IntSort(), so))
        return [k for k, _ in ks]

    def log_heap(self, st, k, short):
        h = st.heaps.get(k)
        if h is None:
            self.log_keys(short)
            h = st.heaps[k] = self.heap0(st, k)
            if k.startswith("!n:"):
                st.assume(Select(h, 0) >= 0)
        return h

    def log_add(self, st, short, vs):
        ks = self.log_keys(short)
        n = Select(self.log_heap(st, ks[0], short), 0)
        for k, v in zip(ks[1:], vs):
            h = self.log_heap(st, k, short)
            if v is not None and v.sort() == h.sort().range():
                h = Store(h, n, v)
            else:
                h = Store(h, n, Const("hostarg!%d" % uid(), h.sort().range()))
            st.heaps[k] = h
        st.heaps[ks[0]] = Store(st.heaps[ks[0]], 0, simp(n + 1))
        if st.rec is not None:
            for k in ks:
                st.rec.append(("HK", k, None, ()))

    def havoc_log(self, st, short):
        old = [(k, self.log_heap(st, k, short)) for k in self.log_keys(short)]
        n0 = Select(old[0][1], 0)
        for k, h in old:
            self.havoc_heap(st, k)
            if k.startswith("!n:"):
                st.assume(Select(st.heaps[k], 0) >= n0)
            else:
                i = Int("i!log%d" % uid())
                st.assume(ForAll([i], Implies(And(0 <= i, i < n0), Select(st.heaps[k], i) == Select(h, i)), patterns=[Select(st.heaps[k], i)]))

    def log_copy(self, st, shorts):
        return {k: self.log_heap(st, k, sh) for sh in shorts for k in self.log_keys(sh)}

    def new_epoch(self, st):
        g = dict(st.ghost)
        g["epoch"] = uid()
        st.ghost = g
        if st.rec is not None:
            st.rec.append(("EP", None, None, ()))

    def heap_write(self, st, ty, loc, proj, val, vty):
        key = self.S.heapkey(ty)
        h = self.heap(st, ty)
        ht = self.S.heapty(ty)
        if proj:
            old = sel(h, loc)
            nv = self.upd(st, old, ht, list(proj), val)
        else:
            nv = val
        st.heaps[key] = Store(h, loc, self.term(st, nv, ht))
        if st.rec is not None:
            st.rec.append(("H", key, loc, tuple(p for p in itertools.takewhile(lambda p: p[0] == "f", proj))))
        st.hlog = st.hlog + ((key, loc),)

    # ---- terms
    def term(self, st, v, ty):
        """convert a value to a z3 term of sort(ty)"""
        if isinstance(v, z3.ExprRef):
            return v
        k = self.S.kind(ty)
        if isinstance(v, Ref):
            if k in ("ref", "guard"):
                t = ty.elem if k == "ref" else ty.args[0]
                return self.term(st, self.read(st, v.root, v.proj, t), t)
            return self.term(st, self.read(st, v.root, v.proj, ty), ty)
        if isinstance(v, Agg):
            if k == "fnlike":
                return Const("fn!%d" % uid(), self.sort(ty))
            if k in ("ref", "guard", "transp"):
                return self.term(st, v, ty.elem if k == "ref" else ty.args[0])
            s = self.sort(ty)
            if s.kind() != z3.Z3_DATATYPE_SORT:
                st.flag("abstracted:" + ty.disp[:40])
                return Const("ab!%d" % uid(), s)
            fts = self.field_tys(ty, v.variant)
            return con(s, v.variant, *[self.term_as(st, f, ft, s.constructor(v.variant).domain(i)) for i, (f, ft) in enumerate(zip(v.fields, fts))])
        if isinstance(v, Discr):
            return self.discr_int(v)
        if v is UNINIT:
            return Const("un!%d" % uid(), self.sort(ty))
        if isinstance(v, PV):
            st.flag("abstracted:" + v.__class__.__name__)
            return Const("pv!%d" % uid(), self.sort(ty))
        raise Unsupported("term of %r : %s" % (v, ty))

    def term_as(self, st, f, ft, s):
        t = self.term(st, f, ft)
        if t.sort() != s:
            # recursive type stored at an opaque sort: injective box
            b = Function("box_%s" % t.sort().name(), t.sort(), s)
            u = Function("unbox_%s" % t.sort().name(), s, t.sort())
            st.assume(u(b(t)) == t)
            return b(t)
        return t

    def field_tys(self, ty, variant=0):
        if ty.k == "tuple":
            return ty.args
        if ty.k == "closure":
            return ty.upvars()
        return [t for _, t in ty.fields(variant)]

    def discr_int(self, d):
        ty = d.ty
        v = d.val
        dv = lambda x: -1 if ty.disp == "std::cmp::Ordering" and int(x["d"]) == 255 else int(x["d"])   # an i8
        if isinstance(v, Agg):
            return IntVal(dv(ty.variants[v.variant]))
        vs = ty.variants
        r = IntVal(dv(vs[-1]))
        for i in range(len(vs) - 2, -1, -1):
            r = If(isv(v, i), IntVal(dv(vs[i])), r)
        return r

    # ---- places
    def frame_place(self, st, fr, fn, place):
        """resolve a MIR place to (root, proj, type)"""
        root = ("L", fr, place[0])
        ty = fn.locals[place[0]]
        proj = []
        for p in place[1]:
            k = p[0]
            if k == "*":
                # follow
                mk = self.S.kind(ty)
                if mk == "transp":   # Box deref: transparent
                    ty = ty.args[0]
                    continue
                v = self.read(st, root, proj, ty)
                inner = ty.elem if ty.k in ("ref", "ptr") else ty.args[0]
                root, proj = self.deref(st, v, inner)
                ty = inner
            elif k == "f":
                t2 = self.db.ty(p[2])
                mk = self.S.kind(ty)
                if mk in ("transp",):
                    ty = t2
                    continue
                var = 0
                if proj and proj[-1][0] == "d":
                    var = proj[-1][1]
                    proj = proj[:-1]
                proj = proj + [("f", var, p[1])]
                ty = t2
            elif k == "d":
                proj = proj + [("d", p[1])]
            elif k == "i":
                idx = self.term(st, self.read(st, ("L", fr, p[1]), (), fn.locals[p[1]]), fn.locals[p[1]])
                proj = proj + [("e", idx)]
                ty = self.vec_elem(ty)
            elif k == "ci":
                off = IntVal(p[1])
                if p[3]:
                    vv = self.read(st, root, proj, ty)
                    off = vlen(self.term(st, vv, ty)) - p[1]
                proj = proj + [("e", off)]
                ty = self.vec_elem(ty)
            elif k == "ss":
                # subslice pattern: [from..] or [from..len-to]
                vv = self.read(st, root, proj, ty)
                n = vlen(self.term(st, vv, ty))
                end = (n - p[2]) if p[3] else IntVal(p[2])
                proj = proj + [("sl", IntVal(p[1]), simp(end - p[1]))]
            elif k == "oc":
                ty = self.db.ty(p[1])
            else:
                raise Unsupported("proj %s" % k)
        return root, tuple(proj), ty

    def vec_elem(self, ty):
        if ty.k in ("slice", "array"):
            return ty.elem
        if ty.k == "adt":
            a = ty.args[0]
            if ty.name == "std::boxed::Box":
                a = a.elem
            return a
        raise Unsupported("elem of %s" % ty)

    def deref(self, st, v, inner):
        """value of reference type -> (root, proj)"""
        if isinstance(v, Ref):
            return v.root, list(v.proj)
        if isinstance(v, (z3.ExprRef, Agg, PV)):
            return ("I", v), []
        raise Unsupported("deref of %r" % (v,))

    def read_ref(self, st, r):
        return self.read(st, r.root, r.proj, r.ty)

    def root_ty(self, root):
        return None

    def read(self, st, root, proj, ty):
        k = root[0]
        if k == "L":
            v = st.mem.get((root[1], root[2]), UNINIT)
        elif k == "T":
            v = st.tmps[root[1]]
        elif k == "I":
            v = root[1]
        elif k == "H":
            h = self.heap(st, root[1])
            v = sel(h, root[2])
            if self.invs:
                self.heap_inv(st, root[1], v)
        else:
            raise Unsupported("root")
        for i, p in enumerate(proj):
            if self.refine and p[0] == "f" and isinstance(v, z3.ExprRef):
                self.refine_term(st, v)
            v = self.proj1(st, v, p)
        if isinstance(v, z3.ExprRef):
            self.constrain(st, v, ty)
        return v

    def refine_term(self, st, v):
        if self.refine_sorts is None:
            self.refine_sorts = {}
            for d in self.refine:
                t = self.db.find_ty(d)
                if t is not None:
                    self.refine_sorts[self.sort(t).name()] = t
        t = self.refine_sorts.get(v.sort().name())
        if t is not None:
            self.constrain(st, v, t)

    def heap_inv(self, st, ty, v):
        key = self.S.heapkey(ty)
        f = self.invs.get(key)
        if f is None:
            return
        # only for values as found in an initial / havocked heap: the term is a plain select
        if not (z3.is_select(v) and z3.is_const(v.arg(0))):
            return
        i = ("inv", v.get_id())
        if i in st.rng:
            return
        st.rng = st.rng | {i}
        self.keep(v)
        c = Ctx(self, st)
        for e in f(View(c, ("I", v), (), self.S.heapty(ty))):
            st.assume(e)

    def proj1(self, st, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, Agg):
                if v.variant != p[1]:
                    raise Unsupported("variant mismatch")
                return v.fields[p[2]]
            if isinstance(v, z3.ExprRef):
                if v.sort().kind() != z3.Z3_DATATYPE_SORT:
                    if v.sort() == self.S.json():
                        return self.models.json_field(self, st, v, p[1])
                    raise Unsupported("field of %s" % v.sort())
                return fld(v, p[1], p[2])
            if isinstance(v, PV) and hasattr(v, "field"):
                return v.field(p)
            raise Unsupported("field of %r" % (v,))
        if k == "d":
            return v
        if k == "e":
            if isinstance(v, Agg):   # array aggregate
                if z3.is_int_value(p[1]):
                    return v.fields[p[1].as_long()]
                raise Unsupported("sym index agg")
            if isinstance(v, PV):
                return v.elem(p[1])
            return sel(varr(v), p[1])
        if k == "mv":
            return fld(sel(marr(v), p[1]), 1, 0)
        if k == "sl":
            if isinstance(v, Agg):
                raise Unsupported("slice agg")
            a = varr(v)
            x = Int("ix!")
            off = simp(p[1])
            if z3.is_int_value(off) and off.as_long() == 0:
                return mkvec(v.sort(), p[2], a)
            return mkvec(v.sort(), p[2], z3.Lambda([x], Select(a, x + off)))
        if k == "once":
            return fld(v, 1, 0)
        raise Unsupported("proj1 %s" % k)

    def write(self, st, root, proj, ty, val):
        k = root[0]
        while proj and proj[-1][0] == "d":
            proj = proj[:-1]
        if k == "L":
            key = (root[1], root[2])
            if st.rec is not None:
                st.rec.append(("L", root[1], root[2], tuple(itertools.takewhile(lambda p: p[0] == "f", proj))))
            if not proj:
                st.mem[key] = val
            else:
                fnt = self.frame_fn[root[1]].locals[root[2]]
                st.mem[key] = self.upd(st, st.mem.get(key, UNINIT), fnt, list(proj), val)
        elif k == "T":
            if st.rec is not None:
                st.rec.append(("T", root[1], None, tuple(itertools.takewhile(lambda p: p[0] == "f", proj))))
            if not proj:
                st.tmps[root[1]] = val
            else:
                st.tmps[root[1]] = self.upd(st, st.tmps[root[1]], self.tmp_ty.get(root[1]), list(proj), val)
        elif k == "H":
            self.heap_write(st, root[1], root[2], proj, val, ty)
        else:
            st.flag("write through snapshot reference")

    tmp_ty = {}
    frame_fn = {}
    frame_entry = {}

    def upd(self, st, old, ty, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = p[0]
        if k == "d":
            return self.upd(st, old, ty, proj[1:], val)
        if k == "f":
            ty = self.strip(ty)
            if ty is not None and ty.k != "closure" and self.S.kind(ty) not in ("data",):
                raise Unsupported("field update of %s" % ty)
            if not isinstance(old, Agg):
                if old is UNINIT:
                    n = len(self.field_tys(ty, p[1]))
                    old = Agg(ty, p[1], [UNINIT] * n)
                elif isinstance(old, z3.ExprRef):
                    n = old.sort().constructor(p[1]).arity()
                    old = Agg(ty, p[1], [fld(old, p[1], i) for i in range(n)])
                else:
                    raise Unsupported("upd of %r" % (old,))
            fs = list(old.fields)
            ft = self.field_tys(ty, p[1])[p[2]] if ty is not None else None
            fs[p[2]] = self.upd(st, fs[p[2]], ft, proj[1:], val)
            if ty is not None and ty.disp in self.refine and old is not UNINIT and not any(x is UNINIT for x in fs):
                for e in self.refine[ty.disp](View(Ctx(self, st), ("I", Agg(old.ty, p[1], fs)), (), ty)):
                    self.prove(st, "%s::construct:%s" % (self.cur_name, ty.disp.split("::")[-1]), e)
            return Agg(old.ty, p[1], fs)
        if k == "e":
            et = self.vec_elem(self.strip(ty))
            if isinstance(old, Agg):
                if not z3.is_int_value(p[1]):
                    old = self.term(st, old, ty)
                else:
                    fs = list(old.fields)
                    i = p[1].as_long()
                    fs[i] = self.upd(st, fs[i], et, proj[1:], val)
                    return Agg(old.ty, 0, fs)
            o = sel(varr(old), p[1])
            nv = self.term(st, self.upd(st, o, et, proj[1:], val), et)
            return mkvec(old.sort(), vlen(old), Store(varr(old), p[1], nv))
        if k == "mv":
            t = self.strip(ty)
            vt = t.args[1] if self.S.kind(t) == "map" else None
            o = fld(sel(marr(old), p[1]), 1, 0)
            nv = self.upd(st, o, vt, proj[1:], val)
            nv = self.term(st, nv, vt) if vt is not None else nv
            os = marr(old).sort().range()
            return con(old.sort(), 0, Store(marr(old), p[1], con(os, 1, nv)), msize(old))
        if k == "sl":
            # write into a subslice: only element writes
            if len(proj) >= 2 and proj[1][0] == "e":
                return self.upd(st, old, ty, [("e", simp(proj[1][1] + p[1]))] + proj[2:], val)
            st.flag("subslice write")
            return Const("slw!%d" % uid(), old.sort())
        if k == "once":
            t = self.strip0(ty)
            o = fld(old, 1, 0)
            it = t.args[0]
            nv = self.term(st, self.upd(st, o, it, proj[1:], val), it)
            return con(old.sort(), 1, nv)
        raise Unsupported("upd %s" % k)

    def strip0(self, ty):
        while self.S.kind(ty) == "transp":
            ty = ty.args[0]
        return ty

    def strip(self, ty):
        while ty is not None and self.S.kind(ty) == "transp":
            ty = ty.args[0]
        return ty

    # ---- operands
    def operand(self, st, fr, fn, o):
        if o[0] in ("copy", "move"):
            root, proj, ty = self.frame_place(st, fr, fn, o[1])
            v = self.read(st, root, proj, ty)
            if o[0] == "move" and not proj and root[0] == "L" and isinstance(v, PV):
                st.mem[(root[1], root[2])] = UNINIT
            return v, ty
        if o[0] == "const":
            c = o[1]
            ty = self.db.ty(c["t"])
            return self.const(st, c, ty), ty
        ty = None
        for t in self.db.types:
            if t.k == "bool":
                return BoolVal(False), t
        raise Unsupported("operand %s" % o[0])

    def const(self, st, c, ty):
        if "zst" in c:
            if ty.k in ("fndef", "closure"):
                return Agg(ty, 0, [])
            if ty.k == "tuple":
                return Agg(ty, 0, [])
            if self.S.kind(ty) == "data":
                return Agg(ty, 0, [UNINIT for _ in self.field_tys(ty, 0)])
            return Const("zst!%s" % ty.disp, self.sort(ty))
        if "bytes" in c:
            return self.decode(st, ty, c["bytes"], c.get("pv", []))
        if "uneval" in c:
            return self.named_const(st, c["uneval"], ty)
        raise Unsupported("const")

    def named_const(self, st, name, ty):
        m = self.models.consts.get(name) if self.models else None
        if m:
            return m(self, st, ty)
        v = Const("const!" + name, self.sort(ty))
        self.constrain(st, v, ty)
        return v

    def decode(self, st, ty, b, pv):
        k = self.S.kind(ty)
        if k == "bool":
            return BoolVal(bool(b[0]))
        if k == "int":
            signed = ty.d["s"][0] == "i"
            return IntVal(int.from_bytes(bytes(x or 0 for x in b), "little", signed=signed))
        if k == "char":
            return IntVal(int.from_bytes(bytes(b[:4]), "little"))
        if k == "float":
            if ty.d["s"] == "f32":
                return z3.FPVal(struct.unpack("<f", bytes(b[:4]))[0], z3.Float32())
            return z3.FPVal(struct.unpack("<d", bytes(b[:8]))[0], z3.Float64())
        if k == "ref":
            e = ty.elem
            if e.k == "str" and pv:
                ln = int.from_bytes(bytes(b[8:16]), "little")
                g = pv[0][1]
                off = int.from_bytes(bytes(b[0:8]), "little")
                if "mem" in g:
                    s = bytes(g["mem"][off:off + ln]).decode("utf8")
                    return self.new_tmp(st, StringVal(s) if all(ord(ch) < 0x30000 for ch in s) else StringVal(s), e)
            if e.k in ("array", "slice") and pv and "mem" in pv[0][1]:
                g = pv[0][1]
                mem = g["mem"]
                et = e.elem
                if et.k == "int":
                    sz = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8}[et.d["s"]]
                    n = e.d["n"] if e.k == "array" and e.d.get("n") is not None else len(mem) // sz
                    n = int(n)
                    vals = [self.decode(st, et, mem[i * sz:(i + 1) * sz], []) for i in range(n)]
                    return self.new_tmp(st, Agg(e, 0, vals), e)
                if et.k == "ref" and et.elem.k == "str":
                    n = len(mem) // 16
                    pvm = {o: m for o, m in g.get("pv", [])}
                    vals = []
                    for i in range(n):
                        ln = int.from_bytes(bytes(mem[i * 16 + 8:i * 16 + 16]), "little")
                        mm = pvm.get(i * 16)
                        s = bytes(mm[:ln]).decode("utf8") if mm is not None else ""
                        vals.append(self.new_tmp(st, StringVal(s), et.elem))
                    return self.new_tmp(st, Agg(e, 0, vals), e)
                if et.k == "char":
                    n = len(mem) // 4
                    vals = [IntVal(int.from_bytes(bytes(mem[i * 4:i * 4 + 4]), "little")) for i in range(n)]
                    return self.new_tmp(st, Agg(e, 0, vals), e)
            if pv and "static" in pv[0][1]:
                nm = pv[0][1]["static"]
                m = self.models.consts.get(nm) if self.models else None
                v = m(self, st, e) if m else Const("static!" + nm, self.sort(e))
                return self.new_tmp(st, v, e)
            if pv and "mem" in pv[0][1]:
                g = pv[0][1]
                try:
                    v = self.decode(st, e, g["mem"], g.get("pv", []))
                    return self.new_tmp(st, v, e)
                except Unsupported:
                    pass
            v = Const("cst!%s" % hash((ty.disp, tuple(x or 0 for x in b), repr(pv))), self.sort(e))
            st.flag("opaque constant")
            return self.new_tmp(st, v, e)
        if k == "data" and ty.k == "adt":
            vs = ty.variants
            if all(not v["f"] for v in vs) and vs:
                n = int.from_bytes(bytes(b), "little")
                for i, v in enumerate(vs):
                    d = int(v["d"])
                    if d == n or (d % (1 << (8 * len(b)))) == n:
                        return Agg(ty, i, [])
            if len(b) == 0 and len(vs) == 1:
                return Agg(ty, 0, [])
            m = self.models.layout_const(self, st, ty, b, pv) if self.models else None
            if m is not None:
                return m
        if k == "data" and ty.k == "tuple" and not ty.args:
            return Agg(ty, 0, [])
        if k == "transp":
            return self.decode(st, ty.args[0], b, pv)
        if k == "vec" and ty.k == "array":
            et = ty.elem
            if et.k == "int" and et.d["s"] in ("u8", "i8"):
                return Agg(ty, 0, [self.decode(st, et, [x], []) for x in b])
        v = Const("cst!%d" % (hash((ty.disp, tuple(x or 0 for x in b), repr(pv))) & 0xffffffffffff), self.sort(ty))
        st.flag("opaque constant " + ty.disp[:40])
        self.constrain(st, v, ty)
        return v

    # ---- rvalues
    def rvalue(self, st, fr, fn, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, fn, r[1])[0]
        if k == "ref":
            root, proj, ty = self.frame_place(st, fr, fn, r[2])
            return Ref(root, proj, ty)
        if k == "bin":
            a, ta = self.operand(st, fr, fn, r[2])
            b, tb = self.operand(st, fr, fn, r[3])
            return self.binop(st, r[1], a, ta, b, tb, dty)
        if k == "cbin":
            a, ta = self.operand(st, fr, fn, r[2])
            b, tb = self.operand(st, fr, fn, r[3])
            x = self.arith(r[1], self.term(st, a, ta), self.term(st, b, tb), ta)
            lo, hi = INT_RANGES[ta.d["s"]]
            ov = Or(x < lo, x > hi)
            return Agg(dty, 0, [x, simp(ov)])
        if k == "un":
            a, ta = self.operand(st, fr, fn, r[2])
            if r[1] == "Not":
                a = self.term(st, a, ta)
                if ta.k == "bool":
                    return simp(Not(a))
                lo, hi = INT_RANGES[ta.d["s"]]
                return -a - 1 if lo < 0 else hi - a
            if r[1] == "Neg":
                a = self.term(st, a, ta)
                if ta.k == "float":
                    return z3.fpNeg(a)
                return simp(-a)
            if r[1] == "PtrMetadata":
                root, proj = self.deref(st, a, ta.elem)
                v = self.read(st, root, proj, ta.elem)
                return self.length(st, v, ta.elem)
            raise Unsupported("un " + r[1])
        if k == "cast" and r[1].startswith("BoxDeref") and r[2][0] in ("copy", "move"):
            root, proj, ty = self.frame_place(st, fr, fn, r[2][1])
            t2 = self.db.ty(r[3])
            return Ref(root, proj, t2.elem if t2.k in ("ptr", "ref") else ty)
        if k == "cast":
            return self.cast(st, r[1], *self.operand(st, fr, fn, r[2]), self.db.ty(r[3]))
        if k == "discr":
            root, proj, ty = self.frame_place(st, fr, fn, r[1])
            v = self.read(st, root, proj, ty)
            return Discr(v, self.strip(ty))
        if k == "len":
            root, proj, ty = self.frame_place(st, fr, fn, r[1])
            return self.length(st, self.read(st, root, proj, ty), ty)
        if k == "repeat":
            v, t = self.operand(st, fr, fn, r[1])
            n = int(r[2])
            if n <= 64:
                return Agg(dty, 0, [v] * n)
            raise Unsupported("repeat")
        if k == "agg":
            kk = r[1]
            vs = [self.operand(st, fr, fn, o) for o in r[2]]
            vals = [v for v, _ in vs]
            if kk[0] == "adt":
                t = self.db.ty(kk[1])
                if self.S.kind(t) == "transp":
                    return vals[0]
                if self.S.kind(t) == "json":
                    return self.models.json_agg(self, st, kk[2], vs)
                if self.S.kind(t) not in ("data",):
                    raise Unsupported("agg %s" % t)
                a = Agg(t, kk[2], vals)
                f = self.refine.get(t.disp)
                if f is not None:
                    for e in f(View(Ctx(self, st), ("I", a), (), t)):
                        self.prove(st, "%s::construct:%s" % (self.cur_name, t.disp.split("::")[-1]), e)
                return a
            if kk[0] == "tuple":
                return Agg(dty, 0, vals)
            if kk[0] == "array":
                return Agg(dty, 0, vals)
            if kk[0] == "closure":
                return Agg(self.db.ty(kk[1]), 0, vals)
            raise Unsupported("agg %s" % kk[0])
        raise Unsupported("rvalue %s %s" % (k, r[1] if len(r) > 1 else ""))

    def length(self, st, v, ty):
        if isinstance(v, Agg) and ty.k == "array":
            return IntVal(len(v.fields))
        if ty.k == "array":
            return IntVal(int(ty.d["n"]))
        if isinstance(v, PV) and hasattr(v, "length"):
            return v.length()
        if isinstance(v, Agg):
            return IntVal(len(v.fields))
        if ty.k == "str":
            return self.models.blen(self, st, v)
        return vlen(v)

    def arith(self, op, a, b, ty):
        if op.startswith("Add"):
            return simp(a + b)
        if op.startswith("Sub"):
            return simp(a - b)
        if op.startswith("Mul"):
            return simp(a * b)
        raise Unsupported("arith " + op)

    def wrap(self, x, ty):
        lo, hi = INT_RANGES[ty.d["s"]]
        if ty.d["s"] == "usize":
            hi = 2**64 - 1
        n = hi - lo + 1
        if lo == 0:
            return x % n
        return (x - lo) % n + lo

    def binop(self, st, op, a, ta, b, tb, dty):
        if isinstance(a, Discr) or isinstance(b, Discr):
            a = self.term(st, a, ta)
            b = self.term(st, b, tb)
        if ta.k in ("ref", "ptr") and op in ("Eq", "Ne"):
            if isinstance(a, Ref) and isinstance(b, Ref):
                e = self.same_place(a, b)
                return e if op == "Eq" else Not(e)
            raise Unsupported("ptr cmp")
        a = self.term(st, a, ta)
        b = self.term(st, b, tb)
        if ta.k == "float":
            m = {**{o: (lambda o=o: self.farith(o, a, b)) for o in ("Add", "Sub", "Mul", "Div", "Rem")},
                 "Eq": lambda: z3.fpEQ(a, b), "Ne": lambda: Not(z3.fpEQ(a, b)),
                 "Lt": lambda: z3.fpLT(a, b), "Le": lambda: z3.fpLEQ(a, b), "Gt": lambda: z3.fpGT(a, b), "Ge": lambda: z3.fpGEQ(a, b)}
            return m[op]()
        if op == "Eq":
            return simp(a == b) if not a.eq(b) else BoolVal(True)
        if op == "Ne":
            return simp(a != b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if ta.k == "bool":
                a, b = If(a, 1, 0), If(b, 1, 0)
            return simp({"Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]())
        if ta.k == "bool":
            return simp({"BitAnd": lambda: And(a, b), "BitOr": lambda: Or(a, b), "BitXor": lambda: z3.Xor(a, b)}[op]())
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            x = self.arith(op, a, b, ta)
            if op in ("Add", "Sub", "Mul"):
                x = self.wrap(x, ta)
            return x
        if op in ("Div", "Rem"):
            # truncating division
            if INT_RANGES[ta.d["s"]][0] == 0:
                return a / b if op == "Div" else a % b
            q = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "Div" else a - b * q
        if op == "Cmp":
            t = dty
            names = [v["n"] for v in t.variants]
            s = self.sort(t)
            return If(a < b, con(s, names.index("Less")), If(a == b, con(s, names.index("Equal")), con(s, names.index("Greater"))))
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            w = {"8": 8, "16": 16, "32": 32, "64": 64, "size": 64, "128": 128}[ta.d["s"][1:]]
            if op.startswith("Sh"):
                bb = z3.Int2BV(b, w)
                aa = z3.Int2BV(a, w)
                r = aa << bb if op.startswith("Shl") else (aa >> bb if ta.d["s"][0] == "i" else z3.LShR(aa, bb))
            else:
                aa, bb = z3.Int2BV(a, w), z3.Int2BV(b, w)
                r = {"BitAnd": aa & bb, "BitOr": aa | bb, "BitXor": aa ^ bb}[op]
            return simp(z3.BV2Int(r, ta.d["s"][0] == "i"))
        raise Unsupported("binop " + op)

    def same_place(self, a, b):
        if a.root[0] == "H" and b.root[0] == "H" and len(a.proj) == len(b.proj) == 0:
            return a.root[2] == b.root[2]
        if a.root[:2] == b.root[:2] and len(a.proj) == len(b.proj):
            c = []
            for p, q in zip(a.proj, b.proj):
                if p[0] != q[0]:
                    raise Unsupported("ptr cmp")
                if p[0] == "e":
                    c.append(p[1] == q[1])
                elif p != q:
                    return BoolVal(False)
            if a.root[0] == "H":
                c.append(a.root[2] == b.root[2])
            elif a.root != b.root:
                return BoolVal(False)
            return And(*c) if c else BoolVal(True)
        raise Unsupported("ptr cmp")

    def float_to_int(self, v, to):
        """`as`: towards zero, saturating, 0 of NaN"""
        lo, hi = INT_RANGES[to.d["s"]]
        fs = v.sort()
        r = z3.Function("f_trunc", fs, z3.IntSort())(v)
        r = If(And(r > lo, r < hi), r, IntVal(0))
        flo = z3.FPVal(float(lo), fs)
        fhi = z3.FPVal(float(hi), fs)
        return If(z3.fpIsNaN(v), IntVal(0), If(z3.fpLEQ(v, flo), IntVal(lo), If(z3.fpGEQ(v, fhi), IntVal(hi), r)))

    def int_to_float(self, v, fs, signed=True):
        v = simp(v)
        if z3.is_int_value(v):
            return z3.FPVal(v.as_long(), fs)
        return z3.Function("f_of_int_%d" % fs.ebits(), z3.IntSort(), fs)(v)

    def farith(self, op, a, b):
        """floating-point arithmetic is a function of its operands, no more is known of it (but for constants)"""
        a, b = simp(a), simp(b)
        f = {"Add": z3.fpAdd, "Sub": z3.fpSub, "Mul": z3.fpMul, "Div": z3.fpDiv}.get(op)
        if f is not None and z3.is_fp_value(a) and z3.is_fp_value(b):
            return simp(f(z3.RNE(), a, b))
        s = a.sort()
        return z3.Function("f_%s_%d" % (op.lower(), s.ebits()), s, s, s)(a, b)

    def cast(self, st, kind, v, ty, to):
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, ty, to)
            return v
        if kind in ("IntToInt",):
            if isinstance(v, Discr):
                v = self.discr_int(v)
            if isinstance(v, Agg) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_DATATYPE_SORT):
                v = self.discr_int(Discr(v, ty))
            if z3.is_bool(v):
                return If(v, IntVal(1), IntVal(0))
            if ty.k == "int" and to.k == "int":
                lo, hi = INT_RANGES[ty.d["s"]]
                lo2, hi2 = INT_RANGES[to.d["s"]]
                if lo2 <= lo and hi <= hi2:
                    return v
                if z3.is_int_value(v):
                    return simp(self.wrap(v, to))
                if ty.d["s"] == "usize" and to.d["s"] in ("i32", "u32"):
                    # collection lengths are < 2^31 (listed assumption): keep the term simple when in range
                    return If(And(v >= lo2, v <= hi2), v, self.wrap(v, to))
                return If(And(v >= lo2, v <= hi2), v, self.wrap(v, to))
            return v
        if kind == "IntToFloat":
            fs = self.sort(to)
            return self.int_to_float(v, fs, INT_RANGES[ty.d["s"]][0] < 0)
        if kind == "FloatToFloat":
            return z3.fpToFP(z3.RNE(), v, self.sort(to))
        if kind == "FloatToInt":
            return self.float_to_int(v, to)
        if kind.startswith("BoxDeref"):
            return v
        if kind.startswith("PtrToPtr") and ty.elem.variants and to.elem.k == "int" and to.elem.d["s"] == "u8":
            # repr(u8) enum read through *const u8: its discriminant
            root, proj = self.deref(st, v, ty.elem)
            e = self.read(st, root, proj, ty.elem)
            return self.new_tmp(st, self.discr_int(Discr(e, ty.elem)), to.elem)
        if kind.startswith("Transmute") or kind.startswith("PtrToPtr"):
            if self.sort(ty) == self.sort(to):
                return v
            if ty.k in ("ref", "ptr") and to.k in ("ref", "ptr"):
                return v
            raise Unsupported("cast " + kind)
        raise Unsupported("cast " + kind)

    def unsize(self, st, v, ty, to):
        # Rc<T> -> Rc<dyn>, &[T;n] -> &[T], &T -> &dyn, Box
        k = self.S.kind(ty)
        if k == "rc":
            return v
        if k == "ref":
            e = ty.elem
            t2 = to.elem
            if e.k == "array" and t2.k == "slice":
                if isinstance(v, Ref):
                    return Ref(v.root, v.proj, t2)
                return v
            if t2.k == "dyn":
                if isinstance(v, Ref):
                    return Ref(v.root, v.proj, e if e.k != "dyn" else t2)
                return v
            return v
        if k == "transp":
            a = ty.args[0]
            b = to.args[0]
            if b.k == "dyn":
                st.flag("Box<dyn> value abstracted") if not isinstance(v, Agg) or a.k != "closure" else None
                return v if isinstance(v, Agg) and a.k == "closure" else Const("bd!%d" % uid(), IntSort())
            if a.k == "array" and b.k == "slice":
                return self.term(st, v, a) if not isinstance(v, Agg) else self.arr_to_vec(st, v, a)
            return v
        return v

    def arr_to_vec(self, st, v, aty):
        et = self.vec_elem(aty)
        s = self.S.vec(self.sort(et))
        a = Const("arr0!%d" % uid(), ArraySort(IntSort(), self.sort(et)))
        for i, f in enumerate(v.fields):
            a = Store(a, i, self.term(st, f, et))
        return mkvec(s, IntVal(len(v.fields)), a)

    # ---- solving
    def feasible(self, st, cond):
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        if self.cur_contract is not None and self.cur_contract.opts.get("light_paths"):
            # paths are told apart by the quantifier-free facts alone (one more path than needed does no harm)
            pc = [e for e in st.pclist() if not self.quantified(e)]
            r, _ = self.fsp.check(pc, [cond] if not self.quantified(cond) else [], timeout=100)
            return r != z3.unsat
        r, _ = self.fsp.check(st.pclist(), [cond], timeout=self.opts.get("feas_timeout", 400))
        if r == z3.unknown:
            self.feas_unknown += 1
        return r != z3.unsat

    def quantified(self, e):
        r = self.qcache.get(e.get_id())
        if r is None:
            todo, seen, r = [e], set(), False
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    r = True
                    break
                todo.extend(x.children())
            self.keep(e)
            self.qcache[e.get_id()] = r
        return r

    def strlt(self, st, a, b):
        """the order of strings: all that is used of it is that it is a strict total order"""
        S = StringSort()
        if z3.is_string_value(simp(a)) and z3.is_string_value(simp(b)):
            return BoolVal(simp(a).as_string() < simp(b).as_string())
        rank, at = Function("str_rank", S, z3.RealSort()), Function("str_at", z3.RealSort(), S)
        if "str_rank" not in st.ghost:
            st.ghost = dict(st.ghost)
            st.ghost["str_rank"] = True
            x = z3.Const("x!so", S)
            st.assume(ForAll([x], at(rank(x)) == x, patterns=[rank(x)]))
        return rank(a) < rank(b)

    def fork(self, st, conds):
        """[(cond, payload)] -> feasible [(state, payload)] (conds assumed exhaustive)"""
        out = []
        live = []
        for c, p in conds:
            c = simp(c) if not (z3.is_true(c) or z3.is_false(c)) else c
            if is_false(c):
                continue
            live.append((c, p))
        if len(live) == 1:
            st.assume(live[0][0])
            return [(st, live[0][1])]
        feas = [(c, p) for c, p in live if self.feasible(st, c)]
        for i, (c, p) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.copy()
            s.assume(c)
            out.append((s, p))
        return out

    def ob(self, name):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
        return o

    def decide(self, pcl, extra):
        """(result, model) of the conjunction: the incremental solver, strings made abstract, a fresh solver"""
        if self.abs_first and strabs.unsat(pcl + extra, self.ob_timeout // 4, guarded):
            return z3.unsat, None
        r, m = self.sp.check(pcl, extra, timeout=self.ob_timeout // 4)
        if r == z3.unknown and not self.abs_first and strabs.unsat(pcl + extra, self.ob_timeout // 2, guarded):
            self.abs_first = True
            return z3.unsat, None
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.ob_timeout)
            for e in pcl + extra:
                s.add(e)
            try:
                r = guarded(s, self.ob_timeout)
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
        return r, m

    def prove(self, st, name, goal, detail=None):
        """record obligation"""
        if self.silent or (self.unroll and st.flags):
            return True
        o = self.ob(name)
        o.n += 1
        if o.status == "failed":
            return False
        g = goal if isinstance(goal, z3.ExprRef) else BoolVal(bool(goal))
        if is_true(g):
            return True
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time budget")
        r, m = self.decide(st.pclist(), [Not(g)])
        if os.environ.get("PYDV_V"):
            sys.stderr.write("%s %s %.2f\n" % (name, r, time.time() - t))
        o.t += time.time() - t
        if r == z3.unsat:
            return True
        d = {"goal": str(g)[:1500], "trace": list(st.trace)[-60:], "flags": sorted(st.flags), "result": str(r)}
        if detail:
            d["detail"] = detail
        if m is not None:
            d["model"] = self.model_str(m)
        if r == z3.sat and not hard(st.flags):
            o.status = "failed"
            o.detail = d
        else:
            if o.status != "failed":
                o.status = "undecided"
                if o.detail is None:
                    o.detail = d
        return False

    def model_str(self, m):
        try:
            return {str(d): str(m[d])[:300] for d in list(m.decls())[:80] if not str(d).startswith(("box_",))}
        except Exception:
            return {}

    def panic(self, st, kind, where):
        if self.silent or self.panics == "ignore" or (self.unroll and st.flags):
            return
        nm = "%s::no_panic" % self.cur_name
        o = self.ob(nm)
        o.n += 1
        if o.status == "failed":
            return
        # reached with a feasible path condition?
        r, m = self.decide(st.pclist(), [])
        if r == z3.unsat:
            return
        d = {"goal": "unreachable panic: %s in %s" % (kind, where), "trace": list(st.trace)[-60:], "flags": sorted(st.flags), "result": str(r)}
        self.panic_sites.setdefault((kind, where), d)
        if m is not None:
            d["model"] = self.model_str(m)
        if r == z3.sat and not hard(st.flags):
            o.status = "failed"
            o.detail = d
        elif o.status != "failed":
            o.status = "undecided"
            o.detail = o.detail or d

    # ---- execution
    def call_fn(self, st, fn, args):
        """inline execution: returns [(state, retval)]"""
        fr = next(self.frames)
        self.frame_fn[fr] = fn
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        if self.cuts or any(f == fn.name for f, _ in self.loopspecs):
            self.frame_entry[fr] = st.copy()
        self.stackfns.append(fn)
        self.stackfrs.append(fr)
        if len(self.stackfns) > 60:
            self.stackfns.pop()
            self.stackfrs.pop()
            raise Unsupported("inline depth")
        try:
            outs = self.exec_body(st, fr, fn)
        finally:
            self.stackfns.pop()
            self.stackfrs.pop()
        res = []
        for s, v in outs:
            for k in [k for k in s.mem if k[0] == fr]:
                # keep alive: a returned Ref may point to a frame local only through args (borrowck), so drop
                del s.mem[k]
            res.append((s, v))
        return self.merge(res, fn.locals[0])

    def same_mem(self, a, b):
        if a.heaps.keys() != b.heaps.keys() or a.nalloc is not b.nalloc or a.flags != b.flags:
            return False
        for k, v in a.heaps.items():
            if v is not b.heaps[k] and not v.eq(b.heaps[k]):
                return False
        if a.mem.keys() != b.mem.keys():
            return False
        for k, v in a.mem.items():
            w = b.mem[k]
            if v is not w and not (isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.eq(w)):
                return False
        for k, v in a.tmps.items():
            w = b.tmps.get(k, v)
            if v is not w and not (isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.eq(w)):
                return False
        for k, v in a.ghost.items():
            if b.ghost.get(k) is not v:
                return False
        return True

    def mergeable(self, v):
        if isinstance(v, z3.ExprRef):
            return True
        if isinstance(v, Agg):
            return v.ty is not None and self.S.kind(v.ty) == "data" and all(self.mergeable(f) for f in v.fields) and v.ty.k != "array"
        return False

    def merge(self, outs, rty):
        if len(outs) < 2 or len(outs) > 400:
            return outs
        groups = []
        for s, v in outs:
            if not self.mergeable(v):
                groups.append([(s, v)])
                continue
            for g in groups:
                s0, v0 = g[0]
                if self.mergeable(v0) and self.same_mem(s0, s):
                    g.append((s, v))
                    break
            else:
                groups.append([(s, v)])
        res = []
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            try:
                res.append(self.merge_group(g, rty))
            except (Unsupported, z3.Z3Exception):
                res.extend(g)
        return res

    def merge_group(self, g, rty):
        # common prefix of pc
        lists = [s.pclist() for s, _ in g]
        n = 0
        m = min(len(x) for x in lists)
        while n < m and all(x[n] is lists[0][n] for x in lists):
            n += 1
        base = g[0][0].copy()
        # pc node at depth n
        p = g[0][0].pc
        d = len(lists[0])
        while d > n:
            p = p[0]
            d -= 1
        base.pc = p
        conds = [And(*x[n:]) if len(x) > n else BoolVal(True) for x in lists]
        base.rng = frozenset.intersection(*[s.rng for s, _ in g])
        for s, _ in g:
            for k, v in s.tmps.items():
                base.tmps.setdefault(k, v)
        terms = [self.term(s, v, rty) for s, v in g]
        r = terms[-1]
        for c, t in list(zip(conds, terms))[-2::-1]:
            r = t if t.eq(r) else If(c, t, r)
        base.assume(simp_or(conds))
        return base, r

    def loc_name(self, fn, b):
        return "%s:%d" % (fn.name.split("::", 1)[-1], fn.blocks[b]["l"])

    def exec_body(self, st, fr, fn, start=0, loopctx=None):
        """run from block `start` to return; returns [(state, ret)]"""
        outs = []
        work = [(st, start)]
        while work:
            s, b = work.pop()
            while True:
                self.tick()
                r = self.block(s, fr, fn, b, work, outs, loopctx)
                if r is None:
                    break
                s, b = r
        return outs

    def counter_step(self, blk, t, fn):
        """`n + 1` on a 64-bit count: 2^64 steps are not reached (a stated assumption)"""
        if t[3] != "OverflowAdd" or not blk["s"]:
            return False
        r = blk["s"][-1][2] if blk["s"][-1][0] == "=" else None
        if not r or r[0] != "cbin" or r[1] != "Add" or r[3][0] != "const":
            return False
        c = r[3][1]
        if c.get("bytes") != [1, 0, 0, 0, 0, 0, 0, 0] or self.db.ty(c["t"]).disp not in ("usize", "u64"):
            return False
        self.modelled.add("(a 64-bit count stays below 2^64)")
        return True

    def goto(self, s, fr, fn, b, frm, loopctx):
        """handle arrival at block b; returns [(state, block)] to continue with"""
        loops = fn.loops
        if self.unroll and s.flags and not self.silent:
            # nothing from here on could be told from an artefact
            self.cut_short += 1
            return []
        if b in loops and self.unroll and not self.silent:
            # refuting, not proving: a loop is run as it stands, a few times round, and longer runs are left out
            k = ("unroll", fr, b)
            n = s.ghost.get(k, 0)
            if n > self.unroll:
                self.cut_short += 1
                return []
            s.ghost = dict(s.ghost)
            s.ghost[k] = n + 1
            return [(s, b)]
        if b in loops:
            if loopctx is not None and loopctx["head"] == b and loopctx["fr"] == fr:
                loopctx["on_back"](s)
                return []
            if (fr, b) in s.ghost.get("inloop", ()):
                # back edge of a loop already cut in this frame
                self.loop_back(s, fr, fn, b)
                return []
            return self.enter_loop(s, fr, fn, b)
        return [(s, b)]

    def block(self, s, fr, fn, b, work, outs, loopctx):
        if self.cuts and len(self.stackfns) == 1 and loopctx is None and (fn.name, b) in self.cuts:
            s = self.at_cut(s, fr, fn, b)
            if s is None:
                return None
        blk = fn.blocks[b]
        for stt in blk["s"]:
            if stt[0] == "=":
                root, proj, ty = None, None, None
                pl = stt[1]
                # destination type
                root, proj, ty = self.frame_place(s, fr, fn, pl)
                v = self.rvalue(s, fr, fn, stt[2], ty)
                self.write(s, root, proj, ty, v)
            elif stt[0] == "setd":
                root, proj, ty = self.frame_place(s, fr, fn, stt[1])
                raise Unsupported("setd")
        t = blk["t"]
        k = t[0]
        nxt = []
        if k == "goto":
            nxt = [(s, t[1])]
        elif k == "ret":
            outs.append((s, s.mem.get((fr, 0), UNINIT)))
            return None
        elif k == "drop":
            nxt = [(s, t[2])]
        elif k == "switch":
            nxt = self.switch(s, fr, fn, t, b)
        elif k == "assert":
            c, _ = self.operand(s, fr, fn, t[1])
            good = c if t[2] else Not(c)
            good = simp(good)
            if not is_true(good):
                wrapok = (t[3].startswith("Overflow") and self.opts.get("overflow") == "ignore") or self.counter_step(blk, t, fn)
                if not wrapok and not self.silent and self.panics != "ignore":
                    if self.feasible(s, Not(good)):
                        s2 = s.copy()
                        s2.assume(Not(good))
                        self.panic(s2, t[3], self.loc_name(fn, b))
                if not self.feasible(s, good):
                    return None
                s.assume(good)
            nxt = [(s, t[4])]
        elif k == "call":
            nxt = self.do_call(s, fr, fn, t, b)
        elif k == "unreach":
            return None
        elif k in ("resume", "abort"):
            return None
        else:
            raise Unsupported("terminator " + k)
        todo = []
        for s2, b2 in nxt:
            todo.extend(self.goto(s2, fr, fn, b2, b, loopctx))
        if not todo:
            return None
        self.npaths += len(todo) - 1
        if self.npaths > self.max_paths:
            raise Budget("path budget")
        for x in todo[1:]:
            work.append(x)
        return todo[0]

    def switch(self, s, fr, fn, t, b):
        v, ty = self.operand(s, fr, fn, t[1])
        targets = t[2]
        other = t[3]
        if isinstance(v, Discr):
            val, ety = v.val, v.ty
            if isinstance(val, Agg):
                d = int(ety.variants[val.variant]["d"])
                for x, tb in targets:
                    if x == d or (d < 0 and x == d % 2**64) or (d < 0 and x == d % 256):
                        return [(s, tb)]
                return [(s, other)]
            if isinstance(val, PV):
                raise Unsupported("discr of %r" % val)
            vs = ety.variants
            if isinstance(val, z3.ExprRef) and self.S.kind(ety) == "json":
                ji = self.models.json_variant
                m, rest = [], []
                for x, tb in targets:
                    c = ji(self, s, val, x)
                    m.append((c, tb))
                    rest.append(Not(c))
                if other is not None and not (fn.blocks[other]["t"][0] == "unreach" and not fn.blocks[other]["s"]):
                    m.append((And(*rest), other))
                return self.trace_fork(s, fn, b, m)
            if not isinstance(val, z3.ExprRef) or val.sort().kind() != z3.Z3_DATATYPE_SORT:
                raise Unsupported("discr of %r" % (val,))
            conds, rest = [], []
            used = set()
            bymap = {}
            for i, vv in enumerate(vs):
                d = int(vv["d"])
                tb = None
                for x, tt in targets:
                    if x == d or (d < 0 and x in (d % 2**64, d % 256)):
                        tb = tt
                if tb is None:
                    tb = other
                if tb is not None and fn.blocks[tb]["t"][0] == "unreach" and not fn.blocks[tb]["s"]:
                    continue
                bymap.setdefault(tb, []).append(isv(val, i))
            return self.trace_fork(s, fn, b, [(simp(Or(*c)) if len(c) > 1 else c[0], tb) for tb, c in bymap.items()])
        v = self.term(s, v, ty)
        if z3.is_bool(v):
            conds = []
            m = {x: tb for x, tb in targets}
            tb0 = m.get(0, other)
            tb1 = m.get(1, other)
            return self.trace_fork(s, fn, b, [(v, tb1), (Not(v), tb0)])
        if z3.is_int_value(v):
            x = v.as_long()
            for y, tb in targets:
                if self.sw_val(y, ty) == x:
                    return [(s, tb)]
            return [(s, other)]
        conds = []
        negs = []
        for y, tb in targets:
            c = v == self.sw_val(y, ty)
            conds.append((c, tb))
            negs.append(Not(c))
        if other is not None and not (fn.blocks[other]["t"][0] == "unreach" and not fn.blocks[other]["s"]):
            conds.append((And(*negs), other))
        return self.trace_fork(s, fn, b, conds)

    def sw_val(self, y, ty):
        if ty.k == "int" and ty.d["s"][0] == "i":
            lo, hi = INT_RANGES[ty.d["s"]]
            if y > hi:
                y -= (hi - lo + 1)
        return y

    def trace_fork(self, s, fn, b, conds):
        out = self.fork(s, conds)
        if len(out) > 1:
            for s2, tb in out:
                s2.trace = s2.trace + ("%s->%d" % (self.loc_name(fn, b), tb),)
        return out

    def do_call(self, s, fr, fn, t, b):
        callee = t[1]
        argops = t[2]
        dest = t[3]
        target = t[4]
        args = [self.operand(s, fr, fn, o) for o in argops]
        root, proj, dty = self.frame_place(s, fr, fn, dest)
        where = self.loc_name(fn, b)
        if callee is None:
            fv, fty = self.operand(s, fr, fn, t[5])
            outs = self.call_value(s, fv, [a for a, _ in args], dty, where)
        else:
            outs = self.call(s, callee, args, dty, where)
        res = []
        for s2, v in outs:
            if target is None:
                continue
            if v is None:
                continue
            self.write(s2, root, proj, dty, v)
            res.append((s2, target))
        return res

    def call(self, s, callee, args, dty, where):
        """-> [(state, value)]"""
        vals = [a for a, _ in args]
        name = canon(callee["rn"] or callee["u"])
        un = canon(callee["u"])
        fn = self.db.fns.get(callee["r"]) if callee["r"] else None
        # contract?
        con_ = self.contracts.get(name)
        if con_ is not None and con_.use and (not self.cur_contract or name not in self.cur_contract.opts.get("inline", ())):
            return self.apply_contract(s, con_, fn, args, dty, where)
        m = self.models.lookup(self, name, un, callee, args, fn) if self.models else None
        if m is not None:
            self.modelled.add(name)
            try:
                return m(self, s, args, dty, callee, where)
            except Unsupported as e:
                return self.havoc_call(s, name + " (model: %s)" % e, args, dty)
        if fn is not None:
            if any(f is fn for f in self.stackfns) and not self.opts.get("allow_rec"):
                return self.havoc_call(s, "recursion " + name, args, dty)
            if fn.local:
                self.inlined.add(name)
            s0 = s.copy()
            try:
                return self.call_fn(s, fn, vals)
            except Unsupported as e:
                return self.havoc_call(s0, "%s (%s)" % (name, e), args, dty)
        if callee["kind"] == "virtual" or callee["kind"] == "unresolved":
            return self.havoc_call(s, "virtual " + un, args, dty)
        return self.havoc_call(s, un, args, dty)

    def call_value(self, s, fv, args, dty, where):
        """call of a closure / fn item value with plain args list"""
        if isinstance(fv, Ref):
            fv2 = self.read(s, fv.root, fv.proj, fv.ty)
            if isinstance(fv2, Ref):
                return self.call_value(s, fv2, args, dty, where)
            if isinstance(fv2, Agg) and fv2.ty.k == "closure":
                f = self.db.fns.get(fv2.ty.d["key"])
                if f is None:
                    raise Unsupported("closure body")
                return self.call_closure(s, f, fv2, fv, args, dty, where)
            fv = fv2
        if isinstance(fv, Agg) and fv.ty.k == "closure":
            f = self.db.fns.get(fv.ty.d["key"])
            if f is None:
                raise Unsupported("closure body")
            return self.call_closure(s, f, fv, None, args, dty, where)
        if isinstance(fv, Agg) and fv.ty.k == "fndef":
            c = fv.ty.d["c"]
            fn = self.db.fns.get(c["r"]) if c["r"] else None
            at = [None] * len(args)
            if fn is not None:
                at = fn.locals[1:1 + fn.nargs]
            return self.call(s, c, list(zip(args, at)), dty, where)
        raise Unsupported("call of %r" % (fv,))

    def call_closure(self, s, f, cv, cref, args, dty, where):
        selfty = f.locals[1]
        if selfty.k == "ref":
            a0 = cref if cref is not None else self.new_tmp(s, cv, cv.ty)
        else:
            a0 = cv
        # closure bodies take their arguments spread out
        if any(x is f for x in self.stackfns):
            raise Unsupported("recursive closure")
        return self.call_fn(s, f, [a0] + list(args))

    # ---- havoc
    def havoc_call(self, s, name, args, dty):
        self.havocked.add(name)
        s.flag("havoc:" + name[:80])
        for a, t in args:
            if t is not None:
                self.havoc_arg(s, a, t)
        self.havoc_heaps(s)
        v = self.fresh_val(s, dty, "hv")
        return [(s, v)]

    def havoc_arg(self, s, a, t):
        if t.k == "ref" and t.d["m"] and isinstance(a, Ref):
            if a.root[0] == "I":
                return
            v = self.fresh_val(s, t.elem if t.elem.k != "dyn" else a.ty, "ha")
            self.write(s, a.root, list(a.proj), t.elem, v)

    def havoc_heaps(self, s, keys=None):
        for k in list(s.heaps):
            if keys is not None and k not in keys:
                continue
            if k in self.models.frozen_heaps(self):
                continue
            self.havoc_heap(s, k)
        if keys is None:
            self.new_epoch(s)
            na = Int("na!%d" % uid())
            s.assume(na >= s.nalloc)
            s.nalloc = na

    def havoc_heap(self, s, k):
        h = s.heaps.get(k)
        if h is None:
            if k not in self.heap_sorts:
                return
            h = self.heap0(s, k)
        s.heaps[k] = Const("heap!%s!%d" % (re.sub(r"\W+", "_", k)[:30], uid()), h.sort())
        if s.rec is not None:
            s.rec.append(("HK", k, None, ()))
        s.hlog = s.hlog + ((k, None),)

    # ---- cuts
    def at_cut(self, s, fr, fn, b):
        """every path must arrive with what the cut says; what follows is shown once, from that alone"""
        spec = self.cuts[(fn.name, b)]
        pre = self.frame_entry[fr]
        try:
            for nm, e in spec(LoopCtx(self, s, pre, fr, fn)):
                self.prove(s, "%s::cut:%s" % (self.cur_name, nm), e)
        except AnchorLost as e:
            raise Unsupported("cut: %s" % e)
        if (fr, b) in self.cut_done:
            return None
        self.cut_done.add((fr, b))
        n = pre.copy()
        for k in s.heaps:
            n.heaps.setdefault(k, s.heaps[k])
        self.havoc_heaps(n)
        n.rng = frozenset()
        user = {p[0] for _, p in fn.dbg if not p[1]}
        for (f, l), v in s.mem.items():
            if f != fr:
                continue
            t = fn.locals[l]
            if 1 <= l <= fn.nargs:
                a = pre.mem[(fr, l)]
                if isinstance(a, Ref) and a.root[0] == "T" and t.d.get("m"):
                    n.tmps[a.root[1]] = self.fresh_val(n, t.elem, "cut")
                n.mem[(fr, l)] = a
            elif l in user or t.disp == "bool":
                try:
                    n.mem[(fr, l)] = self.havoc_value(n, v, t)
                except Unsupported:
                    pass
        n.flag("~loop")
        for nm, e in spec(LoopCtx(self, n, pre, fr, fn)):
            n.assume(e)
        return n

    # ---- loops
    def enter_loop(self, s, fr, fn, h):
        """cut the loop at its head"""
        ck = (fn.key, h, len(self.stackfns))
        W = {("L", fr) + w[2:] if w[0] == "L" else w for w in self.loopcache.get(ck, ())}
        W = {w for w in W if w[0] != "L" or (fr, w[2]) in s.mem}
        W = {w for w in W if w[0] != "HK" or w[1] in s.heaps}
        spec = self.find_loopspec(fn, h)
        pre = s.copy()
        body = fn.loops[h]
        # write-set fixpoint
        for it in range(8):
            st1 = s.copy()
            mark = next(self.frames)
            tmark = next(self.tmpc)
            st1.rec = []
            ok = self.havoc_writes(st1, W, pre, fr, fn)
            self.assume_loop_inv(spec, st1, pre, fr, fn, None)
            recs = []

            self.silent += 1
            saved = self.npaths
            try:
                ends = self.run_loop_body(st1, fr, fn, h, body, recs)
            finally:
                self.silent -= 1
                self.npaths = saved
            newW = set()
            for rec in recs:
                for w in rec:
                    nw = self.stable_write(w, pre, mark, tmark, fr)
                    if nw is not None:
                        newW.add(nw)
            newW = self.norm_writes(newW | W)
            if newW == W:
                break
            W = newW
        else:
            raise Unsupported("loop write set")
        self.loopcache[ck] = {w for w in W if w[0] == "HK" or (w[0] == "L" and w[1] == fr)}
        # invariant on entry
        if spec is not None and not self.silent:
            for nm, e in self.inv_exprs(spec, s, pre, fr, fn):
                self.prove(s, "%s::loop:%s:init" % (self.cur_name, nm), e)
        entry_rec = s.rec
        self.havoc_writes(s, W, pre, fr, fn)
        s.flag("~loop")
        if entry_rec is not None:
            pass
        self.assume_loop_inv(spec, s, pre, fr, fn, None)
        il = dict(s.ghost)
        il["inloop"] = s.ghost.get("inloop", frozenset()) | {(fr, h)}
        il[("loopspec", fr, h)] = (spec, pre)
        s.ghost = il
        return [(s, h)]

    def loop_back(self, s, fr, fn, h):
        spec, pre = s.ghost.get(("loopspec", fr, h), (None, None))
        if spec is not None and not self.silent:
            for nm, e in self.inv_exprs(spec, s, pre, fr, fn):
                self.prove(s, "%s::loop:%s:preserved" % (self.cur_name, nm), e)

    def run_loop_body(self, st, fr, fn, h, body, recs):
        """execute one arbitrary iteration from the head, silently; collects write records"""
        work = [(st, h)]
        outs = []
        cnt = 0
        ctx = {"head": h, "fr": fr, "on_back": lambda s: recs.append(s.rec)}
        # mark nested visits
        while work:
            s, b = work.pop()
            s.rec = list(s.rec)
            while True:
                self.tick()
                if b not in body:
                    recs.append(s.rec)
                    break
                sub = []
                r = self.block(s, fr, fn, b, sub, outs, ctx)
                for s2, b2 in sub:
                    s2.rec = list(s2.rec)
                    work.append((s2, b2))
                if r is None:
                    break
                s, b = r
                if sub:
                    s.rec = list(s.rec)
            cnt += 1
            if cnt > 1500:
                raise Budget("loop body paths")
        for s, _ in outs:
            recs.append(s.rec)
        return outs

    def stable_write(self, w, pre, mark, tmark, fr):
        k = w[0]
        if k == "L":
            if w[1] >= mark and w[1] != fr:
                return None
            if (w[1], w[2]) not in pre.mem and w[1] == fr:
                # local not initialised before the loop: dead at head unless reassigned, havoc not needed
                return None
            if w[1] != fr and (w[1], w[2]) not in pre.mem:
                return None
            return ("L", w[1], w[2], w[3])
        if k == "T":
            if w[1] >= tmark or w[1] not in pre.tmps:
                return None
            return w
        if k == "H":
            loc = w[2]
            if self.is_new_since(loc, pre):
                return None
            if self.stable_loc(loc, pre):
                return ("H", w[1], loc.get_id(), w[3], KeyedExpr(loc))
            return ("HK", w[1], None, ())
        if k in ("HK", "EP"):
            return w
        return None

    def is_new_since(self, loc, pre):
        return False

    def stable_loc(self, loc, pre):
        """does the location term only mention symbols that exist in the pre state?"""
        names = pre.ghost.get("_consts")
        if z3.is_const(loc):
            n = loc.decl().name()
            if "!" in n:
                try:
                    num = int(n.rsplit("!", 1)[1])
                except ValueError:
                    return True
                if n.startswith("new!"):
                    return num <= pre.ghost.get("_newmax", 10**9) and pre.ghost.get("_newmax") is not None
                return num < pre.ghost.get("_uidmax", -1)
            return True
        return all(self.stable_loc(c, pre) for c in loc.children())

    def norm_writes(self, W):
        """drop entries covered by a shorter prefix"""
        out = set()
        hk = {w[1] for w in W if w[0] == "HK"}
        for w in W:
            if w[0] == "H" and w[1] in hk:
                continue
            if w[0] in ("L", "T", "H"):
                cov = False
                for v in W:
                    if v is not w and v[0] == w[0] and v[1] == w[1] and v[2] == w[2] and len(v[3]) < len(w[3]) and w[3][:len(v[3])] == v[3]:
                        cov = True
                        break
                if cov:
                    continue
            out.add(w)
        return out

    def havoc_writes(self, s, W, pre, fr, fn):
        for w in sorted(W, key=lambda x: str(x[:4])):
            if w[0] == "L":
                f = self.frame_fn[w[1]]
                root = ("L", w[1], w[2])
                base = f.locals[w[2]]
                cur = s.mem.get((w[1], w[2]), UNINIT)
                self.havoc_at(s, root, w[3], base, cur)
            elif w[0] == "T":
                root = ("T", w[1])
                self.havoc_at(s, root, w[3], self.tmp_ty.get(w[1]), s.tmps[w[1]])
            elif w[0] == "H":
                t = self.db.find_ty(w[1])
                self.havoc_at(s, ("H", t, w[4].e), w[3], self.S.heapty(t), None)
            elif w[0] == "HK":
                self.havoc_heap(s, w[1])
            elif w[0] == "EP":
                self.new_epoch(s)
        if any(w[0] in ("H", "HK") for w in W) or True:
            na = Int("na!%d" % uid())
            s.assume(na >= s.nalloc)
            s.nalloc = na

    def havoc_at(self, s, root, proj, ty, cur):
        # walk to type
        v = cur
        t = ty
        if root[0] == "H":
            v = self.read(s, root, proj, None) if False else None
        for p in proj:
            t = self.strip(t) if t is not None else None
            if v is not None and not isinstance(v, Uninit):
                v = self.proj1(s, v, p)
            t = self.field_tys(t, p[1])[p[2]] if t is not None else None
        nv = self.havoc_value(s, v, t)
        self.write(s, root, list(proj), t, nv)

    def havoc_value(self, s, v, t):
        if isinstance(v, PV) and hasattr(v, "havoc"):
            return v.havoc(self, s)
        if isinstance(v, Ref):
            # a reference variable that moves: arbitrary snapshot
            tt = t if t is None else (t.elem if t.k in ("ref", "ptr") else v.ty)
            if v.ty is not None:
                s.flag("loop-varying reference")
                nv = self.fresh_val(s, v.ty, "lr")
                return self.new_tmp(s, nv, v.ty)
        if isinstance(v, Agg) and t is not None and any(isinstance(f, (PV, Ref)) or (isinstance(f, Agg)) for f in v.fields) and self.S.kind(t) == "data" and len(getattr(t, "variants", None) or [0]) == 1:
            fts = self.field_tys(t, v.variant)
            return Agg(v.ty, v.variant, [self.havoc_value(s, f, ft) for f, ft in zip(v.fields, fts)])
        if t is None:
            if isinstance(v, z3.ExprRef):
                return Const("lv!%d" % uid(), v.sort())
            raise Unsupported("havoc untyped")
        k = self.S.kind(t)
        if k == "opaque":
            raise Unsupported("havoc opaque %s" % t)
        if k == "ref":
            s.flag("loop-varying reference")
        nv = self.fresh_val(s, t, "lv")
        return nv

    # loop specs
    def find_loopspec(self, fn, h):
        return self.loopspecs.get((fn.name, fn.loop_ordinal(h))) or self.loopspecs.get((fn.name, None))

    def inv_exprs(self, spec, s, pre, fr, fn):
        c = LoopCtx(self, s, pre, fr, fn)
        try:
            return list(spec(c))
        except AnchorLost as e:
            s.flag("loop anchor lost: %s" % e)
            return []

    def assume_loop_inv(self, spec, s, pre, fr, fn, _):
        if spec is None:
            return
        for nm, e in self.inv_exprs(spec, s, pre, fr, fn):
            s.assume(e)

    # ---- contracts at call sites
    def apply_contract(self, s, con_, fn, args, dty, where):
        self.used_contracts.add(con_.name)
        c = Ctx(self, s)
        c.args_vals = [a for a, _ in args]
        c.args_tys = [t for _, t in args]
        try:
            for nm, e in named(con_.requires(c)):
                if not self.silent and not self.opts.get("no_requires"):
                    self.prove(s, "%s::requires@%s:%s" % (self.cur_name, con_.name.split("::")[-1], nm), e)
                s.assume(e if isinstance(e, z3.ExprRef) else BoolVal(e))
            pre = s.copy()
            md = Mod(self, s, c)
            for a, t in args:
                if t is not None and t.k == "ref" and t.d["m"]:
                    v = View.of(c, a, t)
                    if v.root[0] != "I":
                        md.havoc(v)
            if con_.frame is None:
                # it may write anything, and call the host, where the contract doesn't say otherwise; the type invariants hold before and after
                if not self.silent:
                    for key, f in self.invs.items():
                        self.check_inv(s, key, f)
                s.hlog = ()
                logs = self.log_copy(s, con_.opts.get("host_calls_kept", ()))
                self.havoc_heaps(s)
                s.heaps.update(logs)
            else:
                for disp in con_.frame:
                    md.heap(disp)
            if con_.modifies is not None:
                con_.modifies(md)
            na = Int("na!%d" % uid())
            s.assume(na >= s.nalloc)
            s.nalloc = na
            ret = self.fresh_val(s, dty, "ret") if dty.k != "never" else None
            c2 = Ctx(self, s)
            c2.args_vals, c2.args_tys = c.args_vals, c.args_tys
            c2.pre = Ctx(self, pre)
            c2.pre.args_vals, c2.pre.args_tys = c.args_vals, c.args_tys
            c2.retval, c2.retty = ret, dty
            for nm, e in named(con_.ensures(c2)):
                s.assume(self.cased(e) if isinstance(e, z3.ExprRef) else BoolVal(e))
            for e, _ in self.inv_args(c2):
                s.assume(e)
            for e in self.inv_ret(c2, con_):
                s.assume(e)
        except AnchorLost as e:
            return self.havoc_call(s, "contract anchor lost %s: %s" % (con_.name, e), args, dty)
        return [(s, ret)]

    # ---- verification of one function
    def cased(self, e):
        """a formula as it reads in the case under verification"""
        if not self.case_subst or not isinstance(e, z3.ExprRef):
            return e
        return simp(z3.substitute(e, *self.case_subst))

    def verify(self, con_, budget=60, case=None):
        t0 = time.time()
        self.deadline = t0 + budget
        self.cur_name = con_.opts.get("as", con_.name.replace("bladeink::", ""))
        self.cur_contract = con_
        self.panics = con_.panics
        fn = con_.opts["fn"] if "fn" in con_.opts else self.db.find(con_.name)
        if fn is None:
            o = self.ob(self.cur_name + "::anchor")
            o.status = "undecided"
            o.detail = {"goal": "function %s not found" % con_.name}
            return
        st = State()
        st.nalloc = Int("nalloc0")
        st.assume(st.nalloc >= 1)
        args = []
        if con_.panics == "check":
            self.ob(self.cur_name + "::no_panic").n += 1
        try:
            for i in range(fn.nargs):
                t = fn.locals[i + 1]
                n = fn.user_var(i + 1) or "a%d" % i
                v = self.fresh_arg(st, t, n)
                args.append(v)
            c = Ctx(self, st)
            c.args_vals, c.args_tys = args, fn.locals[1:1 + fn.nargs]
            c.argnames = [fn.user_var(i + 1) for i in range(fn.nargs)]
            for nm, e in named(con_.requires(c)):
                st.assume(e if isinstance(e, z3.ExprRef) else BoolVal(e))
            if con_.opts.get("definitions"):
                st.assume(con_.opts["definitions"](c))
            for i in con_.opts.get("allocated", ()):
                # whatever a sequence of references refers to exists
                v, k = c.arg(i), Int("k!al")
                x = Select(v.arr, k)
                st.assume(ForAll([k], Implies(And(0 <= k, k < v.len), And(x >= 1, x < st.nalloc)), patterns=[x]))
            if not con_.opts.get("no_inv"):
                for e, _ in self.inv_args(c, mut_only=False):
                    st.assume(e)
            if case is not None:
                cases = con_.opts["cases"](c)
                self.prove(st, self.cur_name + "::cases_cover", Or(*[And(*[t == x for t, x in eqs]) for _, eqs in cases]))
                self.case_subst = list(dict(cases)[case])
                for t, x in self.case_subst:
                    st.assume(t == x)
            r, _ = self.sp.check(st.pclist(), [], timeout=self.ob_timeout)
            o = self.ob(self.cur_name + "::pre_satisfiable")
            o.n += 1
            if r == z3.unsat:
                o.status = "undecided"
                o.detail = {"goal": "precondition contradictory: vacuous"}
                return
            st.ghost["_uidmax"] = uid()
            st.ghost["_newmax"] = 0
            pre = st.copy()
            for where, spec in con_.opts.get("cuts", ()):
                b = where(self, fn)
                if b is None:
                    raise AnchorLost("cut of " + fn.name)
                self.cuts[(fn.name, b)] = spec
            outs = self.call_fn_nomerge(st, fn, args)
            n = 0
            for s, v in outs:
                n += 1
                c2 = Ctx(self, s)
                c2.args_vals, c2.args_tys = args, c.args_tys
                c2.argnames = c.argnames
                c2.pre = Ctx(self, pre)
                c2.pre.args_vals, c2.pre.args_tys, c2.pre.argnames = args, c.args_tys, c.argnames
                c2.retval, c2.retty = v, fn.locals[0]
                for nm, e in named(con_.ensures(c2)):
                    if case is not None:
                        e = self.cased(e)
                        if is_true(e):
                            continue
                    self.prove(s, "%s::ensures:%s" % (self.cur_name, nm), e)
                for key, f in self.invs.items():
                    self.check_inv(s, key, f)
                if not con_.opts.get("no_inv"):
                    for e, key in self.inv_args(c2):
                        self.prove(s, "%s::type_invariant:%s" % (self.cur_name, key), e)
                    for e in self.inv_ret(c2, con_):
                        self.prove(s, "%s::type_invariant:result" % self.cur_name, e)
                if con_.frame is not None:
                    self.check_frame(s, pre, con_)
                    if con_.modifies is None:
                        self.check_shared(s, c2)
                for sh in con_.opts.get("host_calls_kept", ()):
                    self.prove(s, "%s::no_call_of_%s" % (self.cur_name, sh), Select(self.log_heap(s, "!n:" + sh, sh), 0) == Select(self.log_heap(pre, "!n:" + sh, sh), 0))
            self.out_paths = n
            if n == 0 and not con_.opts.get("never_returns"):
                o = self.ob(self.cur_name + "::returns")
                o.n += 1
                o.status = "undecided"
                o.detail = {"goal": "no feasible return path"}
        except (Budget, Unsupported, AnchorLost, z3.Z3Exception, RecursionError) as e:
            if self.opts.get("raise"):
                raise
            o = self.ob(self.cur_name + "::analysis")
            o.n += 1
            o.status = "undecided"
            o.detail = {"goal": "analysis incomplete", "reason": "%s: %s" % (type(e).__name__, str(e)[:300])}
        self.wall = time.time() - t0

    def inv_args(self, c, mut_only=True):
        """invariants of the values behind reference arguments"""
        out = []
        for a, t in zip(c.args_vals, c.args_tys):
            if t is None or (mut_only and (t.k != "ref" or not t.d["m"])):
                continue
            if t.k != "ref" and self.S.kind(t) != "data":
                continue
            v = View.of(c, a, t)
            f = self.inv_of(v.ty)
            if f is not None and not (mut_only and v.root[0] == "I"):
                out.extend((e, v.ty.disp.split("::")[-1]) for e in f(v))
        return out

    def inv_of(self, ty):
        return self.invs.get(self.S.heapkey(ty)) if self.S.kind(ty) == "data" and ty.k != "tuple" else None

    def inv_ret(self, c, con_):
        if con_.opts.get("raw_result") or c.retty is None or c.retty.k == "never":
            return []
        v = c.ret
        f = self.inv_of(v.ty)
        if f is not None:
            return list(f(v))
        if v.ty.k == "adt" and self.S.kind(v.ty) == "data" and len(v.ty.variants) == 2:
            ns = [x["n"] for x in v.ty.variants]
            for n in ("Ok", "Some"):
                if n in ns and len(v.ty.fields(v.vidx(n))) == 1:
                    f = self.inv_of(self.S_norm(v.ty.fields(v.vidx(n))[0][1]))
                    if f is not None:
                        if isinstance(v.val(), Agg) and v.val().variant != v.vidx(n):
                            return []
                        return [Implies(v.is_(n), e) for e in f(v.payload(n))]
        return []

    def S_norm(self, t):
        while self.S.kind(t) == "transp":
            t = t.args[0]
        return t

    def check_frame(self, s, pre, con_):
        allowed = set()
        if s.ghost.get("epoch") != pre.ghost.get("epoch"):
            self.prove(s, "%s::frame:*" % self.cur_name, BoolVal(False))
        for disp in con_.frame:
            if disp.startswith("!"):
                allowed.add("!n:" + disp[1:])
                continue
            t = self.db.find_ty(canon(disp))
            if t is None:
                raise AnchorLost("type " + disp)
            allowed.add(self.S.heapkey(t))
        frozen = self.models.frozen_heaps(self)
        for k, h in s.heaps.items():
            if k in allowed or k in frozen:
                continue
            h0 = pre.heaps.get(k)
            if h0 is None:
                h0 = self.heap0(pre, k)
            if h.eq(h0):
                continue
            if k.startswith("!"):
                # calls of the host: only ever added
                if k.startswith("!n:"):
                    self.prove(s, "%s::frame:no_call_of_%s" % (self.cur_name, k[3:]), Select(h, 0) == Select(h0, 0))
                continue
            x = Int("fx!")
            self.prove(s, "%s::frame:%s" % (self.cur_name, k.split("::")[-1]),
                       Implies(And(x >= 1, x < pre.nalloc), Select(h, x) == Select(h0, x)))

    def check_shared(self, s, c):
        """what an argument refers to without owning the right to change it is as it was"""
        for i, (a, t) in enumerate(zip(c.args_vals, c.args_tys)):
            if t is None or t.k != "ref" or t.d["m"] or not isinstance(a, Ref) or a.root[0] == "I" or t.elem.k in ("dyn", "slice", "str"):
                continue
            try:
                x, y = c.arg(i).t, c.pre.arg(i).t
            except (Unsupported, AttributeError):
                continue
            if not x.eq(y):
                self.prove(s, "%s::frame:argument_%d" % (self.cur_name, i), x == y)

    def check_inv(self, s, key, f):
        seen = set()
        for k, loc in s.hlog:
            if k != key or loc is None or loc.get_id() in seen:
                continue
            seen.add(loc.get_id())
            t = self.db.find_ty(key)
            c = Ctx(self, s)
            v = sel(s.heaps[key], loc)
            for i, e in enumerate(f(View(c, ("I", v), (), t))):
                self.prove(s, "%s::type_invariant:%s" % (self.cur_name, key.split("::")[-1]), e)

    def call_fn_nomerge(self, st, fn, args):
        fr = next(self.frames)
        self.frame_fn[fr] = fn
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        if self.cuts or any(f == fn.name for f, _ in self.loopspecs):
            self.frame_entry[fr] = st.copy()
        self.stackfns.append(fn)
        self.stackfrs.append(fr)
        try:
            return self.exec_body(st, fr, fn)
        finally:
            self.stackfns.pop()
            self.stackfrs.pop()

    def fresh_arg(self, st, t, n):
        v = self.fresh_val(st, t, "arg_" + n)
        if isinstance(v, Ref) and v.root[0] == "T":
            self.tmp_ty[v.root[1]] = t.elem
        return v


class KeyedExpr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, KeyedExpr) and self.e.eq(o.e)

    def __hash__(self):
        return self.e.hash()

    def __repr__(self):
        return str(self.e)


def simp_or(cs):
    # complementary pair / exhaustive disjunctions are common: let z3 simplify
    return z3.simplify(Or(*cs))


def named(it):
    for i, x in enumerate(it or []):
        if isinstance(x, tuple):
            yield x
        else:
            yield str(i), x


def hard(flags):
    """the flags that say the counterexample may be an artefact (a loop cut by its invariant does not)"""
    return [f for f in flags if not f.startswith("~")]


class Mod:
    """helper for `modifies` clauses at call sites"""

    def __init__(self, M, st, c):
        self.M, self.st, self.c = M, st, c

    def havoc(self, view):
        v = self.M.fresh_val(self.st, view.ty, "md")
        self.M.write(self.st, view.root, list(view.proj), view.ty, v)

    def heap(self, disp):
        if disp.startswith("!"):
            return self.M.havoc_log(self.st, disp[1:])
        k = canon(disp)
        t = self.M.db.find_ty(k)
        if t is None:
            raise AnchorLost("type " + disp)
        self.M.heap(self.st, t)
        self.M.havoc_heap(self.st, self.M.S.heapkey(t))

    def all_heaps(self, except_=()):
        for k in list(self.st.heaps):
            if k not in except_:
                self.M.havoc_heap(self.st, k)
        self.M.new_epoch(self.st)


class LoopCtx:
    def __init__(self, M, st, pre, fr, fn):
        self.M, self.st, self.fr, self.fn = M, st, fr, fn
        self.c = Ctx(M, st)
        self.prec = Ctx(M, pre)
        self.extra = None

    def var(self, name):
        for n, p in self.fn.dbg:
            if n == name and not p[1] and (self.fr, p[0]) in self.st.mem:
                return View(self.c, ("L", self.fr, p[0]), (), self.fn.locals[p[0]])
        raise AnchorLost("variable " + name)

    def arg(self, i):
        return View(self.c, ("L", self.fr, i + 1), (), self.fn.locals[i + 1])

    def prearg(self, i):
        return View(self.prec, ("L", self.fr, i + 1), (), self.fn.locals[i + 1])

    def start(self, i):
        """argument i when the function was entered"""
        return View(self.entryc, ("L", self.fr, i + 1), (), self.fn.locals[i + 1])

    @property
    def entryc(self):
        e = self.M.frame_entry.get(self.fr)
        if e is None:
            raise AnchorLost("entry of the function")
        return Ctx(self.M, e)

    def iters(self):
        """live model iterators of this frame"""
        if self.extra is not None:
            return self.extra
        out = []
        for (f, l), v in self.st.mem.items():
            if f == self.fr and isinstance(v, PV):
                out.append(v)
            if f == self.fr and isinstance(v, Agg):
                out.extend(x for x in v.fields if isinstance(x, PV))
        return out

    def locals_of(self, pred):
        """values of user variables of this frame whose type satisfies pred"""
        out = []
        for n, p in self.fn.dbg:
            if not p[1] and (self.fr, p[0]) in self.st.mem and pred(self.fn.locals[p[0]]):
                out.append(View(self.c, ("L", self.fr, p[0]), (), self.fn.locals[p[0]]))
        return out
