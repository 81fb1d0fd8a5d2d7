"""Deductive verifier for the C sources: symbolic execution of clang's AST into
verification conditions.

* function by function: a callee with a contract is replaced by its contract
  (precondition checked, frame havocked, postcondition assumed); a callee
  without one (a small helper, a static inline) is executed in place;
* loops: cut at the head by an inductive invariant.  Invariants are generated
  from the body's own recurrences and from the function's postcondition
  (prefix weakening), and every one that is used was proved initially true and
  preserved (Houdini).  No iteration bound;
* `unroll=K` instead executes at most K iterations (used only as the labelled
  bounded stand-in).
"""
import z3
from . import cast
from .cast import CType, parse_type
from .smt import *


class Unsupported(Exception):
    pass


class Dead(Exception):
    pass


class Ptr:
    __slots__ = ("base", "off", "loc", "pend", "fn")

    def __init__(self, base, off=None, loc=None, pend=None, fn=None):
        self.base = base
        self.off = ival(0) if off is None else off
        self.loc = loc      # (struct, field) : pointer to a scalar field of `base`
        self.pend = pend    # ('calloc',) / ('realloc', Ptr): typed at the next cast
        self.fn = fn        # function name when statically known

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.base, self.off, self.loc)


NULL = Ptr(ival(0))


class SVal:
    """struct rvalue: address of a snapshot"""
    def __init__(self, tag, base):
        self.tag = tag
        self.base = base


def kind_of(t):
    """array-cell kind for scalar type t"""
    if t.k == "double":
        return "double"
    if t.k == "int":
        if t.name in ("bool", "_Bool"):
            return "bool"
        return "i%d" % t.size
    if t.k == "ptr":
        if t.to.k == "struct":
            return "p:" + t.to.name
        if t.to.k == "fn":
            return "p:fn"
        return "p:" + kind_of(t.to) if t.to.k in ("int", "double", "ptr") else "p:void"
    if t.k == "void":
        return "void"
    raise Unsupported("array of " + repr(t))


def kind_sort(kind):
    return R if kind == "double" else I


EMB = {}


def emb_fn(name):
    if name not in EMB:
        EMB[name] = (z3.Function("emb_" + name, I, I), z3.Function("own_" + name, I, I), len(EMB) + 1)
    return EMB[name]


EMBTAG = z3.Function("embtag", I, I)
ELEM = z3.Function("elem", I, I, I)
SUMR = z3.Function("SUMR", AR, I, R)
SUMI = z3.Function("SUMI", AI, I, I)


class State:
    __slots__ = ("vars", "heap", "pc", "nxt", "seen", "ext")

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.pc = []       # list of (kind, term); kind 'b' branch, 'f' fact
        self.nxt = None
        self.seen = {}
        self.ext = {}      # extension state (streams ...), values must be immutable

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.nxt = self.nxt
        s.seen = dict(self.seen)
        s.ext = dict(self.ext)
        return s

    def fact(self, t):
        if z3.is_true(t):
            return
        i = t.get_id()
        if i in self.seen:
            return
        self.seen[i] = t
        self.pc.append(("f", t))

    def branch(self, t):
        if z3.is_true(t):
            return
        self.pc.append(("b", t))

    def terms(self):
        return [t for _, t in self.pc]


_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ,
           z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT}


def pat_ok(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in _BADPAT:
                return False
            stack.extend(x.children())
    return True


def mk_forall(vs, body, ps, auto=None):
    ok = []
    for p in ps or []:
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT and not pat_ok(p) and len(vs) == 1 \
                and p.arg(1).eq(vs[0]):
            ok += [q for q in auto_pats(p == p if False else p, vs[0]) if pat_ok(q)]
        elif pat_ok(p):
            ok.append(p)
    if not ok and len(vs) == 1:
        ok = [q for q in auto_pats(body, vs[0]) if pat_ok(q)]
    try:
        return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def auto_pats(body, j):
    """alternative single-term patterns: every read T[j] (and f(j)) of the body,
    with T reduced to the arrays underneath stores and conditionals"""
    out = []
    def addp(t):
        if not any(t.eq(o) for o in out):
            out.append(t)
    jid = j.get_id()
    jn = j.decl().name()
    def leaves(T, depth=0):
        if depth > 12 or jn in consts_of(T):
            return
        if z3.is_app(T):
            k = T.decl().kind()
            if k == z3.Z3_OP_STORE:
                leaves(T.arg(0), depth + 1)
                return
            if k == z3.Z3_OP_ITE:
                leaves(T.arg(1), depth + 1)
                leaves(T.arg(2), depth + 1)
                return
            if k == z3.Z3_OP_SELECT:
                A, b = T.arg(0), T.arg(1)
                addp(z3.Select(T, j))
                while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
                    if z3.is_array(A.arg(2)):
                        leaves(A.arg(2), depth + 1)
                    A = A.arg(0)
                if not A.eq(T.arg(0)):
                    leaves(z3.Select(A, b), depth + 1)
                return
            if k == z3.Z3_OP_CONST_ARRAY:
                return
        addp(z3.Select(T, j))
    seen = set()
    stack = [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if not z3.is_app(t):
            continue
        if t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).get_id() == jid:
            leaves(t.arg(0))
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and any(c.get_id() == jid for c in t.children()) \
                and all(c.get_id() == jid or jn not in consts_of(c) for c in t.children()):
            addp(t)
        stack.extend(t.children())
    return out[:10]


BOUND = [None]     # bounded mode: every range quantifier and sum has at most this many terms


class Forall:
    """forall j in [lo,hi): f(j)"""
    def __init__(self, lo, hi, f, pats=None, name="j"):
        self.lo = lo if not isinstance(lo, int) else ival(lo)
        self.hi = hi if not isinstance(hi, int) else ival(hi)
        self.f = f
        self.pats = pats
        self.name = name

    def as_fact(self):
        if BOUND[0] is not None:
            js = [simp(self.lo + i) for i in range(BOUND[0])]
            return conj([z3.Implies(j < self.hi, conj(self.f(j))) for j in js])
        j = fresh("q" + self.name, I)
        body = conj(self.f(j))
        if z3.is_true(body):
            return body
        g = z3.Implies(z3.And(self.lo <= j, j < self.hi), body)
        if self.pats is not None:
            ps = self.pats(j)
            ps = ps if isinstance(ps, list) else [ps]
            return mk_forall([j], g, ps)
        return mk_forall([j], g, None)

    def as_goal(self):
        if BOUND[0] is not None:
            js = [simp(self.lo + i) for i in range(BOUND[0])]
            return z3.Implies(self.hi - self.lo <= BOUND[0],
                              conj([z3.Implies(j < self.hi, conj(self.f(j), goal=True)) for j in js]))
        j = fresh("k" + self.name, I)
        return z3.Implies(z3.And(self.lo <= j, j < self.hi), conj(self.f(j), goal=True))


class ForallP:
    """forall p (any pointer/int): f(p)"""
    def __init__(self, f, pats=None, name="p", n=1):
        self.f = f
        self.pats = pats
        self.name = name
        self.n = n

    def as_fact(self):
        js = [fresh("q" + self.name, I) for _ in range(self.n)]
        body = conj(self.f(*js))
        if z3.is_true(body):
            return body
        if self.pats is not None:
            ps = self.pats(*js)
            ps = ps if isinstance(ps, list) else [ps]
            return mk_forall(js, body, ps)
        return mk_forall(js, body, None)

    def as_goal(self):
        js = [fresh("k" + self.name, I) for _ in range(self.n)]
        return conj(self.f(*js), goal=True)


class Dual:
    """different formula as assumption and as goal (skolemised existentials)"""
    def __init__(self, fact, goal):
        self.f_ = fact
        self.g_ = goal

    def as_fact(self):
        return conj(self.f_)

    def as_goal(self):
        return conj(self.g_, goal=True)


def conj(x, goal=False):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, (list, tuple)):
        xs = [conj(y, goal) for y in x if y is not None]
        xs = [y for y in xs if not z3.is_true(y)]
        if not xs:
            return z3.BoolVal(True)
        return xs[0] if len(xs) == 1 else z3.And(*xs)
    if hasattr(x, "as_goal"):
        return x.as_goal() if goal else x.as_fact()
    return x


def flat(fs):
    for f in fs:
        if z3.is_and(f):
            yield from flat(f.children())
        else:
            yield f


def solve_defs(fs, F):
    """substitution [(const, term)] for the constants in F (name -> const) that the
    formulas fs define by equations"""
    sub = {}
    fl = list(flat(fs))
    bools = set()
    for f in fl:
        if z3.is_or(f) and f.num_args() == 2:
            cs = f.children()
            if all(z3.is_eq(x) and z3.is_const(x.arg(0)) for x in cs) and cs[0].arg(0).eq(cs[1].arg(0)):
                vals = sorted(str(x.arg(1)) for x in cs)
                if vals == ["0", "1"]:
                    bools.add(cs[0].arg(0).decl().name())

    def put(v, t):
        nm = v.decl().name()
        if nm in sub:
            return False
        t = z3.substitute(t, *[(F[k], x) for k, x in sub.items()]) if sub else t
        if t.sort() != v.sort() or nm in consts_of(t):
            return False
        for k in list(sub):
            sub[k] = z3.substitute(sub[k], (v, t))
        sub[nm] = t
        return True
    for f in fl:
        if not z3.is_eq(f):
            continue
        a, b = f.children()
        for x, y in ((a, b), (b, a)):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in F:
                if put(x, y):
                    break
            if z3.is_bool(x) and z3.is_eq(x) and z3.is_const(x.arg(0)) and x.arg(0).decl().name() in F \
                    and x.arg(0).decl().name() in bools and str(x.arg(1)) == "1" and x.arg(0).sort() == I:
                if put(x.arg(0), z3.If(y, ival(1), ival(0))):
                    break
    return [(F[k], t) for k, t in sub.items()]


# ------------------------------------------------------------ spec views
class Obj:
    def __init__(self, ex, st, base, tag):
        self.__dict__["_x"] = ex
        self.__dict__["_s"] = st
        self.__dict__["_b"] = base
        self.__dict__["_t"] = tag

    def __getattr__(self, f):
        return self._x.view_field(self._s, self._b, self._t, f)

    def _at(self, st):
        return Obj(self._x, st, self._b, self._t)

    def as_(self, tag):
        return Obj(self._x, self._s, self._b, tag)


class Arr:
    def __init__(self, ex, st, base, off, kind):
        self._x, self._s, self._b, self._o, self._k = ex, st, base, off, kind

    def __getitem__(self, i):
        if isinstance(i, int):
            i = ival(i)
        idx = self._o + i if not (z3.is_int_value(self._o) and self._o.as_long() == 0) else i
        v = sel(sel(self._x.hmap(self._s, ("A", self._k)), self._b), idx)
        if self._k.startswith("p:"):
            tag = self._k[2:]
            if tag in self._x.prog.structs:
                return Obj(self._x, self._s, v, tag)
            if tag not in ("fn", "void"):
                return Arr(self._x, self._s, v, ival(0), tag)
        return v

    @property
    def arr(self):
        return sel(self._x.hmap(self._s, ("A", self._k)), self._b)

    def _at(self, st):
        return Arr(self._x, st, self._b, self._o, self._k)


class View:
    def __init__(self, ctx, st):
        self._c, self._s = ctx, st

    def __getattr__(self, n):
        return self._c.view(n, self._s)


class Ctx:
    """Environment in which a contract is evaluated."""

    def __init__(self, ex, con, params, ptypes, old, new=None, ret=None, rtype=None):
        self.ex = ex
        self.con = con
        self.params = params
        self.ptypes = ptypes
        self.old = old
        self.new = new if new is not None else old
        self._ret = ret
        self.rtype = rtype
        self.o = View(self, self.old)
        self.n = View(self, self.new)

    def view(self, n, st):
        i = self.con.params.index(n)
        return self.ex.wrap(st, self.params[i], self.ptypes[i])

    def raw(self, n):
        return self.params[self.con.params.index(n)]

    @property
    def ret(self):
        if self._ret is None:
            return None
        return self.ex.wrap(self.new, self._ret, self.rtype)

    def obj(self, base, tag, st=None):
        return Obj(self.ex, st if st is not None else self.new, base, tag)

    def g(self, name, st=None):
        """ghost map"""
        return self.ex.hmap(st if st is not None else self.new, ("G", name))

    def field(self, tag, f, st=None):
        return self.ex.hmap(st if st is not None else self.new, ("F", tag, f))

    def arrs(self, kind, st=None):
        return self.ex.hmap(st if st is not None else self.new, ("A", kind))

    def sum(self, n, f, real=True):
        return self.ex.mk_sum(f, n, real)

    def nxt(self, st):
        return st.nxt


GHOST_SORTS = {}


class Contract:
    def __init__(self, name, params, requires=None, ensures=None, modifies=None,
                 trusted=False, cands=None, ghost_exit=None, seqs=None, allocs=True,
                 note=None, setup=None, prop=None, roles=None, hints=None, pure=False,
                 defs=None, lemmas=None, noreturn=False, timeout=None, ptypes=None,
                 unroll_bound=3, bounded_setup=None, frame=True, inline=(), opts=None):
        self.name = name
        self.params = params if isinstance(params, list) else params.split()
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.trusted = trusted
        self.cands = cands
        self.ghost_exit = ghost_exit
        self.seqs = seqs
        self.allocs = allocs
        self.note = note
        self.setup = setup
        self.roles = roles
        self.hints = hints
        self.timeout = timeout
        self.ptypes = ptypes
        self.unroll_bound = unroll_bound
        self.bounded_setup = bounded_setup
        self.frame = frame
        self.inline = inline
        self.opts = opts or {}


# locations for modifies clauses
class FAt:
    def __init__(self, tag, field, base):
        self.key = ("F", tag, field)
        self.base = base


class FAll:
    def __init__(self, tag, field):
        self.key = ("F", tag, field)
        self.base = None


class AAt:
    def __init__(self, kind, base):
        self.key = ("A", kind)
        self.base = base


class AAll:
    def __init__(self, kind):
        self.key = ("A", kind)
        self.base = None


class GAt:
    def __init__(self, name, base):
        self.key = ("G", name)
        self.base = base


class GAll:
    def __init__(self, name):
        self.key = ("G", name)
        self.base = None


class Obligation:
    __slots__ = ("facts", "goal", "label", "line", "fn", "status", "model", "kind")

    def __init__(self, facts, goal, label, line, fn, kind):
        self.facts, self.goal, self.label, self.line, self.fn = facts, goal, label, line, fn
        self.kind = kind
        self.status = None
        self.model = None


class Frame:
    def __init__(self, fname, unit, fid):
        self.fname, self.unit, self.fid = fname, unit, fid
        self.addr = set()


class Executor:
    def __init__(self, prog, contracts, builtins=None, unroll=None, max_inline=12, cand_timeout=2.5):
        self.prog = prog
        self.contracts = contracts
        self.builtins = dict(BUILTINS)
        if builtins:
            self.builtins.update(builtins)
        self.unroll = unroll
        self.obls = []
        self.silent = 0
        self.fid = 0
        self.frames = []
        self.cur = None          # contract under verification
        self.cur_ctx = None
        self.wlog = None
        self.max_inline = max_inline
        self.gbase = {}
        self.strs = {}
        self.sums = []           # (arrayconst, body fn term, placeholder, real)
        self.sum_index = {}
        self.inlined = set()
        self.used_contracts = set()
        self.externals = set()
        self.cand_timeout = cand_timeout
        self.init_heap = {}
        self.loop_info = []
        self.cut = False         # bounded mode: some iteration was cut
        self.light = 0
        self.global_facts = []
        self.fnid = {}
        self.deadline = None
        self.nxt0 = None
        self.const_inner = {}

    # ------------------------------------------------------------ heap
    def key_sort(self, key):
        if key[0] == "F":
            t = self.ftype(key[1], key[2]) if len(key) == 3 else CType("int", "int", size=4)
            return z3.ArraySort(I, R if t.k == "double" else I)
        if key[0] == "A":
            return z3.ArraySort(I, z3.ArraySort(I, kind_sort(key[1])))
        if key[0] == "G":
            return GHOST_SORTS.get(key[1], AI)
        raise Unsupported(str(key))

    def hmap(self, st, key):
        m = st.heap.get(key)
        if m is None:
            m = self.init_heap.get(key)
            if m is None:
                # initial maps are shared by all states of one verification
                nm = "H_" + "_".join(str(x) for x in key[0:])
                m = z3.Const(nm, self.key_sort(key))
                self.init_heap[key] = m
            st.heap[key] = m
        return m

    def ftype(self, tag, f):
        fl = self.prog.structs.get(tag)
        if fl is None:
            raise Unsupported("unknown struct " + tag)
        for n, t in fl:
            if n == f:
                return t
        raise Unsupported("no field %s.%s" % (tag, f))

    def wr(self, st, key, base, val):
        m = self.hmap(st, key)
        st.heap[key] = sto(m, base, val)
        if self.wlog is not None:
            self.wlog.append((key, base, None))

    def wr_el(self, st, kind, base, idx, val):
        key = ("A", kind)
        m = self.hmap(st, key)
        inner = sel(m, base)
        st.heap[key] = sto(m, base, sto(inner, idx, val))
        if self.wlog is not None:
            self.wlog.append((key, base, idx))

    def wr_inner(self, st, kind, base, inner):
        key = ("A", kind)
        st.heap[key] = sto(self.hmap(st, key), base, inner)
        if self.wlog is not None:
            self.wlog.append((key, base, None))

    def emb(self, st, base, tag, f):
        fn, own, no = emb_fn(tag + "_" + f)
        e = fn(base)
        if st is not None:
            st.fact(z3.And(own(e) == base, EMBTAG(e) == no, e < -1000000))
        return e

    def alloc(self, st):
        b = st.nxt
        st.nxt = simp(st.nxt + 1)
        return b

    def ptr_fact(self, st, b):
        st.fact(z3.And(b < st.nxt))
        # a pointer stored in the initial heap was allocated before entry
        n0 = self.nxt0
        if n0 is None:
            return
        stack = [b]
        while stack:
            t = stack.pop()
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_ITE:
                stack += [t.arg(1), t.arg(2)]
            elif k == z3.Z3_OP_SELECT:
                self.init_ptr_fact(st, t.arg(0), t.arg(1), n0)

    def init_ptr_fact(self, st, a, idx, n0):
        """every pointer held by the initial heap is below nxt0"""
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            a = a.arg(0)
        if not z3.is_app(a):
            return
        if a.decl().kind() == z3.Z3_OP_ITE:
            self.init_ptr_fact(st, a.arg(1), idx, n0)
            self.init_ptr_fact(st, a.arg(2), idx, n0)
        elif a.decl().kind() == z3.Z3_OP_SELECT:
            m, b = a.arg(0), a.arg(1)
            while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
                m = m.arg(0)
            if z3.is_const(m) and m.decl().name().startswith("H_"):
                st.fact(z3.Implies(b < n0, z3.Select(z3.Select(m, b), idx) < n0))
        elif z3.is_const(a) and a.decl().name().startswith("H_"):
            st.fact(z3.Implies(idx < n0, z3.Select(a, idx) < n0))

    def num_fact(self, st, v, t):
        if t.k == "int" and t.name in ("bool", "_Bool"):
            st.fact(z3.And(v >= 0, v <= 1))
        elif t.k == "int" and t.name in cast.UNSIGNED:
            st.fact(v >= 0)

    def load_field(self, st, base, tag, f):
        t = self.ftype(tag, f)
        if t.k == "struct":
            return SVal(t.name, self.emb(st, base, tag, f))
        if t.k == "arr":
            return Ptr(self.emb(st, base, tag, f))
        v = sel(self.hmap(st, ("F", tag, f)), base)
        if t.k == "ptr":
            off = None
            if ("F", tag, f, "off") in st.heap:
                off = sel(st.heap[("F", tag, f, "off")], base)
            if t.to.k != "fn":
                self.ptr_fact(st, v)
            return Ptr(v, off, fn=None)
        self.num_fact(st, v, t)
        return v

    def store_field(self, st, base, tag, f, val):
        t = self.ftype(tag, f)
        if t.k == "struct":
            self.copy_struct(st, t.name, self.emb(st, base, tag, f), val.base)
            return
        if t.k == "ptr":
            if val.loc is not None:
                raise Unsupported("storing field pointer")
            if not (z3.is_int_value(val.off) and val.off.as_long() == 0):
                key = ("F", tag, f, "off")
                if key not in st.heap:
                    st.heap[key] = z3.K(I, ival(0))
                self.wr(st, key, base, val.off)
            elif ("F", tag, f, "off") in st.heap:
                self.wr(st, ("F", tag, f, "off"), base, val.off)
            self.wr(st, ("F", tag, f), base, val.base)
            return
        if t.k == "double":
            val = toreal(val)
        self.wr(st, ("F", tag, f), base, val)

    def copy_struct(self, st, tag, dst, src):
        for f, t in self.prog.structs[tag]:
            if t.k == "arr":
                self.copy_arr(st, t, self.emb(st, dst, tag, f), self.emb(st, src, tag, f))
            elif t.k == "struct":
                self.copy_struct(st, t.name, self.emb(st, dst, tag, f), self.emb(st, src, tag, f))
            else:
                self.store_field(st, dst, tag, f, self.load_field(st, src, tag, f))

    def copy_arr(self, st, t, dst, src):
        while t.k == "arr":
            t = t.to
        k = kind_of(t)
        self.wr_inner(st, k, dst, sel(self.hmap(st, ("A", k)), src))

    # ------------------------------------------------------------ views (specs)
    def view_field(self, st, base, tag, f):
        t = self.ftype(tag, f)
        if t.k == "struct":
            return Obj(self, st, self.emb(None, base, tag, f), t.name)
        if t.k == "arr":
            e = t.to
            while e.k == "arr":
                e = e.to
            return Arr(self, st, self.emb(None, base, tag, f), ival(0), kind_of(e))
        v = sel(self.hmap(st, ("F", tag, f)), base)
        if t.k == "ptr":
            return self.wrap(st, Ptr(v), t)
        return v

    def wrap(self, st, v, t):
        if isinstance(v, Ptr) and v.loc is not None:
            return v
        if isinstance(v, Ptr):
            if t.k == "arr":
                t = CType("ptr", to=t.to)
            if t.k == "ptr" and t.to.k == "struct":
                return Obj(self, st, v.base, t.to.name)
            if t.k == "ptr" and t.to.k in ("int", "double", "ptr"):
                return Arr(self, st, v.base, v.off, kind_of(t.to))
            if t.k == "ptr" and t.to.k == "void":
                return Obj(self, st, v.base, "void")
            return v.base
        return v

    # ------------------------------------------------------------ sums
    def mk_sum(self, f, n, real=True):
        if BOUND[0] is not None:
            n = n if not isinstance(n, int) else ival(n)
            z = rval(0) if real else ival(0)
            t = z
            for i in range(BOUND[0]):
                t = t + z3.If(ival(i) < n, f(ival(i)), z)
            return t
        k = z3.Const("sum_k", I)
        body = z3.simplify(f(k))
        key = body.get_id()
        ent = self.sum_index.get((key, real))
        if ent is None or not ent[1].eq(body):
            D = fresh("D", AR if real else AI)
            CREATED[D.decl().name()] = max([CREATED.get(nm, 0) for nm in consts_of(body)] + [0])
            ent = (D, body, k, real)
            self.sum_index[(key, real)] = ent
            self.sums.append(ent)
            S = SUMR if real else SUMI
            self.global_facts.append(S(D, ival(0)) == (rval(0) if real else ival(0)))
            self.global_facts.append(z3.ForAll([k], D[k] == body, patterns=[D[k]]))
        S = SUMR if real else SUMI
        return S(ent[0], n if not isinstance(n, int) else ival(n))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, line=None, kind="assert"):
        if self.silent:
            return
        goal = conj(goal, goal=True)
        if z3.is_true(goal):
            g = goal
        self.obls.append(Obligation(st.terms(), goal, label, line,
                                    self.frames[-1].fname if self.frames else "", kind))

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        cur = states[0]
        for s in states[1:]:
            cur = self.merge2(cur, s)
        return cur

    def merge2(self, a, b):
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and (a.pc[n] is b.pc[n] or a.pc[n][1].eq(b.pc[n][1])):
            n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        ca = conj([t for k, t in sa if k == "b"])
        cb = conj([t for k, t in sb if k == "b"])
        if z3.is_true(ca) and not z3.is_true(cb):
            # use b's selector (negated): states are mutually exclusive
            selc = z3.Not(cb)
        else:
            selc = ca
        r = State()
        r.pc = a.pc[:n]
        r.seen = {t.get_id(): t for k, t in r.pc if k == 'f'}
        comp = z3.simplify(z3.Or(ca, cb))
        if not z3.is_true(comp):
            r.branch(z3.Or(ca, cb))
        fa = [t for k, t in sa if k == "f"]
        fb = [t for k, t in sb if k == "f"]
        ida = {t.get_id() for t in fa}
        idb = {t.get_id() for t in fb}
        for t in fa:
            if t.get_id() in idb:
                r.fact(t)
            else:
                r.fact(z3.Implies(ca, t))
        for t in fb:
            if t.get_id() not in ida:
                r.fact(z3.Implies(cb, t))
        for key in set(a.heap) | set(b.heap):
            x, y = self._hm(a, key), self._hm(b, key)
            r.heap[key] = merge_arr(selc, x, y)
        for v in set(a.vars) & set(b.vars):
            va = a.vars[v]
            r.vars[v] = va if isinstance(va, tuple) else self.mergev(selc, va, b.vars[v])
        if a.nxt.eq(b.nxt):
            r.nxt = a.nxt
        else:
            r.nxt = z3.If(selc, a.nxt, b.nxt)
        for k in set(a.ext) | set(b.ext):
            x, y = a.ext.get(k), b.ext.get(k)
            if isinstance(k, tuple) and k[0] == "ginit" and (x is None or y is None):
                continue
            if isinstance(k, tuple) and k[0] == "gfn":
                r.ext[k] = x or y
                continue
            if x is y or x == y:
                r.ext[k] = x
            else:
                r.ext[k] = self.merge_ext(k, selc, x, y)
        return r

    def merge_ext(self, k, c, x, y):
        if hasattr(x, "merge"):
            return x.merge(c, y)
        raise Unsupported("merge of ext state " + str(k))

    def _hm(self, s, key):
        if key in s.heap:
            return s.heap[key]
        if len(key) == 4:
            return z3.K(I, ival(0))
        return self.hmap(s, key)

    def mergev(self, c, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.loc != y.loc:
                if z3.is_int_value(x.base) and x.base.as_long() == 0:
                    return Ptr(merge_val(c, x.base, y.base), y.off, y.loc)
                if z3.is_int_value(y.base) and y.base.as_long() == 0:
                    return Ptr(merge_val(c, x.base, y.base), x.off, x.loc)
                return None
            fn = x.fn if x.fn == y.fn else None
            return Ptr(merge_val(c, x.base, y.base), merge_val(c, x.off, y.off), x.loc, fn=fn)
        if isinstance(x, SVal) or isinstance(y, SVal):
            if isinstance(x, SVal) and isinstance(y, SVal) and x.base.eq(y.base):
                return x
            return None
        if x is None or y is None:
            return None
        if x.sort() != y.sort():
            return merge_val(c, toreal(x), toreal(y))
        return merge_val(c, x, y)

    # ------------------------------------------------------------ types
    def ty(self, n):
        t = n["type"]
        return parse_type(t.get("desugaredQualType", t["qualType"]), self.prog.typedefs)

    def havoc_val(self, name, t):
        if t.k == "double":
            return fresh(name, R)
        if t.k == "int":
            return fresh(name, I)
        if t.k == "ptr":
            return Ptr(fresh(name, I))
        raise Unsupported("havoc " + repr(t))

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return self.lv(n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                key = (self.frames[-1].fid, d["id"])
                if key in st.vars:
                    v = st.vars[key]
                    if isinstance(v, tuple) and v[0] == "mem":
                        t = v[2]
                        if t.k == "struct":
                            return ("struct", t.name, v[1])
                        if t.k == "arr":
                            return ("arr", t, v[1], ival(0))
                        return ("el", t, v[1], ival(0))
                    return ("var", key, self.ty(d))
                return self.global_lv(d, st)
            raise Unsupported("lvalue decl " + d["kind"])
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                p = self.ev(b, st)
                bt = self.ty(b)
                tag = bt.to.name
                base = p.base
                if p.loc is not None:
                    raise Unsupported("arrow via field pointer")
                if not (z3.is_int_value(p.off) and p.off.as_long() == 0):
                    base = self.elem_base(st, p.base, p.off)
            else:
                l = self.lv(b, st)
                if l[0] != "struct":
                    raise Unsupported("member of non-struct")
                tag, base = l[1], l[2]
            f = n["name"]
            t = self.ftype(tag, f)
            if t.k == "struct":
                return ("struct", t.name, self.emb(st, base, tag, f))
            if t.k == "arr":
                return ("arr", t, self.emb(st, base, tag, f), ival(0))
            return ("field", tag, f, base, t)
        if k == "ArraySubscriptExpr":
            p = self.ev(n["inner"][0], st)
            i = self.ev(n["inner"][1], st)
            if not isinstance(p, Ptr):
                p, i = i, p
            elif self.cur is not None and self.cur.opts.get("bounds"):
                # index of an array of fixed size
                a = n["inner"][0]
                if a["kind"] == "ImplicitCastExpr" and a.get("castKind") == "ArrayToPointerDecay":
                    ta = self.ty(a["inner"][0])
                    if ta.k == "arr" and isinstance(ta.n, int):
                        self.oblige(st, z3.And(i >= 0, i < ta.n), "index within an array of %d" % ta.n, n.get("_line"), "safety")
            return self.deref(p, i, self.ty(n), st)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0], st)
            t = self.ty(n)
            return self.deref(p, ival(0), t, st)
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            return self.lv(n["inner"][0], st)
        if k == "StringLiteral":
            return ("arr", self.ty(n), self.strlit(n).base, ival(0))
        if k == "CompoundLiteralExpr":
            t = self.ty(n)
            base = self.alloc(st)
            self.init_mem(st, base, t, n["inner"][0])
            if t.k == "struct":
                return ("struct", t.name, base)
            return ("arr", t, base, ival(0))
        if k == "UnaryOperator" and n["opcode"] == "__extension__":
            return self.lv(n["inner"][0], st)
        raise Unsupported("lvalue " + k)

    def elem_base(self, st, base, off):
        if z3.is_int_value(off) and off.as_long() == 0:
            return base
        return ELEM(base, off)

    def nscal(self, t):
        n = 1
        while t.k == "arr":
            n *= t.n
            t = t.to
        return n

    def deref(self, p, i, t, st):
        if not isinstance(p, Ptr):
            raise Unsupported("deref of non pointer")
        if p.loc is not None:
            tag, f = p.loc
            return ("field", tag, f, p.base, self.ftype(tag, f))
        if t.k == "struct":
            off = simp(p.off + i)
            return ("struct", t.name, self.elem_base(st, p.base, off))
        if t.k == "arr":
            return ("arr", t, p.base, simp(p.off + i * self.nscal(t)))
        if t.k == "fn":
            return ("fnptr", p)
        return ("el", t, p.base, simp(p.off + i))

    def load(self, l, st):
        if l[0] == "var":
            v = st.vars.get(l[1])
            if v is None:
                v = self.havoc_val("uninit", l[2])
                st.vars[l[1]] = v
            return v
        if l[0] == "field":
            return self.load_field(st, l[3], l[1], l[2])
        if l[0] == "el":
            k = kind_of(l[1])
            ci = self.const_inner.get(l[2].as_long()) if z3.is_int_value(l[2]) else None
            if ci is not None:
                v = z3.Select(ci, l[3])
            else:
                v = sel(sel(self.hmap(st, ("A", k)), l[2]), l[3])
            if l[1].k == "ptr":
                if l[1].to.k != "fn":
                    self.ptr_fact(st, v)
                off = None
                ok = ("A", k + "#off")
                if ok in st.heap:
                    off = sel(sel(st.heap[ok], l[2]), l[3])
                return Ptr(v, off)
            self.num_fact(st, v, l[1])
            return v
        if l[0] == "struct":
            return SVal(l[1], l[2])
        if l[0] == "arr":
            return Ptr(l[2], l[3])
        if l[0] == "fnptr":
            return l[1]
        raise Unsupported("load " + l[0])

    def conv(self, v, t):
        if t.k == "double" and not isinstance(v, (Ptr, SVal)):
            return toreal(v)
        return v

    def store(self, l, v, st):
        if l[0] == "var":
            st.vars[l[1]] = self.conv(v, l[2])
        elif l[0] == "field":
            self.store_field(st, l[3], l[1], l[2], v)
        elif l[0] == "el":
            k = kind_of(l[1])
            if l[2].get_id() in getattr(self, "blocks", ()):
                w = self.prog.sizeof(l[1])
                self.oblige(st, z3.And(l[3] >= 0, (l[3] + 1) * w <= sel(self.hmap(st, ("G", "bytes")), l[2])), "the element written lies within the block", None, "safety")
            if l[1].k == "ptr":
                if v.loc is not None:
                    raise Unsupported("storing field pointer in array")
                if not (z3.is_int_value(v.off) and v.off.as_long() == 0):
                    ok = ("A", k + "#off")
                    if ok not in st.heap:
                        st.heap[ok] = z3.K(I, z3.K(I, ival(0)))
                    self.wr_el(st, k + "#off", l[2], l[3], v.off)
                self.wr_el(st, k, l[2], l[3], v.base)
            else:
                self.wr_el(st, k, l[2], l[3], self.conv(v, l[1]))
        elif l[0] == "struct":
            self.copy_struct(st, l[1], l[2], v.base)
        else:
            raise Unsupported("store " + l[0])

    def addr_of(self, n, st):
        while n["kind"] in ("ParenExpr",):
            n = n["inner"][0]
        if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] == "FunctionDecl":
            return self.fnptr(n["referencedDecl"]["name"])
        l = self.lv(n, st)
        if l[0] == "field":
            return Ptr(l[3], None, loc=(l[1], l[2]))
        if l[0] == "el":
            return Ptr(l[2], l[3])
        if l[0] == "struct":
            return Ptr(l[2])
        if l[0] == "arr":
            return Ptr(l[2], l[3])
        if l[0] == "fnptr":
            return l[1]
        raise Unsupported("address of " + l[0])

    def fnptr(self, name):
        if name not in self.fnid:
            # stable across runs of one process: hash by name order
            self.fnid[name] = len(self.fnid) + 1
        return Ptr(z3.Const("fn_" + name, I), fn=name)

    # ------------------------------------------------------------ globals
    def global_base(self, name):
        if name not in self.gbase:
            self.gbase[name] = ival(-(len(self.gbase) + 10))
        return self.gbase[name]

    def global_lv(self, d, st):
        name = d["name"]
        g = self.frames[-1].unit.gvars.get(d["id"]) or self.frames[-1].unit.gvars.get(name)
        g2 = self.prog.gvars.get(name)
        if g is None or (not g.get("inner") and g2 is not None and g2.get("inner")):
            g = g2 or g
        t = self.ty(d)
        uname = name
        if g is not None and g.get("storageClass") == "static":
            uname = self.frames[-1].unit.path + ":" + name
        base = self.global_base(uname)
        q = d["type"]["qualType"]
        inits = [c for c in (g or {}).get("inner", []) if c.get("kind") not in ("FullComment",)]
        if g is not None and inits and ("const" in q) and ("ginit", uname) not in st.ext:
            st.ext[("ginit", uname)] = True
            tmp_w = self.wlog
            self.wlog = None
            gt = self.ty(g)
            self.init_const(st, base, gt, inits[-1])
            self.wlog = tmp_w
        if t.k == "arr" and g is not None:
            t = self.ty(g) if self.ty(g).k == "arr" else t
        if t.k == "struct":
            return ("struct", t.name, base)
        if t.k == "arr":
            return ("arr", t, base, ival(0))
        return ("el", t, base, ival(0))

    def init_const(self, st, base, t, init):
        """facts about a const global"""
        if t.k == "arr":
            kind_t = t
            while kind_t.k == "arr":
                kind_t = kind_t.to
            if kind_t.k == "struct":
                return
            vals = self.flat_init(st, t, init)
            inner = sel(self.hmap(st, ("A", kind_of(kind_t))), base)
            nums = [self.conv(v, kind_t) for v in vals if not isinstance(v, Ptr)]
            nums = [z3.simplify(v) for v in nums]
            if z3.is_int_value(base):
                ci = z3.Const("constarr_%d" % base.as_long(), inner.sort())
                self.const_inner[base.as_long()] = ci
                for i, v in enumerate(vals):
                    st.fact(z3.Select(ci, ival(i)) == (v.base if isinstance(v, Ptr) else self.conv(v, kind_t)))
                if nums and len(nums) == len(vals) and all(is_num(v) for v in nums):
                    fr = lambda v: v.as_fraction() if z3.is_rational_value(v) else v.as_long()
                    lo, hi = min(nums, key=fr), max(nums, key=fr)
                    st.fact(Forall(0, len(vals), lambda j: z3.And(lo <= ci[j], ci[j] <= hi), pats=lambda j: ci[j]).as_fact())
            for i, v in enumerate(vals):
                st.fact(z3.Select(inner, ival(i)) == (v.base if isinstance(v, Ptr) else self.conv(v, kind_t)))
        elif t.k == "struct":
            if init["kind"] != "InitListExpr":
                return
            fl = self.prog.structs.get(t.name, [])
            for (f, ft), e in zip(fl, init.get("inner", [])):
                if ft.k == "ptr" and ft.to.k == "fn":
                    v = self.ev(e, st)
                    if v.fn:
                        st.ext[("gfn", base.as_long(), f)] = v.fn
        else:
            v = self.ev(init, st)
            inner = sel(self.hmap(st, ("A", kind_of(t))), base)
            st.fact(z3.Select(inner, ival(0)) == (v.base if isinstance(v, Ptr) else self.conv(v, t)))

    def flat_init(self, st, t, init):
        n = self.nscal(t)
        if init["kind"] == "StringLiteral":
            s = eval_c_string(init["value"])
            return [ival(ord(ch)) for ch in s] + [ival(0)] * (n - len(s))
        out = []
        elems = init.get("inner", [])
        if init.get("array_filler"):
            elems = [e for e in init["array_filler"] if e.get("kind") != "ImplicitValueInitExpr"]
        for e in elems:
            if t.to.k == "arr":
                out += self.flat_init(st, t.to, e)
            else:
                out.append(self.ev(e, st))
        e0 = t
        while e0.k == "arr":
            e0 = e0.to
        z = rval(0) if e0.k == "double" else (NULL if e0.k == "ptr" else ival(0))
        while len(out) < n:
            out.append(z)
        return out

    def init_mem(self, st, base, t, init):
        if t.k == "arr":
            e0 = t
            while e0.k == "arr":
                e0 = e0.to
            if e0.k == "struct":
                raise Unsupported("array of struct init")
            vals = self.flat_init(st, t, init)
            for i, v in enumerate(vals):
                self.store(("el", e0, base, ival(i)), v, st)
        elif t.k == "struct":
            if init["kind"] == "InitListExpr":
                fl = self.prog.structs[t.name]
                elems = init.get("inner", [])
                for (f, ft), e in zip(fl, elems):
                    if ft.k in ("arr", "struct"):
                        self.init_mem(st, self.emb(st, base, t.name, f), ft, e)
                    else:
                        self.store_field(st, base, t.name, f, self.ev(e, st))
                for (f, ft) in fl[len(elems):]:
                    self.zero_field(st, base, t.name, f, ft)
            elif init["kind"] == "ImplicitValueInitExpr":
                self.zero_struct(st, base, t.name)
            else:
                v = self.ev(init, st)
                self.copy_struct(st, t.name, base, v.base)
        else:
            self.store(("el", t, base, ival(0)), self.ev(init, st), st)

    def zero_field(self, st, base, tag, f, ft):
        if ft.k == "struct":
            self.zero_struct(st, self.emb(st, base, tag, f), ft.name)
        elif ft.k == "arr":
            e0 = ft
            while e0.k == "arr":
                e0 = e0.to
            if e0.k == "struct":
                return
            k = kind_of(e0)
            self.wr_inner(st, k, self.emb(st, base, tag, f), z3.K(I, rval(0) if k == "double" else ival(0)))
        else:
            z = rval(0) if ft.k == "double" else (NULL if ft.k == "ptr" else ival(0))
            self.store_field(st, base, tag, f, z)

    def zero_struct(self, st, base, tag):
        for f, ft in self.prog.structs[tag]:
            self.zero_field(st, base, tag, f, ft)

    def strlit(self, n):
        s = eval_c_string(n["value"])
        return self.strconst(s)

    def strconst(self, s):
        s = s.split("\0")[0]
        if s not in self.strs:
            self.strs[s] = ival(-(len(self.strs) + 100000))
        return Ptr(self.strs[s])

    def str_of(self, p):
        if isinstance(p, Ptr) and z3.is_int_value(p.base):
            for s, b in self.strs.items():
                if b.eq(p.base):
                    return s
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported("expr " + k)
        return m(n, st)

    def ev_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def ev_ConstantExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def ev_IntegerLiteral(self, n, st):
        return ival(int(n["value"]))

    def ev_CharacterLiteral(self, n, st):
        return ival(int(n["value"]))

    def ev_FloatingLiteral(self, n, st):
        v = n["value"]
        f = float(v)
        if f == float("inf"):
            return z3.Const("INFINITY_", R)
        if f >= 1e300:
            # the largest doubles only act as bounds: a constant above every number of ordinary size
            k = z3.Const("HUGE_%s" % repr(f), R)
            st.fact(k > z3.RealVal(10 ** 30))
            return k
        from fractions import Fraction
        fr = Fraction(repr(f))   # the shortest decimal denoting the double
        if "0x" in v.lower() or 0 < abs(f) < 1e-12:
            fr = Fraction(f)
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))

    def ev_StringLiteral(self, n, st):
        return self.strlit(n)

    def ev_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "FunctionDecl":
            return self.fnptr(d["name"])
        if d["kind"] == "EnumConstantDecl":
            raise Unsupported("enum constant")
        return self.load(self.lv(n, st), st)

    def ev_MemberExpr(self, n, st):
        return self.load(self.lv(n, st), st)

    def ev_ArraySubscriptExpr(self, n, st):
        return self.load(self.lv(n, st), st)

    def ev_CompoundLiteralExpr(self, n, st):
        return self.load(self.lv(n, st), st)

    def ev_ImplicitValueInitExpr(self, n, st):
        t = self.ty(n)
        return rval(0) if t.k == "double" else (NULL if t.k == "ptr" else ival(0))

    def ev_InitListExpr(self, n, st):
        t = self.ty(n)
        if t.k in ("struct", "arr"):
            base = self.alloc(st)
            self.init_mem(st, base, t, n)
            return SVal(t.name, base) if t.k == "struct" else Ptr(base)
        return self.ev(n["inner"][0], st)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if "argType" in n:
            t = parse_type(n["argType"].get("desugaredQualType", n["argType"]["qualType"]), self.prog.typedefs)
        else:
            t = self.ty(n["inner"][0])
        s = self.prog.sizeof(t)
        if s is None:
            return z3.Const("sizeof_" + str(t), I)
        return ival(s)

    def ev_GNUNullExpr(self, n, st):
        return NULL

    def ev_PredefinedExpr(self, n, st):
        return self.strconst("__func__")

    def ev_StmtExpr(self, n, st):
        outs = self.ex(n["inner"][0], st.copy())
        ns = [s for k, s, v in outs if k == "normal"]
        m = self.merge(ns)
        if m is None:
            raise Dead()
        self.assign_state(st, m)
        return ival(0)

    def assign_state(self, st, m):
        st.vars, st.heap, st.pc, st.nxt, st.seen, st.ext = m.vars, m.heap, m.pc, m.nxt, m.seen, m.ext

    def ev_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    def ev_CStyleCastExpr(self, n, st):
        return self.cast(n, st)

    def cast(self, n, st):
        ck = n.get("castKind")
        e = n["inner"][0]
        if ck == "LValueToRValue":
            return self.load(self.lv(e, st), st)
        if ck == "ArrayToPointerDecay":
            l = self.lv(e, st)
            if l[0] == "arr":
                return Ptr(l[2], l[3])
            v = self.load(l, st)
            return v
        if ck == "FunctionToPointerDecay":
            return self.ev(e, st)
        if ck == "NullToPointer":
            return NULL
        v = self.ev(e, st)
        t = self.ty(n)
        if ck in ("NoOp", "BuiltinFnToFnPtr"):
            return v
        if ck == "ToVoid":
            return ival(0)
        if ck == "BitCast":
            if isinstance(v, Ptr) and v.pend is not None and t.k == "ptr":
                return self.resolve_pending(v, t, st)
            return v
        if ck == "IntegralToFloating":
            return toreal(v)
        if ck == "FloatingToIntegral":
            return trunc(v)
        if ck == "IntegralCast":
            if z3.is_int_value(v) and t.k == "int" and t.name in cast.UNSIGNED:
                return ival(v.as_long() % (1 << (8 * t.size)))
            if t.k == "int" and t.name in cast.UNSIGNED and t.size == 1 and t.name not in ("bool", "_Bool"):
                return v
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if ck == "FloatingToBoolean":
                return b2i(v != 0)
            return b2i(tobool(v))
        if ck == "PointerToBoolean":
            return b2i(v.base != 0)
        if ck == "FloatingCast":
            return v
        if ck == "IntegralToPointer":
            return Ptr(v)
        if ck == "PointerToIntegral":
            return v.base
        raise Unsupported("cast " + str(ck))

    def resolve_pending(self, p, t, st):
        kind, arg = p.pend[0], p.pend
        q = Ptr(p.base, p.off)
        to = t.to
        if to.k == "void":
            return p
        if kind == "malloc":
            return q
        if kind == "calloc":
            if to.k == "struct":
                self.zero_struct(st, p.base, to.name)
            else:
                k = kind_of(to)
                self.wr_inner(st, k, p.base, z3.K(I, rval(0) if k == "double" else ival(0)))
        elif kind == "realloc":
            if to.k != "struct":
                k = kind_of(to)
                old = sel(self.hmap(st, ("A", k)), arg[1].base)
                self.wr_inner(st, k, p.base, old)
            else:
                raise Unsupported("realloc struct")
        return q

    def ev_UnaryOperator(self, n, st):
        op = n["opcode"]
        e = n["inner"][0]
        if op == "&":
            return self.addr_of(e, st)
        if op == "*":
            return self.load(self.lv(n, st), st)
        if op in ("++", "--"):
            l = self.lv(e, st)
            v = self.load(l, st)
            d = 1 if op == "++" else -1
            if isinstance(v, Ptr):
                t = self.ty(e)
                nv = Ptr(v.base, simp(v.off + d * (self.nscal(t.to) if t.to.k == "arr" else 1)), v.loc)
            else:
                nv = simp(v + d)
                t = self.ty(e)
            self.store(l, nv, st)
            return v if n.get("isPostfix") else nv
        v = self.ev(e, st)
        if op == "-":
            return simp(-v) if is_num(v) else -v
        if op == "+":
            return v
        if op == "!":
            if isinstance(v, Ptr):
                return b2i(v.base == 0)
            return b2i(z3.Not(tobool(v)) if v.sort() == I else v == 0)
        if op == "~":
            return -v - 1
        if op == "__extension__":
            return v
        raise Unsupported("unary " + op)

    def cond_val(self, n, st):
        """evaluate as z3 Bool"""
        v = self.ev(n, st)
        if isinstance(v, Ptr):
            return v.base != 0
        if v.sort() == R:
            return v != 0
        return tobool(v)

    def ev_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            t = self.ty(a)
            if t.k == "struct":
                v = self.ev(b, st)
                l = self.lv(a, st)
                self.store(l, v, st)
                return v
            v = self.ev(b, st)
            l = self.lv(a, st)
            if isinstance(v, Ptr) and v.pend is not None and t.k == "ptr":
                v = self.resolve_pending(v, t, st)
            self.store(l, v, st)
            return v
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            c = self.cond_val(a, st)
            cs = z3.simplify(c)
            if z3.is_false(cs) and op == "&&":
                return ival(0)
            if z3.is_true(cs) and op == "||":
                return ival(1)
            s2 = st.copy()
            guard = c if op == "&&" else z3.Not(c)
            s2.branch(guard)
            try:
                d = self.cond_val(b, s2)
            except Dead:
                st.branch(z3.Not(guard))
                return ival(0) if op == "&&" else ival(1)
            s1 = st.copy()
            s1.branch(z3.Not(guard))
            m = self.merge2(s2, s1)
            self.assign_state(st, m)
            return b2i(z3.And(c, d) if op == "&&" else z3.Or(c, d))
        x = self.ev(a, st)
        y = self.ev(b, st)
        return self.binop(op, x, y, self.ty(n), self.ty(a), self.ty(b), st)

    def binop(self, op, x, y, t, ta, tb, st):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(op, x, y, ta, tb)
        if op in ("+", "-", "*"):
            if t.k == "double":
                x, y = toreal(x), toreal(y)
            r = x + y if op == "+" else x - y if op == "-" else x * y
            return simp(r) if t.k == "int" else r
        if op == "/":
            if t.k == "double":
                return rdiv(toreal(x), toreal(y))
            return cdiv(x, y)
        if op == "%":
            return cmod(x, y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            r = {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y,
                 ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
            if x.eq(y):
                r = z3.BoolVal(op in ("<=", ">=", "=="))
            return b2i(r)
        if op in ("&", "|", "^", "<<", ">>"):
            return bitop(op, x, y)
        raise Unsupported("binop " + op)

    def ptrop(self, op, x, y, ta, tb):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op == "-":
                return simp(x.off - y.off)
            z = lambda p: z3.is_int_value(p.base) and p.base.as_long() == 0
            if op in ("==", "!="):
                if x.fn and y.fn:
                    r = z3.BoolVal(x.fn == y.fn)
                else:
                    r = x.base == y.base
                    if not (z(x) or z(y)) and not x.off.eq(y.off):
                        r = z3.And(r, x.off == y.off)
                    if x.loc != y.loc and not (z(x) or z(y)):
                        r = z3.BoolVal(False)
                return b2i(r if op == "==" else z3.Not(r))
            r = {"<": x.off < y.off, ">": x.off > y.off, "<=": x.off <= y.off, ">=": x.off >= y.off}[op]
            return b2i(r)
        if op in ("+", "-"):
            if isinstance(y, Ptr):
                x, y, ta = y, x, tb
            mul = self.nscal(ta.to) if ta.k == "ptr" and ta.to.k == "arr" else 1
            d = y * mul if mul != 1 else y
            return Ptr(x.base, simp(x.off + d if op == "+" else x.off - d), x.loc)
        if op in ("==", "!="):
            p, i = (x, y) if isinstance(x, Ptr) else (y, x)
            r = p.base == i
            return b2i(r if op == "==" else z3.Not(r))
        raise Unsupported("ptrop " + op)

    def ev_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.ev(b, st)
        l = self.lv(a, st)
        x = self.load(l, st)
        ta = self.ty(a)
        ct = n.get("computeResultType")
        t = parse_type(ct.get("desugaredQualType", ct["qualType"]), self.prog.typedefs) if ct else ta
        v = self.binop(op, x, y, t, ta, self.ty(b), st)
        if not isinstance(v, Ptr):
            if ta.k == "int" and v.sort() == R:
                v = trunc(v)
            elif ta.k == "double":
                v = toreal(v)
            elif ta.k == "int" and ta.name in ("bool", "_Bool"):
                v = b2i(tobool(v))
        self.store(l, v, st)
        return v

    def ev_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        cv = self.cond_val(c, st)
        cs = z3.simplify(cv)
        if z3.is_true(cs):
            return self.ev(a, st)
        if z3.is_false(cs):
            return self.ev(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.branch(cv)
        s2.branch(z3.Not(cv))
        v1 = v2 = None
        d1 = d2 = False
        try:
            v1 = self.ev(a, s1)
        except Dead:
            d1 = True
        try:
            v2 = self.ev(b, s2)
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1:
            self.assign_state(st, s2)
            return v2
        if d2:
            self.assign_state(st, s1)
            return v1
        m = self.merge2(s1, s2)
        self.assign_state(st, m)
        return self.mergev(cv, v1, v2)

    # ------------------------------------------------------------ calls
    def callee(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") or (
                n["kind"] == "UnaryOperator" and n["opcode"] in ("*", "&")):
            n = n["inner"][0]
        return n

    def ev_CallExpr(self, n, st):
        ce = self.callee(n["inner"][0])
        args_n = n["inner"][1:]
        line = n.get("_line")
        if ce["kind"] == "DeclRefExpr" and ce["referencedDecl"]["kind"] == "FunctionDecl":
            name = ce["referencedDecl"]["name"]
            return self.call(name, args_n, n, st, line)
        # indirect
        if ce["kind"] == "MemberExpr":
            tag, base = None, None
            b = ce["inner"][0]
            if ce.get("isArrow"):
                p = self.ev(b, st)
                tag = self.ty(b).to.name
                base = p.base
            else:
                l = self.lv(b, st)
                tag, base = l[1], l[2]
            f = ce["name"]
            if z3.is_int_value(base):
                fn = st.ext.get(("gfn", base.as_long(), f))
                if fn:
                    return self.call(fn, args_n, n, st, line)
            fv = sel(self.hmap(st, ("F", tag, f)), base)
            if z3.is_const(fv) and fv.decl().name().startswith("fn_"):
                return self.call(fv.decl().name()[3:], args_n, n, st, line)
            key = tag + "." + f
            if key in self.contracts or key in self.builtins or self.cur is not None and key in self.cur.opts.get("overlay", ()):
                return self.call(key, args_n, n, st, line)
            raise Unsupported("indirect call " + key)
        v = self.ev(ce, st)
        if isinstance(v, Ptr) and v.fn:
            return self.call(v.fn, args_n, n, st, line)
        key = "*fnptr"
        if key in self.contracts:
            return self.call(key, args_n, n, st, line)
        raise Unsupported("indirect call")

    def call(self, name, args_n, n, st, line):
        if name in self.builtins and not (name in self.contracts):
            self.externals.add(name)
            return self.builtins[name](self, st, args_n, n)
        args = [self.ev(a, st) for a in args_n]
        atypes = [self.ty(a) for a in args_n]
        self.site = n.get("id")
        return self.call_vals(name, args, atypes, self.ty(n), st, line)

    def call_vals(self, name, args, atypes, rtype, st, line):
        con = self.contracts.get(name)
        if self.cur is not None and name in self.cur.opts.get("overlay", ()):
            con = self.cur.opts["overlay"][name]
        if con is not None and self.cur is not None and name in self.cur.inline:
            con = None
        if con is not None and not (self.cur is not None and self.cur.opts.get("inline_all") and not con.trusted
                                    and self.prog.func(name)[0] is not None):
            return self.apply_contract(con, args, atypes, rtype, st, line)
        unit = self.frames[-1].unit if self.frames else None
        fn, u = self.prog.func(name, unit)
        if fn is None:
            raise Unsupported("call of external function without contract: " + name)
        if len(self.frames) > self.max_inline:
            raise Unsupported("inline depth at " + name)
        if any(fr.fname == name for fr in self.frames) and self.unroll is None:
            raise Unsupported("recursive call without contract: " + name)
        self.inlined.add(name)
        return self.inline(fn, u, args, st)

    def inline(self, fn, unit, args, st):
        outs = self.run_body(fn, unit, args, st)
        rets = [(s, v) for s, v in outs]
        if not rets:
            raise Dead()
        if len(rets) == 1:
            self.assign_state(st, rets[0][0])
            return rets[0][1]
        cur, val = rets[0]
        for s, v in rets[1:]:
            # selector must be recomputed against the merged state
            n = 0
            m = min(len(cur.pc), len(s.pc))
            while n < m and (cur.pc[n] is s.pc[n] or cur.pc[n][1].eq(s.pc[n][1])):
                n += 1
            ca = conj([t for k, t in cur.pc[n:] if k == "b"])
            if z3.is_true(ca):
                ca = z3.Not(conj([t for k, t in s.pc[n:] if k == "b"]))
            mm = self.merge2(cur, s)
            if val is not None and v is not None:
                val = self.mergev(ca, val, v)
            cur = mm
        self.assign_state(st, cur)
        return val

    def run_body(self, fn, unit, args, st):
        """returns [(state, retval)]; caller's vars preserved in the states"""
        self.fid += 1
        fr = Frame(fn["name"], unit, self.fid)
        fr.site = getattr(self, "site", None)
        body = None
        params = []
        for c in fn["inner"]:
            if c["kind"] == "ParmVarDecl":
                params.append(c)
            elif c["kind"] == "CompoundStmt":
                body = c
        fr.addr = addr_taken(body)
        self.frames.append(fr)
        try:
            s = st.copy()
            for p, a in zip(params, args):
                self.declare(p, a, s)
            outs = self.ex(body, s)
            res = []
            rt = parse_type(fn["type"]["qualType"].split("(")[0], self.prog.typedefs)
            for k, s2, v in outs:
                if k in ("normal", "return"):
                    if v is not None and rt.k == "double":
                        v = toreal(v)
                    if v is not None and rt.k == "int" and rt.name in ("bool", "_Bool"):
                        v = b2i(tobool(v)) if not isinstance(v, Ptr) else v
                    # drop callee locals
                    for key in [q for q in s2.vars if q[0] == fr.fid]:
                        del s2.vars[key]
                    res.append((s2, v))
                else:
                    raise Unsupported("stray " + k)
            return res
        finally:
            self.frames.pop()

    def declare(self, d, val, st):
        t = self.ty(d)
        key = (self.frames[-1].fid, d["id"])
        if t.k in ("struct",):
            base = self.alloc(st)
            st.vars[key] = ("mem", base, t)
            if val is not None:
                self.copy_struct(st, t.name, base, val.base)
            return
        if d["kind"] == "ParmVarDecl" and t.k == "arr":
            t = CType("ptr", to=t.to)
        if d["id"] in self.frames[-1].addr:
            base = self.alloc(st)
            st.vars[key] = ("mem", base, t)
            if val is not None:
                self.store(("el", t, base, ival(0)), val, st)
            return
        if val is not None:
            if isinstance(val, Ptr) and val.pend is not None and t.k == "ptr":
                val = self.resolve_pending(val, t, st)
            st.vars[key] = self.conv(val, t) if not isinstance(val, (Ptr, SVal)) else val
        else:
            st.vars[key] = None

    # contract application --------------------------------------------------
    def con_ptypes(self, con, atypes):
        if con.ptypes:
            return [parse_type(x, self.prog.typedefs) for x in con.ptypes]
        fn, u = self.prog.func(con.name, None)
        if fn is not None:
            return [self.ty(c) for c in fn["inner"] if c["kind"] == "ParmVarDecl"]
        return atypes

    def apply_contract(self, con, args, atypes, rtype, st, line):
        self.used_contracts.add(con.name)
        ptypes = self.con_ptypes(con, atypes)
        args = [self.conv(a, t) for a, t in zip(args, ptypes)] + list(args[len(ptypes):])
        old = st.copy()
        cx = Ctx(self, con, args, ptypes, old, st)
        for i, (lab, g) in enumerate(items(con.requires(cx))):
            self.oblige(st, g, "precondition of %s: %s" % (con.name, lab), line, "pre")
        cells, touched = {}, []
        for m in con.modifies(cx):
            v = self.havoc_loc(st, m)
            touched.append(m.key)
            if v is not None and not z3.is_array(v):
                cells[v.decl().name()] = v
        if con.allocs:
            n2 = fresh("nxt", I)
            st.fact(n2 >= st.nxt)
            st.nxt = n2
        ret = None
        if rtype is not None and rtype.k != "void":
            ret = self.havoc_val("r_" + con.name.replace(".", "_"), rtype)
            if isinstance(ret, Ptr):
                st.fact(ret.base < st.nxt)
            else:
                self.num_fact(st, ret, rtype)
        cx = Ctx(self, con, args, ptypes, old, st, ret, rtype)
        fs = [conj(g) for lab, g in items(con.ensures(cx))]
        # a result or cell that the contract defines by an equation is replaced by its definition
        F = dict(cells)
        if ret is not None and not isinstance(ret, (Ptr, SVal)) and z3.is_const(ret):
            F[ret.decl().name()] = ret
        elif isinstance(ret, Ptr) and z3.is_const(ret.base):
            F[ret.base.decl().name()] = ret.base
        sub = solve_defs(fs, F) if F else []
        if sub:
            fs = [z3.substitute(f, *sub) for f in fs]
            for key in touched:
                st.heap[key] = z3.substitute(st.heap[key], *sub)
            if isinstance(ret, Ptr):
                ret = Ptr(z3.substitute(ret.base, *sub), ret.off, ret.loc)
            elif ret is not None and not isinstance(ret, SVal):
                ret = z3.substitute(ret, *sub)
        for f in fs:
            if not z3.is_true(f):
                st.fact(z3.simplify(f) if z3.is_eq(f) and f.arg(0).eq(f.arg(1)) else f)
        return ret

    def havoc_loc(self, st, m):
        key = m.key
        cur = self.hmap(st, key)
        if m.base is None:
            st.heap[key] = fresh("hv_" + "_".join(map(str, key[1:])), cur.sort())
            if self.wlog is not None:
                self.wlog.append((key, "ALL", None))
        else:
            v = fresh("hv_" + "_".join(map(str, key[1:])), cur.sort().range())
            st.heap[key] = sto(cur, m.base, v)
            if self.wlog is not None:
                self.wlog.append((key, m.base, None))
            return v

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        """-> list of (kind, state, value)"""
        k = n.get("kind")
        m = getattr(self, "ex_" + str(k), None)
        try:
            if m is not None:
                return m(n, st)
            if k is None:
                return [("normal", st, None)]
            self.ev(n, st)
            return [("normal", st, None)]
        except Dead:
            return []

    def ex_NullStmt(self, n, st):
        return [("normal", st, None)]

    def ex_CompoundStmt(self, n, st):
        return self.ex_seq(n.get("inner", []), st)

    def ex_seq(self, stmts, st):
        cur = st
        done = []
        for s in stmts:
            outs = self.ex(s, cur)
            norm = [x for k, x, v in outs if k == "normal"]
            done += [o for o in outs if o[0] != "normal"]
            cur = self.merge(norm) if len(norm) > 1 else (norm[0] if norm else None)
            if cur is None:
                return done
        return done + [("normal", cur, None)]

    def ex_DeclStmt(self, n, st):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                continue
            t = self.ty(d)
            inits = [c for c in d.get("inner", []) if c.get("kind") not in ("FullComment",)]
            init = inits[-1] if inits and d.get("init") else None
            key = (self.frames[-1].fid, d["id"])
            if d.get("storageClass") == "static":
                base = self.global_base(self.frames[-1].fname + "::" + d["name"])
                st.vars[key] = ("mem", base, t)
                if "const" in d["type"]["qualType"] and init is not None:
                    self.init_const(st, base, t, init)
                continue
            if t.k == "arr":
                base = self.alloc(st)
                if t.n is None:
                    # VLA: flatten only 1-D
                    if t.to.k == "arr":
                        raise Unsupported("2-D VLA")
                st.vars[key] = ("mem", base, t)
                if init is not None:
                    self.init_mem(st, base, t, init)
                continue
            if t.k == "struct":
                base = self.alloc(st)
                st.vars[key] = ("mem", base, t)
                if init is not None:
                    self.init_mem(st, base, t, init)
                continue
            val = self.ev(init, st) if init is not None else None
            self.declare(d, val, st)
        return [("normal", st, None)]

    def ex_ReturnStmt(self, n, st):
        v = self.ev(n["inner"][0], st) if n.get("inner") else None
        if isinstance(v, Ptr) and v.pend is not None:
            v = Ptr(v.base, v.off, pend=v.pend)
        return [("return", st, v)]

    def ex_BreakStmt(self, n, st):
        return [("break", st, None)]

    def ex_ContinueStmt(self, n, st):
        return [("continue", st, None)]

    def ex_IfStmt(self, n, st):
        inner = n["inner"]
        cond = self.cond_val(inner[0], st)
        cs = z3.simplify(cond)
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        if z3.is_true(cs):
            return self.ex(then, st)
        if z3.is_false(cs):
            return self.ex(els, st) if els else [("normal", st, None)]
        s1, s2 = st.copy(), st.copy()
        s1.branch(cond)
        s2.branch(z3.Not(cond))
        o1 = o2 = []
        if self.unroll is None or feasible(s1.terms() , 0.5):
            o1 = self.ex(then, s1)
        if self.unroll is None or feasible(s2.terms(), 0.5):
            o2 = self.ex(els, s2) if els else [("normal", s2, None)]
        return o1 + o2

    def ex_SwitchStmt(self, n, st):
        inner = n["inner"]
        v = self.ev(inner[0], st)
        body = inner[-1]
        # flatten cases
        flat = []   # list of ('case', val) / ('default',) / ('stmt', node)
        def add(s):
            if s["kind"] == "CaseStmt":
                flat.append(("case", s["inner"][0]))
                add(s["inner"][-1])
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None))
                add(s["inner"][-1])
            else:
                flat.append(("stmt", s))
        for s in body.get("inner", []):
            add(s)
        vals = [self.ev(x, st) for t, x in flat if t == "case"]
        outs = []
        labels = [(i, t, x) for i, (t, x) in enumerate(flat) if t in ("case", "default")]
        # group labels by entry position so that adjacent labels share one path
        for i, t, x in labels:
            s = st.copy()
            if t == "case":
                s.branch(v == self.ev(x, s))
            else:
                s.branch(conj([v != w for w in vals]))
            c = z3.simplify(s.pc[-1][1]) if s.pc else None
            if c is not None and z3.is_false(c):
                continue
            o = self.ex_seq([x2 for t2, x2 in flat[i:] if t2 == "stmt"], s)
            outs += [("normal" if k == "break" else k, s2, w) for k, s2, w in o]
        if not any(t == "default" for _, t, _ in labels):
            s = st.copy()
            s.branch(conj([v != w for w in vals]))
            outs.append(("normal", s, None))
        return outs

    def ex_ForStmt(self, n, st):
        init, cv, cond, inc, body = n["inner"]
        if init.get("kind"):
            outs = self.ex(init, st)
            if not outs:
                return []
            st = outs[0][1]
        return self.loop(n, st, cond if cond.get("kind") else None, body, inc if inc.get("kind") else None, False)

    def ex_WhileStmt(self, n, st):
        return self.loop(n, st, n["inner"][0], n["inner"][-1], None, False)

    def ex_DoStmt(self, n, st):
        return self.loop(n, st, n["inner"][1], n["inner"][0], None, True)

    # ------------------------------------------------------------ loops
    def iterate(self, st, cond, body, inc, dowhile):
        """one iteration from a loop-head state.
        -> (exit_state or None, end_state or None, breaks, returns)"""
        st = st.copy()
        breaks, rets = [], []
        exit_s = None
        if not dowhile and cond is not None:
            try:
                c = self.cond_val(cond, st)
            except Dead:
                return None, None, [], []
            exit_s = st.copy()
            exit_s.branch(z3.Not(c))
            if z3.is_true(z3.simplify(c)):
                exit_s = None
            if z3.is_false(z3.simplify(c)):
                return exit_s, None, [], []
            st.branch(c)
        outs = self.ex(body, st)
        ends = []
        for k, s, v in outs:
            if k in ("normal", "continue"):
                ends.append(s)
            elif k == "break":
                breaks.append(s)
            elif k == "return":
                rets.append((s, v))
            else:
                raise Unsupported("loop outcome " + k)
        end = self.merge(ends)
        if end is not None and inc is not None:
            try:
                self.ev(inc, end)
            except Dead:
                end = None
        if end is not None and dowhile:
            c = self.cond_val(cond, end)
            exit_s = end.copy()
            exit_s.branch(z3.Not(c))
            if z3.is_true(z3.simplify(c)):
                exit_s = None
            if z3.is_false(z3.simplify(c)):
                end = None
            else:
                end.branch(c)
        return exit_s, end, breaks, rets

    def loop(self, node, st, cond, body, inc, dowhile):
        if self.unroll is not None:
            return self.loop_unroll(st, cond, body, inc, dowhile)
        from .loops import summarize
        return summarize(self, node, st, cond, body, inc, dowhile)

    def loop_unroll(self, st, cond, body, inc, dowhile):
        outs = []
        cur = st
        exits = []
        for i in range(self.unroll + 1):
            if not feasible(cur.terms(), 0.5):
                cur = None
                break
            if i == self.unroll:
                # only the exit is taken at the bound
                if not dowhile and cond is not None:
                    s = cur.copy()
                    try:
                        c = self.cond_val(cond, s)
                        s.branch(z3.Not(c))
                        exits.append(s)
                        if not z3.is_false(z3.simplify(c)):
                            self.cut = True
                    except Dead:
                        pass
                else:
                    self.cut = True
                cur = None
                break
            ex, end, brk, rets = self.iterate(cur, cond, body, inc, dowhile)
            if ex is not None:
                exits.append(ex)
            exits += brk
            outs += [("return", s, v) for s, v in rets]
            if end is None:
                break
            cur = end
        m = self.merge([e for e in exits])
        if m is not None:
            outs.append(("normal", m, None))
        return outs


# ---------------------------------------------------------------- helpers
def items(xs):
    out = []
    for i, x in enumerate(xs or []):
        if x is None:
            continue
        if isinstance(x, tuple) and isinstance(x[0], str):
            out.append((x[0], x[1]))
        else:
            out.append(("clause %d" % (i + 1), x))
    return out


def eval_c_string(s):
    import ast
    # clang prints the literal with C escapes
    s = s.strip()
    parts = []
    i = s.find('"')
    t = s[i:]
    try:
        return ast.literal_eval(t).replace("\x00", "\x00")
    except Exception:
        return t.strip('"')


_BITF = {}


def bitop(op, x, y):
    if z3.is_int_value(x) and not z3.is_int_value(y) and op in ("&", "|", "^"):
        x, y = y, x
    if z3.is_int_value(x) and z3.is_int_value(y):
        a, b = x.as_long(), y.as_long()
        return ival({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if b < 64 else 0, ">>": a >> b if b < 64 else 0}[op])
    if z3.is_int_value(y):
        b = y.as_long()
        if op == "<<":
            return x * (1 << b)
        if op == ">>":
            return x / (1 << b)
        if b >= 0 and op in ("&", "|"):
            bits = [1 << i for i in range(b.bit_length()) if b >> i & 1]
            if len(bits) <= 4:
                tot = None
                if op == "&":
                    for w in bits:
                        t = ((x / w) % 2) * w
                        tot = t if tot is None else tot + t
                    return tot if tot is not None else ival(0)
                tot = x
                for w in bits:
                    tot = tot + w * (1 - ((x / w) % 2))
                return tot
    k = op
    if k not in _BITF:
        _BITF[k] = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], I, I, I)
    return _BITF[k](x, y)


def addr_taken(body):
    out = set()
    stack = [body]
    while stack:
        n = stack.pop()
        if not isinstance(n, dict):
            continue
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            e = n["inner"][0]
            while e.get("kind") == "ParenExpr":
                e = e["inner"][0]
            if e.get("kind") == "DeclRefExpr":
                out.add(e["referencedDecl"]["id"])
        stack.extend(n.get("inner", []))
    return out


BUILTINS = {}
