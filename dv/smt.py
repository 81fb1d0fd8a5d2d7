"""Term helpers and the solver back end."""
import time
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)

_ctr = [0]
CREATED = {}


def fresh(name, sort):
    _ctr[0] += 1
    n = "%s!%d" % (name, _ctr[0])
    c = z3.Const(n, sort)
    CREATED[n] = _ctr[0]
    return c


def mpat(*ts):
    """multi-pattern (the terms are kept alive: z3's binding drops them early)"""
    KEEP.append(ts)
    return z3.MultiPattern(*ts)


KEEP = []


def stamp():
    return _ctr[0]


_consts_cache = {}


def consts_of(t):
    """Names of uninterpreted constants occurring in t."""
    key = t.get_id()
    got = _consts_cache.get(key)
    if got is not None and got[0].eq(t):
        return got[1]
    seen = set()
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
    _consts_cache[key] = (t, out)
    return out


def invariant_since(t, st):
    """True if every constant in t was created at or before stamp st."""
    return all(CREATED.get(n, 0) <= st for n in consts_of(t))


def ival(n):
    return z3.IntVal(n)


def rval(x):
    return z3.RealVal(x)


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def simp(t):
    return z3.simplify(t)


def eq_terms(a, b):
    if a.eq(b):
        return True
    return False


INVR = z3.Function("inv", R, R)
UF = {}


def ufr(name, n=1):
    k = (name, n)
    if k not in UF:
        UF[k] = z3.Function("m_" + name, *([R] * (n + 1)))
    return UF[k]


def rdiv(a, b):
    b = simp(b)
    if is_num(b):
        if b.as_fraction() != 0:
            return a / b
    return a * INVR(b)


def b2i(c):
    return z3.If(c, ival(1), ival(0))


def tobool(v):
    if z3.is_bool(v):
        return v
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = v.children()
        if z3.is_int_value(x) and z3.is_int_value(y):
            xi, yi = x.as_long() != 0, y.as_long() != 0
            if xi and not yi:
                return c
            if yi and not xi:
                return z3.Not(c)
            return z3.BoolVal(xi)
    if z3.is_int_value(v):
        return z3.BoolVal(v.as_long() != 0)
    return v != 0


def toreal(v):
    if v.sort() == R:
        return v
    if z3.is_int_value(v):
        return rval(v.as_long())
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = v.children()
        if z3.is_int_value(x) and z3.is_int_value(y):
            return z3.If(c, toreal(x), toreal(y))
    return z3.ToReal(v)


def trunc(v):
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return ival(int(f))
    # (int)(double)i == i
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def cdiv(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        x, y = a.as_long(), b.as_long()
        q = abs(x) // abs(y)
        return ival(q if (x >= 0) == (y >= 0) else -q)
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)),
                 z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))


def cmod(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        x, y = a.as_long(), b.as_long()
        q = abs(x) // abs(y)
        q = q if (x >= 0) == (y >= 0) else -q
        return ival(x - q * y)
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a % b, -((-a) % b))
    return z3.If(b > 0, z3.If(a >= 0, a % b, -((-a) % b)),
                 z3.If(a >= 0, a % (-b), -((-a) % (-b))))


class Oracle:
    """Address disequalities valid on every path of the function under
    verification: the entry facts of its contract, and the allocation order
    (objects allocated during the call lie at or above nxt0; every pointer held
    by the entry state lies below nxt0)."""

    def __init__(self):
        self.pairs = set()
        self.pos = set()
        self.keep = []
        self.memo = {}

    def learn(self, fact):
        st = [fact]
        while st:
            t = st.pop()
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_AND:
                st.extend(t.children())
            elif k == z3.Z3_OP_DISTINCT:
                ch = t.children()
                for a in range(len(ch)):
                    for b in range(a + 1, len(ch)):
                        self.pair(ch[a], ch[b])
            elif k == z3.Z3_OP_NOT and z3.is_eq(t.arg(0)):
                self.pair(*t.arg(0).children())
            elif k == z3.Z3_OP_GT and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() >= 0:
                self.pos.add(t.arg(0).get_id())
                self.keep.append(t)

    def pair(self, a, b):
        if a.sort() != I:
            return
        self.keep += [a, b]
        self.pairs.add((a.get_id(), b.get_id()))
        self.pairs.add((b.get_id(), a.get_id()))

    def cls(self, t):
        """'new' (>= nxt0), 'old' (< nxt0), 'emb', 'glob' or None"""
        m = self.memo.get(t.get_id())
        if m is not None and m[0].eq(t):
            return m[1]
        r = self._cls(t)
        self.memo[t.get_id()] = (t, r)
        return r

    def _cls(self, t):
        if z3.is_int_value(t):
            return "glob"
        if not z3.is_app(t):
            return None
        n = t.decl().name()
        k = t.decl().kind()
        if z3.is_const(t):
            if n == "nxt0" or n.startswith("nxt!"):
                return "new"
            if n.startswith("arg_"):
                return "old"
            return None
        if k == z3.Z3_OP_ADD:
            cs = [self.cls(c) for c in t.children() if not (z3.is_int_value(c) and c.as_long() >= 0)]
            return "new" if cs == ["new"] else None
        if n.startswith("emb_"):
            return "emb"
        if k == z3.Z3_OP_SELECT:
            a, b = t.arg(0), t.arg(1)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
                a, b = a.arg(0), a.arg(1)
            # what an object of the entry state holds (an object allocated since may hold anything)
            if z3.is_const(a) and a.decl().name().startswith("H_") and self.entry(b):
                return "old"
        return None

    def entry(self, b):
        while z3.is_app(b) and b.decl().name().startswith("emb_"):
            b = b.arg(0)
        return self.cls(b) in ("old", "glob")

    def ne(self, a, b):
        if (a.get_id(), b.get_id()) in self.pairs:
            return True
        ca, cb = self.cls(a), self.cls(b)
        if ca is None or cb is None:
            return False
        if "new" in (ca, cb) and ca != cb:
            return True
        if ca == "emb" and cb == "emb":
            if a.decl().name() != b.decl().name():
                return True
            return self.ne(a.arg(0), b.arg(0))
        if "emb" in (ca, cb):
            o = b if ca == "emb" else a
            return o.get_id() in self.pos or (z3.is_int_value(o) and o.as_long() > -1000000)
        if "glob" in (ca, cb) and ca != cb:
            g, o = (a, b) if ca == "glob" else (b, a)
            return g.as_long() <= 0 and o.get_id() in self.pos
        return False


ORACLE = [Oracle()]


def differ(a, b):
    d = simp(a - b)
    if z3.is_int_value(d):
        return d.as_long() != 0
    return ORACLE[0].ne(a, b)


def sel(a, i):
    """Select with read-over-write simplification."""
    while True:
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE:
                j = a.arg(1)
                if j.eq(i):
                    return a.arg(2)
                if i.sort() == I:
                    d = simp(j - i)
                    if z3.is_int_value(d):
                        if d.as_long() == 0:
                            return a.arg(2)
                        a = a.arg(0)
                        continue
                    if ORACLE[0].ne(j, i):
                        a = a.arg(0)
                        continue
            elif k == z3.Z3_OP_CONST_ARRAY:
                return a.arg(0)
            elif k == z3.Z3_OP_ITE:
                c, x, y = a.children()
                sx, sy = sel(x, i), sel(y, i)
                if sx.eq(sy):
                    return sx
                return z3.If(c, sx, sy)
        elif z3.is_quantifier(a) and a.is_lambda():
            return z3.simplify(z3.Select(a, i))
        return z3.Select(a, i)


def sto(a, i, v):
    # overwrite an earlier write to the same index when only writes to
    # different addresses lie in between
    outer = []
    x = a
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE and len(outer) < 40:
        j = x.arg(1)
        if j.eq(i):
            r = z3.Store(x.arg(0), i, v)
            for jj, vv in reversed(outer):
                r = z3.Store(r, jj, vv)
            return r
        if not differ(j, i):
            break
        outer.append((j, x.arg(2)))
        x = x.arg(0)
    return z3.Store(a, i, v)


def merge_arr(c, a, b, depth=0):
    """If(c, a, b) on arrays, kept as a store chain where possible."""
    if a.eq(b):
        return a
    if depth > 60:
        return z3.If(c, a, b)
    sa = z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE
    sb = z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE
    if sa and sb and a.arg(1).eq(b.arg(1)):
        return z3.Store(merge_arr(c, a.arg(0), b.arg(0), depth + 1), a.arg(1),
                        merge_val(c, a.arg(2), b.arg(2)))
    # chain membership: is b reachable by peeling a?
    def chain(x):
        out = [x]
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
            x = x.arg(0)
            out.append(x)
        return out
    ca, cb = chain(a), chain(b)
    ids_b = {x.get_id() for x in cb}
    anc = next((x for x in ca if x.get_id() in ids_b), None)
    if anc is None:
        return z3.If(c, a, b)
    na = [x.get_id() for x in ca].index(anc.get_id())
    nb = [x.get_id() for x in cb].index(anc.get_id())
    res = anc
    # apply b's writes first guarded by not c, then a's guarded by c, oldest first
    for x in reversed(cb[:nb]):
        i, v = x.arg(1), x.arg(2)
        res = z3.Store(res, i, merge_val(c, sel(res, i), v))
    for x in reversed(ca[:na]):
        i, v = x.arg(1), x.arg(2)
        res = sto(res, i, merge_val(c, v, sel(res, i)))
    return res


def merge_val(c, a, b):
    if a.eq(b):
        return a
    if z3.is_array(a) or isinstance(a, z3.ArrayRef):
        return merge_arr(c, a, b)
    return z3.If(c, a, b)


# ---------------------------------------------------------------- solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()


MULF = z3.Function("mulr", R, R, R)
MULI = z3.Function("muli", I, I, I)


def _rank(x):
    """memory contents before arguments before loop counters and bound variables, so that an
    instance of a quantified product has the same factor order as the ground product"""
    if x.num_args():
        return 0
    return 2 if "!" in x.decl().name() else 1


def _abstract(t, cache):
    """Replace non-linear products by (commutatively ordered) uninterpreted
    applications; input is already in sum-of-monomials form."""
    key = t.get_id()
    r = cache.get(key)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        n = t.num_vars()
        vs = [z3.Const("qv!%d!%s" % (key, t.var_name(i)), t.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(t.body(), *reversed(vs))
        nb = _abstract(body, cache)
        pats = []
        for i in range(t.num_patterns()):
            p = t.pattern(i)
            ps = [_abstract(z3.substitute_vars(p.arg(k), *reversed(vs)), cache) for k in range(p.num_args())]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        if t.is_lambda():
            out = z3.Lambda(vs, nb)
        elif t.is_forall():
            out = z3.ForAll(vs, nb, patterns=pats) if pats else z3.ForAll(vs, nb)
        else:
            out = z3.Exists(vs, nb)
    elif z3.is_app(t) and t.num_args() > 0:
        ch = [_abstract(c, cache) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_MUL:
            coef = [c for c in ch if is_num(c)]
            rest = [c for c in ch if not is_num(c)]
            if len(rest) > 1:
                rest.sort(key=lambda x: (_rank(x), x.hash(), x.get_id()))
                f = MULF if rest[0].sort() == R else MULI
                acc = rest[0]
                for x in rest[1:]:
                    acc = f(acc, x)
                for c in coef:
                    acc = c * acc
                out = acc
            else:
                out = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        else:
            if any(not a.eq(b) for a, b in zip(ch, t.children())):
                if t.decl().kind() == z3.Z3_OP_ADD:
                    out = ch[0]
                    for c in ch[1:]:
                        out = out + c
                elif t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT):
                    out = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}[t.decl().kind()](*ch)
                else:
                    out = t.decl()(*ch)
            else:
                out = t
    else:
        out = t
    cache[key] = (t, out)
    return out


def has_nl(t, cache):
    key = t.get_id()
    if key in cache:
        return cache[key]
    cache[key] = False
    res = False
    if z3.is_quantifier(t):
        res = has_nl(t.body(), cache)
    elif z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in t.children() if not is_num(c)) > 1:
            res = True
        else:
            res = any([has_nl(c, cache) for c in t.children()])
    cache[key] = res
    return res


def has_q(t, cache):
    key = t.get_id()
    if key in cache:
        return cache[key]
    if z3.is_quantifier(t):
        res = True
    else:
        res = any(has_q(c, cache) for c in t.children())
    cache[key] = res
    return res


def _solve(fs, timeout, mbqi, seed=0):
    s = z3.Solver() if mbqi else z3.SimpleSolver()
    s.set("timeout", int(timeout * 1000))
    s.set("smt.mbqi", mbqi)
    s.set("smt.random_seed", seed)
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    return r, s


def feasible(facts, timeout=1.0):
    """False only if the quantifier-free part of facts is unsatisfiable."""
    qc = {}
    fs = [f for f in facts if not has_q(f, qc)]
    nc = {}
    if any(has_nl(f, nc) for f in fs):
        cache = {}
        fs = [_abstract(z3.simplify(f, som=True), cache) for f in fs]
    r, _ = _solve(fs, timeout, False)
    return r != z3.unsat


def _ematch_only(fs, timeout, relevancy=None):
    s = z3.SimpleSolver()
    if relevancy is not None:
        s.set("smt.relevancy", relevancy)
    s.set("timeout", int(timeout * 1000))
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.ematching", True)
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    return r, s


CAND_SCALE = [1.0]  # scales the time given to each invariant candidate
NONL = [False]      # skip the non-linear arithmetic stage (contract option)


def inv_apps(fs):
    out, seen, st = {}, set(), list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().name() == "inv" and t.num_args() == 1:
                out[t.get_id()] = t
            st.extend(t.children())
    return list(out.values())


_a, _b = z3.Ints("comm_a comm_b")
_c, _d = z3.Reals("comm_c comm_d")
# products commute (their factors may come out in either order after instantiation)
COMM = [z3.ForAll([_a, _b], MULI(_a, _b) == MULI(_b, _a), patterns=[MULI(_a, _b)]),
        z3.ForAll([_c, _d], MULF(_c, _d) == MULF(_d, _c), patterns=[MULF(_c, _d)])]


def prove(facts, goal, timeout=10.0, want_model=False):
    """Returns ('proved', None) | ('failed', model or None) | ('unknown', None).
    'failed' is only returned with a model of a quantifier-free query or one
    that model-based instantiation completed."""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", None
    fs = list(facts) + [z3.Not(goal)]
    invs = inv_apps(fs)
    for i in invs:
        d = i.arg(0)
        fs.append(z3.And(z3.Implies(d > 0, i > 0), z3.Implies(d < 0, i < 0)))
    nc = {}
    nl = any(has_nl(f, nc) for f in fs)
    qc = {}
    q = any(has_q(f, qc) for f in fs)
    if nl:
        cache = {}
        ab = [_abstract(z3.simplify(f, som=True), cache) for f in fs]
    else:
        ab = fs
    r, s = _ematch_only(ab, timeout)
    if r == z3.unsat:
        return "proved", None
    if not q and not nl and not invs and r == z3.sat:
        return "failed", s.model() if want_model else None
    if q:
        r, s1 = _ematch_only(ab + (COMM if nl else []), timeout, 0)
        if r == z3.unsat:
            return "proved", None
    if (nl or invs) and not NONL[0]:
        r, s2 = _solve(fs + [z3.Implies(i.arg(0) != 0, i * i.arg(0) == 1) for i in invs], min(timeout, 6), False)
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat and not q:
            return "failed", s2.model() if want_model else None
    if want_model:
        r, s3 = _solve(ab if nl else fs, min(timeout, 8), True)
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat and not nl and not invs:
            return "failed", s3.model()
    return "unknown", None
