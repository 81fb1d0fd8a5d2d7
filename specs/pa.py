"""The prediction array: fitness-weighted mean prediction per action, best action."""
from .pop import *

PAS_ = z3.Function("PAS", I, I, I, R)      # weighted prediction of the first k rules for (action, output)
NRS_ = z3.Function("NRS", I, I, R)         # fitness of the first k rules for an action
AQ, JQ = z3.Function("AQ", I, I), z3.Function("JQ", I, I)   # p = AQ(p)*y_dim + JQ(p)
PBX = z3.Function("PREDBUF_IX", I, I)      # owner index of a prediction vector


class PA:
    def __init__(self, c):
        self.c = c
        self.x = c.o.xcsf
        self.l = L(c, self.x.mset._b, c.old)
        self.y = self.x.y_dim

    def act(self, k):
        return self.l.cl(k).action

    def fit(self, k):
        return self.l.cl(k).fit

    def pred(self, k, j):
        return PREDF(self.x._b, self.l.clp(k), self.c.o.x._b, j)

    def S(self, k, a, j):
        if BOUND[0] is not None:
            return self.c.sum(k, lambda i: z3.If(self.act(i) == a, self.pred(i, j) * self.fit(i), rval(0)))
        return PAS_(k, a, j)

    def N(self, k, a):
        if BOUND[0] is not None:
            return self.c.sum(k, lambda i: z3.If(self.act(i) == a, self.fit(i), rval(0)))
        return NRS_(k, a)

    def mean(self, a, j):
        n = self.l.n
        return z3.If(self.N(n, a) != 0, rdiv(self.S(n, a, j), self.N(n, a)), rval(0))

    def aq(self, p):
        if BOUND[0] is not None:
            return cdiv(p, self.y)
        return AQ(p)

    def jq(self, p):
        if BOUND[0] is not None:
            return p - self.y * cdiv(p, self.y)
        return JQ(p)


def seqterm(t):
    """a list node: an element of some ghost sequence"""
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and "H_G_seq" in str(t.arg(0))


def pa_req(c):
    P = PA(c)
    l, x = P.l, P.x
    return wf(c, x.mset._b, c.old) + [
        ("size account", x.mset.size == l.n), ("dimensions", z3.And(x.y_dim >= 1, x.n_actions >= 1, x.pa_size == x.n_actions * x.y_dim)),
        acts_ok(c, x.mset._b, c.old),
        ("each rule has its own prediction vector", Forall(0, l.n, lambda k: z3.And(
            PBX(l.cl(k).prediction._b) == k, l.cl(k).prediction._b > 0, l.cl(k).prediction._b < c.old.nxt,
            l.cl(k).prediction._b != x.pa._b, l.cl(k).prediction._b != x.nr._b), pats=lambda k: l.clp(k))),
        ("arrays", z3.And(nonnull(x.pa, x.nr), x.pa._b != x.nr._b, x.pa._b < c.old.nxt, x.nr._b < c.old.nxt))]


def decode(P, a, j):
    """division lemma instance"""
    p = a * P.y + j
    return z3.Implies(z3.And(0 <= a, 0 <= j, j < P.y), z3.And(AQ(p) == a, JQ(p) == j))


def pa_setup(c, st):
    if BOUND[0] is not None:
        return
    P = PA(c)
    a, j = z3.Consts("pa_a pa_j", I)
    st.fact(z3.ForAll([a, j], PAS_(0, a, j) == 0, patterns=[PAS_(0, a, j)]))
    st.fact(z3.ForAll([a], NRS_(0, a) == 0, patterns=[NRS_(0, a)]))
    st.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < P.x.pa_size), z3.And(
        0 <= AQ(a), AQ(a) < P.x.n_actions, 0 <= JQ(a), JQ(a) < P.y, AQ(a) * P.y + JQ(a) == a)), patterns=[AQ(a)]))


def pa_lemmas(c, h, e, k):
    if BOUND[0] is not None:
        return []
    P = PA(c)
    a, j = z3.Consts("pb_a pb_j", I)
    out = []
    ks = [k]
    for v in list(h.vars.values()):
        if isinstance(v, Ptr) and v.loc is None:
            k0 = z3.Select(P.l.P, v.base)
            ks.append(k0)
            out.append(decode(P, P.act(k0), k))
        elif not isinstance(v, (Ptr, tuple)) and hasattr(v, "sort") and v.sort() == I:
            out.append(decode(P, v, k))
    for i in ks:
        out += [z3.ForAll([a, j], PAS_(i + 1, a, j) == PAS_(i, a, j) + z3.If(P.act(i) == a, P.pred(i, j) * P.fit(i), 0), patterns=[PAS_(i + 1, a, j)]),
                z3.ForAll([a], NRS_(i + 1, a) == NRS_(i, a) + z3.If(P.act(i) == a, P.fit(i), 0), patterns=[NRS_(i + 1, a)])]
    return out


def pa_ens(c):
    P = PA(c)
    pa, nr = c.n.xcsf.pa, c.n.xcsf.nr
    n = P.x.pa_size
    return [("fitness-weighted mean of the predictions per action and output", Forall(0, n, lambda p: pa[p] == P.mean(P.aq(p), P.jq(p)), pats=lambda p: pa[p])),
            ("total fitness per action", Forall(0, n, lambda p: nr[p] == P.N(P.l.n, P.aq(p)), pats=lambda p: nr[p])),
            ("every rule of the set predicted this input", Forall(0, P.l.n, lambda k: P.l.cl(k, c.new).prediction.arr == PREDA(P.x._b, P.l.clp(k), c.o.x._b),
                                                                pats=lambda k: P.l.clp(k)))]


def pa_cands(c, s, S0, k):
    P = PA(c)
    pa, nr = c.view("xcsf", s).pa, c.view("xcsf", s).nr
    n = P.x.pa_size
    ln = P.l.n
    cur = c.field("Clist", "next", s)
    out = [Forall(0, k, lambda p: z3.And(pa[p] == 0, nr[p] == 0), pats=lambda p: pa[p]),
           Forall(0, k, lambda p: z3.And(pa[p] == 0, nr[p] == 0), pats=lambda p: nr[p]),
           Forall(0, n, lambda p: pa[p] == P.S(k, P.aq(p), P.jq(p)), pats=lambda p: pa[p]),
           Forall(0, n, lambda p: nr[p] == P.N(k, P.aq(p)), pats=lambda p: nr[p]),
           Forall(0, n, lambda p: pa[p] == z3.If(p < k * P.y, P.mean(P.aq(p), P.jq(p)), P.S(ln, P.aq(p), P.jq(p))), pats=lambda p: pa[p]),
           Forall(0, n, lambda p: nr[p] == P.N(ln, P.aq(p)), pats=lambda p: nr[p]),
           z3.And(0 <= k, k <= P.x.n_actions),
           Forall(0, k, lambda m: P.l.cl(m, s).prediction.arr == PREDA(P.x._b, P.l.clp(m), c.o.x._b), pats=lambda m: P.l.clp(m)),
           Forall(0, ln, lambda m: P.l.cl(m, s).prediction.arr == PREDA(P.x._b, P.l.clp(m), c.o.x._b), pats=lambda m: P.l.clp(m))]
    return out


def pa_roles(c, s, S0, k):
    P = PA(c)
    pa, nr = c.view("xcsf", s).pa, c.view("xcsf", s).nr
    n, ln = P.x.pa_size, P.l.n
    F_ = z3.BoolVal(False)

    def inner(t):
        # t is the node in hand
        if t.sort() != I or not seqterm(t):
            return F_
        i = z3.Select(P.l.P, t)
        up = lambda p: z3.And(P.aq(p) == P.act(i), P.jq(p) < k)
        return z3.And(P.l.node(i) == t, 0 <= i, i < ln,
                      conj(Forall(0, n, lambda p: pa[p] == z3.If(up(p), P.S(i + 1, P.aq(p), P.jq(p)), P.S(i, P.aq(p), P.jq(p))), pats=lambda p: pa[p])),
                      conj(Forall(0, n, lambda p: nr[p] == z3.If(up(p), P.N(i + 1, P.aq(p)), P.N(i, P.aq(p))), pats=lambda p: nr[p])))

    def inner2(t):
        if t.sort() != I or not z3.is_const(t) or argterm(t):
            return F_
        return z3.And(0 <= t, t < P.x.n_actions, conj(Forall(0, n, lambda p: pa[p] == z3.If(
            p < t * P.y + k, P.mean(P.aq(p), P.jq(p)), P.S(ln, P.aq(p), P.jq(p))), pats=lambda p: pa[p])))
    return [RoleAny(inner), RoleAny(inner2)]


add("pa_reset", "xcsf", requires=lambda c: [c.o.xcsf.pa._b != c.o.xcsf.nr._b, nonnull(c.o.xcsf.pa, c.o.xcsf.nr)],
    modifies=lambda c: [AAt("double", c.o.xcsf.pa._b), AAt("double", c.o.xcsf.nr._b)],
    ensures=lambda c: [("zero", Forall(0, c.o.xcsf.pa_size, lambda p: c.n.xcsf.pa[p] == 0, pats=lambda p: c.n.xcsf.pa[p])),
                       ("zero weights", Forall(0, c.o.xcsf.pa_size, lambda p: c.n.xcsf.nr[p] == 0, pats=lambda p: c.n.xcsf.nr[p]))])
add("pa_build", "xcsf x", requires=pa_req, setup=pa_setup, seqs=seqs_of("xcsf.mset"), cands=pa_cands, roles=pa_roles, ensures=pa_ens,
    bounded_setup=lambda c, K: short("xcsf.mset")(c, K) + [c.o.xcsf.n_actions <= K, c.o.xcsf.y_dim <= K],
    modifies=lambda c: [AAll("double")], opts={"lean": True, "no_nl": True, "cand_timeout": 1.5, "loop_lemmas": pa_lemmas})
add("pa_best_val", "xcsf", requires=lambda c: [c.o.xcsf.pa_size >= 1],
    ensures=lambda c: [("at least every entry", Forall(0, c.o.xcsf.pa_size, lambda p: c.o.xcsf.pa[p] <= c.ret, pats=lambda p: c.o.xcsf.pa[p])),
                       ("one of the entries", Dual([c.ret == c.o.xcsf.pa[fresh("bw", I)]], EX(c.o.xcsf.pa_size, lambda p: c.o.xcsf.pa[p] == c.ret, lambda p: c.o.xcsf.pa[p]).t()))])
add("pa_val", "xcsf action", requires=lambda c: [0 <= c.o.action, c.o.action < c.o.xcsf.n_actions],
    ensures=lambda c: [("the entry", c.ret == c.o.xcsf.pa[c.o.action])])
add("pa_best_action", "xcsf", requires=lambda c: [c.o.xcsf.n_actions >= 1], bounded_setup=lambda c, K: [c.o.xcsf.n_actions <= K],
    ensures=lambda c: [("a valid action", z3.And(0 <= c.ret, c.ret < c.o.xcsf.n_actions)),
                       ("no action has a higher value", Forall(0, c.o.xcsf.n_actions, lambda p: c.o.xcsf.pa[p] <= c.o.xcsf.pa[c.ret], pats=lambda p: c.o.xcsf.pa[p]))],
    roles=lambda c, s, S0, k: best_roles(c, s, k))
add("pa_rand_action", "xcsf", requires=lambda c: [c.o.xcsf.n_actions >= 1],
    ensures=lambda c: [("a valid action", z3.And(0 <= c.ret, c.ret < c.o.xcsf.n_actions)), ("with a prediction", c.o.xcsf.nr[c.ret] != 0)])
add("pa_init", "xcsf", requires=lambda c: [c.o.xcsf.n_actions >= 1, c.o.xcsf.y_dim >= 1],
    modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("pa", "nr", "cover", "pa_size")],
    ensures=lambda c: [("size", c.n.xcsf.pa_size == c.o.xcsf.n_actions * c.o.xcsf.y_dim),
                       ("own arrays", z3.And(c.n.xcsf.pa._b >= c.old.nxt, c.n.xcsf.nr._b >= c.old.nxt, c.n.xcsf.cover._b >= c.old.nxt,
                                             distinct(c.n.xcsf.pa, c.n.xcsf.nr, c.n.xcsf.cover))),
                       ("default cover prediction is zero", Forall(0, c.n.xcsf.pa_size, lambda p: c.n.xcsf.cover[p] == 0))])


def best_roles(c, s, k):
    pa = c.o.xcsf.pa
    F_ = z3.BoolVal(False)

    arr = c.ex._hm(s, ("A", "i4"))

    def f(t, u):
        # t real: the largest value seen; u int: how many actions have it
        if t.sort() != R or u.sort() != I:
            return F_
        b = best_buf(c, s)
        if b is None:
            return F_
        m = z3.Select(arr, b)
        return z3.And(1 <= u, u <= k + 1, conj(Forall(0, k + 1, lambda i: pa[i] <= t, pats=lambda i: pa[i])),
                      conj(Forall(0, u, lambda i: z3.And(0 <= z3.Select(m, i), z3.Select(m, i) <= k, pa[z3.Select(m, i)] == t),
                                  pats=lambda i: z3.Select(m, i))))
    return [Role2(f)]


def best_buf(c, s):
    for v in s.vars.values():
        if isinstance(v, Ptr) and v.loc is None and not argterm(v.base):
            return v.base
    return None
