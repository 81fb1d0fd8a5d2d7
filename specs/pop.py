"""Sets of rules as linked lists: population, match set, action set, kill set.

Ghost state per set object b: seq[b] (node sequence), len[b], pos[b] (node -> index),
cpos[b] (rule -> index), owner (node -> set).  Each public operation is specified over
that abstract sequence; the numerosity accounts are sums over it."""
from .rule import *

AA = z3.ArraySort(I, AI)
for _g in ("seq", "pos", "cpos"):
    GHOST_SORTS[_g] = AA


class L:
    def __init__(s, c, b, st):
        s.c, s.b, s.st = c, b, st
        s.N = z3.Select(c.g("seq", st), b)
        s.n = z3.Select(c.g("len", st), b)
        s.P = z3.Select(c.g("pos", st), b)
        s.CP = z3.Select(c.g("cpos", st), b)

    def node(s, k):
        return z3.Select(s.N, k)

    def clp(s, k):
        return z3.Select(s.c.field("Clist", "cl", s.st), s.node(k))

    def cl(s, k, st=None):
        return s.c.obj(s.clp(k), "Cl", st or s.st)

    def has(s, x):
        i = z3.Select(s.CP, x)
        return z3.And(0 <= i, i < s.n, s.clp(i) == x)


def bases(c, path, st):
    o = c.view(path.split(".")[0], st)
    for a in path.split(".")[1:]:
        o = getattr(o, a)
    return o._b


def wf(c, b, st):
    l = L(c, b, st)
    nx = c.field("Clist", "next", st)
    head = z3.Select(c.field("Set", "list", st), b)
    return [("list shape", z3.And(l.n >= 0, l.node(ival(0)) == head, l.node(l.n) == 0)),
            ("list nodes", Forall(0, l.n, lambda k: z3.And(
                l.node(k) > 0, l.node(k) < st.nxt, z3.Select(l.P, l.node(k)) == k, z3.Select(c.g("owner", st), l.node(k)) == b,
                l.clp(k) > 0, l.clp(k) < st.nxt), pats=lambda k: z3.Select(l.N, k))),
            ("list links", Forall(0, l.n, lambda k: z3.Select(nx, l.node(k)) == l.node(k + 1), pats=lambda k: z3.Select(nx, l.node(k))))]


def dist(c, b, st):
    l = L(c, b, st)
    return [("rules distinct", Forall(0, l.n, lambda k: z3.Select(l.CP, l.clp(k)) == k, pats=lambda k: l.clp(k)))]


def numsum(c, b, st, cst=None):
    l = L(c, b, st)
    return c.sum(l.n, lambda k: l.cl(k, cst).num, real=False)


def acct(c, b, st):
    l = L(c, b, st)
    s = c.obj(b, "Set", st)
    return [("size is the number of rules", s.size == l.n), ("numerosity is the sum over rules", s.num == numsum(c, b, st))]


def seqs_of(*paths):
    def f(c, S0):
        out = []
        for p in paths:
            l = L(c, bases(c, p, S0), S0)
            out.append((l.node, l.n))
        return out
    return f


def lm(*paths):
    """ghost locations of these sets"""
    def f(c):
        out = []
        for p in paths:
            b = bases(c, p, c.old)
            out += [GAt(g, b) for g in ("seq", "pos", "len", "cpos")]
        return out
    return f


def setmod(*paths):
    def f(c):
        out = []
        for p in paths:
            b = bases(c, p, c.old)
            out += [FAt("Set", x, b) for x in ("list", "size", "num")]
        return out + lm(*paths)(c)
    return f


def store_ghost(c, st, b, **kw):
    names = dict(N="seq", n="len", P="pos", CP="cpos")
    for k, v in kw.items():
        st.heap[("G", names[k])] = z3.Store(c.g(names[k], st), b, v)


def defarr(st, f, name="ga"):
    """fresh array with a pointwise definition"""
    A = fresh(name, AI)
    k = z3.Const("lk", I)
    st.fact(z3.ForAll([k], A[k] == f(k), patterns=[A[k]]))
    return A


def total(c, f, b=None):
    l = L(c, b if b is not None else c.o.set._b, c.old)
    return c.sum(l.n, lambda k: toreal(f(l.cl(k))))


# ---------------------------------------------------------------- readers
SETREQ = lambda c: wf(c, c.o.set._b, c.old)
add("clset_total_fit", "set", requires=SETREQ, seqs=seqs_of("set"),
    ensures=lambda c: [("sum of fitness", c.ret == total(c, lambda x: x.fit))])
add("clset_total_time", "set", requires=SETREQ, seqs=seqs_of("set"),
    ensures=lambda c: [("sum of time stamps weighted by numerosity", c.ret == total(c, lambda x: x.time * x.num))])
add("clset_mean_time", "set", requires=SETREQ, seqs=seqs_of("set"), inline=("clset_total_time",),
    ensures=lambda c: [("mean time stamp", c.ret == rdiv(total(c, lambda x: x.time * x.num), toreal(c.o.set.num)))])
add("clset_mean_cond_size", "xcsf set", bounded_setup=lambda c, K: short("set")(c, K), requires=SETREQ, seqs=seqs_of("set"),
    ensures=lambda c: [("mean over rules", c.ret == rdiv(total(c, lambda x: SIZEC(c.o.xcsf._b, x._b)), toreal(L(c, c.o.set._b, c.old).n)))])
add("clset_mean_pred_size", "xcsf set", bounded_setup=lambda c, K: short("set")(c, K), requires=SETREQ, seqs=seqs_of("set"),
    ensures=lambda c: [("mean over rules", c.ret == rdiv(total(c, lambda x: SIZEP(c.o.xcsf._b, x._b)), toreal(L(c, c.o.set._b, c.old).n)))])
add("clset_set_times", "xcsf set", requires=lambda c: SETREQ(c) + dist(c, c.o.set._b, c.old), seqs=seqs_of("set"),
    modifies=lambda c: [FAll("Cl", "time")],
    ensures=lambda c: [("every rule of the set is stamped", Forall(0, L(c, c.o.set._b, c.old).n, lambda k:
                        L(c, c.o.set._b, c.old).cl(k, c.new).time == c.o.xcsf.time)),
                       ("no other rule is", ForallP(lambda p: z3.Or(
                           L(c, c.o.set._b, c.old).has(p), c.obj(p, "Cl", c.new).time == c.obj(p, "Cl", c.old).time),
                           pats=lambda p: c.obj(p, "Cl", c.new).time))])


# ---------------------------------------------------------------- add
def grown(c, b, x):
    """the set at b gained rule x at the front"""
    l0, l1 = L(c, b, c.old), L(c, b, c.new)
    return [("one rule more", l1.n == l0.n + 1), ("the new rule", l1.clp(ival(0)) == x),
            ("the node is new", l1.node(ival(0)) >= c.old.nxt),
            ("the rest kept", Forall(1, l1.n, lambda k: l1.node(k) == l0.node(k - 1), pats=lambda k: l1.node(k))),
            ("rest kept (old view)", Forall(0, l0.n, lambda k: l1.node(k + 1) == l0.node(k), pats=lambda k: l0.node(k))),
            ("rule positions", ForallP(lambda p: z3.Select(l1.CP, p) == z3.If(p == x, 0, z3.Select(l0.CP, p) + 1), pats=lambda p: z3.Select(l1.CP, p)))]


def owner_frame(c):
    o0, o1 = c.g("owner", c.old), c.g("owner")
    return ("owners of existing nodes kept", ForallP(lambda p: z3.Implies(p < c.old.nxt, z3.Select(o1, p) == z3.Select(o0, p)),
                                                    pats=lambda p: z3.Select(o1, p)))


def add_ens(c):
    b = c.o.set._b
    return wf(c, b, c.new) + grown(c, b, c.o.c._b) + [owner_frame(c),
        ("size and numerosity accounts", z3.And(c.n.set.size == c.o.set.size + 1, c.n.set.num == c.o.set.num + c.o.c.num)),
        ("sum of numerosities", numsum(c, b, c.new) == numsum(c, b, c.old) + c.o.c.num)]


def add_ghost(c, st):
    b = c.o.set._b
    l0 = L(c, b, c.old)
    h = z3.Select(c.field("Set", "list", st), b)
    N1 = defarr(st, lambda k: z3.If(k == 0, h, l0.node(k - 1)))
    P1 = defarr(st, lambda k: z3.If(k == h, 0, z3.Select(l0.P, k) + 1))
    C1_ = defarr(st, lambda k: z3.If(k == c.o.c._b, 0, z3.Select(l0.CP, k) + 1))
    store_ghost(c, st, b, N=N1, P=P1, CP=C1_, n=l0.n + 1)
    st.heap[("G", "owner")] = z3.Store(c.g("owner", st), h, b)


add("clset_add", "set c", bounded_setup=lambda c, K: [z3.Select(c.g("len", c.old), c.o.set._b) <= K - 1], requires=lambda c: SETREQ(c) + [("a rule", z3.And(c.o.c._b > 0, c.o.c._b < c.old.nxt))],
    modifies=lambda c: setmod("set")(c) + [GAll("owner")], ensures=add_ens, ghost_exit=add_ghost)


def empty(c, b):
    l = L(c, b, c.new)
    s = c.obj(b, "Set", c.new)
    return wf(c, b, c.new) + [("empty", z3.And(l.n == 0, s.size == 0, s.num == 0, s.list._b == 0))]


def empty_ghost(c, st):
    b = c.o.set._b
    store_ghost(c, st, b, N=z3.K(I, ival(0)), n=ival(0))


add("clset_init", "set", modifies=setmod("set"), ensures=lambda c: empty(c, c.o.set._b), ghost_exit=empty_ghost)
add("clset_free", "set", requires=SETREQ, seqs=seqs_of("set"), modifies=setmod("set"),
    ensures=lambda c: empty(c, c.o.set._b), ghost_exit=empty_ghost)


def kill_ens(c):
    l0 = L(c, c.o.set._b, c.old)
    return empty(c, c.o.set._b) + [("every rule of the set released exactly once", Forall(0, l0.n, lambda k: z3.And(*[
        z3.Select(c.g(g), l0.clp(k)) == z3.Select(c.g(g, c.old), l0.clp(k)) + 1 for g in ("fre_c", "fre_p", "fre_a")])))] + [
        ("no other rule is released", ForallP(lambda p, g=g: z3.Or(l0.has(p), z3.Select(c.g(g), p) == z3.Select(c.g(g, c.old), p)),
                                              pats=lambda p, g=g: z3.Select(c.g(g), p))) for g in ("fre_c", "fre_p", "fre_a")]


add("clset_kill", "xcsf set", requires=lambda c: SETREQ(c) + dist(c, c.o.set._b, c.old), seqs=seqs_of("set"),
    modifies=lambda c: setmod("set")(c) + [GAll(g) for g in ("fre_c", "fre_p", "fre_a")],
    ensures=kill_ens, ghost_exit=empty_ghost)


# ---------------------------------------------------------------- validate
KI = z3.Function("KEPTIX", I, I, I)      # (instance, m) -> index of the m-th kept element


class Filt:
    """the subsequence of a set's rules that satisfy `keep` (in order)"""
    def __init__(self, c, b, st, keep, tag, cst=None):
        self.c, self.l, self.keep = c, L(c, b, st), keep
        self.tag = ival(tag)
        self.cnt = lambda k: c.sum(k, lambda j: z3.If(keep(j), 1, 0), real=False)

    def ki(self, m):
        return KI(self.tag, m)

    def axioms(self):
        n, cnt, keep, ki = self.l.n, self.cnt, self.keep, self.ki
        if BOUND[0] is not None:
            K = BOUND[0]
            out = []
            for j in range(K):
                out.append(z3.Implies(z3.And(ival(j) < n, keep(ival(j))), ki(cnt(ival(j))) == j))
            for m in range(K):
                out.append(z3.Implies(ival(m) < cnt(n), z3.And(0 <= ki(ival(m)), ki(ival(m)) < n, keep(ki(ival(m))))))
            return out
        j = z3.Const("fj", I)
        cj = cnt(j)
        return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, keep(j)), z3.And(ki(cj) == j, cj < cnt(n))), patterns=[cj]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), z3.And(0 <= cj, cj <= cnt(n), cj <= j)), patterns=[cj]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt(n)), z3.And(
                    0 <= ki(j), ki(j) < n, keep(ki(j)), cnt(ki(j)) == j)), patterns=[ki(j)]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.Not(keep(j))), cnt(n) < n), patterns=[cj]),
                z3.Implies(n >= 0, z3.And(0 <= cnt(n), cnt(n) <= n))]


def sum_filter(c, fl, new, old, n):
    """lemma: sum over the kept subsequence = sum over all when the dropped terms are 0"""
    if BOUND[0] is not None:
        return []
    bod = {D.decl().name(): (b, k) for D, b, k, real in c.ex.sums}
    f = lambda s: (lambda bk: (lambda j: z3.substitute(bk[0], (bk[1], j))))(bod[s.arg(0).decl().name()])
    N, O = f(new), f(old)
    j = fresh("sk", I)
    return [z3.Or(new.arg(1) != fl.cnt(n), old.arg(1) != n,
                  z3.And(0 <= j, j < n, z3.If(fl.keep(j), N(fl.cnt(j)) != O(j), O(j) != 0)), new == old)]


def vfilt(c):
    l = L(c, c.o.set._b, c.old)
    return Filt(c, c.o.set._b, c.old, lambda j: l.cl(j).num != 0, 1)


def val_setup(c, st):
    for f in vfilt(c).axioms():
        st.fact(f)


def others_linked(c, *bs):
    n0, n1, ow = c.field("Clist", "next", c.old), c.field("Clist", "next", c.new), c.g("owner", c.old)
    return ("nodes of other sets untouched", ForallP(lambda p: z3.Implies(
        z3.And(p < c.old.nxt, *[z3.Select(ow, p) != b for b in bs]), z3.Select(n1, p) == z3.Select(n0, p)), pats=lambda p: z3.Select(n1, p)))


def val_ens(c):
    b = c.o.set._b
    F, l0, l1 = vfilt(c), L(c, b, c.old), L(c, b, c.new)
    allnum = c.sum(l0.n, lambda j: l0.cl(j).num, real=False)
    return wf(c, b, c.new) + [
        ("number of rules left", l1.n == F.cnt(l0.n)),
        ("exactly the rules with copies left, in order (each is kept)", Forall(0, l0.n, lambda j: z3.Implies(
            F.keep(j), z3.And(l1.node(F.cnt(j)) == l0.node(j), F.cnt(j) < l1.n, F.cnt(j) >= 0)), pats=lambda j: l0.node(j))),
        ("nothing else is left", Forall(0, l1.n, lambda m: z3.And(
            l1.node(m) == l0.node(z3.Select(l0.P, l1.node(m))), 0 <= z3.Select(l0.P, l1.node(m)), z3.Select(l0.P, l1.node(m)) < l0.n,
            l1.cl(m).num != 0), pats=lambda m: l1.node(m))),
        ("rule positions", ForallP(lambda p: z3.Select(l1.CP, p) == F.cnt(z3.Select(l0.CP, p)), pats=lambda p: z3.Select(l1.CP, p))),
        ("a rule with copies stays", ForallP(lambda p: z3.Implies(z3.And(l0.has(p), c.obj(p, "Cl", c.old).num != 0), l1.has(p)), pats=lambda p: z3.Select(l0.CP, p))),
        ("a set that does not shrink had no empty rule", Forall(0, l0.n, lambda j: z3.Or(l1.n < l0.n, F.keep(j), F.cnt(j) < 0), pats=lambda j: l0.node(j))),
        others_linked(c, b)] + dist(c, b, c.new) + [("size account", c.n.set.size == l1.n),
        ("numerosity account", c.n.set.num == numsum(c, b, c.new)),
        ("numerosity of the set is unchanged by dropping empty rules", numsum(c, b, c.new) == allnum)]


def val_ghost(c, st):
    b = c.o.set._b
    F, l0 = vfilt(c), L(c, b, c.old)
    n1 = F.cnt(l0.n)
    N1 = defarr(st, lambda m: z3.If(z3.And(0 <= m, m < n1), l0.node(F.ki(m)), 0))
    P1 = defarr(st, lambda x: F.cnt(z3.Select(l0.P, x)))
    C1_ = defarr(st, lambda x: F.cnt(z3.Select(l0.CP, x)))
    store_ghost(c, st, b, N=N1, P=P1, CP=C1_, n=n1)


def val_hints(c):
    b = c.o.set._b
    F, l0 = vfilt(c), L(c, b, c.old)
    allnum = c.sum(l0.n, lambda j: l0.cl(j).num, real=False)
    return sum_filter(c, F, numsum(c, b, c.new), allnum, l0.n)


def val_cands(c, s, S0, k):
    b = c.o.set._b
    F, l0 = vfilt(c), L(c, b, c.old)
    nx = c.field("Clist", "next", s)
    cn = F.cnt(k)
    st = c.obj(b, "Set", s)
    nk = lambda m: l0.node(F.ki(m))
    return [st.size == cn,
            st.num == c.sum(k, lambda j: l0.cl(j).num, real=False),
            st.list._b == z3.If(cn == 0, l0.node(k), nk(ival(0))),
            Forall(0, cn - 1, lambda m: z3.Select(nx, nk(m)) == nk(m + 1), pats=lambda m: nk(m)),
            z3.Implies(cn > 0, z3.Select(nx, nk(cn - 1)) == l0.node(k)),
            Forall(k, l0.n, lambda j: z3.Select(nx, l0.node(j)) == l0.node(j + 1), pats=lambda j: z3.Select(nx, l0.node(j))),
            z3.And(0 <= k, k <= l0.n),
            links_kept(c, s, b)]


def links_kept(c, s, *bs):
    n0, n1, ow = c.field("Clist", "next", c.old), c.field("Clist", "next", s), c.g("owner", c.old)
    return ForallP(lambda p: z3.Implies(z3.And(p < c.old.nxt, *[z3.Select(ow, p) != b for b in bs]), z3.Select(n1, p) == z3.Select(n0, p)), pats=lambda p: z3.Select(n1, p))


def val_roles(c, s, S0, k):
    F, l0 = vfilt(c), L(c, c.o.set._b, c.old)
    cn = F.cnt(k)
    return [lambda t: t == l0.node(k) if t.sort() == I else z3.BoolVal(False),
            lambda t: t == z3.If(cn == 0, 0, l0.node(F.ki(cn - 1))) if t.sort() == I else z3.BoolVal(False)]


add("clset_validate", "set", requires=lambda c: SETREQ(c) + dist(c, c.o.set._b, c.old), bounded_setup=lambda c, K: short("set")(c, K), setup=val_setup, ghost_exit=val_ghost, hints=val_hints,
    modifies=lambda c: setmod("set")(c) + [FAll("Clist", "next")],
    cands=val_cands, roles=val_roles, ensures=val_ens, opts={"lean": True, "cand_timeout": 1.5})


# ---------------------------------------------------------------- deletion
DRAW = z3.Function("DRAW", I, R)           # i-th uniform deviate in (0,1)
GHOST_SORTS["dc"] = AI


def draw_at(c, st, i):
    return DRAW(z3.Select(c.g("dc", st), ival(0)) + i)


RU_DRAW = Contract(
    "rand_uniform", "min max", trusted=True, modifies=lambda c: [GAt("dc", ival(0))],
    ensures=lambda c: [c.ret == c.o.min + draw_at(c, c.old, 0) * (c.o.max - c.o.min),
                       0 < draw_at(c, c.old, 0), draw_at(c, c.old, 0) < 1,
                       z3.Select(c.g("dc"), ival(0)) == z3.Select(c.g("dc", c.old), ival(0)) + 1],
    note="the i-th random number drawn is named so that the selection can be stated as a function of it")


def pbase(c):
    return c.o.xcsf.pset._b


def never(c, l, k):
    r = l.cl(k)
    return z3.And(r.mtotal == 0, r.age > c.o.xcsf.M_PROBATION)


def delcells(c):
    return [AAt("p:Clist", c.o.del_._b), AAt("p:Clist", c.o.delprev._b)]


def dreq(c):
    return wf(c, pbase(c), c.old) + [
        ("two result cells", z3.And(c.o.del_._b != c.o.delprev._b, c.o.del_._b > 0, c.o.delprev._b > 0)),
        ("nothing picked yet", c.o.del_[0]._b == 0)]


def at_index(c, l, d, dp):
    """d is a node of l and dp its predecessor"""
    j = z3.Select(l.P, d)
    return z3.And(0 <= j, j < l.n, l.node(j) == d, dp == z3.If(j == 0, 0, l.node(j - 1)))


def never_ens(c):
    l = L(c, pbase(c), c.old)
    d, dp = c.n.del_[0]._b, c.n.delprev[0]._b
    j = z3.Select(l.P, d)
    return [("a rule past probation that never matched", z3.Implies(d != 0, z3.And(at_index(c, l, d, dp), never(c, l, j)))),
            ("the first such rule, or none exists", Forall(0, z3.If(d != 0, j, l.n), lambda k: z3.Not(never(c, l, k)), pats=lambda k: l.node(k)))]


def never_roles(c, s, S0, k):
    l = L(c, pbase(c), c.old)
    return [lambda t: t == z3.If(k == 0, 0, l.node(k - 1)) if t.sort() == I else z3.BoolVal(False)]


add("clset_pset_never_match", "xcsf del_ delprev", requires=dreq, modifies=delcells, seqs=seqs_of("xcsf.pset"),
    roles=never_roles, ensures=never_ens)


VOTEF = z3.Function("VOTEF", I, I, R, R)   # (xcsf, rule, average fitness) -> vote; no rule changes while votes are counted
CDV = Contract(
    "cl_del_vote", "xcsf c avg_fit", trusted=True,
    requires=lambda c: [("a healthy rule", z3.And(c.o.c.num >= 1, c.o.c.fit > 0, c.o.c.size >= 0, c.o.avg_fit >= 0))],
    ensures=lambda c: [c.ret == VOTEF(c.o.xcsf._b, c.o.c._b, c.o.avg_fit)],
    note="names the value specified and proved in cl_del_vote's own contract (a function of the rule, which the wheel does not modify)")


class Vote:
    def __init__(self, c, st):
        self.c = c
        x = c.o.xcsf
        self.l = L(c, pbase(c), st)
        self.x = c.obj(x._b, "XCSF", st)
        tf = c.sum(self.l.n, lambda k: self.l.cl(k).fit)
        self.avg = rdiv(tf, toreal(self.x.pset.num))
        self.st = st

    def v(self, k):
        return VOTEF(self.x._b, self.l.clp(k), self.avg)

    def VS(self, k):
        return self.c.sum(k, self.v)

    def sz(self, k):
        p = self.l.clp(k)
        return SIZEC(self.x._b, p) + SIZEP(self.x._b, p)

    def p(self, i):
        return draw_at(self.c, self.st, i) * self.VS(self.l.n)

    def pick(self, i, k):
        return z3.And(self.p(i) <= self.VS(k + 1), z3.Or(k == 0, self.p(i) > self.VS(k)))

    def two(self):
        return z3.And(self.x.COMPACTION != 0, self.x.error < self.x.E0)


def healthy(c, st, b=None):
    """invariant of the rules in a population"""
    l = L(c, b if b is not None else pbase(c), st)
    return [("rules have copies, positive fitness and a set-size estimate", Forall(0, l.n, lambda k: z3.And(
        l.cl(k).num >= 1, l.cl(k).fit > 0, l.cl(k).size >= 0), pats=lambda k: l.node(k)))]


def nonneg_sum(c, real, n, f):
    """sum lemma: non-negative terms (on [0,n)) give a monotone prefix sum"""
    if BOUND[0] is not None:
        return []
    j = fresh("sk", I)
    a, b = z3.Const("na", I), z3.Const("nb", I)
    Sa, Sb = c.sum(a, f, real), c.sum(b, f, real)
    return [z3.Or(z3.And(0 <= j, j < n, z3.Not(f(j) >= 0)),
                  z3.And(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), Sa <= Sb), patterns=[mpat(Sa, Sb)]),
                         z3.Implies(n >= 0, c.sum(n, f, real) >= 0)))]


def roul_setup(c, st):
    """lemmas: sums of non-negative terms are monotone; a healthy rule has a non-negative vote"""
    V = Vote(c, c.old)
    n, k = V.l.n, z3.Const("rk", I)
    if BOUND[0] is not None:
        for i in range(BOUND[0]):
            st.fact(z3.Implies(ival(i) < n, V.v(ival(i)) >= 0))
        st.fact(V.avg >= 0)
        return
    st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), V.v(k) >= 0), patterns=[V.v(k)]))
    a, b = z3.Const("na", I), z3.Const("nb", I)
    Sa, Sb = V.VS(a), V.VS(b)
    st.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), Sa <= Sb), patterns=[mpat(Sa, Sb)]))
    st.fact(V.VS(n) >= 0)
    st.fact(c.sum(n, lambda k: V.l.cl(k).fit) >= 0)
    st.fact(V.avg >= 0)


def roul_ens(c):
    V = Vote(c, c.old)
    l = V.l
    d, dp = c.n.del_[0]._b, c.n.delprev[0]._b
    j = z3.Select(l.P, d)
    n1 = z3.If(V.two(), 2, 1)
    return [("a rule of the population", z3.And(d != 0, at_index(c, l, d, dp))),
            ("picked by a spin of the wheel", z3.Or(V.pick(0, j), z3.And(V.two(), V.pick(1, j)))),
            ("the larger of the rules picked (first spin)", Forall(0, l.n, lambda k: z3.Implies(V.pick(0, k), V.sz(k) <= V.sz(j)), pats=lambda k: l.node(k))),
            ("the larger of the rules picked (second spin)", Forall(0, l.n, lambda k: z3.Implies(
                z3.And(V.two(), V.pick(1, k)), V.sz(k) <= V.sz(j)), pats=lambda k: l.node(k))),
            ("one number drawn per spin", z3.Select(c.g("dc"), ival(0)) == z3.Select(c.g("dc", c.old), ival(0)) + n1)]


def roul_roles(c, s, S0, k):
    V = Vote(c, c.old)
    l = V.l
    isI = lambda t: t.sort() == I
    F_ = z3.BoolVal(False)
    return [lambda t: z3.And(t == l.node(k), 0 <= k, k < l.n) if isI(t) else F_,
            lambda t: t == z3.If(k == 0, 0, l.node(k - 1)) if isI(t) else F_,
            lambda t: t == V.VS(k + 1) if not isI(t) else F_,
            lambda t: t == V.VS(k) if not isI(t) else F_,
            RoleAny(lambda t: z3.Or(k == 0, t > V.VS(k)) if not isI(t) else F_)]


add("clset_pset_roulette", "xcsf del_ delprev",
    requires=lambda c: dreq(c) + healthy(c, c.old) + [("at least one rule", L(c, pbase(c), c.old).n >= 1), ("copies counted", c.o.xcsf.pset.num >= 1)],
    modifies=lambda c: delcells(c) + [GAt("dc", ival(0))], seqs=seqs_of("xcsf.pset"), setup=roul_setup,
    roles=roul_roles, ensures=roul_ens, opts={"overlay": {"rand_uniform": RU_DRAW, "cl_del_vote": CDV}, "small_loops": 2, "lean": True, "cand_timeout": 1.2})


def body_of(c, s):
    """term function of a spec sum application"""
    for D, b, k, real in c.ex.sums:
        if D.decl().name() == s.arg(0).decl().name():
            return lambda j: z3.substitute(b, (k, j))


def sum_point(c, new, old, j):
    """lemma: sums that differ at index j only"""
    if BOUND[0] is not None:
        return []
    N, O, i = body_of(c, new), body_of(c, old), fresh("sk", I)
    n = old.arg(1)
    return [z3.Or(new.arg(1) != n, z3.Not(z3.And(0 <= j, j < n)), z3.And(0 <= i, i < n, i != j, N(i) != O(i)),
                  new == old - O(j) + N(j))]


def sum_delete(c, new, old, j):
    """lemma: the new terms are the old ones without index j"""
    if BOUND[0] is not None:
        return []
    N, O, i, i2 = body_of(c, new), body_of(c, old), fresh("sk", I), fresh("sk", I)
    n = old.arg(1)
    return [z3.Or(new.arg(1) != n - 1, z3.Not(z3.And(0 <= j, j < n)), z3.And(0 <= i, i < j, N(i) != O(i)),
                  z3.And(j <= i2, i2 < n - 1, N(i2) != O(i2 + 1)), new == old - O(j))]


def kbase(c):
    return c.o.xcsf.kset._b


def mbase(c):
    return c.o.xcsf.mset._b


def disjoint(c, a, b, st):
    """no rule of set a is in set b"""
    la, lb = L(c, a, st), L(c, b, st)
    return ("sets %s disjoint", Forall(0, la.n, lambda k: z3.Not(lb.has(la.clp(k))), pats=lambda k: la.clp(k)))


def popinv(c, st):
    """what holds of a population between operations"""
    b = pbase(c)
    return wf(c, b, st) + dist(c, b, st) + acct(c, b, st) + healthy(c, st)


def pk_inv(c, st):
    """population and kill list: well formed, and disjoint"""
    lk, lp = L(c, kbase(c), st), L(c, pbase(c), st)
    return popinv(c, st) + wf(c, kbase(c), st) + dist(c, kbase(c), st) + [
        ("rules to be freed are not in the population", Forall(0, lk.n, lambda k: z3.Not(lp.has(lk.clp(k))), pats=lambda k: lk.clp(k)))]


def del_req(c):
    return pk_inv(c, c.old) + [("a non-empty population", c.o.xcsf.pset.num >= 1)]


def del_setup(c, st):
    """lemma: a sum of positive terms over no terms is 0 (so a positive numerosity means a rule exists)"""
    if BOUND[0] is None:
        l = L(c, pbase(c), c.old)
        st.fact(z3.Implies(l.n <= 0, numsum(c, pbase(c), c.old) == 0))


def deleted(c):
    """position at which a copy was removed"""
    l = L(c, pbase(c), c.old)
    return z3.Select(c.g("del_ix"), ival(0))


def del_ens(c):
    b, kb = pbase(c), kbase(c)
    l0, l1, k0, k1 = L(c, b, c.old), L(c, b, c.new), L(c, kb, c.old), L(c, kb, c.new)
    V = Vote(c, c.old)
    j = deleted(c)
    gone = l0.cl(j, c.old).num == 1
    anynever = lambda f: f
    return pk_inv(c, c.new) + [
        others_linked(c, b, kb), owner_frame(c),
        ("a rule of the population", z3.And(0 <= j, j < l0.n)),
        ("it loses one copy", l0.cl(j, c.new).num == l0.cl(j, c.old).num - 1),
        ("no other rule changes", ForallP(lambda p: z3.Implies(p != l0.clp(j), c.obj(p, "Cl", c.new).num == c.obj(p, "Cl", c.old).num),
                                          pats=lambda p: c.obj(p, "Cl", c.new).num)),
        ("total numerosity falls by exactly one", c.n.xcsf.pset.num == c.o.xcsf.pset.num - 1),
        ("a rule without copies leaves the population", l1.n == l0.n - z3.If(gone, 1, 0)),
        ("and is queued to be freed", z3.If(gone, z3.And(k1.n == k0.n + 1, k1.clp(ival(0)) == l0.clp(j)), k1.n == k0.n)),
        ("the others stay, in order", Forall(0, l1.n, lambda k: l1.node(k) == z3.If(z3.And(gone, k >= j), l0.node(k + 1), l0.node(k)), pats=lambda k: l1.node(k))),
        ("rule positions", ForallP(lambda p: z3.Select(l1.CP, p) == z3.If(
            z3.And(gone, z3.Select(l0.CP, p) >= j), z3.If(z3.Select(l0.CP, p) == j, -1, z3.Select(l0.CP, p) - 1), z3.Select(l0.CP, p)), pats=lambda p: z3.Select(l1.CP, p))),
        ("never-matched rules before it: none", Forall(0, z3.If(never(c, l0, j), j, l0.n), lambda k: z3.Not(never(c, l0, k)), pats=lambda k: l0.node(k))),
        ("otherwise the wheel picks it", z3.Or(never(c, l0, j), V.pick(0, j), z3.And(V.two(), V.pick(1, j)))),
        ("the larger of two picks", Forall(0, l0.n, lambda k: z3.Implies(z3.And(z3.Not(never(c, l0, j)), z3.Or(
            V.pick(0, k), z3.And(V.two(), V.pick(1, k)))), V.sz(k) <= V.sz(j)), pats=lambda k: l0.node(k)))]


def del_ghost(c, st):
    b, kb = pbase(c), kbase(c)
    l0 = L(c, b, c.old)
    # the rule that lost a copy: the one whose numerosity changed
    num0, num1 = c.field("Cl", "num", c.old), c.field("Cl", "num", st)
    w = changed_at(num1, num0)
    j = z3.Select(l0.CP, w) if w is not None else fresh("delj", I)
    gone = z3.Select(c.g("len", st), kb) != z3.Select(c.g("len", c.old), kb)
    j = simp(j)
    st.heap[("G", "del_ix")] = z3.Store(c.g("del_ix", st), ival(0), j)
    N1 = defarr(st, lambda k: z3.If(z3.And(gone, k >= j), l0.node(k + 1), l0.node(k)))
    P1 = defarr(st, lambda x: z3.If(z3.And(gone, z3.Select(l0.P, x) > j), z3.Select(l0.P, x) - 1, z3.Select(l0.P, x)))
    C1_ = defarr(st, lambda x: z3.If(z3.And(gone, z3.Select(l0.CP, x) >= j), z3.If(z3.Select(l0.CP, x) == j, -1, z3.Select(l0.CP, x) - 1), z3.Select(l0.CP, x)))
    store_ghost(c, st, b, N=N1, P=P1, CP=C1_, n=l0.n - z3.If(gone, 1, 0))


def changed_at(m1, m0):
    """index of a single store on top of m0 (looking through merges)"""
    while z3.is_app(m1) and not m1.eq(m0):
        if m1.decl().kind() == z3.Z3_OP_STORE:
            return m1.arg(1)
        if m1.decl().kind() == z3.Z3_OP_ITE:
            a = changed_at(m1.arg(1), m0)
            b = changed_at(m1.arg(2), m0)
            if a is None or b is None:
                return a if b is None else b
            return a if a.eq(b) else z3.If(m1.arg(0), a, b)
        return None
    return None


def del_hints(c):
    b = pbase(c)
    if BOUND[0] is not None:
        return []
    j = deleted(c)
    l0 = L(c, b, c.old)
    s0 = numsum(c, b, c.old)
    mid = c.sum(l0.n, lambda k: l0.cl(k, c.new).num, real=False)
    s1 = numsum(c, b, c.new)
    return sum_point(c, mid, s0, j) + sum_delete(c, s1, mid, j) + sum_point(c, s1, s0, j) + \
        [z3.Implies(z3.And(l0.n >= 1), True)]


def short(*paths):
    """bounded mode: the lists fit the bound"""
    def f(c, K):
        return [z3.Select(c.g("len", c.old), bases(c, p, c.old)) <= (K if i == 0 else K - 1) for i, p in enumerate(paths)]
    return f


add("clset_pset_del", "xcsf", bounded_setup=short("xcsf.pset", "xcsf.kset"), requires=del_req, setup=del_setup, ensures=del_ens, ghost_exit=del_ghost, hints=del_hints,
    modifies=lambda c: setmod("xcsf.pset", "xcsf.kset")(c) + [FAll("Cl", "num"), FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0))])


def lim_ens(c):
    b, kb = pbase(c), kbase(c)
    l0, l1 = L(c, b, c.old), L(c, b, c.new)
    n0, n1 = c.o.xcsf.pset.num, c.n.xcsf.pset.num
    cap = c.o.xcsf.POP_SIZE
    return pk_inv(c, c.new) + [
        others_linked(c, b, kb), owner_frame(c),
        ("numerosity is within the limit", n1 <= z3.If(n0 <= cap, n0, cap)),
        ("and no more is deleted than necessary", n1 >= z3.If(n0 <= cap, n0, cap)),
        ("rules left were in the population", Forall(0, l1.n, lambda k: l0.has(l1.clp(k)), pats=lambda k: l1.clp(k))),
        ("a rule still counted is still there", Forall(0, l0.n, lambda k: z3.Or(
            l1.has(l0.clp(k)), l0.cl(k, c.new).num == 0), pats=lambda k: l0.node(k))),
        ("copies only decrease", ForallP(lambda p: z3.If(l0.has(p), z3.And(
            0 <= c.obj(p, "Cl", c.new).num, c.obj(p, "Cl", c.new).num <= c.obj(p, "Cl", c.old).num),
            c.obj(p, "Cl", c.new).num == c.obj(p, "Cl", c.old).num), pats=lambda p: c.obj(p, "Cl", c.new).num)),
        ("no rule leaves unless the list shrinks", Forall(0, l0.n, lambda k: z3.Or(l1.n < l0.n, l1.has(l0.clp(k))), pats=lambda k: l0.node(k))),
        ("the list does not grow", l1.n <= l0.n)]


add("clset_pset_enforce_limit", "xcsf", requires=lambda c: pk_inv(c, c.old) + [c.o.xcsf.POP_SIZE >= 0], ensures=lim_ens,
    bounded_setup=short("xcsf.pset", "xcsf.kset"),
    cands=lambda c, s, S0, k: [c.obj(pbase(c), "Set", s).num >= z3.If(c.o.xcsf.pset.num <= c.o.xcsf.POP_SIZE, c.o.xcsf.pset.num, c.o.xcsf.POP_SIZE),
                               c.obj(pbase(c), "Set", s).num <= c.o.xcsf.pset.num],
    modifies=lambda c: setmod("xcsf.pset", "xcsf.kset")(c) + [FAll("Cl", "num"), FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0))])


# ---------------------------------------------------------------- action set, action coverage
class EX:
    """exists k in [0,n): f(k)"""
    def __init__(self, n, f, pats):
        self.n, self.f, self.pats = n, f, pats

    def t(self):
        if BOUND[0] is not None:
            return z3.Or(*[z3.And(ival(i) < self.n, self.f(ival(i))) for i in range(BOUND[0] + 1)])
        k = z3.Const("exk%d" % stamp(), I)
        return z3.Exists([k], z3.And(0 <= k, k < self.n, self.f(k)), patterns=[self.pats(k)])


def filt_ens(c, dst, src, keep, st=None):
    """the rules of set dst are exactly the rules of set src that satisfy keep (a predicate on rules)"""
    la, lm_ = L(c, dst, c.new), L(c, src, st or c.old)
    return [("every such rule is in", Forall(0, lm_.n, lambda k: z3.Implies(keep(lm_.clp(k)), la.has(lm_.clp(k))), pats=lambda k: lm_.clp(k))),
            ("no other rule is in", Forall(0, la.n, lambda m: z3.And(lm_.has(la.clp(m)), keep(la.clp(m))), pats=lambda m: la.clp(m)))]


def abase(c):
    return c.o.xcsf.aset._b


def act_ens(c):
    ab, mb = abase(c), mbase(c)
    return wf(c, ab, c.new) + dist(c, ab, c.new) + acct(c, ab, c.new) + \
        filt_ens(c, ab, mb, lambda r: c.obj(r, "Cl", c.old).action == c.o.action) + [
            owner_frame(c),
            ("running mean of the set size", c.n.xcsf.aset_size == c.o.xcsf.aset_size + (toreal(c.n.xcsf.aset.size) - c.o.xcsf.aset_size) * c.o.xcsf.BETA)]


def seen_before(c, s, k, dst, src):
    la, lm_ = L(c, dst, s), L(c, src, c.old)
    return Forall(0, la.n, lambda m: z3.Select(lm_.CP, la.clp(m)) < k, pats=lambda m: la.clp(m))


add("clset_action", "xcsf action", seqs=seqs_of("xcsf.mset"), bounded_setup=short("xcsf.mset"),
    requires=lambda c: wf(c, mbase(c), c.old) + dist(c, mbase(c), c.old) + wf(c, abase(c), c.old) + acct(c, abase(c), c.old) +
    [("starts empty", L(c, abase(c), c.old).n == 0)],
    modifies=lambda c: setmod("xcsf.aset")(c) + [FAt("XCSF", "aset_size", c.o.xcsf._b), GAll("owner")],
    cands=lambda c, s, S0, k: [seen_before(c, s, k, abase(c), mbase(c))], ensures=act_ens, opts={"no_values": True})




def covered_ex(c, l, i, st):
    """some rule of the list advocates action i"""
    if BOUND[0] is None:
        p = z3.Const("cvp%d" % stamp(), I)
        return z3.Exists([p], z3.And(MARK(p), l.has(p), c.obj(p, "Cl", st).action == i), patterns=[MARK(p)])
    return EX(l.n, lambda k: l.cl(k, st).action == i, lambda k: l.clp(k)).t()


def acov_ens(c):
    l = L(c, mbase(c), c.old)
    ac = c.n.act_covered
    return [("an action is flagged iff some rule of the match set advocates it", Forall(0, c.o.xcsf.n_actions, lambda i: z3.And(
        z3.Or(ac[i] == 0, ac[i] == 1), (ac[i] == 1) == covered_ex(c, l, i, c.old)), pats=lambda i: ac[i])),
        ("true iff all are", IffAll(c.ret, c.o.xcsf.n_actions, lambda i: ac[i] == 1, pats=lambda i: ac[i]))]


def mark_rules(c, st, l):
    if BOUND[0] is None:
        p = z3.Const("mkp", I)
        st.fact(z3.ForAll([p], MARK(p), patterns=[MARK(p)]))
        st.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < l.n), MARK(l.clp(p))), patterns=[l.clp(p)]))


def acov_setup(c, st):
    mark_rules(c, st, L(c, mbase(c), c.old))


def acov_cands(c, s, S0, k):
    l = L(c, mbase(c), c.old)
    ac = c.o.act_covered._at(s)
    return [Forall(0, k, lambda j: ac[l.cl(j, c.old).action] == 1, pats=lambda j: l.clp(j)),
            Forall(0, c.o.xcsf.n_actions, lambda i: z3.And(z3.Or(ac[i] == 0, ac[i] == 1), z3.Implies(ac[i] == 1, covered_ex(c, l, i, c.old))), pats=lambda i: ac[i])]


def acts_ok(c, b, st):
    l = L(c, b, st)
    return ("valid actions", Forall(0, l.n, lambda k: z3.And(0 <= l.cl(k, st).action, l.cl(k, st).action < c.o.xcsf.n_actions), pats=lambda k: l.node(k)))


add("clset_action_coverage", "xcsf act_covered", seqs=seqs_of("xcsf.mset"), bounded_setup=lambda c, K: short("xcsf.mset")(c, K) + [c.o.xcsf.n_actions <= K],
    requires=lambda c: wf(c, mbase(c), c.old) + dist(c, mbase(c), c.old) + [acts_ok(c, mbase(c), c.old), nonnull(c.o.act_covered), c.o.xcsf.n_actions >= 1],
    setup=acov_setup,
    modifies=lambda c: [AAt("bool", c.o.act_covered._b)], cands=acov_cands, ensures=acov_ens)


# ---------------------------------------------------------------- fitness update
ACCV = z3.Function("ACCV", R, R, R, R, R)     # abbreviates the accuracy formula of cl_acc's contract
SHARE = z3.Function("FITV", R, R, R, R, R, R)   # abbreviates the fitness update formula of cl_update_fit's contract


def acc_of(x, r):
    return ACCV(x.E0, x.ALPHA, x.NU, r.err)


def fit_of(x, r, acc, S):
    return SHARE(x.BETA, r.fit, toreal(r.num), acc, S)


CACC = Contract("cl_acc", "xcsf c", trusted=True, note="abbreviates the formula proved in cl_acc's own contract",
                ensures=lambda c: [c.ret == acc_of(c.o.xcsf, c.o.c), c.ret > 0])
CUF = Contract("cl_update_fit", "xcsf c acc_sum acc", trusted=True, note="abbreviates the formula proved in cl_update_fit's own contract",
               modifies=lambda c: [FAt("Cl", "fit", c.o.c._b)],
               ensures=lambda c: [c.n.c.fit == fit_of(c.o.xcsf, c.o.c, c.o.acc, c.o.acc_sum),
                                  z3.Implies(z3.And(c.o.c.fit > 0, 0 <= c.o.xcsf.BETA, c.o.xcsf.BETA <= 1, c.o.acc > 0, c.o.c.num >= 1, c.o.acc_sum > 0), c.n.c.fit > 0)])


def accsum(c, b, st, nst=None):
    l = L(c, b, st)
    return c.sum(l.n, lambda k: acc_of(c.o.xcsf, l.cl(k, st)) * toreal(l.cl(k, nst or st).num))


def uf_ens(c):
    b = c.o.set._b
    l = L(c, b, c.old)
    x = c.o.xcsf
    S = accsum(c, b, c.old)
    return [("fitness moves towards the rule's share of the set's accuracy", Forall(0, l.n, lambda k:
             l.cl(k, c.new).fit == fit_of(x, l.cl(k), acc_of(x, l.cl(k)), S), pats=lambda k: l.node(k))),
            ("fitness stays positive", Forall(0, l.n, lambda k: l.cl(k, c.new).fit > 0, pats=lambda k: l.node(k))),
            ("no other rule's fitness changes", ForallP(lambda p: z3.Or(l.has(p), c.obj(p, "Cl", c.new).fit == c.obj(p, "Cl", c.old).fit),
                                                        pats=lambda p: c.obj(p, "Cl", c.new).fit))]


def uf_setup(c, st):
    """lemma: a non-empty sum of positive terms is positive"""
    b = c.o.set._b
    l = L(c, b, c.old)
    if BOUND[0] is None:
        st.fact(z3.Implies(l.n >= 1, accsum(c, b, c.old) > 0))
        k = z3.Const("ak", I)
        a = acc_of(c.o.xcsf, l.cl(k))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.n), a > 0), patterns=[a]))
    else:
        for i in range(BOUND[0]):
            st.fact(acc_of(c.o.xcsf, l.cl(ival(i))) > 0)


UFREQ = lambda c: SETREQ(c) + dist(c, c.o.set._b, c.old) + healthy(c, c.old, c.o.set._b) + [
    ("size account", c.o.set.size == L(c, c.o.set._b, c.old).n), ("learning rate", z3.And(0 <= c.o.xcsf.BETA, c.o.xcsf.BETA <= 1))]
add("clset_update_fit", "xcsf set", seqs=seqs_of("set"), bounded_setup=short("set"), requires=UFREQ, setup=uf_setup,
    modifies=lambda c: [FAll("Cl", "fit")], ensures=uf_ens, opts={"overlay": {"cl_acc": CACC, "cl_update_fit": CUF}})


# ---------------------------------------------------------------- set subsumption
def subset(c, a, b, st):
    la, lb = L(c, a, st), L(c, b, st)
    return ("rules of the set are in the population", Forall(0, la.n, lambda k: lb.has(la.clp(k)), pats=lambda k: la.clp(k)))


def gen(c, a, b):
    x = c.o.xcsf._b
    return z3.And(GENC(x, a, b) == 1, GENA(x, a, b) == 1)


def subsumer(c, r, st):
    o = c.obj(r, "Cl", st)
    return z3.And(o.exp > c.o.xcsf.THETA_SUB, o.err < c.o.xcsf.E0)


def sum_two(c, new, old, a, b):
    """lemma: sums that differ at two indices only"""
    if BOUND[0] is not None:
        return []
    N, O, i = body_of(c, new), body_of(c, old), fresh("sk", I)
    n = old.arg(1)
    return [z3.Or(new.arg(1) != n, z3.Not(z3.And(0 <= a, a < n, 0 <= b, b < n, a != b)),
                  z3.And(0 <= i, i < n, i != a, i != b, N(i) != O(i)), new == old - O(a) - O(b) + N(a) + N(b))]


def subs_req(c):
    b, sb = pbase(c), c.o.set._b
    return pk_inv(c, c.old) + wf(c, sb, c.old) + dist(c, sb, c.old) + acct(c, sb, c.old) + [
        ("three different sets", z3.And(sb != b, sb != kbase(c))), subset(c, sb, b, c.old)]


def qall(p, body, pat):
    return engine.mk_forall([p], body, [pat])


def argterm(t):
    return z3.is_const(t) and t.decl().name().startswith("arg_")


def subs_by(c, s, w):
    """between c.old and s, rule w took over copies of rules it is more general than"""
    sb = c.o.set._b
    ls = L(c, sb, c.old)
    n0, n1 = c.field("Cl", "num", c.old), c.field("Cl", "num", s)
    p = z3.Const("sbp", I)
    return qall(p, z3.Implies(z3.Select(n1, p) != z3.Select(n0, p), z3.And(ls.has(p), z3.Or(
        p == w, z3.And(gen(c, w, p), z3.Select(n1, p) == 0)))), z3.Select(n1, p))


def nums_same(c, s):
    n0, n1 = c.field("Cl", "num", c.old), c.field("Cl", "num", s)
    p = z3.Const("nsp", I)
    return qall(p, z3.Select(n1, p) == z3.Select(n0, p), z3.Select(n1, p))


def subs_ens(c):
    b, sb, kb = pbase(c), c.o.set._b, kbase(c)
    lp0, lp1, ls0, ls1 = L(c, b, c.old), L(c, b, c.new), L(c, sb, c.old), L(c, sb, c.new)
    num = lambda p, st: z3.Select(c.field("Cl", "num", st), p)
    return pk_inv(c, c.new) + wf(c, sb, c.new) + dist(c, sb, c.new) + acct(c, sb, c.new) + [
        subset(c, sb, b, c.new), others_linked(c, b, kb, sb), owner_frame(c),
        ("total numerosity is conserved", c.n.xcsf.pset.num == c.o.xcsf.pset.num),
        ("numerosity of the set is conserved", c.n.set.num == c.o.set.num),
        ("only a more general, accurate and experienced rule of the set takes over others", z3.Or(nums_same(c, c.new), EX(
            ls0.n, lambda k: z3.And(subsumer(c, ls0.clp(k), c.old), subs_by(c, c.new, ls0.clp(k))), lambda k: ls0.clp(k)).t())),
        ("rules leave only by being subsumed", Forall(0, lp0.n, lambda k: z3.Or(
            lp1.has(lp0.clp(k)), num(lp0.clp(k), c.new) == 0), pats=lambda k: lp0.node(k))),
        ("no rule joins", Forall(0, lp1.n, lambda k: lp0.has(lp1.clp(k)), pats=lambda k: lp1.clp(k)))]


def seqsum(c, b, s):
    """numerosities (state s) over the entry sequence of a set"""
    l = L(c, b, c.old)
    return c.sum(l.n, lambda k: l.cl(k, s).num, real=False)


def subs_cands(c, s, S0, k):
    b, sb, kb = pbase(c), c.o.set._b, kbase(c)
    lp, ls, lk = L(c, b, c.old), L(c, sb, c.old), L(c, kb, s)
    n1 = c.field("Cl", "num", s)
    cur = S0   # state at loop entry
    return [g for l_, g in wf(c, kb, s) + dist(c, kb, s)] + [
        owner_frame_s(c, s),
        ForallP(lambda p: z3.Or(z3.Not(lp.has(p)), z3.Select(n1, p) >= 0), pats=lambda p: z3.Select(n1, p)),
        seqsum(c, b, s) == seqsum(c, b, c.old), seqsum(c, sb, s) == seqsum(c, sb, c.old),
        Forall(0, lk.n, lambda m: z3.Or(z3.Not(lp.has(lk.clp(m))), z3.And(z3.Select(n1, lk.clp(m)) == 0, z3.Select(ls.CP, lk.clp(m)) < k)), pats=lambda m: lk.clp(m)),
        Forall(k, ls.n, lambda m: z3.Or(z3.Select(n1, ls.clp(m)) == z3.Select(c.field("Cl", "num", c.old), ls.clp(m)), z3.Select(n1, ls.clp(m)) > 0), pats=lambda m: ls.clp(m))]


def owner_frame_s(c, s):
    o0, o1 = c.g("owner", c.old), c.g("owner", s)
    return ForallP(lambda p: z3.Implies(p < c.old.nxt, z3.Select(o1, p) == z3.Select(o0, p)), pats=lambda p: z3.Select(o1, p))


def subs_roles(c, s, S0, k):
    sb = c.o.set._b
    ls = L(c, sb, c.old)
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    return [lambda t: z3.Or(t == 0, z3.And(ls.has(t), subsumer(c, t, c.old))) if t.sort() == I else F_,
            RoleAny(lambda t: F_ if argterm(t) else z3.And(t != 0, ls.has(t), subs_by(c, s, t), z3.Select(c.field("Cl", "num", s), t) >= 1) if t.sort() == I else F_),
            lambda t: z3.Implies(t == 0, nums_same(c, s)) if t.sort() == I else F_]


def subs_lemmas(c, h, e, k):
    b, sb = pbase(c), c.o.set._b
    lp, ls = L(c, b, c.old), L(c, sb, c.old)
    x = ls.clp(k)
    out = []
    for v in h.vars.values():
        if isinstance(v, Ptr) and v.loc is None:
            out += sum_two(c, seqsum(c, b, e), seqsum(c, b, h), z3.Select(lp.CP, v.base), z3.Select(lp.CP, x))
            out += sum_two(c, seqsum(c, sb, e), seqsum(c, sb, h), z3.Select(ls.CP, v.base), z3.Select(ls.CP, x))
    return out


add("clset_subsumption", "xcsf set", seqs=seqs_of("set"), bounded_setup=short("set", "xcsf.kset"), requires=subs_req, ensures=subs_ens,
    modifies=lambda c: setmod("xcsf.pset", "xcsf.kset", "set")(c) + [FAll("Cl", "num"), FAll("Clist", "next"), GAll("owner")],
    cands=subs_cands, roles=subs_roles, opts={"lean": True, "loop_lemmas": subs_lemmas, "no_values": True})
