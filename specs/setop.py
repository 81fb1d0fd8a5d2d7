"""Whole-set operations: matching, covering, reinforcement of a set, initial population."""
from .pop import *

PBX = z3.Function("PREDBUF_IX", I, I)      # index, in the set at hand, of the rule owning a prediction vector
ERRV = z3.Function("ERRV", R, I, R, R, R)  # abbreviates the error update of cl_update's contract (BETA, exp, err, loss)
SIZV = z3.Function("SIZV", R, I, R, I, R)  # abbreviates the set-size update of cl_update's contract (BETA, exp, size, set numerosity)


def own_pred(c, b, st):
    """each rule of the set owns its prediction vector"""
    l = L(c, b, st)
    return ("each rule has its own prediction vector", Forall(0, l.n, lambda k: z3.And(
        PBX(l.cl(k).prediction._b) == k, l.cl(k).prediction._b > 0, l.cl(k).prediction._b < st.nxt), pats=lambda k: l.clp(k)))


def loss_at(c, r, pst):
    """error of rule r on this example: the prediction made before learning"""
    x = c.o.xcsf
    return LOSSF(z3.If(c.o.cur == 0, PREDA(x._b, r, c.o.x._b), c.obj(r, "Cl", pst).prediction.arr), c.o.y.arr)


def nums_nonneg(b):
    """lemma: a sum of numerosities (each at least 1) is not negative"""
    def f(c, st):
        if BOUND[0] is None:
            st.fact(numsum(c, b(c), c.old) >= 0)
    return f


def cupd_ens(c):
    o, n, x = c.o.c, c.n.c, c.o.xcsf
    return [n.exp == o.exp + 1,
            n.err == ERRV(x.BETA, o.exp, o.err, loss_at(c, o._b, c.old)),
            n.size == SIZV(x.BETA, o.exp, o.size, c.o.set_num),
            z3.Implies(z3.And(o.size >= 0, c.o.set_num >= 0, 0 <= x.BETA, x.BETA <= 1, o.exp >= 0), n.size >= 0)] + [
        z3.Select(c.g(g), o._b) == z3.Select(c.g(g, c.old), o._b) + 1 for g in ("upd_c", "upd_p", "upd_a")]


CUPD = Contract("cl_update", "xcsf c x y set_num cur", trusted=True, requires=C["cl_update"].requires, modifies=C["cl_update"].modifies,
                ensures=cupd_ens, note="abbreviates the formulas proved in cl_update's own contract")


def cu_req(c):
    b = c.o.set._b
    l = L(c, b, c.old)
    return subs_req(c) + healthy(c, c.old, b) + [
        own_pred(c, b, c.old), ("learning rate", z3.And(0 <= c.o.xcsf.BETA, c.o.xcsf.BETA <= 1)),
        ("experience counts", Forall(0, l.n, lambda k: l.cl(k).exp >= 0, pats=lambda k: l.clp(k))),
        ("the target is not a rule's own vector", Forall(0, l.n, lambda k: l.cl(k).prediction._b != c.o.y._b, pats=lambda k: l.clp(k)))]


def cu_ens(c):
    b, sb, kb = pbase(c), c.o.set._b, kbase(c)
    l0 = L(c, sb, c.old)
    x = c.o.xcsf
    S = c.sum(l0.n, lambda k: acc_of(x, l0.cl(k, c.new)) * toreal(l0.cl(k).num))
    O = lambda p: c.obj(p, "Cl", c.old)
    N = lambda p: c.obj(p, "Cl", c.new)
    same = lambda p, *fs: z3.And(*[getattr(N(p), f) == getattr(O(p), f) for f in fs])
    lp0, lp1 = L(c, b, c.old), L(c, b, c.new)
    return pk_inv(c, c.new) + wf(c, sb, c.new) + dist(c, sb, c.new) + acct(c, sb, c.new) + [
        subset(c, sb, b, c.new),
        ("experience, error and set size of each member", Forall(0, l0.n, lambda k: z3.And(
            l0.cl(k, c.new).exp == l0.cl(k).exp + 1,
            l0.cl(k, c.new).err == ERRV(x.BETA, l0.cl(k).exp, l0.cl(k).err, loss_at(c, l0.clp(k), c.old)),
            l0.cl(k, c.new).size == SIZV(x.BETA, l0.cl(k).exp, l0.cl(k).size, c.o.set.num)), pats=lambda k: l0.node(k))),
        ("fitness of each member", Forall(0, l0.n, lambda k: l0.cl(k, c.new).fit == fit_of(
            x, l0.cl(k), acc_of(x, l0.cl(k, c.new)), S), pats=lambda k: l0.node(k))),
        ("no other rule is reinforced (experience)", ForallP(lambda p: z3.Or(l0.has(p), N(p).exp == O(p).exp), pats=lambda p: N(p).exp)),
        ("no other rule is reinforced (error)", ForallP(lambda p: z3.Or(l0.has(p), N(p).err == O(p).err), pats=lambda p: N(p).err)),
        ("no other rule is reinforced (fitness)", ForallP(lambda p: z3.Or(l0.has(p), N(p).fit == O(p).fit), pats=lambda p: N(p).fit)),
        ("no other rule is reinforced (set size)", ForallP(lambda p: z3.Or(l0.has(p), N(p).size == O(p).size), pats=lambda p: N(p).size)),
        ("components of each member learn exactly once", Forall(0, l0.n, lambda k: z3.And(*[
            z3.Select(c.g(g), l0.clp(k)) == z3.Select(c.g(g, c.old), l0.clp(k)) + 1 for g in ("upd_c", "upd_p", "upd_a")]), pats=lambda k: l0.node(k))),
        ("copies move only under set subsumption", z3.Or(x.SET_SUBSUMPTION != 0, nums_same(c, c.new))),
        ("total numerosity is conserved", c.n.xcsf.pset.num == c.o.xcsf.pset.num)]


def blist_role(c, s, k, l, kind="p:Clist", f=None):
    """a local array that holds the first k elements of the sequence"""
    m = c.ex._hm(s, ("A", kind))
    f = f or l.node

    def role(t):
        if t.sort() != I or argterm(t):
            return z3.BoolVal(False)
        row = z3.Select(m, t)
        return conj(Forall(0, k, lambda j: z3.Select(row, j) == f(j), pats=lambda j: z3.Select(row, j)))
    return RoleAny(role)


def cu_roles(c, s, S0, k):
    l = L(c, c.o.set._b, c.old)
    return [blist_role(c, s, k, l), blist_role(c, s, k, l, "p:Cl", l.clp)]


def cu_cands(c, s, S0, k):
    l = L(c, c.o.set._b, c.old)
    x = c.o.xcsf
    O = lambda p: c.obj(p, "Cl", c.old)
    N = lambda p: c.obj(p, "Cl", s)
    out = []
    for f, g in (("exp", lambda r: O(r).exp + 1), ("err", lambda r: ERRV(x.BETA, O(r).exp, O(r).err, loss_at(c, r, c.old))),
                 ("size", lambda r: SIZV(x.BETA, O(r).exp, O(r).size, c.o.set.num))):
        done = lambda p: z3.And(l.has(p), z3.Select(l.CP, p) < k)
        out.append(ForallP(lambda p, f=f, g=g: getattr(N(p), f) == z3.If(done(p), g(p), getattr(O(p), f)), pats=lambda p, f=f: getattr(N(p), f)))
    for g in ("upd_c", "upd_p", "upd_a"):
        g1, g0 = c.g(g, s), c.g(g, c.old)
        out.append(Forall(0, k, lambda j, g1=g1, g0=g0: z3.Select(g1, l.clp(j)) == z3.Select(g0, l.clp(j)) + 1, pats=lambda j: l.clp(j)))
        out.append(Forall(k, l.n, lambda j, g1=g1, g0=g0: z3.Select(g1, l.clp(j)) == z3.Select(g0, l.clp(j)), pats=lambda j: l.clp(j)))
    out.append(ForallP(lambda p: z3.Implies(z3.And(O(p).size >= 0), N(p).size >= 0), pats=lambda p: N(p).size))
    out.append(Forall(k, l.n, lambda j: l.cl(j, s).prediction.arr == l.cl(j).prediction.arr, pats=lambda j: l.clp(j)))
    out.append(c.view("y", s).arr == c.o.y.arr)
    return out


add("clset_update", "xcsf set x y cur", requires=cu_req, seqs=seqs_of("set"), bounded_setup=short("set", "xcsf.kset"),
    modifies=lambda c: setmod("xcsf.pset", "xcsf.kset", "set")(c) + [FAll("Cl", f) for f in ("num", "fit", "err", "size", "exp")] +
    [FAll("Clist", "next"), GAll("owner"), AAll("double")] + [GAll(g) for g in ("upd_c", "upd_p", "upd_a")],
    ensures=cu_ens, cands=cu_cands, roles=cu_roles, opts={"overlay": {"cl_update": CUPD, "cl_acc": CACC, "cl_update_fit": CUF}, "lean": True, "no_values": True, "no_nl": True, "cand_timeout": 0.6},
    setup=nums_nonneg(lambda c: c.o.set._b))


# ---------------------------------------------------------------- covering and matching
# These two are stated over the membership of each set: mem[b][p] <=> rule p occurs in the list of set b.
# The set operations they call are used through membership forms of their contracts (M_*), each a
# consequence of the list contract proved for the same function (checked in specs/lemmas.py).
GHOST_SORTS["mem"] = z3.ArraySort(I, z3.ArraySort(I, z3.BoolSort()))


def mem(c, b, st):
    m = sel(c.g("mem", st), b)
    return lambda p: z3.Select(m, p)


def memset(c, b, st):
    return sel(c.g("mem", st), b)


def setobj(c, b, st):
    return c.obj(b, "Set", st)


M_ADD = Contract("clset_add", "set c", trusted=True, modifies=lambda c: [FAt("Set", f, c.o.set._b) for f in ("list", "size", "num")] + [GAt("mem", c.o.set._b)],
                 requires=lambda c: [("a rule not yet in the set", z3.And(c.o.c._b > 0, z3.Not(mem(c, c.o.set._b, c.old)(c.o.c._b))))],
                 ensures=lambda c: [memset(c, c.o.set._b, c.new) == z3.Store(memset(c, c.o.set._b, c.old), c.o.c._b, True),
                                    c.n.set.size == c.o.set.size + 1, c.n.set.num == c.o.set.num + c.o.c.num],
                 note="membership form of clset_add's contract")


def mlim_ens(c):
    b = pbase(c)
    m0, m1 = mem(c, b, c.old), mem(c, b, c.new)
    N0, N1 = c.field("Cl", "num", c.old), c.field("Cl", "num", c.new)
    n0, cap = c.o.xcsf.pset.num, c.o.xcsf.POP_SIZE
    return [ForallP(lambda p: z3.And(z3.Implies(m1(p), m0(p)), z3.Implies(z3.And(m0(p), z3.Not(m1(p))), z3.Select(N1, p) == 0)), pats=lambda p: m1(p)),
            ForallP(lambda p: z3.If(m0(p), z3.And(0 <= z3.Select(N1, p), z3.Select(N1, p) <= z3.Select(N0, p)), z3.Select(N1, p) == z3.Select(N0, p)), pats=lambda p: z3.Select(N1, p)),
            ForallP(lambda p: z3.Implies(m1(p), z3.Select(N1, p) >= 1), pats=lambda p: m1(p)),
            c.n.xcsf.pset.size <= c.o.xcsf.pset.size,
            ForallP(lambda p: z3.Or(c.n.xcsf.pset.size < c.o.xcsf.pset.size, m1(p) == m0(p)), pats=lambda p: m1(p)),
            c.n.xcsf.pset.num == z3.If(n0 <= cap, n0, cap)]


M_LIM = Contract("clset_pset_enforce_limit", "xcsf", trusted=True,
                 requires=lambda c: [("configuration", c.o.xcsf.POP_SIZE >= 0), mpop(c, c.old)],
                 modifies=lambda c: [FAt("Set", f, b) for b in (pbase(c), kbase(c)) for f in ("list", "size", "num")] +
                 [GAt("mem", pbase(c)), GAt("mem", kbase(c)), FAll("Cl", "num"), FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0))],
                 ensures=mlim_ens, note="membership form of clset_pset_enforce_limit's contract")


def mpop(c, st):
    """every rule of the population has copies, positive fitness and a set-size estimate"""
    m = mem(c, pbase(c), st)
    o = lambda p: c.obj(p, "Cl", st)
    return ("rules have copies, positive fitness and a set-size estimate", ForallP(lambda p: z3.Implies(
        m(p), z3.And(o(p).num >= 1, o(p).fit > 0, o(p).size >= 0, p > 0, p < st.nxt)), pats=lambda p: m(p)))


def mval_ens(c):
    b = c.o.set._b
    m0, m1 = mem(c, b, c.old), mem(c, b, c.new)
    N = c.field("Cl", "num", c.old)
    return [ForallP(lambda p: m1(p) == z3.And(m0(p), z3.Select(N, p) != 0), pats=lambda p: m1(p)),
            c.n.set.size <= c.o.set.size,
            ForallP(lambda p: z3.Or(c.n.set.size < c.o.set.size, m1(p) == m0(p)), pats=lambda p: m1(p)),
            z3.Implies(c.n.set.size == c.o.set.size, memset(c, b, c.new) == memset(c, b, c.old)),
            c.n.set.num >= 0]


M_VAL = Contract("clset_validate", "set", trusted=True, ensures=mval_ens,
                 requires=lambda c: [("copies are not negative", ForallP(lambda p: z3.Implies(mem(c, c.o.set._b, c.old)(p), c.obj(p, "Cl", c.old).num >= 0),
                                                                        pats=lambda p: mem(c, c.o.set._b, c.old)(p)))],
                 modifies=lambda c: [FAt("Set", f, c.o.set._b) for f in ("list", "size", "num")] + [GAt("mem", c.o.set._b), FAll("Clist", "next")],
                 note="membership form of clset_validate's contract")


def mcov(c, m, i, st):
    """some rule of the set advocates action i"""
    p = z3.Const("cvp%d" % stamp(), I)
    a = c.field("Cl", "action", st)
    if BOUND[0] is not None:
        raise Unsupported("membership form has no bounded reading")
    return z3.Exists([p], z3.And(MARK(p), m(p), z3.Select(a, p) == i), patterns=[MARK(p)])


def mcovered(c, m, k, st):
    return Forall(0, k, lambda i: z3.Implies(MARK(i), mcov(c, m, i, st)), pats=lambda i: MARK(i))


def macov_ens(c):
    m = mem(c, mbase(c), c.old)
    ac = c.n.act_covered
    return [Forall(0, c.o.xcsf.n_actions, lambda i: z3.And(z3.Or(ac[i] == 0, ac[i] == 1), (ac[i] == 1) == mcov(c, m, i, c.old)), pats=lambda i: ac[i]),
            IffAll(c.ret, c.o.xcsf.n_actions, lambda i: ac[i] == 1, pats=lambda i: ac[i]),
            z3.Implies(c.ret != 0, conj(mcovered(c, m, c.o.xcsf.n_actions, c.old)))]


M_ACOV = Contract("clset_action_coverage", "xcsf act_covered", trusted=True, ensures=macov_ens, modifies=lambda c: [AAt("bool", c.o.act_covered._b)],
                  requires=lambda c: [nonnull(c.o.act_covered), macts(c, c.old)], note="membership form of clset_action_coverage's contract")


def macts(c, st):
    m = mem(c, mbase(c), st)
    a = c.field("Cl", "action", st)
    return ("valid actions", ForallP(lambda p: z3.Implies(m(p), z3.And(0 <= z3.Select(a, p), z3.Select(a, p) < c.o.xcsf.n_actions)), pats=lambda p: m(p)))


def mcov_inv(c, s):
    """what covering maintains about population and match set"""
    b, mb = pbase(c), mbase(c)
    p0, m0, p1, m1 = mem(c, b, c.old), mem(c, mb, c.old), mem(c, b, s), mem(c, mb, s)
    N0, N = c.field("Cl", "num", c.old), c.field("Cl", "num", s)
    fm, cov, old = c.field("Cl", "m", s), c.g("cov_c", s), c.old.nxt
    return [mpop(c, s), macts(c, s), ("match set numerosity", setobj(c, mb, s).num >= 0),
            ("the match set is part of the population", ForallP(lambda p: z3.Implies(m1(p), p1(p)), pats=lambda p: m1(p))),
            ("a rule that joins the match set is new and covers the input", ForallP(lambda p: z3.Implies(z3.And(m1(p), z3.Not(m0(p))), z3.And(
                p >= old, z3.Select(cov, p) == c.o.x._b, z3.Select(fm, p) == 1)), pats=lambda p: m1(p))),
            ("members stay unless deleted from the population", ForallP(lambda p: z3.Implies(z3.And(m0(p), z3.Not(m1(p))), z3.Select(N, p) == 0), pats=lambda p: m1(p))),
            ("rules stay unless their last copy is deleted", ForallP(lambda p: z3.Implies(z3.And(p0(p), z3.Not(p1(p))), z3.Select(N, p) == 0), pats=lambda p: p1(p))),
            ("rules that join the population join the match set", ForallP(lambda p: z3.Implies(z3.And(p1(p), z3.Not(p0(p))), z3.And(p >= old, m1(p))), pats=lambda p: p1(p))),
            ("copies of existing rules only decrease", ForallP(lambda p: z3.Implies(p < old, z3.And(z3.Select(N, p) <= z3.Select(N0, p))), pats=lambda p: z3.Select(N, p)))]


def mcover_req(c):
    b, mb = pbase(c), mbase(c)
    return [mpop(c, c.old), macts(c, c.old), ("match set numerosity", c.o.xcsf.mset.num >= 0),
            ("the match set is part of the population", ForallP(lambda p: z3.Implies(mem(c, mb, c.old)(p), mem(c, b, c.old)(p)), pats=lambda p: mem(c, mb, c.old)(p))),
            ("configuration", z3.And(c.o.xcsf.n_actions >= 1, c.o.xcsf.POP_SIZE >= 0, c.o.xcsf.INIT_FITNESS > 0))]


def mcover_ens(c):
    m1 = mem(c, mbase(c), c.new)
    return mcov_inv(c, c.new) + [
        ("every action is advocated by some rule of the match set", mcovered(c, m1, c.o.xcsf.n_actions, c.new)),
        ("the population is within its limit, or as it was", c.n.xcsf.pset.num <= maxr(c.o.xcsf.pset.num, c.o.xcsf.POP_SIZE))]


def mcover_cands(c, s, S0, k):
    return [f[1] if isinstance(f, tuple) else f for f in mcov_inv(c, s)] + [
        setobj(c, pbase(c), s).num <= maxr(c.o.xcsf.pset.num, c.o.xcsf.POP_SIZE)]


def mcover_roles(c, s, S0, k):
    m1 = mem(c, mbase(c), s)
    na = c.o.xcsf.n_actions
    F_ = z3.BoolVal(False)
    B = c.ex._hm(s, ("A", "bool"))
    ok = lambda t: t.sort() == I and not argterm(t) and not z3.is_int_value(t)

    def flags(t):
        if not ok(t):
            return F_
        row = z3.Select(B, t)
        return conj(Forall(0, na, lambda i: z3.And(z3.Or(z3.Select(row, i) == 0, z3.Select(row, i) == 1),
                                                   z3.Implies(z3.Select(row, i) == 1, mcov(c, m1, i, s))), pats=lambda i: z3.Select(row, i)))

    def upto(t):
        if not ok(t):
            return F_
        row = z3.Select(B, t)
        return conj(mcovered(c, m1, k, s))

    def done(t):
        return z3.Implies(t != 0, conj(mcovered(c, m1, na, s))) if t.sort() == I else F_
    return [RoleAny(flags), RoleAny(upto), done]


def mark_all(c, st):
    p = z3.Const("mkp", I)
    if BOUND[0] is None:
        st.fact(z3.ForAll([p], MARK(p), patterns=[MARK(p)]))


def mark_vars(c, h, e, k):
    """name every pointer in hand as a possible witness"""
    return [MARK(h.nxt)] + [MARK(v.base) for v in e.vars.values() if isinstance(v, Ptr) and v.loc is None]


MSETS = lambda c: [FAt("Set", f, b) for b in (pbase(c), kbase(c), mbase(c)) for f in ("list", "size", "num")] + [GAt("mem", b) for b in (pbase(c), kbase(c), mbase(c))]
MOVER = {"clset_add": M_ADD, "clset_pset_enforce_limit": M_LIM, "clset_validate": M_VAL, "clset_action_coverage": M_ACOV}
add("clset_cover", "xcsf x", requires=mcover_req, ensures=mcover_ens, cands=mcover_cands, roles=mcover_roles, setup=mark_all,
    modifies=lambda c: MSETS(c) + [FAll("Cl", "num"), FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0))],
    opts={"lean": True, "no_values": True, "no_nl": True, "cand_timeout": 1.0, "overlay": MOVER, "loop_lemmas": mark_vars})


def bridge(c, b, st):
    """membership as the list has it"""
    l = L(c, b, st)
    m = mem(c, b, st)
    return ("membership is what the list says", ForallP(lambda p: m(p) == l.has(p), pats=lambda p: m(p)))


def nonempty(c, m):
    p = z3.Const("nep%d" % stamp(), I)
    return z3.Exists([p], z3.And(MARK(p), m(p)), patterns=[MARK(p)])


def mmatch_req(c):
    b, mb = pbase(c), mbase(c)
    m = mem(c, mb, c.old)
    return wf(c, b, c.old) + dist(c, b, c.old) + acct(c, b, c.old) + [
        bridge(c, b, c.old), mpop(c, c.old),
        ("every rule has copies", Forall(0, L(c, b, c.old).n, lambda k: L(c, b, c.old).cl(k).num >= 1, pats=lambda k: L(c, b, c.old).clp(k))),
        ("no match set yet", z3.And(c.o.xcsf.mset.size == 0, c.o.xcsf.mset.num == 0)),
        ("no match set yet (members)", ForallP(lambda p: z3.Not(m(p)), pats=lambda p: m(p))),
        ("configuration", z3.And(c.o.xcsf.n_actions >= 1, c.o.xcsf.POP_SIZE >= 0, c.o.xcsf.INIT_FITNESS > 0))]


def matched(c):
    l = L(c, pbase(c), c.old)
    return lambda p: z3.And(l.has(p), MATCHF(c.o.xcsf._b, p, c.o.x._b) != 0)


def mmatch_ens(c):
    b, mb = pbase(c), mbase(c)
    p0, p1, m1 = mem(c, b, c.old), mem(c, b, c.new), mem(c, mb, c.new)
    hit = matched(c)
    N0, N1 = c.field("Cl", "num", c.old), c.field("Cl", "num", c.new)
    fm, cov, act = c.field("Cl", "m", c.new), c.g("cov_c", c.new), c.field("Cl", "action", c.new)
    old = c.old.nxt
    x = c.o.xcsf
    quiet = z3.Or(c.o.cover == 0)
    return [mpop(c, c.new), macts(c, c.new),
            ("the match set is part of the population", ForallP(lambda p: z3.Implies(m1(p), p1(p)), pats=lambda p: m1(p))),
            ("every member matches the input", ForallP(lambda p: z3.Implies(m1(p), z3.Or(hit(p), z3.And(
                p >= old, z3.Select(cov, p) == c.o.x._b, z3.Select(fm, p) == 1))), pats=lambda p: m1(p))),
            ("every matching rule that is still in the population is a member", ForallP(lambda p: z3.Implies(
                z3.And(hit(p), z3.Not(m1(p))), z3.Select(N1, p) == 0), pats=lambda p: m1(p))),
            ("members advocate the action their rule computes", ForallP(lambda p: z3.Implies(
                z3.And(m1(p), p < old), z3.Select(act, p) == ACTF(x._b, p, c.o.x._b)), pats=lambda p: m1(p))),
            ("every action is advocated", Forall(0, x.n_actions, lambda i: z3.Implies(z3.And(MARK(i), c.o.cover != 0), mcov(c, m1, i, c.new)), pats=lambda i: MARK(i))),
            ("without covering the population is untouched", ForallP(lambda p: z3.Implies(c.o.cover == 0, z3.And(
                p1(p) == p0(p), z3.Select(N1, p) == z3.Select(N0, p), m1(p) == hit(p))), pats=lambda p: m1(p))),
            ("average match set size", c.n.xcsf.mset_size == x.mset_size + (toreal(c.n.xcsf.mset.size) - x.mset_size) * x.BETA),
            ("average fraction matched", c.n.xcsf.mfrac == x.mfrac + (mfrac_now(c, c.new) - x.mfrac) * x.BETA)]


def mmatch_cands(c, s, S0, k):
    l = L(c, pbase(c), c.old)
    mb = mbase(c)
    m1 = mem(c, mb, s)
    x = c.o.xcsf
    hit = matched(c)
    fm, fa = c.field("Cl", "m", s), c.field("Cl", "action", s)
    fm0 = c.field("Cl", "m", S0)
    MT = lambda p: MATCHF(x._b, p, c.o.x._b)
    return [
        Forall(0, k, lambda j: z3.And(z3.Select(fm, l.clp(j)) == MT(l.clp(j)), z3.Select(fa, l.clp(j)) == ACTF(x._b, l.clp(j), c.o.x._b),
                                      0 <= z3.Select(fa, l.clp(j)), z3.Select(fa, l.clp(j)) < x.n_actions), pats=lambda j: l.clp(j)),
        ForallP(lambda p: m1(p) == z3.And(hit(p), z3.Select(l.CP, p) < k), pats=lambda p: m1(p)),
        setobj(c, mb, s).num >= 0, setobj(c, mb, s).size >= 0,
        z3.Or(setobj(c, mb, s).size < 1, nonempty(c, m1)),
        ForallP(lambda p: z3.Implies(m1(p), z3.And(hit(p), z3.Select(fa, p) == ACTF(x._b, p, c.o.x._b), 0 <= z3.Select(fa, p), z3.Select(fa, p) < x.n_actions)), pats=lambda p: m1(p))]


def mmatch_roles(c, s, S0, k):
    return [blist_role(c, s, k, L(c, pbase(c), c.old)), blist_role(c, s, k, L(c, pbase(c), c.old), "p:Cl", L(c, pbase(c), c.old).clp)]


def mark_match(c, h, e, k):
    l = L(c, pbase(c), c.old)
    return mark_vars(c, h, e, k) + [MARK(l.clp(k)), l.clp(k) == l.clp(k), l.cl(k).num == l.cl(k).num]


MFRACF = z3.Function("MFRACNOW", I, I, I, R)     # the statistic over the population with these accounts (contract of its own)


def mfrac_now(c, st):
    x = c.view("xcsf", st)
    return MFRACF(x.pset.size, x.pset.num, x.mset.size)


add("clset_mfrac", "xcsf", trusted=True, requires=lambda c: [], ensures=lambda c: [c.ret == mfrac_now(c, c.old)], note="a statistic; reads only")
MOVER2 = dict(MOVER, clset_mfrac=Contract("clset_mfrac", "xcsf", ensures=lambda c: [c.ret == mfrac_now(c, c.old)], trusted=True))
add("clset_match", "xcsf x cover", requires=mmatch_req, ensures=mmatch_ens, cands=mmatch_cands, roles=mmatch_roles, setup=mark_all,
    seqs=seqs_of("xcsf.pset"),
    modifies=lambda c: MSETS(c) + [FAll("Cl", f) for f in ("num", "m", "mtotal", "age", "action")] + [
        FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0)), FAt("XCSF", "mset_size", c.o.xcsf._b), FAt("XCSF", "mfrac", c.o.xcsf._b)],
    opts={"lean": True, "no_values": True, "no_nl": True, "cand_timeout": 1.0, "overlay": MOVER2, "loop_lemmas": mark_match})
