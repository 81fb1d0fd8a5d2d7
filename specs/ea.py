"""The genetic algorithm: parent selection, offspring parameters, insertion, invocation."""
from .setop import *


def eint_ens(c):
    a, b, e = c.o.c1p, c.o.c2p, c.o.xcsf.ea
    half = z3.RealVal("1/2")
    fa, fb = rdiv(a.fit, toreal(a.num)), rdiv(b.fit, toreal(b.num))
    m = c.o.cmod != 0
    return [("error of the first offspring", c.n.c1.err == z3.If(m, e.err_reduc * ((a.err + b.err) * half), e.err_reduc * a.err)),
            ("error of the second offspring", c.n.c2.err == z3.If(m, e.err_reduc * ((a.err + b.err) * half), e.err_reduc * b.err)),
            ("fitness of the first offspring", c.n.c1.fit == z3.If(m, e.fit_reduc * ((fa + fb) * half), e.fit_reduc * fa)),
            ("fitness of the second offspring", c.n.c2.fit == z3.If(m, e.fit_reduc * ((fa + fb) * half), e.fit_reduc * fb))]


add("ea_init_offspring", "xcsf c1p c2p c1 c2 cmod", ensures=eint_ens,
    requires=lambda c: [nonnull(c.o.c1, c.o.c2, c.o.c1p, c.o.c2p), distinct(c.o.c1, c.o.c2),
                        ("offspring are not their parents", z3.And(*[x._b != y._b for x in (c.o.c1, c.o.c2) for y in (c.o.c1p, c.o.c2p)])),
                        ("parents have copies", z3.And(c.o.c1p.num >= 1, c.o.c2p.num >= 1))],
    modifies=lambda c: [FAt("Cl", f, x._b) for f in ("err", "fit") for x in (c.o.c1, c.o.c2)])


# ---------------------------------------------------------------- selection
def fits(c):
    l = L(c, c.o.set._b, c.old)
    return lambda k: c.sum(k, lambda j: l.cl(j).fit)


def sel_req(c):
    b = c.o.set._b
    l = L(c, b, c.old)
    return wf(c, b, c.old) + dist(c, b, c.old) + [
        ("at least one rule", l.n >= 1),
        ("fitness is positive", Forall(0, l.n, lambda k: l.cl(k).fit > 0, pats=lambda k: l.node(k)))]


def rw_setup(c, st):
    l = L(c, c.o.set._b, c.old)
    F = fits(c)
    if BOUND[0] is None:
        a, b = z3.Const("na", I), z3.Const("nb", I)
        st.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= l.n), F(a) <= F(b)), patterns=[mpat(F(a), F(b))]))
        st.fact(z3.And(F(ival(0)) == 0, F(ival(1)) == l.cl(ival(0)).fit))
    st.fact(F(l.n) > 0)


def rw_roles(c, s, S0, k):
    l = L(c, c.o.set._b, c.old)
    F = fits(c)
    isI = lambda t: t.sort() == I
    F_ = z3.BoolVal(False)
    return [lambda t: z3.And(t == l.node(k), 0 <= k, k < l.n) if isI(t) else F_,
            lambda t: t == F(k + 1) if not isI(t) else F_,
            RoleAny(lambda t: z3.Or(k == 0, t > F(k)) if not isI(t) else F_)]


def rw_ens(c):
    l = L(c, c.o.set._b, c.old)
    F = fits(c)
    p = draw_at(c, c.old, 0) * c.o.fit_sum
    j = z3.Select(l.CP, c.ret._b)
    return [("a member of the set", l.has(c.ret._b)),
            ("picked by the spin of the wheel", z3.And(p <= F(j + 1), z3.Or(j == 0, p > F(j)))),
            ("one number drawn", z3.Select(c.g("dc"), ival(0)) == z3.Select(c.g("dc", c.old), ival(0)) + 1)]


add("ea_select_rw", "xcsf set fit_sum", requires=lambda c: sel_req(c) + [("sum of fitness", c.o.fit_sum == fits(c)(L(c, c.o.set._b, c.old).n))],
    setup=rw_setup, roles=rw_roles, ensures=rw_ens, modifies=lambda c: [GAt("dc", ival(0))], seqs=seqs_of("set"), bounded_setup=short("set"),
    opts={"overlay": {"rand_uniform": RU_DRAW}, "lean": True})


def best_of(c, t, k, d0):
    """t is the fittest of the first k rules whose draw fell below the sampling rate; none was sampled if t is null"""
    l = L(c, c.o.set._b, c.old)
    r = c.o.xcsf.ea.select_size
    j = z3.Select(l.CP, t)
    in_ = lambda i: DRAW(d0 + i) < r
    ft = c.obj(t, "Cl", c.old).fit
    return [conj(Forall(0, k, lambda i: z3.Implies(z3.And(t == 0, l.node(i) > 0), z3.Not(in_(i))), pats=lambda i: l.node(i))),
            z3.Implies(t != 0, z3.And(l.has(t), j < k, in_(j))),
            conj(Forall(0, k, lambda i: z3.Implies(z3.And(t != 0, in_(i)), l.cl(i).fit <= ft), pats=lambda i: l.node(i)))]


def tour_ens(c):
    l = L(c, c.o.set._b, c.old)
    d0 = z3.Select(c.g("dc"), ival(0)) - l.n
    t = c.ret._b
    r = c.o.xcsf.ea.select_size
    ft = c.obj(t, "Cl", c.old).fit
    return [("a member of the set", l.has(t)),
            ("it was sampled", DRAW(d0 + z3.Select(l.CP, t)) < r),
            ("no sampled rule is fitter", Forall(0, l.n, lambda i: z3.Implies(DRAW(d0 + i) < r, l.cl(i).fit <= ft), pats=lambda i: l.node(i)))]


def tour_roles(c, s, S0, k):
    l = L(c, c.o.set._b, c.old)
    dc = z3.Select(c.g("dc", s), ival(0))
    ok = lambda t: t.sort() == I and not argterm(t)
    F_ = z3.BoolVal(False)
    return [(lambda t, i=i: best_of(c, t, k, dc - k)[i] if ok(t) else F_) for i in range(3)] + [
        (lambda t, i=i: z3.Or(t == 0, best_of(c, t, l.n, dc - l.n)[i]) if ok(t) else F_) for i in (1, 2)]


def tour_cands(c, s, S0, k):
    return [z3.Select(c.g("dc", s), ival(0)) == z3.Select(c.g("dc", S0), ival(0)) + k]


add("ea_select_tournament", "xcsf set", requires=sel_req, ensures=tour_ens, roles=tour_roles, cands=tour_cands,
    modifies=lambda c: [GAt("dc", ival(0))], seqs=seqs_of("set"), bounded_setup=short("set"),
    opts={"overlay": {"rand_uniform": RU_DRAW}, "lean": True, "no_values": True})


# ---------------------------------------------------------------- insertion
def able(c, p, kid):
    """rule p may absorb the offspring"""
    x, o = c.o.xcsf, c.obj(p, "Cl", c.old)
    return z3.And(o.exp > x.THETA_SUB, o.err < x.E0, GENC(x._b, p, kid) == 1, GENA(x._b, p, kid) == 1)


def addcase(c, kid):
    """the offspring became a rule of its own"""
    b = pbase(c)
    return z3.And(memset(c, b, c.new) == z3.Store(memset(c, b, c.old), kid, True),
                  c.n.xcsf.pset.size == c.o.xcsf.pset.size + 1, c.n.xcsf.pset.num == c.o.xcsf.pset.num + c.obj(kid, "Cl", c.old).num)


def copycase(c):
    """some existing rule got one more copy instead"""
    b = pbase(c)
    return z3.And(memset(c, b, c.new) == memset(c, b, c.old), c.n.xcsf.pset.size == c.o.xcsf.pset.size,
                  c.n.xcsf.pset.num == c.o.xcsf.pset.num + 1)


def nums(c):
    return c.field("Cl", "num", c.old), c.field("Cl", "num", c.new)


def inc(c, p):
    N0, N1 = nums(c)
    return N1 == z3.Store(N0, p, z3.Select(N0, p) + 1)


def freed(c, kid):
    return z3.And(*[z3.Select(c.g(g), kid) == z3.Select(c.g(g, c.old), kid) + 1 for g in ("fre_c", "fre_p", "fre_a")])


def esub_cases(c, kid, A, B):
    l = L(c, c.o.set._b, c.old)
    N0, N1 = nums(c)
    a, b = able(c, A, kid), able(c, B, kid)
    own = z3.And(z3.Not(a), z3.Not(b))
    added = addcase(c, kid)
    return [("a parent that can absorb the offspring does", z3.And(
                z3.Implies(a, z3.And(copycase(c), inc(c, A), freed(c, kid))),
                z3.Implies(z3.And(z3.Not(a), b), z3.And(copycase(c), inc(c, B), freed(c, kid))))),
            ("otherwise it is absorbed by one rule or joins the population", z3.Implies(own, z3.Or(
                z3.And(added, N1 == N0), z3.And(copycase(c), freed(c, kid), N1 != N0)))),
            ("only an able member of the set absorbs it", ForallP(lambda p: z3.Implies(own, z3.Or(z3.Select(N1, p) == z3.Select(N0, p), z3.And(
                l.has(p), able(c, p, kid), z3.Select(N1, p) == z3.Select(N0, p) + 1))), pats=lambda p: z3.Select(N1, p))),
            ("at most one rule changes", ForallPQ(lambda p, q: z3.Or(
                z3.Select(N1, p) == z3.Select(N0, p), z3.Select(N1, q) == z3.Select(N0, q), p == q), lambda p, q: mpat(z3.Select(N1, p), z3.Select(N1, q)))),
            ("it joins the population only if no member can absorb it", Forall(0, l.n, lambda k: z3.Implies(
                z3.And(own, N1 == N0), z3.Not(able(c, l.clp(k), kid))), pats=lambda k: l.clp(k)))]


def ForallPQ(f, pat):
    if BOUND[0] is not None:
        raise Unsupported("pairs have no bounded reading")
    p, q = z3.Const("pp%d" % stamp(), I), z3.Const("pq%d" % stamp(), I)
    try:
        return z3.ForAll([p, q], f(p, q), patterns=[pat(p, q)])
    except z3.Z3Exception:
        return z3.ForAll([p, q], f(p, q))


def esub_req(c, kid, extra=()):
    b = c.o.set._b
    return wf(c, b, c.old) + dist(c, b, c.old) + [
        ("size is the number of rules", c.obj(b, "Set", c.old).size == L(c, b, c.old).n),
        nonnull(c.o.c1p, c.o.c2p),
        ("the offspring is a new rule", z3.And(kid > 0, z3.Not(mem(c, pbase(c), c.old)(kid)), c.o.c1p._b != kid, c.o.c2p._b != kid)),
        ("the offspring is in no set", z3.Not(L(c, b, c.old).has(kid))),
        ("the set is not the population", c.o.set._b != pbase(c))]


EMOD = lambda kid: (lambda c: [FAt("Set", f, pbase(c)) for f in ("list", "size", "num")] + [GAt("mem", pbase(c)), FAll("Cl", "num")] +
                    [GAt(g, kid(c)) for g in ("fre_c", "fre_p", "fre_a")])


def esub_roles(c, s, S0, k):
    kid = c.o.c._b
    l = L(c, c.o.set._b, c.old)
    m = c.ex._hm(s, ("A", "p:Clist"))
    m2 = c.ex._hm(s, ("A", "p:Cl"))
    cnt = c.sum(k, lambda j: z3.If(able(c, l.clp(j), kid), 1, 0), real=False)
    F_ = z3.BoolVal(False)

    def nodes(t):
        if t.sort() != I or argterm(t):
            return F_
        row = z3.Select(m, t)
        ok = lambda q: z3.And(0 <= z3.Select(l.P, q), z3.Select(l.P, q) < l.n, l.node(z3.Select(l.P, q)) == q, able(c, l.clp(z3.Select(l.P, q)), kid))
        return conj(Forall(0, cnt, lambda j: ok(z3.Select(row, j)), pats=lambda j: z3.Select(row, j)))

    def rules(t):
        if t.sort() != I or argterm(t):
            return F_
        row = z3.Select(m2, t)
        ok = lambda q: z3.And(l.has(q), able(c, q, kid))
        return conj(Forall(0, cnt, lambda j: ok(z3.Select(row, j)), pats=lambda j: z3.Select(row, j)))
    return [lambda t: z3.And(t == cnt, t >= 0, t <= k) if t.sort() == I else F_,
            lambda t: z3.Implies(t == 0, conj(Forall(0, k, lambda j: z3.Not(able(c, l.clp(j), kid)), pats=lambda j: l.clp(j)))) if t.sort() == I else F_,
            RoleAny(nodes), RoleAny(rules)]


add("ea_subsume", "xcsf c c1p c2p set", requires=lambda c: esub_req(c, c.o.c._b), modifies=EMOD(lambda c: c.o.c._b),
    ensures=lambda c: esub_cases(c, c.o.c._b, c.o.c1p._b, c.o.c2p._b), roles=esub_roles, seqs=seqs_of("set"),
    opts={"overlay": {"clset_add": M_ADD}, "lean": True, "no_values": True})


def eadd_ens(c):
    kid = c.o.c1._b
    N0, N1 = nums(c)
    plain = z3.And(c.o.cmod == 0, c.o.mmod == 0)
    sub = z3.And(z3.Not(plain), c.o.xcsf.ea.subsumption != 0)
    out = [("an unmodified offspring is one more copy of its parent", z3.Implies(plain, z3.And(copycase(c), inc(c, c.o.c1p._b), freed(c, kid)))),
           ("without subsumption it joins the population", z3.Implies(z3.And(z3.Not(plain), c.o.xcsf.ea.subsumption == 0), z3.And(addcase(c, kid), N1 == N0)))]
    for lab, f in esub_cases(c, kid, c.o.c1p._b, c.o.c2p._b):
        out.append((lab, map_goal(sub, f)))
    return out


def map_goal(g, f):
    f2 = conj(f)
    return z3.Implies(g, f2)


add("ea_add", "xcsf set c1p c2p c1 cmod mmod", requires=lambda c: esub_req(c, c.o.c1._b), modifies=EMOD(lambda c: c.o.c1._b), ensures=eadd_ens,
    opts={"overlay": {"clset_add": M_ADD}, "lean": True, "no_values": True})


# ---------------------------------------------------------------- invocation
R_ = z3.RealSort()
# offspring error and fitness as functions of (crossed over?, own parent's value, other parent's value, copies): names for ea_init_offspring's formulas
OERR = z3.Function("OERR", z3.BoolSort(), R_, R_, R_, R_)
OFIT = z3.Function("OFIT", z3.BoolSort(), R_, R_, I, R_, I, R_)


def eio_ens(c):
    a, b, e, m = c.o.c1p, c.o.c2p, c.o.xcsf.ea, c.o.cmod != 0
    return [z3.Implies(z3.And(e.fit_reduc > 0, a.fit > 0, b.fit > 0), z3.And(c.n.c1.fit > 0, c.n.c2.fit > 0)),
            z3.Implies(z3.And(e.err_reduc >= 0, a.err >= 0, b.err >= 0), z3.And(c.n.c1.err >= 0, c.n.c2.err >= 0)),
            c.n.c1.err == OERR(m, e.err_reduc, a.err, b.err), c.n.c2.err == OERR(m, e.err_reduc, b.err, a.err),
            z3.Select(c.g("mate"), c.o.c1._b) == b._b, z3.Select(c.g("mate"), c.o.c2._b) == a._b]


EIO = Contract("ea_init_offspring", "xcsf c1p c2p c1 c2 cmod", trusted=True, requires=C["ea_init_offspring"].requires,
               modifies=lambda c: C["ea_init_offspring"].modifies(c) + [GAt("mate", c.o.c1._b), GAt("mate", c.o.c2._b)],
               ensures=eio_ens, note="names and sign consequences of the formulas proved in ea_init_offspring's own contract")


MTIME = Contract("clset_mean_time", "set", trusted=True, requires=C["clset_mean_time"].requires,
                 ensures=lambda c: [c.ret == MEANT(c)], note="names the mean time stamp proved in clset_mean_time's own contract")


def MEANT(c):
    l = L(c, c.o.set._b, c.old)
    return rdiv(c.sum(l.n, lambda k: toreal(l.cl(k).time * l.cl(k).num)), toreal(c.o.set.num))


def ea_req(c):
    b = c.o.set._b
    l = L(c, b, c.old)
    m = mem(c, pbase(c), c.old)
    x = c.o.xcsf
    return wf(c, b, c.old) + dist(c, b, c.old) + [
        mpop(c, c.old), ("size is the number of rules", c.o.set.size == l.n),
        ("the set has copies when it has rules", z3.Or(l.n == 0, c.o.set.num >= 1)),
        ("the set is part of the population", Forall(0, l.n, lambda k: m(l.clp(k)), pats=lambda k: l.clp(k))),
        ("errors are not negative", ForallP(lambda p: z3.Implies(m(p), c.obj(p, "Cl", c.old).err >= 0), pats=lambda p: m(p))),
        ("the set is not the population", z3.And(b != pbase(c), b != kbase(c))),
        ("configuration", z3.And(x.POP_SIZE >= 0, x.INIT_FITNESS > 0, x.ea.fit_reduc > 0, x.ea.err_reduc >= 0))]


def triggered(c):
    return z3.And(c.o.set.size != 0, toreal(c.o.xcsf.time + 1) - MEANT(c) >= c.o.xcsf.ea.theta)


def kids(c):
    la = getattr(c.o.xcsf.ea, "lambda")
    return z3.If(la <= 0, ival(0), 2 * ((la + 1) / 2))


def ea_inv(c, s, k, T):
    """population while offspring are inserted; k pairs so far"""
    b = pbase(c)
    m0, m1 = mem(c, b, c.old), mem(c, b, s)
    N0, N = c.field("Cl", "num", c.old), c.field("Cl", "num", s)
    f = lambda a: c.field("Cl", a, s)
    old = c.old.nxt
    return [mpop(c, s),
            ("offspring are new, inexperienced rules stamped with the current time", ForallP(lambda p: z3.Implies(z3.And(m1(p), z3.Not(m0(p))), z3.And(
                p >= old, z3.Select(f("exp"), p) == 0, z3.Select(f("time"), p) == T, z3.Select(f("err"), p) >= 0,
                L(c, c.o.set._b, c.old).has(z3.Select(c.g("cpy_c", s), p)))), pats=lambda p: m1(p))),
            ("an offspring identical to its parent is not a new rule", ForallP(lambda p: z3.Implies(z3.And(m1(p), z3.Not(m0(p))), z3.Or(
                *[z3.Select(c.g(g, s), p) == 1 for g in ("mu_c", "mu_p", "mu_a", "xo_c", "xo_p", "xo_a")])), pats=lambda p: m1(p))),
            ("its error is that of the offspring of its two parents", ForallP(lambda p: z3.Implies(z3.And(m1(p), z3.Not(m0(p))), z3.And(
                L(c, c.o.set._b, c.old).has(z3.Select(c.g("mate", s), p)),
                z3.Select(f("err"), p) == OERR(z3.Or(*[z3.Select(c.g(g, s), p) == 1 for g in ("xo_c", "xo_p", "xo_a")]), c.o.xcsf.ea.err_reduc,
                                               z3.Select(c.field("Cl", "err", c.old), z3.Select(c.g("cpy_c", s), p)),
                                               z3.Select(c.field("Cl", "err", c.old), z3.Select(c.g("mate", s), p))))), pats=lambda p: m1(p)))]


def ea_ens(c):
    b = pbase(c)
    x = c.o.xcsf
    l = L(c, c.o.set._b, c.old)
    m0, m1 = mem(c, b, c.old), mem(c, b, c.new)
    N0, N1 = nums(c)
    go = triggered(c)
    t1 = c.field("Cl", "time", c.new)
    t0 = c.field("Cl", "time", c.old)
    tot = c.o.xcsf.pset.num + kids(c)
    old = c.old.nxt
    return [("the clock advances by one", c.n.xcsf.time == x.time + 1),
            ("nothing else happens when the set was evolved recently", z3.Implies(z3.Not(go), z3.And(
                memset(c, b, c.new) == memset(c, b, c.old), N1 == N0, t1 == t0, c.n.xcsf.pset.num == x.pset.num, c.n.xcsf.pset.size == x.pset.size))),
            ("every member is stamped with the current time", Forall(0, l.n, lambda k: z3.Implies(go, z3.Select(t1, l.clp(k)) == x.time + 1), pats=lambda k: l.clp(k))),
            ("no other rule is", ForallP(lambda p: z3.Or(l.has(p), p >= old, z3.Select(t1, p) == z3.Select(t0, p)), pats=lambda p: z3.Select(t1, p))),
            ("as many copies are added as configured, and then the limit is enforced", z3.Implies(go, c.n.xcsf.pset.num == z3.If(tot <= x.POP_SIZE, tot, x.POP_SIZE))),
            ("existing rules leave only by losing their last copy", ForallP(lambda p: z3.Implies(z3.And(m0(p), z3.Not(m1(p))), z3.Select(N1, p) == 0), pats=lambda p: m1(p)))] + \
        ea_inv(c, c.new, None, x.time + 1)


def ea_cands(c, s, S0, k):
    b = pbase(c)
    m0, m1 = mem(c, b, c.old), mem(c, b, s)
    T = c.obj(c.o.xcsf._b, "XCSF", s).time
    N0, N = c.field("Cl", "num", c.old), c.field("Cl", "num", s)
    return [g[1] for g in ea_inv(c, s, k, c.o.xcsf.time + 1)] + [
        setobj(c, b, s).num == c.o.xcsf.pset.num + 2 * k,
        ForallP(lambda p: z3.Implies(m0(p), m1(p)), pats=lambda p: m1(p)),
        ForallP(lambda p: z3.Or(p >= c.old.nxt, z3.Select(N, p) >= z3.Select(N0, p)), pats=lambda p: z3.Select(N, p)),
        T == c.o.xcsf.time + 1, z3.Or(k == 0, 2 * (k - 1) < getattr(c.o.xcsf.ea, "lambda"))]


add("ea", "xcsf set", requires=ea_req, ensures=ea_ens, cands=ea_cands, inline=("ea_select",),
    modifies=lambda c: [FAt("Set", f, b) for b in (pbase(c), kbase(c)) for f in ("list", "size", "num")] + [
        GAt("mem", pbase(c)), GAt("mem", kbase(c)), FAll("Cl", "num"), FAll("Cl", "time"), FAll("Clist", "next"), GAll("owner"), GAt("dc", ival(0)), GAt("del_ix", ival(0)),
        FAt("XCSF", "time", c.o.xcsf._b)] ,
    opts={"overlay": {"clset_pset_enforce_limit": M_LIM, "ea_init_offspring": EIO, "clset_mean_time": MTIME}, "lean": True, "no_values": True, "no_nl": True, "cand_timeout": 1.5})
