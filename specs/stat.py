"""Reported statistics and the initial population."""
from .setop import *
from .snap import apart, both_req, FRE

XP = "xcsf.pset"
MFF = z3.Function("MATCHFRAC", I, R)     # the fraction cl_mfrac reports for a rule (its own contract defines it)
MF = lambda o: MFF(o._b)


def mfl(c, st):
    return L(c, c.o.xcsf.pset._b, st)


def elig(c, o):
    return toreal(o.exp) * c.o.xcsf.BETA > 1


def low(c, o):
    return z3.And(elig(c, o), o.err < c.o.xcsf.E0)


DMAX = lambda: z3.Const("HUGE_1.7976931348623157e+308", R)


MX = z3.Function("WIDEST", I, R)       # widest accurate rule among the first k (0 if none)
BE = z3.Function("LEASTERR", I, I)     # first experienced rule of least error among the first k (-1 if none)


def mf_step(c, k):
    l = mfl(c, c.old)
    o, b = l.cl(k), l.cl(BE(k))
    return [MX(k + 1) == z3.If(z3.And(low(c, o), MF(o) > MX(k)), MF(o), MX(k)),
            BE(k + 1) == z3.If(z3.And(elig(c, o), z3.Or(BE(k) < 0, o.err < b.err)), k, BE(k)),
            z3.And(-1 <= BE(k), BE(k) < k, MX(k) >= 0)]       # lemma fold_bounds


def mf_setup(c, st):
    st.fact(MX(ival(0)) == 0)
    st.fact(BE(ival(0)) == -1)
    if BOUND[0] is not None:
        for k in range(BOUND[0] + 1):
            for f in mf_step(c, ival(k)):
                st.fact(f)


def chosen(c, n):
    l = mfl(c, c.old)
    return z3.If(MX(n) != 0, MX(n), z3.If(BE(n) < 0, rval(0), MF(l.cl(BE(n)))))


def mf_cands(c, s, S0, k):
    l = mfl(c, c.old)
    out = [z3.And(0 <= k, k <= l.n, -1 <= BE(k), BE(k) < k), MX(k) >= 0]
    rs = [s.vars[q] for q, v in S0.vars.items() if v is not None and z3.is_expr(v) and v.sort() == R]
    for v in rs:
        out += [v == MX(k), v == z3.If(BE(k) < 0, DMAX(), l.cl(BE(k)).err), v == z3.If(BE(k) < 0, rval(0), MF(l.cl(BE(k))))]
    return out


add("clset_mfrac", "xcsf", seqs=seqs_of(XP), bounded_setup=short(XP), setup=mf_setup,
    requires=lambda c: wf(c, c.o.xcsf.pset._b, c.old) + [("errors are finite", Forall(0, mfl(c, c.old).n, lambda j: mfl(c, c.old).cl(j).err < DMAX(), pats=lambda j: mfl(c, c.old).node(j)))],
    cands=mf_cands, ensures=lambda c: [("the widest accurate rule, else the rule of least error", c.ret == chosen(c, mfl(c, c.old).n))],
    opts={"loop_lemmas": lambda c, h, e, k: mf_step(c, k), "cand_timeout": 6.0, "no_nl": True, "overlay": {"cl_mfrac": Contract("cl_mfrac", "xcsf c", ensures=lambda c: [c.ret == MFF(c.o.c._b)], trusted=True)}})


# ---------------------------------------------------------------- the initial population
NEWR = lambda c, o: [o.num == 1, o.exp == 0, o.fit == c.o.xcsf.INIT_FITNESS, o.err == c.o.xcsf.INIT_ERROR, o.size == toreal(c.o.xcsf.POP_SIZE), o.time == 0,
                     o.age == 0, o.mtotal == 0]
NEWN = ("one copy", "no experience", "initial fitness", "initial error", "initial set size", "time zero", "not yet tried", "no matches")


def pi_ens(c):
    b = c.o.xcsf.pset._b
    l = L(c, b, c.new)
    g = lambda n: (lambda k: z3.Select(c.g(n), l.clp(k)) == 1)
    x = c.o.xcsf
    fresh_ = lambda k: l.clp(k) >= c.old.nxt
    first = l.n - L(c, b, c.old).n
    return wf(c, b, c.new) + dist(c, b, c.new) + acct(c, b, c.new) + [
        ("filled to the maximum size", z3.Implies(x.POP_INIT != 0, c.n.xcsf.pset.num == z3.If(x.pset.num < x.POP_SIZE, x.POP_SIZE, x.pset.num))),
        ("left alone otherwise", z3.Implies(x.POP_INIT == 0, z3.And(c.n.xcsf.pset.num == x.pset.num, l.n == L(c, b, c.old).n)))] + [
        ("a new rule: " + t, Forall(0, first, lambda k, i=i: NEWR(c, l.cl(k))[i], pats=lambda k: l.node(k))) for i, t in enumerate(NEWN)] + [
        ("a new rule: random " + t, Forall(0, first, lambda k, n=n: g(n)(k), pats=lambda k: l.node(k))) for t, n in (("condition", "ini_c"), ("prediction", "ini_p"), ("action", "ini_a"))]


def pi_cands(c, s, S0, k):
    b = c.o.xcsf.pset._b
    l, l0 = L(c, b, s), L(c, b, c.old)
    g = lambda n: (lambda k: z3.Select(c.g(n, s), l.clp(k)) == 1)
    first = l.n - l0.n
    so = c.obj(b, "Set", s)
    return [first == k, so.num == c.o.xcsf.pset.num + k, so.size == l.n, so.num == numsum(c, b, s), z3.Or(k == 0, so.num <= c.o.xcsf.POP_SIZE)] + [
        Forall(0, first, lambda k, i=i: NEWR(c, l.cl(k))[i], pats=lambda k: l.node(k)) for i in range(len(NEWN))] + [
        Forall(0, first, lambda k: l.clp(k) >= c.old.nxt, pats=lambda k: l.node(k))] + [
        Forall(0, first, lambda k, n=n: g(n)(k), pats=lambda k: l.node(k)) for n in ("ini_c", "ini_p", "ini_a")] + [q for _, q in wf(c, b, s) + dist(c, b, s)]


add("clset_pset_init", "xcsf", bounded_setup=short(XP),
    requires=lambda c: wf(c, c.o.xcsf.pset._b, c.old) + dist(c, c.o.xcsf.pset._b, c.old) + acct(c, c.o.xcsf.pset._b, c.old) +
    [("no population file", z3.And(c.o.xcsf.population_file._b > 0, c.o.xcsf.population_file[0] == 0))],
    modifies=lambda c: setmod(XP)(c) + [GAll(g) for g in ("owner", "ini_c", "ini_p", "ini_a", "cpy_p")], cands=pi_cands, ensures=pi_ens,
    opts={"lean": True, "no_values": True, "overlay": {"clset_load_pop_file": Contract("clset_load_pop_file", "xcsf", requires=lambda c: [("a file is named", z3.BoolVal(False))], trusted=True)}})


# ---------------------------------------------------------------- a new system, and its end
PA = {n: Contract(n, "xcsf", trusted=True, modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("pa", "nr", "pa_size")]) for n in ("pa_init", "pa_free")}
ZERO = ("time", "mset_size", "aset_size", "mfrac", "explore")
XQ = "xcsf.prev_pset"


def reset(c):
    return [("nothing has been learned", z3.And(*[getattr(c.n.xcsf, f) == 0 for f in ZERO], c.n.xcsf.error == c.o.xcsf.E0))]


def XM(c):
    return [FAt("XCSF", f, c.o.xcsf._b) for f in ZERO + ("error", "pa", "nr", "pa_size")]


def xi_ens(c):
    b, q = c.o.xcsf.pset._b, c.o.xcsf.prev_pset._b
    x = c.o.xcsf
    return reset(c) + empty(c, q) + wf(c, b, c.new) + dist(c, b, c.new) + acct(c, b, c.new) + [
        ("filled with random rules when that is configured, empty otherwise", c.n.xcsf.pset.num == z3.If(z3.And(x.POP_INIT != 0, x.POP_SIZE > 0), x.POP_SIZE, 0))]


add("xcsf_init", "xcsf", requires=lambda c: [("no population file", z3.And(c.o.xcsf.population_file._b > 0, c.o.xcsf.population_file[0] == 0))],
    modifies=lambda c: XM(c) + setmod(XP, XQ)(c) + [GAll(g) for g in ("owner", "ini_c", "ini_p", "ini_a", "cpy_p")],
    ensures=xi_ens, opts={"overlay": PA})


def xf_ens(c):
    b, q = c.o.xcsf.pset._b, c.o.xcsf.prev_pset._b
    out = reset(c) + [("both populations are empty", z3.And(*[z3.And(s.size == 0, s.num == 0, s.list._b == 0) for s in (c.n.xcsf.pset, c.n.xcsf.prev_pset)]))]
    for t, s in (("population", b), ("stored population", q)):
        l = L(c, s, c.old)
        out.append(("every rule of the %s is released once" % t, Forall(0, l.n, lambda k, l=l: z3.And(*[
            z3.Select(c.g(g), l.clp(k)) == z3.Select(c.g(g, c.old), l.clp(k)) + 1 for g in ("fre_c", "fre_p", "fre_a")]), pats=lambda k, l=l: l.node(k))))
    return out


add("xcsf_free", "xcsf", requires=lambda c: both_req(c) + apart(c, c.o.xcsf.pset._b, c.o.xcsf.prev_pset._b),
    modifies=lambda c: XM(c) + setmod(XP, XQ)(c) + FRE, ensures=xf_ens, opts={"overlay": PA})
