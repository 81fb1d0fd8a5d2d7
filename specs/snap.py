"""Storing the population and retrieving it: a complete, independent copy; the swap back."""
from .pop import *

CPY = ("cpy_c", "cpy_p", "cpy_a")
XP, XQ = "xcsf.pset", "xcsf.prev_pset"


def both_req(c):
    p, q = bases(c, XP, c.old), bases(c, XQ, c.old)
    return wf(c, p, c.old) + dist(c, p, c.old) + acct(c, p, c.old) + wf(c, q, c.old) + dist(c, q, c.old)


def copy_of(c, d, s, st):
    """rule d (in state st) is a copy of rule s as it was on entry"""
    D, S = c.obj(d, "Cl", st), c.obj(s, "Cl", c.old)
    return [getattr(D, f) == getattr(S, f) for f in CLF] + [getattr(D, f)._b == getattr(S, f)._b for f in VPS] + \
           [z3.Select(c.g(g, st), d) == s for g in CPY] + [d >= c.old.nxt] + \
           [z3.Or(z3.Not(HASD(getattr(D, f + "_vptr")._b)), getattr(D, f)._b >= c.old.nxt) for f in ("cond", "pred", "act")] + [D.prediction._b >= c.old.nxt]


PARTS = ["the same %s" % f for f in CLF] + ["the same kind of %s" % f for f in VPS] + ["a copied " + f for f in ("condition", "prediction", "action part")] + \
        ["a new rule"] + ["its own " + f for f in ("condition", "prediction", "action part", "prediction values")]


def pvals(c, d, s, n, st):
    """rule by rule the current predictions agree; d and s give the copy and its source by position"""
    D, S = (lambda k: c.obj(d(k), "Cl", st).prediction), (lambda k: c.obj(s(k), "Cl", c.old).prediction)
    return ForallP(lambda k, j: z3.Implies(z3.And(0 <= k, k < n, 0 <= j, j < c.o.xcsf.y_dim), D(k)[j] == S(k)[j]), n=2, pats=lambda k, j: D(k)[j])


def apart(c, p, q):
    """the two sets share no rule"""
    P, Q = L(c, p, c.old), L(c, q, c.old)
    return [("no rule is in both sets", Forall(0, Q.n, lambda k: z3.Not(P.has(Q.clp(k))), pats=lambda k: Q.clp(k)))]


def st_cands(c, s, S0, k):
    l = L(c, bases(c, XP, c.old), c.old)
    b = bases(c, XQ, c.old)
    d = L(c, b, s)
    ds = c.obj(b, "Set", s)
    return [z3.And(0 <= k, k <= l.n), z3.And(d.n == k, ds.size == k),
            ds.num == c.sum(k, lambda j: l.cl(j, c.old).num, real=False),
            ] + [Forall(0, k, lambda j, i=i: copy_of(c, d.clp(j), l.clp(k - 1 - j), s)[i], pats=lambda j: d.node(j)) for i in range(len(PARTS))] + [
                pvals(c, d.clp, lambda j: l.clp(k - 1 - j), k, s),
                Forall(0, k, lambda j: c.obj(d.clp(j), "Cl", s).prediction._b < s.nxt, pats=lambda j: d.node(j))] + [g for _, g in wf(c, b, s) + dist(c, b, s)]


def st_ens(c):
    p, q = bases(c, XP, c.old), bases(c, XQ, c.old)
    l, d, q0 = L(c, p, c.old), L(c, q, c.new), L(c, q, c.old)
    return wf(c, q, c.new) + dist(c, q, c.new) + [
        ("as many rules", z3.And(d.n == l.n, c.n.xcsf.prev_pset.size == l.n)),
        ("the same total numerosity", c.n.xcsf.prev_pset.num == c.o.xcsf.pset.num),
        ] + [("every rule is copied: " + t, Forall(0, l.n, lambda j, i=i: copy_of(c, d.clp(j), l.clp(l.n - 1 - j), c.new)[i], pats=lambda j: d.node(j))) for i, t in enumerate(PARTS)] + [
        ("every rule is copied: the same current prediction", pvals(c, d.clp, lambda j: l.clp(l.n - 1 - j), l.n, c.new)),
        ("no rule of the population is released", Forall(0, l.n, lambda k: z3.And(*[
            z3.Select(c.g(g), l.clp(k)) == z3.Select(c.g(g, c.old), l.clp(k)) for g in ("fre_c", "fre_p", "fre_a")]), pats=lambda k: l.node(k))),
        ("the copy stored before is released, each rule once", Forall(0, q0.n, lambda k: z3.And(*[
            z3.Select(c.g(g), q0.clp(k)) == z3.Select(c.g(g, c.old), q0.clp(k)) + 1 for g in ("fre_c", "fre_p", "fre_a")]), pats=lambda k: q0.node(k)))]


FRE = [GAll(g) for g in ("fre_c", "fre_p", "fre_a")]
add("xcsf_store_pset", "xcsf", requires=lambda c: both_req(c) + apart(c, bases(c, XP, c.old), bases(c, XQ, c.old)), seqs=seqs_of(XP), bounded_setup=short(XP, XQ),
    modifies=lambda c: setmod(XQ)(c) + FRE + [GAll(g) for g in CPY + ("ini_p", "owner")], cands=st_cands, ensures=st_ens, opts={"lean": True, "no_values": True, "no_nl": True, "cand_timeout": 5.0, "par": 4})


def rt_ens(c):
    p, q = bases(c, XP, c.old), bases(c, XQ, c.old)
    p0, p1, q0, q1 = L(c, p, c.old), L(c, p, c.new), L(c, q, c.old), L(c, q, c.new)
    some = c.o.xcsf.prev_pset.size >= 1
    im = lambda f: z3.Implies(some, f)
    same = lambda b: z3.And(*[getattr(getattr(c.n.xcsf, b), f) == getattr(getattr(c.o.xcsf, b), f) for f in ("size", "num")],
                            getattr(c.n.xcsf, b).list._b == getattr(c.o.xcsf, b).list._b)
    return [("without a stored copy nothing changes", z3.Implies(z3.Not(some), z3.And(same("pset"), same("prev_pset")))),
            ("the population is the stored copy", im(z3.And(c.n.xcsf.pset.size == c.o.xcsf.prev_pset.size, c.n.xcsf.pset.num == c.o.xcsf.prev_pset.num,
                                                           c.n.xcsf.pset.list._b == c.o.xcsf.prev_pset.list._b))),
            ("the stored copy is given up", im(z3.And(c.n.xcsf.prev_pset.size == 0, c.n.xcsf.prev_pset.num == 0, c.n.xcsf.prev_pset.list._b == 0))),
            ("the stored rules are not released", Forall(0, q0.n, lambda k: z3.And(*[
                z3.Select(c.g(g), q0.clp(k)) == z3.Select(c.g(g, c.old), q0.clp(k)) for g in ("fre_c", "fre_p", "fre_a")]), pats=lambda k: q0.node(k))),
            ("the population it replaces is released, each rule once", Forall(0, p0.n, lambda k: z3.And(*[
                z3.Select(c.g(g), p0.clp(k)) == z3.Select(c.g(g, c.old), p0.clp(k)) + z3.If(some, 1, 0) for g in ("fre_c", "fre_p", "fre_a")]), pats=lambda k: p0.node(k)))]


add("xcsf_retrieve_pset", "xcsf", requires=lambda c: both_req(c) + acct(c, bases(c, XQ, c.old), c.old) + apart(c, bases(c, XP, c.old), bases(c, XQ, c.old)), bounded_setup=short(XP, XQ),
    modifies=lambda c: setmod(XP, XQ)(c) + FRE, ensures=rt_ens)
