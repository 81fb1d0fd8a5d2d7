"""Saving and loading the population: order, rules, accounts."""
from . import ser as S
from .pop import *
from .ser import after_save, consumed, pos, src_base, STREAM

NUMOF = z3.Function("NUMOF", I, I)
GHOST = "st_rule"


def state(c, p, st):
    return z3.Select(c.g(GHOST, st), p)


def _tok():
    fs = lambda c, st: (c.g("fsi", st), c.g("fsz", st), c.g("fpos", st))

    def save_ens(c):
        (i0, z0, p0), (i1, z1, p1) = fs(c, c.old), fs(c, c.new)
        q = pos(c, c.old)
        return [i1 == z3.Store(i0, q, state(c, c.o.c._b, c.old)), z1 == z3.Store(z0, q, ival(210)), p1 == z3.Store(p0, ival(0), q + 1), c.ret == 1,
                c.o.c.num == NUMOF(state(c, c.o.c._b, c.old))]

    def load_ens(c):
        q = pos(c, c.old)
        v = z3.Select(c.g("fsi", c.old), q)
        return [c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.g(GHOST) == z3.Store(c.g(GHOST, c.old), c.o.c._b, v),
                c.n.c.num == NUMOF(v), c.ret == 1]
    return {"cl_save": Contract("cl_save", "xcsf c fp", modifies=lambda c: [GAll("fsi"), GAll("fsz"), GAll("fpos")], ensures=save_ens, trusted=True),
            "cl_load": Contract("cl_load", "xcsf c fp", requires=lambda c: [("a rule is read where one was written", z3.Select(c.g("fsz", c.old), pos(c, c.old)) == 210)],
                                modifies=lambda c: [GAll("fpos"), FAt("Cl", "num", c.o.c._b), GAll(GHOST)], ensures=load_ens, trusted=True)}


def rev_req(c):
    return wf(c, c.o.xcsf.pset._b, c.old)


def reversed_(c, b):
    l0, l1 = L(c, b, c.old), L(c, b, c.new)
    return [("as many rules", l1.n == l0.n), ("in reverse order", Forall(0, l0.n, lambda k: z3.And(l1.node(k) == l0.node(l0.n - 1 - k)), pats=lambda k: l1.node(k))),
            ("in reverse order (old view)", Forall(0, l0.n, lambda k: z3.And(l0.node(k) == l1.node(l0.n - 1 - k)), pats=lambda k: l0.node(k))),
            ("rule positions", ForallP(lambda p: z3.Select(l1.CP, p) == l0.n - 1 - z3.Select(l0.CP, p), pats=lambda p: z3.Select(l1.CP, p)))]


def rev_ghost(c, st):
    b = c.o.xcsf.pset._b
    l0 = L(c, b, c.old)
    store_ghost(c, st, b, N=defarr(st, lambda k: z3.If(z3.And(0 <= k, k < l0.n), l0.node(l0.n - 1 - k), 0)),
                P=defarr(st, lambda k: l0.n - 1 - z3.Select(l0.P, k)), CP=defarr(st, lambda k: l0.n - 1 - z3.Select(l0.CP, k)))


def rev_cands(c, s, S0, k):
    b = c.o.xcsf.pset._b
    l0 = L(c, b, c.old)
    nx = c.field("Clist", "next", s)
    nx0 = c.field("Clist", "next", c.old)
    before = lambda j: z3.If(j == 0, 0, l0.node(j - 1))
    return [Forall(0, k, lambda j: z3.Select(nx, l0.node(j)) == before(j), pats=lambda j: l0.node(j)),
            Forall(k, l0.n, lambda j: z3.Select(nx, l0.node(j)) == l0.node(j + 1), pats=lambda j: l0.node(j)),
            z3.And(0 <= k, k <= l0.n),
            ForallP(lambda p: z3.Implies(z3.And(p < c.old.nxt, z3.Select(c.g("owner", c.old), p) != b), z3.Select(nx, p) == z3.Select(nx0, p)), pats=lambda p: z3.Select(nx, p))]


add("clset_pset_reverse", "xcsf", requires=rev_req, seqs=seqs_of("xcsf.pset"),
    modifies=lambda c: [FAt("Set", "list", c.o.xcsf.pset._b), FAll("Clist", "next")] + lm("xcsf.pset")(c),
    ensures=lambda c: wf(c, c.o.xcsf.pset._b, c.new) + reversed_(c, c.o.xcsf.pset._b) + [others_linked(c, c.o.xcsf.pset._b)],
    ghost_exit=rev_ghost, cands=rev_cands, roles=lambda c, s, S0, k: [z3.If(k == 0, 0, L(c, c.o.xcsf.pset._b, c.old).node(k - 1)), L(c, c.o.xcsf.pset._b, c.old).node(k)],
    bounded_setup=short("xcsf.pset"))


# ---------------------------------------------------------------- the whole population
def sx(c, st):
    return c.obj(src_base(), "XCSF", st)


def sl(c, st):
    return L(c, sx(c, st).pset._b, st)


def start():
    return z3.Const("stream_start", I)


HEAD = 2     # records before the rules: size and numerosity


def pl_pre(c, st):
    b = sx(c, st).pset._b
    return [src_base() != c.o.xcsf._b, b != c.o.xcsf.pset._b] + [g for _, g in wf(c, b, st) + dist(c, b, st) + acct(c, b, st)]


def pl_seqs(c, S0):
    l = sl(c, S0)
    out = [(l.node, l.n)]
    return out


def rec_ok(c, s, n, h):
    """record j of the stream is rule j of the saved population"""
    l = sl(c, c.old)
    fi, fz = c.g("fsi", s), c.g("fsz", s)
    return [Forall(0, n, lambda j: z3.And(z3.Select(fi, start() + h + j) == state(c, l.clp(j), c.old), z3.Select(fz, start() + h + j) == 210), pats=lambda j: l.node(j))]


def pl_cands(c, s, S0, k):
    l = sl(c, c.old)
    b = c.o.xcsf.pset._b
    d = L(c, b, s)
    h = HEAD
    ds = c.obj(b, "Set", s)
    out = rec_ok(c, s, k, h) + [
        z3.And(z3.Select(c.g("fsi", s), start()) == l.n, z3.Select(c.g("fsz", s), start()) == 104),
        z3.And(z3.Select(c.g("fsi", s), start() + 1) == sx(c, c.old).pset.num, z3.Select(c.g("fsz", s), start() + 1) == 104),
        pos(c, s) == start() + h + k,
        z3.And(0 <= k, k <= l.n),
        z3.And(d.n == k, ds.size == k),
        ds.num == c.sum(k, lambda j: l.cl(j, c.old).num, real=False),
        Forall(0, k, lambda j: z3.And(d.clp(j) >= c.old.nxt, state(c, d.clp(j), s) == state(c, l.clp(k - 1 - j), c.old)), pats=lambda j: d.node(j)),
        Forall(0, l.n, lambda j: l.cl(j, c.old).num == NUMOF(state(c, l.clp(j), c.old)), pats=lambda j: l.node(j)),
        Forall(0, k, lambda j: l.cl(j, c.old).num == NUMOF(state(c, l.clp(j), c.old)), pats=lambda j: l.node(j))]
    out.append(z3.Implies(k < l.n, z3.And(z3.Select(c.g("fsi", s), start() + h + k) == state(c, l.clp(k), c.old), z3.Select(c.g("fsz", s), start() + h + k) == 210)))
    return out + [g for _, g in wf(c, b, s) + dist(c, b, s)]


def pl_ens(c):
    l = sl(c, c.old)
    b = c.o.xcsf.pset._b
    d = L(c, b, c.new)
    return [("as many rules", d.n == l.n), ("size", c.n.xcsf.pset.size == sx(c, c.old).pset.size), ("total numerosity", c.n.xcsf.pset.num == sx(c, c.old).pset.num),
            ("every rule is restored, in the same order", Forall(0, l.n, lambda j: state(c, d.clp(j), c.new) == state(c, l.clp(j), c.old), pats=lambda j: d.node(j))),
            ("the rules are new", Forall(0, l.n, lambda j: d.clp(j) >= c.old.nxt, pats=lambda j: d.node(j)))] + wf(c, b, c.new) + dist(c, b, c.new) + consumed(c)


add("clset_pset_load", "xcsf fp", setup=after_save("clset_pset_save", lambda c, b: [Ptr(b), Ptr(ival(7))], pl_pre), seqs=pl_seqs,
    modifies=lambda c: setmod("xcsf.pset")(c) + [GAll("owner"), GAll("fpos"), GAll(GHOST), FAll("Clist", "next")], cands=pl_cands, ensures=pl_ens,
    opts={"overlay": _tok(), "lean": True, "no_values": True})
