"""Ternary conditions over the fixed-point binary code of the input."""
from .cond import *

HASH, C0, C1 = ord('#'), ord('0'), ord('1')
BITC = z3.Function("BITC", R, I, I, I)        # j-th character of the code of f with `bits` bits
HALF = z3.Function("HALF", I, I, I)           # a halved i times
ROWOK = z3.Function("ROWOK", AI, I, B)        # row i of a string agrees with input i
ROWW = z3.Function("ROWW", AI, I, I)
POW = ufr("pow", 2)


def code_axioms(f, bits):
    j, a, i = z3.Consts("cj ca ci", I)
    A0 = trunc(f * POW(rval(2), toreal(bits)))
    return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < bits), BITC(f, bits, j) ==
                      z3.If(f >= 1, C1, z3.If(f <= 0, C0, C0 + cmod(HALF(A0, bits - 1 - j), ival(2))))),
                      patterns=[BITC(f, bits, j)]),
            z3.ForAll([a], HALF(a, 0) == a, patterns=[HALF(a, 0)]),
            z3.ForAll([a, i], z3.Implies(i >= 0, HALF(a, i + 1) == cdiv(HALF(a, i), ival(2))), patterns=[HALF(a, i)])]


def ftb_setup(c, st):
    for g in code_axioms(c.o.f, c.o.bits):
        st.fact(g)


def code_range(c, f, bits, arr=None):
    j = z3.Const("crj", I)
    return Forall(0, bits, lambda j: z3.And(z3.Or(BITC(f, bits, j) == C0, BITC(f, bits, j) == C1)),
                  pats=lambda j: BITC(f, bits, j))


add("float_to_binary", "f binary bits",
    requires=lambda c: [("bits", c.o.bits >= 0)],
    modifies=lambda c: [AAt("i1", c.o.binary._b)],
    setup=ftb_setup,
    ensures=lambda c: [("fixed-point code", Forall(0, c.o.bits, lambda j: c.n.binary[j] == BITC(c.o.f, c.o.bits, j)))],
    roles=lambda c, s, S0, k: [HALF(trunc(c.o.f * POW(rval(2), toreal(c.o.bits))), k)],
    cands=lambda c, s, S0, k: [Forall(c.o.bits - k, c.o.bits, lambda j: c.view("binary", s)[j] == BITC(c.o.f, c.o.bits, j))])


def tern(c, nm, st):
    return c.view(nm, st).cond.as_("CondTernary")


def ok_at(c, S, x, i, j):
    bits = c.o.xcsf.cond.bits
    v = z3.Select(S, i * bits + j)
    return z3.Or(v == HASH, v == BITC(x[i], bits, j))


def row_setup(c, st):
    i, j, k = z3.Consts("ri rj rk", I)
    S = z3.Const("rS", AI)
    bits, x = c.o.xcsf.cond.bits, c.o.x
    w = ROWW(S, i)
    st.fact(z3.ForAll([S, i], z3.Or(ROWOK(S, i), z3.And(0 <= w, w < bits, z3.Not(ok_at(c, S, x, i, w)))), patterns=[ROWOK(S, i)]))
    st.fact(z3.ForAll([S, i, j], z3.Implies(z3.And(ROWOK(S, i), 0 <= j, j < bits), ok_at(c, S, x, i, j)),
                      patterns=[mpat(ROWOK(S, i), BITC(x[i], bits, j))]))
    # 0 <= i < k and bits >= 0 imply (i+1)*bits <= k*bits
    st.fact(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k), i * bits + bits <= k * bits),
                      patterns=[mpat(z3.Select(x.arr, i), z3.Select(x.arr, k))]))


def tern_req(c, nm="c"):
    t = tern(c, nm, c.old)
    return [("dimensions", z3.And(c.o.xcsf.x_dim >= 0, c.o.xcsf.cond.bits >= 0)),
            ("separate storage", z3.And(t.string._b > 0, t.tmp_input._b > 0, t.string._b != t.tmp_input._b))]


def rowok(c, st):
    t = tern(c, "c", st)
    if BOUND[0] is not None:
        return lambda i: Forall(0, c.o.xcsf.cond.bits, lambda j: ok_at(c, t.string.arr, c.o.x, i, j))
    return lambda i: ROWOK(t.string.arr, i)


add("cond_ternary_match", "xcsf c x",
    requires=lambda c: tern_req(c), setup=row_setup,
    modifies=lambda c: [AAt("i1", tern(c, "c", c.old).tmp_input._b)],
    ensures=lambda c: [("matches iff every bit is the code of the input or a don't-care",
                        IffAll(c.ret, c.o.xcsf.x_dim, rowok(c, c.old),
                               pats=lambda i: [ROWOK(tern(c, "c", c.old).string.arr, i), z3.Select(c.o.x.arr, i)]))],
    cands=lambda c, s, S0, k: [Forall(0, k, rowok(c, c.old), pats=lambda i: ROWOK(tern(c, "c", c.old).string.arr, i))])

add("cond_ternary_cover", "xcsf c x",
    requires=lambda c: tern_req(c), setup=row_setup,
    modifies=lambda c: [AAt("i1", tern(c, "c", c.old).tmp_input._b), AAt("i1", tern(c, "c", c.old).string._b)],
    ensures=lambda c: [("covers the input", Forall(0, c.o.xcsf.x_dim, rowok(c, c.new),
                                                    pats=lambda i: [ROWOK(tern(c, "c", c.new).string.arr, i), z3.Select(c.o.x.arr, i)]))])


def tern_pairs(c, nm):
    def f(s):
        return [(tern(c, nm, c.old).string, tern(c, nm, s).string)]
    return f


def isgene(v):
    return z3.Or(v == HASH, v == C0, v == C1)


def genes(c, nm, st):
    t = tern(c, nm, st)
    return ("genes are 0, 1 or don't-care", Forall(0, t.length, lambda j: isgene(t.string[j]),
                                                   pats=lambda j: z3.Select(t.string.arr, j)))


add("cond_ternary_mutate", "xcsf c",
    requires=lambda c: [nonnull(tern(c, "c", c.old).string), tern(c, "c", c.old).length >= 0,
                        mu1(c, tern(c, "c", c.old)), genes(c, "c", c.old)],
    modifies=lambda c: [AAt("i1", tern(c, "c", c.old).string._b), AAt("double", tern(c, "c", c.old).mu._b)],
    ensures=lambda c: [genes(c, "c", c.new), mu1(c, tern(c, "c", c.new)),
                       ("no change reported -> no gene changed", Forall(0, tern(c, "c", c.old).length, lambda j: z3.Implies(
                           c.ret == 0, z3.And(*[a[j] == b[j] for a, b in tern_pairs(c, "c")(c.new)])))),
                       ("change reported -> some gene changed",
                        NotAllSame(c, tern(c, "c", c.old).length, tern_pairs(c, "c")(c.new)))],
    roles=lambda c, s, S0, k: truthful_loop(c, s, k, tern(c, "c", c.old).length, tern_pairs(c, "c")))


def tern_swaps(c, st):
    a0, b0 = tern(c, "c1", c.old), tern(c, "c2", c.old)
    a1, b1 = tern(c, "c1", st), tern(c, "c2", st)
    return [(a0.string, a1.string, b0.string, b1.string)]


add("cond_ternary_crossover", "xcsf c1 c2",
    requires=lambda c: [tern(c, "c1", c.old).length >= 0, nonnull(tern(c, "c1", c.old).string, tern(c, "c2", c.old).string),
                        distinct(tern(c, "c1", c.old).string, tern(c, "c2", c.old).string)],
    modifies=lambda c: [AAt("i1", tern(c, n, c.old).string._b) for n in ("c1", "c2")],
    ensures=lambda c: xover_ens(c, tern(c, "c1", c.old).length, lambda st: tern_swaps(c, st)),
    roles=lambda c, s, S0, k: xover_roles(c, s, k, tern(c, "c1", c.old).length, lambda st: tern_swaps(c, st)))


def tg(c):
    a, b = tern(c, "c1", c.old), tern(c, "c2", c.old)
    return (a.length, lambda j: z3.Or(a.string[j] == HASH, a.string[j] == b.string[j]),
            lambda j: a.string[j] == b.string[j])


def tern_general_ens(c):
    n, ok, same = tg(c)
    w, v = fresh("wit", I), fresh("wit", I)
    return [("general -> every bit is a don't-care or equal", Forall(0, n, lambda j: z3.Implies(c.ret == 1, ok(j)))),
            ("general -> some bit differs", Dual(z3.Implies(c.ret == 1, z3.And(0 <= w, w < n, z3.Not(same(w)))),
                                                z3.Implies(Forall(0, n, same).as_fact(), c.ret == 0))),
            ("covers a different string -> general", Dual([], z3.Implies(
                z3.And(Forall(0, n, ok).as_fact(), 0 <= v, v < n, z3.Not(same(v))), c.ret == 1)))]


add("cond_ternary_general", "xcsf c1 c2",
    requires=lambda c: [tern(c, "c1", c.old).length >= 0],
    ensures=tern_general_ens,
    roles=lambda c, s, S0, k: (lambda n, ok, same: [
        lambda t: Forall(0, k, lambda j: z3.Implies(t == 0, same(j))) if t.sort() == I else z3.BoolVal(False),
        lambda t: Dual((lambda w: z3.Implies(t != 0, z3.And(0 <= w, w < k, w < n, z3.Not(same(w)))))(fresh("wit", I)),
                       z3.Implies(z3.And(Forall(0, n, same).as_fact(), k <= n), t == 0)) if t.sort() == I else z3.BoolVal(False),
        lambda t: z3.And(0 <= t, t <= 1) if t.sort() == I else z3.BoolVal(False)])(*tg(c)))

add("cond_ternary_rand", "xcsf c",
    requires=lambda c: [tern(c, "c", c.old).length >= 0, nonnull(tern(c, "c", c.old).string)],
    modifies=lambda c: [AAt("i1", tern(c, "c", c.old).string._b)],
    ensures=lambda c: [genes(c, "c", c.new)])


def tern_init_ens(c):
    r = tern(c, "c", c.new)
    return [("new storage", z3.And(r._b >= c.old.nxt, r.string._b >= c.old.nxt, r.tmp_input._b >= c.old.nxt, r.mu._b >= c.old.nxt,
                                   distinct(r.string, r.tmp_input, r.mu))),
            ("one character per input bit", r.length == c.o.xcsf.x_dim * c.o.xcsf.cond.bits),
            genes(c, "c", c.new), mu1(c, r)]


add("cond_ternary_init", "xcsf c",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, c.o.xcsf.cond.bits >= 0, c.o.xcsf.x_dim * c.o.xcsf.cond.bits >= 0, nonnull(c.o.c)],
    modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=tern_init_ens)


def tern_copy_ens(c):
    r0, r1 = tern(c, "src", c.old), tern(c, "dest", c.new)
    return [("new storage", z3.And(r1._b >= c.old.nxt, r1.string._b >= c.old.nxt, r1.tmp_input._b >= c.old.nxt, r1.mu._b >= c.old.nxt,
                                   distinct(r1.string, r1.tmp_input, r1.mu))),
            ("equal length", r1.length == r0.length),
            ("equal genes", Forall(0, r0.length, lambda j: r1.string[j] == r0.string[j])),
            ("equal rate", r1.mu[0] == r0.mu[0])]


add("cond_ternary_copy", "xcsf dest src",
    requires=lambda c: [nonnull(c.o.dest, c.o.src), tern(c, "src", c.old).length >= 0],
    modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b)],
    ensures=tern_copy_ens)
