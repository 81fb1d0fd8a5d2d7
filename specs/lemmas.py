"""The mathematical facts the contracts use as axioms, proved: each lemma is a set of
queries over uninterpreted term functions (so it holds for every summand); inductions
are given as base and step."""
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
LEM = {}


def lemma(f):
    LEM[f.__name__] = f
    return f


def sumdef(F, f, ks):
    """F(0)=0 and F(k+1)=F(k)+f(k) at the given k"""
    return [F(0) == 0] + [z3.Implies(k >= 0, F(k + 1) == F(k) + f(k)) for k in ks]


def fn(n, *s):
    return z3.Function(n, *s)


def induct(P, defs, extra=()):
    """P(n) for all n>=0: base and step queries"""
    n = z3.Const("n", I)
    return [("base", list(defs(z3.IntVal(0))) + list(extra), P(z3.IntVal(0))),
            ("step", list(defs(n)) + [n >= 0, P(n)] + list(extra), P(n + 1))]


def between(f, lo, hi, v="q"):
    q = z3.Const(v, I)
    return z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), f(q)))


f, g = fn("f", I, R), fn("g", I, R)
F, G = fn("F", I, R), fn("G", I, R)
k = z3.Const("k", I)


def two(n):
    return sumdef(F, f, [n]) + sumdef(G, g, [n])


@lemma
def sum_congruence():
    return induct(lambda n: z3.Implies(between(lambda q: f(q) == g(q), 0, n), F(n) == G(n)), two)


@lemma
def sum_prepend():
    return induct(lambda n: z3.Implies(between(lambda q: f(q + 1) == g(q), 0, n), F(n + 1) == f(0) + G(n)),
                  lambda n: sumdef(F, f, [n, n + 1]) + sumdef(G, g, [n]) + [F(1) == F(0) + f(0)])


@lemma
def sum_nonneg():
    return induct(lambda n: z3.Implies(between(lambda q: f(q) >= 0, 0, n), F(n) >= 0), lambda n: sumdef(F, f, [n]))


@lemma
def sum_positive():
    return induct(lambda n: z3.Implies(between(lambda q: f(q) > 0, 0, n), z3.And(F(n) >= 0, z3.Implies(n >= 1, F(n) > 0))),
                  lambda n: sumdef(F, f, [n]))


@lemma
def sum_monotone():
    a = z3.Const("a", I)
    return induct(lambda n: z3.Implies(z3.And(0 <= a, a <= n, between(lambda q: f(q) >= 0, 0, n)), F(a) <= F(n)), lambda n: sumdef(F, f, [n]))


@lemma
def sum_point():
    p = z3.Const("p", I)
    return induct(lambda n: z3.Implies(between(lambda q: z3.Or(q == p, f(q) == g(q)), 0, n),
                                       F(n) == G(n) + z3.If(z3.And(0 <= p, p < n), f(p) - g(p), 0)), two)


@lemma
def sum_two():
    p, r = z3.Consts("p r", I)
    return induct(lambda n: z3.Implies(z3.And(p != r, between(lambda q: z3.Or(q == p, q == r, f(q) == g(q)), 0, n)),
                                       F(n) == G(n) + z3.If(z3.And(0 <= p, p < n), f(p) - g(p), 0) + z3.If(z3.And(0 <= r, r < n), f(r) - g(r), 0)), two)


@lemma
def sum_delete():
    p = z3.Const("p", I)      # F: new terms, G: old terms
    return induct(lambda n: z3.Implies(z3.And(0 <= p, between(lambda q: f(q) == z3.If(q < p, g(q), g(q + 1)), 0, n)),
                                       F(n) == z3.If(p < n + 1, G(n + 1) - g(p), G(n))),
                  lambda n: sumdef(F, f, [n]) + sumdef(G, g, [n, n + 1]) + [G(1) == G(0) + g(0)])


@lemma
def sum_filter():
    """new terms are the kept old ones in order, dropped ones are zero"""
    keep, cnt = fn("keep", I, B), fn("cnt", I, I)
    cd = lambda n: [cnt(0) == 0, z3.Implies(n >= 0, cnt(n + 1) == cnt(n) + z3.If(keep(n), 1, 0))]
    nn = induct(lambda n: cnt(n) >= 0, cd)
    m = z3.Const("m", I)
    body = lambda q: z3.If(keep(q), f(cnt(q)) == g(q), g(q) == 0)
    q = induct(lambda n: z3.Implies(between(body, 0, n), F(cnt(n)) == G(n)),
               lambda n: sumdef(G, g, [n]) + sumdef(F, f, [cnt(n)]) + cd(n) + [cnt(n) >= 0])
    return nn + q


@lemma
def filter_enum():
    """the m-th kept index exists for every m below the count, with count m before it; order is kept"""
    keep, cnt = fn("keep", I, B), fn("cnt", I, I)
    cd = lambda n: [cnt(0) == 0, z3.Implies(n >= 0, cnt(n + 1) == cnt(n) + z3.If(keep(n), 1, 0))]
    m, q, a = z3.Consts("m q a", I)
    ki = fn("kih", I, I, I)   # Skolem witness of the hypothesis
    ex = lambda n: z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < cnt(n)), z3.Exists([q], z3.And(0 <= q, q < n, keep(q), cnt(q) == m))))
    n = z3.Const("n", I)
    m0 = z3.Const("m0", I)
    w = z3.Const("w", I)
    out = [("base", cd(n), ex(z3.IntVal(0)))]
    # step, with the witness chosen explicitly: the hypothesis's one, or n itself
    hyp = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < cnt(n)), z3.And(0 <= ki(n, m), ki(n, m) < n, keep(ki(n, m)), cnt(ki(n, m)) == m)), patterns=[ki(n, m)])
    wit = z3.If(m0 < cnt(n), ki(n, m0), n)
    out.append(("step", cd(n) + [n >= 0, hyp, 0 <= m0, m0 < cnt(n + 1)], z3.And(0 <= wit, wit < n + 1, keep(wit), cnt(wit) == m0)))
    out += [("monotone " + l, h, c_) for l, h, c_ in induct(lambda n: z3.Implies(z3.And(0 <= a, a <= n), cnt(a) <= cnt(n)), cd)]
    out += [("at most " + l, h, c_) for l, h, c_ in induct(lambda n: cnt(n) <= n, cd)]
    out += [("dropped " + l, h, c_) for l, h, c_ in induct(lambda n: z3.Implies(z3.And(0 <= a, a < n, z3.Not(keep(a))), cnt(n) < n),
                                                          lambda n: cd(n) + cd(a) + [cnt(n) <= n])]
    # two kept indices with the same count are the same: count strictly grows past a kept index
    b = z3.Const("b", I)
    out.append(("strict", [z3.Implies(z3.And(0 <= a + 1, a + 1 <= b), cnt(a + 1) <= cnt(b)), 0 <= a, a < b, keep(a), cnt(a + 1) == cnt(a) + 1], cnt(a) < cnt(b)))
    return out


@lemma
def triangular():
    """row offsets of the quadratic basis: T(0)=0, T(i+1)=T(i)+d-i"""
    T = fn("T", I, I)
    d, i = z3.Consts("d i", I)
    df = lambda n: [T(0) == 0, z3.Implies(z3.And(0 <= n, n < d), T(n + 1) == T(n) + d - n)]
    out = induct(lambda n: z3.Implies(n <= d, T(n) >= 0), df)
    ii = z3.Const("ii", I)
    out += induct(lambda n: z3.Implies(z3.And(0 <= ii, ii < n, n <= d), T(ii) + d - ii <= T(n)), df)
    return out


@lemma
def row_offsets():
    """rows of width w do not overlap; position <-> (row, column) is one to one"""
    i, w, j, r, s, p = z3.Consts("i w j r s p", I)
    M = fn("M", I, I)     # M(k) = k*w, by recursion: the product is linear in k for a fixed w
    df = lambda n: [M(0) == 0, M(n + 1) == M(n) + w]
    out = induct(lambda n: z3.Implies(z3.And(w >= 0, 0 <= i, i < n), M(i) + w <= M(n)), lambda n: df(n) + df(i))
    # uniqueness of decoding
    le = lambda a, b: z3.Implies(a < b, M(a) + w <= M(b))
    out.append(("decode", [le(i, r), le(r, i), 0 <= j, j < w, 0 <= s, s < w, M(i) + j == M(r) + s], z3.And(i == r, j == s)))
    # existence of the decoding for 0 <= p < n*w
    q = fn("Q", I, I)
    out.append(("exist zero", df(i) + [0 <= p, p < M(0)], z3.BoolVal(False)))
    n = z3.Const("n", I)
    hyp = z3.Implies(z3.And(0 <= p, p < M(n)), z3.And(0 <= q(p), q(p) < n, 0 <= p - M(q(p)), p - M(q(p)) < w))
    wit = z3.If(p < M(n), q(p), n)
    out.append(("exist step", df(n) + [n >= 0, hyp, 0 <= p, p < M(n + 1)],
                z3.And(0 <= wit, wit < n + 1, 0 <= p - M(wit), p - M(wit) < w)))
    # the recursion is the product
    out += [("product " + l, h, c) for l, h, c in induct(lambda n: M(n) == n * w, df)]
    return out


@lemma
def deletion_vote_nonneg():
    """the vote of a rule with non-negative copies and size and positive fitness is not negative"""
    num, size, fit, avg, dl = z3.Reals("num size fit avg dl")
    h = [num >= 0, size >= 0, fit > 0, avg >= 0, dl >= 0]
    x, q = z3.Reals("x q")
    y, z_ = z3.Reals("y z")
    return [("product", [num >= 0, size >= 0], num * size >= 0),
            ("mean fitness of copies", h + [num > 0], fit / num > 0),
            ("quotient", [avg >= 0, fit > 0, num > 0, y == fit / num], z3.And(y > 0)),
            ("scaled vote", [x >= 0, avg >= 0, y > 0, z_ * y == avg], x * z_ >= 0)]


@lemma
def accuracy_positive():
    """accuracy of the power law: max(floor, alpha*(e/e0)^-nu) with alpha>0 and a positive floor"""
    a, p, m = z3.Reals("a p m")
    return [("floored", [m > 0, z3.Or(a == m, z3.And(a >= m, a == p))], a > 0)]

def _fold():
    """a running maximum over the elements that qualify, and the first position of the least value"""
    low, el = fn("low", I, B), fn("el", I, B)
    M, W = fn("M", I, R), fn("W", I, I)
    d = lambda n: [M(0) == 0, W(0) == -1, M(n + 1) == z3.If(z3.And(low(n), f(n) > M(n)), f(n), M(n)),
                   W(n + 1) == z3.If(z3.And(el(n), z3.Or(W(n) < 0, g(n) < g(W(n)))), n, W(n))]
    return low, el, M, W, d


@lemma
def fold_bounds():
    low, el, M, W, d = _fold()
    return induct(lambda n: z3.And(-1 <= W(n), z3.Or(W(n) < n), M(n) >= 0), d)


@lemma
def fold_max():
    low, el, M, W, d = _fold()
    q = z3.Const("q", I)
    return induct(lambda n: z3.And(M(n) >= 0, between(lambda q: z3.Implies(low(q), f(q) <= M(n)), 0, n),
                                   z3.Or(M(n) == 0, z3.Exists([q], z3.And(0 <= q, q < n, low(q), f(q) == M(n))))), d)


@lemma
def fold_least():
    low, el, M, W, d = _fold()
    return induct(lambda n: z3.And(-1 <= W(n), W(n) < n, z3.If(W(n) < 0, between(lambda q: z3.Not(el(q)), 0, n), z3.And(
        el(W(n)), between(lambda q: z3.Implies(el(q), z3.And(g(W(n)) <= g(q), z3.Implies(q < W(n), g(W(n)) < g(q)))), 0, n)))), d)


@lemma
def count_update():
    """the number of set elements after one element was changed"""
    S, T = fn("S", I, I), fn("T", I, I)
    C, D = fn("C", I, I), fn("D", I, I)
    i = z3.Const("i", I)
    on = lambda v: z3.If(v != 0, z3.IntVal(1), z3.IntVal(0))
    d = lambda n: [C(0) == 0, D(0) == 0, z3.Implies(n >= 0, z3.And(C(n + 1) == C(n) + on(S(n)), D(n + 1) == D(n) + on(T(n))))]
    return induct(lambda n: z3.Implies(between(lambda q: z3.Implies(q != i, S(q) == T(q)), 0, n), D(n) == C(n) + z3.If(z3.And(0 <= i, i < n), on(T(i)) - on(S(i)), 0)), d)


def run(name):
    qs = LEM[name]()
    for lab, hyp, goal in qs:
        s = z3.Solver()
        s.set("timeout", 20000)
        for h in hyp:
            s.add(h)
        if lab.endswith("step") or lab.endswith("base"):
            if s.check() == z3.unsat:
                return "failed", "%s %s: contradictory hypotheses" % (name, lab)
        s.add(z3.Not(goal))
        r = s.check()
        if r != z3.unsat:
            return ("failed" if r == z3.sat else "unknown"), "%s: %s: %s" % (name, lab, r)
    return "proved", "%d queries" % len(qs)


if __name__ == "__main__":
    import time
    for n_ in LEM:
        t = time.time()
        print(n_, run(n_), round(time.time() - t, 2))
