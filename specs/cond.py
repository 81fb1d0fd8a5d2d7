"""Conditions: hyperrectangles, hyperellipsoids, ternary strings, dummy; plus
the random-number, self-adaptation and clamping helpers they rely on."""
from .base import *

# ---------------------------------------------------------------- helpers
add("clamp", "a min max",
    ensures=lambda c: [("clamped", c.ret == clampf(c.o.a, c.o.min, c.o.max))])

add("rand_uniform", "min max",
    ensures=lambda c: [
        ("open interval", z3.Implies(c.o.min < c.o.max, z3.And(c.o.min < c.ret, c.ret < c.o.max))),
        ("degenerate", z3.Implies(c.o.min == c.o.max, c.ret == c.o.min)),
        ("swapped", z3.Implies(c.o.min > c.o.max, z3.And(c.o.max < c.ret, c.ret < c.o.min)))])

add("rand_uniform_int", "min max",
    requires=lambda c: [("min < max", c.o.min < c.o.max)],
    ensures=lambda c: [("half-open range", z3.And(c.o.min <= c.ret, c.ret < c.o.max))])

# any real may come out of the normal generator; nothing is promised about it
add("rand_normal", "mu sigma", trusted=True, note="may return any real number")

add("argmax", "X N",
    requires=lambda c: [c.o.N >= 1],
    ensures=lambda c: [
        ("in range", z3.And(0 <= c.ret, c.ret < c.o.N)),
        ("is a maximum", Forall(0, c.o.N, lambda j: c.o.X[j] <= c.o.X[c.ret])),
        ("is the first maximum", Forall(0, c.ret, lambda j: c.o.X[j] < c.o.X[c.ret]))],
    roles=lambda c, s, S0, k: [
        Role2(lambda t, u: u == c.o.X[t] if t.sort() == I and u.sort() == R else z3.BoolVal(False)),
        lambda t: z3.And(0 <= t, t <= k) if t.sort() == I else z3.BoolVal(True),
        lambda t: Forall(0, k + 1, lambda j: z3.And(c.o.X[j] <= c.o.X[t], z3.Implies(j < t, c.o.X[j] < c.o.X[t])))
        if t.sort() == I else z3.BoolVal(False),
        lambda t: Forall(0, k + 1, lambda j: c.o.X[j] <= t) if t.sort() == R else z3.BoolVal(False)])

MU_LO, MU_HI = z3.RealVal("5/10000"), rval(1)


def mu_ok(v):
    return z3.And(v >= MU_LO, v <= MU_HI)


def sam_types(c):
    t = lambda j: c.o.type[j]
    return Forall(0, c.o.N, lambda j: z3.And(0 <= t(j), t(j) <= 2), pats=lambda j: z3.Select(c.o.type.arr, j))


add("sam_init", "mu N type",
    requires=lambda c: [("N >= 0", c.o.N >= 0), ("known types", sam_types(c))],
    modifies=lambda c: [AAt("double", c.o.mu._b)],
    ensures=lambda c: [("rates in range", Forall(0, c.o.N, lambda j: mu_ok(c.n.mu[j]),
                                                pats=lambda j: z3.Select(c.n.mu.arr, j)))])
add("sam_adapt", "mu N type",
    requires=lambda c: [("N >= 0", c.o.N >= 0), ("known types", sam_types(c)),
                        ("rates in range", Forall(0, c.o.N, lambda j: mu_ok(c.o.mu[j])))],
    modifies=lambda c: [AAt("double", c.o.mu._b)],
    ensures=lambda c: [("rates in range", Forall(0, c.o.N, lambda j: mu_ok(c.n.mu[j]),
                                                pats=lambda j: z3.Select(c.n.mu.arr, j)))])


# ---------------------------------------------------------------- rectangle
def CSR():
    return macro("COND_TYPE_HYPERRECTANGLE_CSR")


def rect(c, nm, st):
    return c.view(nm, st).cond.as_("CondRectangle")


def rect_wf(c, *nms, arrs=()):
    out = [c.o.xcsf.x_dim >= 0]
    bs = []
    for n in nms:
        r = rect(c, n, c.old)
        out.append(nonnull(r, r.b1, r.b2, r.mu))
        bs += [r.b1._b, r.b2._b, r.mu._b]
    bs += [a._b for a in arrs]
    out.append(z3.Distinct(*bs))
    return [("well-formed condition", z3.And(*out))]


def is_csr(c):
    return c.o.xcsf.cond.type == CSR()


def bounds(c, nm, st):
    r = rect(c, nm, st)
    def lo(j):
        return z3.If(is_csr(c), r.b1[j] - r.b2[j], minr(r.b1[j], r.b2[j]))
    def hi(j):
        return z3.If(is_csr(c), r.b1[j] + r.b2[j], maxr(r.b1[j], r.b2[j]))
    return lo, hi


def rect_matches(c, nm, st, x):
    lo, hi = bounds(c, nm, st)
    return lambda j: z3.And(lo(j) <= x[j], x[j] <= hi(j))


add("cond_rectangle_match", "xcsf c x",
    requires=lambda c: rect_wf(c, "c"),
    ensures=lambda c: [("matches iff inside every interval",
                        IffAll(c.ret, c.o.xcsf.x_dim, rect_matches(c, "c", c.old, c.o.x)))])


def rect_gen(c):
    lo1, hi1 = bounds(c, "c1", c.old)
    lo2, hi2 = bounds(c, "c2", c.old)
    return lambda j: z3.And(lo1(j) <= lo2(j), hi2(j) <= hi1(j))


add("cond_rectangle_general", "xcsf c1 c2",
    requires=lambda c: [c.o.xcsf.x_dim >= 0],
    ensures=lambda c: [("general iff it contains every interval of the other",
                        IffAll(c.ret, c.o.xcsf.x_dim, rect_gen(c)))])


def spread_ok(c):
    xc = c.o.xcsf.cond
    return [("input range and minimum spread are sensible",
             z3.And(xc.spread_min >= 0, xc.min <= xc.max))]


add("cond_rectangle_cover", "xcsf c x",
    requires=lambda c: rect_wf(c, "c", arrs=[c.o.x]) + spread_ok(c),
    modifies=lambda c: [AAt("double", rect(c, "c", c.old).b1._b), AAt("double", rect(c, "c", c.old).b2._b)],
    ensures=lambda c: [("covers the input", Forall(0, c.o.xcsf.x_dim, lambda j: rect_matches(c, "c", c.new, c.o.x)(j))),
                       ("centred on the input", Forall(0, c.o.xcsf.x_dim, lambda j: z3.Implies(
                           is_csr(c), rect(c, "c", c.new).b1[j] == c.o.x[j])))])


def rect_b2_ok(c, v):
    xc = c.o.xcsf.cond
    return z3.If(is_csr(c), v >= EPS, z3.And(xc.min <= v, v <= xc.max))


def rect_legal(c, r):
    xc = c.o.xcsf.cond
    return lambda j: z3.And(xc.min <= r.b1[j], r.b1[j] <= xc.max, rect_b2_ok(c, r.b2[j]))


def mu1(c, r):
    return ("self-adaptive rate in range", mu_ok(r.mu[0]))


def changed_iff(c, n, pairs, lab="reports a change iff some gene changed"):
    """ret == 1  <->  exists j: one of the pairs differs at j"""
    def same(j):
        return z3.And(*[a[j] == b[j] for a, b in pairs])
    return [(lab + " (nothing reported -> nothing changed)",
             Forall(0, n, lambda j: z3.Implies(c.ret == 0, same(j)))),
            (lab + " (reported -> something changed)",
             Dual([], z3.Implies(Forall(0, n, same).as_fact(), c.ret == 0)))]


class NotAllSame:
    def __init__(self, c, n, pairs):
        self.c, self.n, self.pairs = c, n, pairs

    def same(self, j):
        return z3.And(*[a[j] == b[j] for a, b in self.pairs])

    def as_goal(self):
        return z3.Implies(Forall(0, self.n, self.same).as_fact(), self.c.ret == 0)

    def as_fact(self):
        w = fresh("wit", I)
        return z3.Implies(self.c.ret != 0, z3.And(0 <= w, w < self.n, z3.Not(self.same(w))))


def truthful_loop(c, s, k, n, pairs_of):
    """loop candidate families for a change flag held in some variable t"""
    pairs = pairs_of(s)
    same = lambda j: z3.And(*[a[j] == b[j] for a, b in pairs])
    W = z3.Const("chg_witness", I)
    def none(t):
        return Forall(0, n, lambda j: z3.Implies(t == 0, same(j)))
    def some(t):
        # ghost existential: as a fact skolemised, as a goal refuted
        w = fresh("wit", I)
        return Dual(z3.Implies(t != 0, z3.And(0 <= w, w < n, w < k, z3.Not(same(w)))),
                    z3.Implies(Forall(0, n, same).as_fact(), t == 0))
    def isb(t):
        return z3.And(0 <= t, t <= 1)
    ok = lambda f: (lambda t: f(t) if t.sort() == I else z3.BoolVal(False))
    return [ok(none), ok(some), ok(isb)]


def rect_pairs(c, nm):
    def f(s):
        r0, r1 = rect(c, nm, c.old), rect(c, nm, s)
        return [(r0.b1, r1.b1), (r0.b2, r1.b2)]
    return f


add("cond_rectangle_mutate", "xcsf c",
    requires=lambda c: rect_wf(c, "c") + [("valid range", c.o.xcsf.cond.min <= c.o.xcsf.cond.max),
                                          mu1(c, rect(c, "c", c.old))],
    modifies=lambda c: [AAt("double", rect(c, "c", c.old).b1._b), AAt("double", rect(c, "c", c.old).b2._b),
                        AAt("double", rect(c, "c", c.old).mu._b)],
    ensures=lambda c: [("genes stay legal", Forall(0, c.o.xcsf.x_dim, rect_legal(c, rect(c, "c", c.new)))),
                       mu1(c, rect(c, "c", c.new)),
                       ("no change reported -> no gene changed", Forall(0, c.o.xcsf.x_dim, lambda j: z3.Implies(
                           c.ret == 0, z3.And(*[a[j] == b[j] for a, b in rect_pairs(c, "c")(c.new)])))),
                       ("change reported -> some gene changed",
                        NotAllSame(c, c.o.xcsf.x_dim, rect_pairs(c, "c")(c.new)))],
    roles=lambda c, s, S0, k: truthful_loop(c, s, k, c.o.xcsf.x_dim, rect_pairs(c, "c")))


def swap_post(n, prs):
    """prs: list of (old1,new1,old2,new2): each position either kept or swapped"""
    def f(j):
        return z3.And(*[z3.Or(z3.And(n1[j] == o1[j], n2[j] == o2[j]), z3.And(n1[j] == o2[j], n2[j] == o1[j]))
                        for o1, n1, o2, n2 in prs])
    return f


def rect_swaps(c, st):
    a0, b0 = rect(c, "c1", c.old), rect(c, "c2", c.old)
    a1, b1 = rect(c, "c1", st), rect(c, "c2", st)
    return [(a0.b1, a1.b1, b0.b1, b1.b1), (a0.b2, a1.b2, b0.b2, b1.b2)]


def xover_roles(c, s, k, n, swaps):
    prs = swaps(s)
    none = lambda t: Forall(0, n, lambda j: z3.Implies(t == 0, z3.And(*[z3.And(n1[j] == o1[j], n2[j] == o2[j]) for o1, n1, o2, n2 in prs])))
    isb = lambda t: z3.And(0 <= t, t <= 1)
    ok = lambda f: (lambda t: f(t) if t.sort() == I else z3.BoolVal(False))
    return [ok(none), ok(isb)]


def xover_ens(c, n, swaps):
    prs = swaps(c.new)
    return [("each gene is kept or exchanged between the parents", Forall(0, n, swap_post(n, prs))),
            ("no change reported -> nothing exchanged", Forall(0, n, lambda j: z3.Implies(
                c.ret == 0, z3.And(*[z3.And(n1[j] == o1[j], n2[j] == o2[j]) for o1, n1, o2, n2 in prs]))))]


add("cond_rectangle_crossover", "xcsf c1 c2",
    requires=lambda c: rect_wf(c, "c1", "c2"),
    modifies=lambda c: [AAt("double", rect(c, n, c.old).b1._b) for n in ("c1", "c2")] +
                       [AAt("double", rect(c, n, c.old).b2._b) for n in ("c1", "c2")],
    ensures=lambda c: xover_ens(c, c.o.xcsf.x_dim, lambda st: rect_swaps(c, st)),
    roles=lambda c, s, S0, k: xover_roles(c, s, k, c.o.xcsf.x_dim, lambda st: rect_swaps(c, st)))

add("cond_rectangle_update", "xcsf c x y",
    requires=lambda c: rect_wf(c, "c", arrs=[c.o.x]),
    modifies=lambda c: [AAt("double", rect(c, "c", c.old).b1._b)],
    ensures=lambda c: [("centres move towards the input by the gradient rate", Forall(0, c.o.xcsf.x_dim, lambda j:
        rect(c, "c", c.new).b1[j] == z3.If(z3.And(is_csr(c), c.o.xcsf.cond.eta > 0),
            rect(c, "c", c.old).b1[j] + c.o.xcsf.cond.eta * (c.o.x[j] - rect(c, "c", c.old).b1[j]),
            rect(c, "c", c.old).b1[j])))])


def rect_init_ens(c):
    r = rect(c, "c", c.new)
    xc = c.o.xcsf.cond
    lo, hi = minr(xc.spread_min, absr(xc.max - xc.min)), maxr(xc.spread_min, absr(xc.max - xc.min))
    return [("new storage", z3.And(r._b >= c.old.nxt, r.b1._b >= c.old.nxt, r.b2._b >= c.old.nxt, r.mu._b >= c.old.nxt,
                                   distinct(r.b1, r.b2, r.mu))),
            ("initial genes legal", Forall(0, c.o.xcsf.x_dim, lambda j: z3.And(
                xc.min <= r.b1[j], r.b1[j] <= xc.max,
                z3.If(is_csr(c), z3.And(lo <= r.b2[j], r.b2[j] <= hi), z3.And(xc.min <= r.b2[j], r.b2[j] <= xc.max))))),
            mu1(c, r)]


add("cond_rectangle_init", "xcsf c",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, nonnull(c.o.c)] + spread_ok(c),
    modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=rect_init_ens,
    cands=lambda c, s, S0, k: [])


def rect_copy_ens(c):
    r0, r1 = rect(c, "src", c.old), rect(c, "dest", c.new)
    return [("new storage", z3.And(r1._b >= c.old.nxt, r1.b1._b >= c.old.nxt, r1.b2._b >= c.old.nxt, r1.mu._b >= c.old.nxt,
                                   distinct(r1.b1, r1.b2, r1.mu))),
            ("equal genes", Forall(0, c.o.xcsf.x_dim, lambda j: z3.And(r1.b1[j] == r0.b1[j], r1.b2[j] == r0.b2[j]))),
            ("equal rate", r1.mu[0] == r0.mu[0])]


add("cond_rectangle_copy", "xcsf dest src",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, nonnull(c.o.dest, c.o.src)],
    modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b)],
    ensures=rect_copy_ens)


# ---------------------------------------------------------------- ellipsoid
def ell(c, nm, st):
    return c.view(nm, st).cond.as_("CondEllipsoid")


def ell_wf(c, *nms, arrs=()):
    out = [c.o.xcsf.x_dim >= 0]
    bs = []
    for n in nms:
        r = ell(c, n, c.old)
        out.append(nonnull(r, r.center, r.spread, r.mu))
        bs += [r.center._b, r.spread._b, r.mu._b]
    bs += [a._b for a in arrs]
    out.append(z3.Distinct(*bs))
    return [("well-formed condition", z3.And(*out))]


def ell_dist(c, e, x, n):
    def t(j):
        d = rdiv(x(j) - e.center[j], e.spread[j])
        return d * d
    return c.sum(n, t)


add("cond_ellipsoid_dist", "xcsf c x",
    requires=lambda c: [c.o.xcsf.x_dim >= 0],
    ensures=lambda c: [("sum of squared standardised offsets",
                        c.ret == ell_dist(c, ell(c, "c", c.old), lambda j: c.o.x[j], c.o.xcsf.x_dim))])
add("cond_ellipsoid_match", "xcsf c x",
    requires=lambda c: [c.o.xcsf.x_dim >= 0],
    ensures=lambda c: [("matches iff inside the ellipsoid",
                        iff(c.ret, ell_dist(c, ell(c, "c", c.old), lambda j: c.o.x[j], c.o.xcsf.x_dim) < 1))],
    inline=("cond_ellipsoid_dist",))
add("cond_ellipsoid_cover", "xcsf c x",
    requires=lambda c: ell_wf(c, "c", arrs=[c.o.x]) + spread_ok(c),
    modifies=lambda c: [AAt("double", ell(c, "c", c.old).center._b), AAt("double", ell(c, "c", c.old).spread._b)],
    ensures=lambda c: [("centred on the input", Forall(0, c.o.xcsf.x_dim, lambda j: ell(c, "c", c.new).center[j] == c.o.x[j])),
                       ("non-negative spread", Forall(0, c.o.xcsf.x_dim, lambda j: ell(c, "c", c.new).spread[j] >= 0)),
                       ("positive spread when the range is positive", Forall(0, c.o.xcsf.x_dim, lambda j: z3.Implies(
                           c.o.xcsf.cond.min < c.o.xcsf.cond.max, ell(c, "c", c.new).spread[j] > 0)))])


def ell_pairs(c, nm):
    def f(s):
        r0, r1 = ell(c, nm, c.old), ell(c, nm, s)
        return [(r0.center, r1.center), (r0.spread, r1.spread)]
    return f


def ell_legal(c, r):
    xc = c.o.xcsf.cond
    return lambda j: z3.And(xc.min <= r.center[j], r.center[j] <= xc.max, r.spread[j] >= EPS)


add("cond_ellipsoid_mutate", "xcsf c",
    requires=lambda c: ell_wf(c, "c") + [("valid range", c.o.xcsf.cond.min <= c.o.xcsf.cond.max),
                                         mu1(c, ell(c, "c", c.old))],
    modifies=lambda c: [AAt("double", ell(c, "c", c.old).center._b), AAt("double", ell(c, "c", c.old).spread._b),
                        AAt("double", ell(c, "c", c.old).mu._b)],
    ensures=lambda c: [("genes stay legal", Forall(0, c.o.xcsf.x_dim, ell_legal(c, ell(c, "c", c.new)))),
                       mu1(c, ell(c, "c", c.new)),
                       ("no change reported -> no gene changed", Forall(0, c.o.xcsf.x_dim, lambda j: z3.Implies(
                           c.ret == 0, z3.And(*[a[j] == b[j] for a, b in ell_pairs(c, "c")(c.new)])))),
                       ("change reported -> some gene changed",
                        NotAllSame(c, c.o.xcsf.x_dim, ell_pairs(c, "c")(c.new)))],
    roles=lambda c, s, S0, k: truthful_loop(c, s, k, c.o.xcsf.x_dim, ell_pairs(c, "c")))


def ell_swaps(c, st):
    a0, b0 = ell(c, "c1", c.old), ell(c, "c2", c.old)
    a1, b1 = ell(c, "c1", st), ell(c, "c2", st)
    return [(a0.center, a1.center, b0.center, b1.center), (a0.spread, a1.spread, b0.spread, b1.spread)]


add("cond_ellipsoid_crossover", "xcsf c1 c2",
    requires=lambda c: ell_wf(c, "c1", "c2"),
    modifies=lambda c: [AAt("double", ell(c, n, c.old).center._b) for n in ("c1", "c2")] +
                       [AAt("double", ell(c, n, c.old).spread._b) for n in ("c1", "c2")],
    ensures=lambda c: xover_ens(c, c.o.xcsf.x_dim, lambda st: ell_swaps(c, st)),
    roles=lambda c, s, S0, k: xover_roles(c, s, k, c.o.xcsf.x_dim, lambda st: ell_swaps(c, st)))

add("cond_ellipsoid_update", "xcsf c x y",
    requires=lambda c: ell_wf(c, "c", arrs=[c.o.x]),
    modifies=lambda c: [AAt("double", ell(c, "c", c.old).center._b)],
    ensures=lambda c: [("centres move towards the input by the gradient rate", Forall(0, c.o.xcsf.x_dim, lambda j:
        ell(c, "c", c.new).center[j] == z3.If(c.o.xcsf.cond.eta > 0,
            ell(c, "c", c.old).center[j] + c.o.xcsf.cond.eta * (c.o.x[j] - ell(c, "c", c.old).center[j]),
            ell(c, "c", c.old).center[j])))])


def ell_init_ens(c):
    r = ell(c, "c", c.new)
    xc = c.o.xcsf.cond
    lo, hi = minr(xc.spread_min, absr(xc.max - xc.min)), maxr(xc.spread_min, absr(xc.max - xc.min))
    return [("new storage", z3.And(r._b >= c.old.nxt, r.center._b >= c.old.nxt, r.spread._b >= c.old.nxt, r.mu._b >= c.old.nxt,
                                   distinct(r.center, r.spread, r.mu))),
            ("initial genes legal", Forall(0, c.o.xcsf.x_dim, lambda j: z3.And(
                xc.min <= r.center[j], r.center[j] <= xc.max, lo <= r.spread[j], r.spread[j] <= hi))),
            mu1(c, r)]


add("cond_ellipsoid_init", "xcsf c",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, nonnull(c.o.c)] + spread_ok(c),
    modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=ell_init_ens)


def ell_copy_ens(c):
    r0, r1 = ell(c, "src", c.old), ell(c, "dest", c.new)
    return [("new storage", z3.And(r1._b >= c.old.nxt, r1.center._b >= c.old.nxt, r1.spread._b >= c.old.nxt, r1.mu._b >= c.old.nxt,
                                   distinct(r1.center, r1.spread, r1.mu))),
            ("equal genes", Forall(0, c.o.xcsf.x_dim, lambda j: z3.And(r1.center[j] == r0.center[j], r1.spread[j] == r0.spread[j]))),
            ("equal rate", r1.mu[0] == r0.mu[0])]


add("cond_ellipsoid_copy", "xcsf dest src",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, nonnull(c.o.dest, c.o.src)],
    modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b)],
    ensures=ell_copy_ens)

# ---------------------------------------------------------------- dummy
add("cond_dummy_match", "xcsf c x", ensures=lambda c: [("always matches", c.ret == 1)])
add("cond_dummy_general", "xcsf c1 c2", ensures=lambda c: [("never subsumes", c.ret == 0)])
add("cond_dummy_mutate", "xcsf c", ensures=lambda c: [("nothing changes", c.ret == 0)])
add("cond_dummy_crossover", "xcsf c1 c2", ensures=lambda c: [("nothing changes", c.ret == 0)])
