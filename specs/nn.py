"""Neural networks: activations, layers, the network."""
from .num import *

EXP, TANH_, SIN_, COS_ = ufr("exp"), ufr("tanh"), ufr("sin"), ufr("cos")


def q(s):
    return z3.RealVal(s)


def sig(x):
    return rdiv(rval(1), 1 + EXP(-x))


ACT = {
    "LOGISTIC": ("logistic", sig, lambda x: (1 - sig(x)) * sig(x)),
    "RELU": ("relu", lambda x: z3.If(x > 0, x, rval(0)), lambda x: z3.If(x > 0, rval(1), rval(0))),
    "TANH": ("tanh", TANH_, lambda x: 1 - TANH_(x) * TANH_(x)),
    "LINEAR": ("linear", lambda x: x, lambda x: rval(1)),
    "GAUSSIAN": ("gaussian", lambda x: EXP(-x * x), lambda x: -2 * x * EXP(-x * x)),
    "SIN": ("sin", SIN_, COS_),
    "COS": ("cos", COS_, lambda x: -SIN_(x)),
    "SOFT_PLUS": ("softplus", lambda x: LOG(1 + EXP(x)), sig),
    "LEAKY": ("leaky", lambda x: z3.If(x > 0, x, q("1/10") * x), lambda x: z3.If(x < 0, q("1/10"), rval(1))),
    "SELU": ("selu", lambda x: z3.If(x >= 0, q("1.0507") * x, q("1.0507") * q("1.6732") * (EXP(x) - 1)),
             lambda x: z3.If(x >= 0, q("1.0507"), q("1.0507") * q("1.6732") * EXP(x))),
    "LOGGY": ("loggy", lambda x: rdiv(rval(2), 1 + EXP(-x)) - 1, lambda x: rdiv(2 * EXP(x), (EXP(x) + 1) * (EXP(x) + 1))),
}
NFUN = macro("NUM_ACTIVATIONS")
ACTF, GRADF = z3.Function("ACTIVATE", I, R, R), z3.Function("GRADIENT", I, R, R)


def acttable(c, F, ix):
    return [("%s" % d[0], z3.Implies(c.o.a == macro(k), c.ret == d[ix](c.o.x))) for k, d in ACT.items()]


add("neural_activate", "a x", requires=lambda c: [("a known function", z3.And(c.o.a >= 0, c.o.a < NFUN))], ensures=lambda c: acttable(c, ACTF, 1))
add("neural_gradient", "a x", requires=lambda c: [("a known function", z3.And(c.o.a >= 0, c.o.a < NFUN))], ensures=lambda c: acttable(c, GRADF, 2))
ANAMES = [(d[0], macro(k)) for k, d in ACT.items()] + [("softmax", macro("SOFT_MAX"))]


def spelled(p, name):
    return z3.And(*[p[i] == ord(ch) for i, ch in enumerate(name + "\0")])


add("neural_activation_as_int", "a", requires=lambda c: [nonnull(c.o.a)], ensures=lambda c: [
    ("'%s' names its function" % n, z3.Implies(spelled(c.o.a, n), c.ret == m)) for n, m in ANAMES] + [
    ("only known names are accepted", z3.Or(*[z3.And(spelled(c.o.a, n), c.ret == m) for n, m in ANAMES]))])
add("neural_activation_string", "a", ensures=lambda c: [
    ("the name of '%s'" % n, z3.Implies(c.o.a == m, c.ret._b == c.ex.strconst(n).base)) for n, m in ANAMES] + [
    ("only known functions have names", z3.Or(*[c.o.a == m for n, m in ANAMES]))])
NMIN, NMAX = rval(macro("NEURON_MIN")), rval(macro("NEURON_MAX"))
OACT = {"neural_activate": Contract("neural_activate", "a x", ensures=lambda c: [c.ret == ACTF(c.o.a, c.o.x)], trusted=True),
        "neural_gradient": Contract("neural_gradient", "a x", ensures=lambda c: [c.ret == GRADF(c.o.a, c.o.x)], trusted=True)}


def aarr_ens(c):
    s0, s1, o1 = c.o.state, c.n.state, c.n.output
    n = c.o.n
    return [("states are limited", inside(c, s0, s1, n, lambda j, v: clampf(v, NMIN, NMAX))),
            ("other states kept", outside(c, s0, s1, n)),
            ("outputs are the activation of the state", inside(c, c.o.output, o1, n, lambda j, v: ACTF(c.o.a, clampf(s0[j], NMIN, NMAX)))),
            ("other outputs kept", outside(c, c.o.output, o1, n))]


add("neural_activate_array", "state output n a", requires=lambda c: [("sizes", c.o.n >= 0), ("no overlap", c.o.state._b != c.o.output._b)],
    modifies=lambda c: [AAt("double", c.o.state._b), AAt("double", c.o.output._b)], ensures=aarr_ens, opts={"overlay": OACT})
add("neural_gradient_array", "state delta n a", requires=lambda c: [("sizes", c.o.n >= 0), ("no overlap", c.o.state._b != c.o.delta._b)],
    modifies=lambda c: [AAt("double", c.o.delta._b)],
    ensures=lambda c: [("errors times slope", inside(c, c.o.delta, c.n.delta, c.o.n, lambda j, v: v * GRADF(c.o.a, c.o.state[j]))),
                       ("other errors kept", outside(c, c.o.delta, c.n.delta, c.o.n))], opts={"overlay": OACT})


# ---------------------------------------------------------------- matrix product
ROWF, COLF = z3.Function("MROW", I, I, I), z3.Function("MCOL", I, I, I)       # position -> row, column for a row length
POSF = z3.Function("MPOS", I, I, I, I)
GS = {}
for _t in ("nn", "nt", "tn", "tt"):
    GS[_t] = z3.Function("GEMM_" + _t, AR, I, I, AR, I, I, R, I, I, I, R)      # sum over k of alpha * A(i,k) * B(k,j)


def gterm(t, A, oa, lda, Bm, ob, ldb, al, i, j, k):
    a = oa + (i * lda + k if t[0] == "n" else k * lda + i)
    b = ob + (k * ldb + j if t[1] == "n" else j * ldb + k)
    return al * z3.Select(A, simp(a)) * z3.Select(Bm, simp(b))


class Gemm:
    def __init__(self, c, t):
        self.t = t
        self.key = (c.o.A.arr, c.o.A._o, c.o.lda, c.o.B.arr, c.o.B._o, c.o.ldb, c.o.ALPHA)

    def __call__(self, i, j, k):
        if BOUND[0] is not None:
            return sum((z3.If(q < k, gterm(self.t, *self.key, i, j, ival(q)), rval(0)) for q in range(BOUND[0])), rval(0))
        return GS[self.t](*self.key, i, j, k)

    def step(self, i, j, k):
        return z3.Implies(k >= 0, self(i, j, simp(k + 1)) == self(i, j, k) + gterm(self.t, *self.key, i, j, k))

    def defs(self):
        i, j = z3.Consts("gmi gmj", I)
        return z3.ForAll([i, j], self(i, j, ival(0)) == 0, patterns=[self(i, j, ival(0))])


def decode_facts(ld):
    p = z3.Const("gmp", I)
    return [z3.ForAll([p], z3.And(POSF(ld, ROWF(ld, p), COLF(ld, p)) == p, 0 <= COLF(ld, p), COLF(ld, p) < ld,
                                  z3.Implies(p >= 0, ROWF(ld, p) >= 0), z3.Implies(p < 0, ROWF(ld, p) < 0),
                                  z3.Implies(z3.And(0 <= p, p < ld), z3.And(ROWF(ld, p) == 0, COLF(ld, p) == p)),
                                  z3.Implies(p >= ld, ROWF(ld, p) >= 1)), patterns=[ROWF(ld, p)])]


def at_pos(ld, i, j):
    """the position of row i, column j (lemma row_offsets)"""
    return z3.Implies(z3.And(0 <= j, j < ld), z3.And(POSF(ld, i, j) == i * ld + j, ROWF(ld, simp(i * ld + j)) == i, COLF(ld, simp(i * ld + j)) == j))


def ints(c, s, S0=None):
    """the integer locals in scope that are not parameters"""
    par = list(c.params)
    out = []
    for q_, v in (S0 or s).vars.items():
        if v is None or not z3.is_expr(v) or v.sort() != I or any(z3.is_expr(x) and z3.eq(v, x) for x in par):
            continue
        out.append(s.vars[q_])
    return out


def ofs(c, st):
    return c.view("C", st)


def product(c, s, f):
    """element p of C in state s is its entry value combined by f(row, column, entry value)"""
    C0, C1 = c.o.C, c.view("C", s)
    o = C0._o
    ld = c.o.ldc
    if BOUND[0] is not None:
        return Forall(0, c.o.M, lambda i: Forall(0, c.o.N, lambda j: C1[i * ld + j] == f(i, j, C0[i * ld + j])))
    def body(p):
        r, l = ROWF(ld, simp(p - o)), COLF(ld, simp(p - o))
        v = z3.Select(C0.arr, p)
        inn = z3.And(0 <= r, r < c.o.M, l < c.o.N)
        return z3.Select(C1.arr, p) == z3.If(inn, f(r, l, v), v)
    return ForallP(body, pats=lambda p: z3.Select(C1.arr, p))


def gemm_req(c):
    return [("shapes", z3.And(c.o.M >= 0, c.o.N >= 0, c.o.K >= 0, c.o.N <= c.o.ldc)), ("no overlap", z3.And(c.o.A._b != c.o.C._b, c.o.B._b != c.o.C._b))]


def gemm_lemmas(t):
    def f(c, h, e, k):
        g = Gemm(c, t)
        vs = ints(c, h) + [k]
        ld = c.o.ldc
        out = [at_pos(ld, u, v) for u in vs for v in vs if not z3.eq(u, v)]
        out += [g.step(u, v, w) for u in vs for v in vs for w in vs if not (z3.eq(u, v) or z3.eq(v, w) or z3.eq(u, w))]
        return out
    return f


def gemm_cands(t):
    def f(c, s, S0, k):
        g = Gemm(c, t)
        K = c.o.K
        z = ival(0)
        vs = ints(c, s, S0)
        def inv(a, lo, hi, tt):
            return product(c, s, lambda r, l, v: v + z3.If(r < a, g(r, l, K), z3.If(r == a, z3.If(l < tt, g(r, l, hi), g(r, l, lo)), rval(0))))
        out = [inv(k, z, z, z)] + [inv(a, k, k, z) for a in vs] + [inv(a, z, K, k) for a in vs]
        out += [inv(a, b, simp(b + 1), k) for x, a in enumerate(vs) for y, b in enumerate(vs) if x != y]
        for x, a in enumerate(vs):
            for y, b in enumerate(vs):
                if x != y:
                    out += [x == g(a, b, k) for x in reals(s, S0)]
        return out
    return f


def reals(s, S0):
    return [s.vars[q_] for q_, v in S0.vars.items() if v is not None and z3.is_expr(v) and v.sort() == R]


def gemm_setup(t):
    def f(c, st):
        if BOUND[0] is None:
            st.fact(Gemm(c, t).defs())
            for x in decode_facts(c.o.ldc):
                st.fact(x)
    return f


for _t in GS:
    add("gemm_" + _t, "M N K ALPHA A lda B ldb C ldc", requires=gemm_req, setup=gemm_setup(_t), cands=gemm_cands(_t),
        modifies=lambda c: [AAt("double", c.o.C._b)],
        ensures=lambda c, t=_t: [("C += alpha A B", product(c, c.new, lambda r, l, v: v + Gemm(c, t)(r, l, c.o.K)))],
        opts={"lean": True, "no_nl": True, "no_values": True, "loop_lemmas": gemm_lemmas(_t)})


def which(c, f):
    """the product of the transposition the caller asked for"""
    ta, tb = c.o.TA != 0, c.o.TB != 0
    g = {t: (lambda r, l, k, t=t: Gemm(c, t)(r, l, k)) for t in GS}
    return lambda r, l, v: f(v) + z3.If(ta, z3.If(tb, g["tt"](r, l, c.o.K), g["tn"](r, l, c.o.K)), z3.If(tb, g["nt"](r, l, c.o.K), g["nn"](r, l, c.o.K)))


def bg_cands(c, s, S0, k):
    vs = ints(c, s, S0)
    be = c.o.BETA
    inv = lambda a, t: product(c, s, lambda r, l, v: z3.If(z3.Or(r < a, z3.And(r == a, l < t)), v * be, v))
    return [inv(k, ival(0))] + [inv(a, k) for a in vs]


def bg_lemmas(c, h, e, k):
    vs = ints(c, h) + [k]
    return [at_pos(c.o.ldc, u, v) for u in vs for v in vs if not z3.eq(u, v)]


def bg_setup(c, st):
    if BOUND[0] is None:
        for x in decode_facts(c.o.ldc):
            st.fact(x)


add("blas_gemm", "TA TB M N K ALPHA A lda B ldb BETA C ldc", requires=gemm_req, setup=bg_setup, cands=bg_cands,
    modifies=lambda c: [AAt("double", c.o.C._b)],
    ensures=lambda c: [("C = beta C + alpha A B", product(c, c.new, which(c, lambda v: v * c.o.BETA)))],
    opts={"lean": True, "no_nl": True, "no_values": True, "loop_lemmas": bg_lemmas})


# ---------------------------------------------------------------- fully-connected layers
WMIN, WMAX = rval(macro("WEIGHT_MIN")), rval(macro("WEIGHT_MAX"))
LARR = ("state", "output", "biases", "bias_updates", "delta", "weight_updates", "weights", "mu")


def bit(v, k):
    """bit k of an unsigned value"""
    return z3.Select(z3.K(I, z3.BoolVal(False)), v) if False else (v / ival(1 << k)) % 2 == 1


def opt_(v, nm):
    return bit(v, {"LAYER_EVOLVE_WEIGHTS": 0, "LAYER_EVOLVE_NEURONS": 1, "LAYER_EVOLVE_FUNCTIONS": 2, "LAYER_SGD_WEIGHTS": 3, "LAYER_EVOLVE_ETA": 4, "LAYER_EVOLVE_CONNECT": 5}[nm])


def wf_layer(l, *more):
    bs = [getattr(l, f) for f in LARR] + list(more)
    return [("layer shape", z3.And(l.n_inputs >= 1, l.n_outputs >= 1, l.n_weights == l.n_inputs * l.n_outputs, l.n_weights >= 1, l.n_biases == l.n_outputs)),
            ("layer arrays", z3.And(nonnull(l.weight_active, *bs), distinct(*bs))),
            ("a known function", z3.And(l.function >= 0, l.function < NFUN))]


def gsum(t, A, lda, Bm, ldb):
    if BOUND[0] is not None:
        return lambda i, j, k: sum((z3.If(q < k, gterm(t, A.arr, A._o, lda, Bm.arr, Bm._o, ldb, rval(1), i, j, ival(q)), rval(0)) for q in range(BOUND[0])), rval(0))
    return lambda i, j, k: GS[t](A.arr, A._o, lda, Bm.arr, Bm._o, ldb, rval(1), i, j, k)


def fwd_ens(c):
    l0, l1 = c.o.l, c.n.l
    n = l0.n_outputs
    S = gsum("nt", c.o.input, l0.n_inputs, l0.weights, l0.n_inputs)
    pre = lambda j: clampf(l0.biases[j] + S(ival(0), j, l0.n_inputs), NMIN, NMAX)
    return [("state is bias plus weighted inputs, limited", inside(c, l0.state, l1.state, n, lambda j, v: pre(j))),
            ("output is the activation", inside(c, l0.output, l1.output, n, lambda j, v: ACTF(l0.function, pre(j))))]


def fwd_setup(c, st):
    if BOUND[0] is None:
        for ld in (c.o.l.n_outputs,):
            for x in decode_facts(ld):
                st.fact(x)


add("neural_layer_connected_forward", "l net input", requires=lambda c: [nonnull(c.o.l, c.o.input)] + wf_layer(c.o.l, c.o.input), setup=fwd_setup,
    modifies=lambda c: [AAt("double", c.o.l.state._b), AAt("double", c.o.l.output._b)], ensures=fwd_ens)


def sgd(l):
    return opt_(l.options, "LAYER_SGD_WEIGHTS")


def hasptr(v):
    return v._b != 0


def bwd_ens(c):
    l0, l1 = c.o.l, c.n.l
    m, n = l0.n_outputs, l0.n_inputs
    on = sgd(l0)
    d = lambda j: l0.delta[j] * GRADF(l0.function, l0.state[j])
    wu0, wu1 = l0.weight_updates, l1.weight_updates
    D0, D1 = c.o.delta, c.n.delta
    S = gsum("nn", l1.delta, m, l0.weights, n)
    def upd(p):
        r, k = ROWF(n, p), COLF(n, p)
        return z3.Implies(z3.And(0 <= p, p < l0.n_weights), z3.Select(wu1.arr, p) == z3.Select(wu0.arr, p) + z3.If(on, l1.delta[r] * c.o.input[k], rval(0)))
    wup = ForallP(upd, pats=lambda p: z3.Select(wu1.arr, p)) if BOUND[0] is None else Forall(0, m, lambda i: Forall(
        0, n, lambda j: wu1[i * n + j] == wu0[i * n + j] + z3.If(on, l1.delta[i] * c.o.input[j], rval(0))))
    return [("errors times slope", inside(c, l0.delta, l1.delta, m, lambda j, v: d(j))),
            ("bias gradient accumulated", inside(c, l0.bias_updates, l1.bias_updates, m, lambda j, v: v + z3.If(on, d(j), rval(0)))),
            ("weight gradient accumulated: error times input", wup),
            ("errors passed back through the weights", GImp(hasptr(D0), inside(c, D0, D1, n, lambda j, v: v + S(ival(0), j, m))))]


class GImp:
    """guard => quantified statement"""
    def __init__(self, g, f):
        self.g, self.f = g, f

    def as_fact(self):
        return z3.Implies(self.g, self.f.as_fact())

    def as_goal(self):
        return z3.Implies(self.g, self.f.as_goal())


def bwd_setup(c, st):
    if BOUND[0] is None:
        l = c.o.l
        for x in decode_facts(l.n_inputs):
            st.fact(x)
        i, j = z3.Consts("gmi gmj", I)
        A = z3.Const("gma", AR)
        f = lambda k: GS["tn"](A, ival(0), l.n_outputs, c.o.input.arr, c.o.input._o, l.n_inputs, rval(1), i, j, k)
        st.fact(z3.ForAll([A, i, j], f(ival(1)) == z3.Select(A, i) * z3.Select(c.o.input.arr, c.o.input._o + j), patterns=[f(ival(1))]))
        p = z3.Const("gmp", I)     # row_offsets: positions below rows*width lie in the rows
        st.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < l.n_weights), ROWF(l.n_inputs, p) < l.n_outputs), patterns=[ROWF(l.n_inputs, p)]))


add("neural_layer_connected_backward", "l net input delta",
    requires=lambda c: [nonnull(c.o.l, c.o.input)] + wf_layer(c.o.l) + [
        ("input and error arrays are others", z3.And(c.o.delta._b >= 0, *[z3.And(c.o.input._b != getattr(c.o.l, f)._b, c.o.delta._b != getattr(c.o.l, f)._b) for f in LARR], c.o.input._b != c.o.delta._b))],
    setup=bwd_setup, modifies=lambda c: [AAt("double", b._b) for b in (c.o.l.delta, c.o.l.bias_updates, c.o.l.weight_updates, c.o.delta)], ensures=bwd_ens)


def wclamp(l, j, v):
    return z3.If(l.weight_active[j] != 0, clampf(v, WMIN, WMAX), rval(0))


def wc_ens(c):
    l0, l1 = c.o.l, c.n.l
    return [("weights limited, inactive ones zero", inside(c, l0.weights, l1.weights, l0.n_weights, lambda j, v: wclamp(l0, j, v))),
            ("biases limited", inside(c, l0.biases, l1.biases, l0.n_biases, lambda j, v: clampf(v, WMIN, WMAX))),
            ("other weights kept", outside(c, l0.weights, l1.weights, l0.n_weights)), ("other biases kept", outside(c, l0.biases, l1.biases, l0.n_biases))]


def wc_req(c):
    l = c.o.l
    return [nonnull(l), ("arrays", z3.And(l.n_weights >= 0, l.n_biases >= 0, nonnull(l.weights, l.biases, l.weight_active), l.weights._b != l.biases._b))]


add("layer_weight_clamp", "l", requires=wc_req, modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("double", c.o.l.biases._b)], ensures=wc_ens)


def upd_ens(c):
    l0, l1 = c.o.l, c.n.l
    on = z3.And(sgd(l0), l0.eta > 0)
    wu = lambda j: l0.weight_updates[j] - z3.If(l0.decay > 0, l0.decay * l0.weights[j], rval(0))
    n, m = l0.n_weights, l0.n_biases
    return [("biases step along their gradient and stay limited", inside(c, l0.biases, l1.biases, m, lambda j, v: z3.If(on, clampf(v + l0.eta * l0.bias_updates[j], WMIN, WMAX), v))),
            ("bias momentum", inside(c, l0.bias_updates, l1.bias_updates, m, lambda j, v: z3.If(on, v * l0.momentum, v))),
            ("weights step along their gradient, decay, stay limited and off when inactive", inside(c, l0.weights, l1.weights, n, lambda j, v: z3.If(on, wclamp(l0, j, v + l0.eta * wu(j)), v))),
            ("weight momentum", inside(c, l0.weight_updates, l1.weight_updates, n, lambda j, v: z3.If(on, wu(j) * l0.momentum, v)))]


add("neural_layer_connected_update", "l", requires=lambda c: [nonnull(c.o.l)] + wf_layer(c.o.l),
    modifies=lambda c: [AAt("double", getattr(c.o.l, f)._b) for f in ("biases", "bias_updates", "weights", "weight_updates")], ensures=upd_ens)


# ---------------------------------------------------------------- what every layer with weights shares
AI = z3.ArraySort(I, I)
CNTF = z3.Function("ACTIVE", AI, I, I)      # number of active connections among the first n


def on1(S, j):
    return z3.If(z3.Select(S, j) != 0, ival(1), ival(0))


def CNT(S, n):
    if BOUND[0] is not None:
        return sum((z3.If(q < n, on1(S, ival(q)), ival(0)) for q in range(BOUND[0])), ival(0))
    return CNTF(S, n)


def cnt_step(S, k):
    return z3.Implies(k >= 0, CNT(S, simp(k + 1)) == CNT(S, k) + on1(S, k))


def cnt_upd(S, T, i, n):
    """lemma count_update: arrays that agree everywhere else"""
    w = fresh("cw", I)
    return z3.Or(z3.Not(z3.And(0 <= i, i < n)), CNT(T, n) == CNT(S, n) - on1(S, i) + on1(T, i), z3.And(w != i, 0 <= w, w < n, z3.Select(S, w) != z3.Select(T, w)))


def cnt_zero(c, st):
    if BOUND[0] is None:
        S = z3.Const("cnS", AI)
        st.fact(z3.ForAll([S], CNT(S, ival(0)) == 0, patterns=[CNT(S, ival(0))]))


add("layer_calc_n_active", "l", requires=lambda c: [nonnull(c.o.l, c.o.l.weight_active), ("size", c.o.l.n_weights >= 0)], setup=cnt_zero,
    modifies=lambda c: [FAt("Layer", "n_active", c.o.l._b)],
    ensures=lambda c: [("counts the active connections", c.n.l.n_active == CNT(c.o.l.weight_active.arr, c.o.l.n_weights))],
    cands=lambda c, s, S0, k: [c.view("l", s).n_active == CNT(c.o.l.weight_active.arr, k)] + [v == CNT(c.o.l.weight_active.arr, k) for v in ints(c, s, S0)],
    opts={"loop_lemmas": lambda c, h, e, k: [cnt_step(c.o.l.weight_active.arr, k)]})

add("layer_mutate_eta", "l mu", requires=lambda c: [nonnull(c.o.l), ("range", c.o.l.eta_min <= c.o.l.eta_max)], modifies=lambda c: [FAt("Layer", "eta", c.o.l._b)],
    ensures=lambda c: [("rate stays in range", z3.And(c.o.l.eta_min <= c.n.l.eta, c.n.l.eta <= c.o.l.eta_max)), ("reports a change iff it changed", iff(c.ret, c.n.l.eta != c.o.l.eta))])

add("layer_mutate_neurons", "l mu", requires=lambda c: [nonnull(c.o.l), ("size", z3.And(c.o.l.n_outputs >= 1, c.o.l.max_outputs >= 1))],
    ensures=lambda c: [("the grown layer keeps a neuron and its limit", z3.Or(c.ret == 0, z3.And(1 <= c.o.l.n_outputs + c.ret, c.o.l.n_outputs + c.ret <= c.o.l.max_outputs)))])

add("layer_init_eta", "l", requires=lambda c: [nonnull(c.o.l), ("range", c.o.l.eta_min <= c.o.l.eta_max)], modifies=lambda c: [FAt("Layer", "eta", c.o.l._b)],
    ensures=lambda c: [("rate in range", z3.And(c.o.l.eta_min <= c.n.l.eta, c.n.l.eta <= c.o.l.eta_max)),
                       ("fixed rate is the maximum", z3.Implies(z3.Not(opt_(c.o.l.options, "LAYER_EVOLVE_ETA")), c.n.l.eta == c.o.l.eta_max))])


def lim(v):
    return z3.And(WMIN <= v, v <= WMAX)


def changed(a0, a1, n):
    return z3.Not(z3.Const("x", B))


def mw_ens(c):
    l0, l1 = c.o.l, c.n.l
    w0, w1, b0, b1 = l0.weights, l1.weights, l0.biases, l1.biases
    A = l0.weight_active
    return [("active weights are limited, others untouched", Forall(0, l0.n_weights, lambda j: z3.If(A[j] != 0, lim(w1[j]), w1[j] == w0[j]), pats=lambda j: z3.Select(w1.arr, j))),
            ("biases are limited", Forall(0, l0.n_biases, lambda j: lim(b1[j]), pats=lambda j: z3.Select(b1.arr, j))),
            ("boolean", z3.Or(c.ret == 0, c.ret == 1)),
            ("other weights kept", outside(c, w0, w1, l0.n_weights)), ("other biases kept", outside(c, b0, b1, l0.n_biases)),
            ("no change reported means no weight changed", GImp(c.ret == 0, Forall(0, l0.n_weights, lambda j: w1[j] == w0[j], pats=lambda j: z3.Select(w1.arr, j)))),
            ("no change reported means no bias changed", GImp(c.ret == 0, Forall(0, l0.n_biases, lambda j: b1[j] == b0[j], pats=lambda j: z3.Select(b1.arr, j))))]


def int_vars(c, s, S0):
    return ints(c, s, S0)


def mw_cands(c, s, S0, k):
    l0, l1 = c.o.l, c.view("l", s)
    w0, w1, b0, b1 = l0.weights, l1.weights, l0.biases, l1.biases
    out = [ForallP(lambda p: z3.Implies(p >= k, z3.Select(w1.arr, p) == z3.Select(w0.arr, p)), pats=lambda p: z3.Select(w1.arr, p)),
           ForallP(lambda p: z3.Implies(p >= k, z3.Select(b1.arr, p) == z3.Select(b0.arr, p)), pats=lambda p: z3.Select(b1.arr, p))]
    for v in ints(c, s, S0):
        for x0, x1, n in ((w0, w1, k), (b0, b1, k), (w0, w1, l0.n_weights)):
            out.append(GImp(v == 0, Forall(0, n, lambda j, x0=x0, x1=x1: x1[j] == x0[j], pats=lambda j, x1=x1: z3.Select(x1.arr, j))))
    return out


add("layer_mutate_weights", "l mu", requires=wc_req, modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("double", c.o.l.biases._b)], ensures=mw_ens, cands=mw_cands)


def mf_ens(c):
    l0, l1 = c.o.l, c.n.l
    lstm = l0.type == macro("LSTM")
    ok = lambda v: z3.And(0 <= v, v < NFUN)
    return [("the function is a known one", z3.Or(ok(l1.function), l1.function == l0.function)),
            ("the recurrent function is a known one", z3.Or(l1.recurrent_function == l0.recurrent_function, z3.And(lstm, ok(l1.recurrent_function)))),
            ("reports a change iff one changed", iff(c.ret, z3.Or(l1.function != l0.function, l1.recurrent_function != l0.recurrent_function)))]


add("layer_mutate_functions", "l mu", requires=lambda c: [nonnull(c.o.l)], modifies=lambda c: [FAt("Layer", "function", c.o.l._b), FAt("Layer", "recurrent_function", c.o.l._b)], ensures=mf_ens)

add("layer_weight_rand", "l", requires=wc_req, modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("double", c.o.l.biases._b), AAt("bool", c.o.l.weight_active._b), FAt("Layer", "n_active", c.o.l._b)],
    ensures=lambda c: [("every connection is active", Forall(0, c.o.l.n_weights, lambda j: c.n.l.weight_active[j] == 1, pats=lambda j: z3.Select(c.n.l.weight_active.arr, j))),
                       ("and counted", c.n.l.n_active == c.o.l.n_weights)] + [
        ("nothing beyond the %s is touched" % f, outside(c, getattr(c.o.l, f), getattr(c.n.l, f), getattr(c.o.l, n))) for f, n in (("weights", "n_weights"), ("biases", "n_biases"), ("weight_active", "n_weights"))])


def mc_ens(c):
    l0, l1 = c.o.l, c.n.l
    A0, A1, w0, w1 = l0.weight_active, l1.weight_active, l0.weights, l1.weights
    n = l0.n_weights
    return [("disconnected weights are zero, kept ones keep their value", Forall(0, n, lambda j: z3.And(
                z3.Implies((A0[j] != 0) == (A1[j] != 0), w1[j] == w0[j]), z3.Implies(z3.And(A0[j] != 0, A1[j] == 0), w1[j] == 0)), pats=lambda j: z3.Select(w1.arr, j))),
            ("the count of active connections follows", z3.Implies(l0.n_active == CNT(A0.arr, n), l1.n_active == CNT(A1.arr, n))),
            ("boolean", z3.Or(c.ret == 0, c.ret == 1)),
            ("no change reported means none made", GImp(c.ret == 0, Forall(0, n, lambda j: (A0[j] != 0) == (A1[j] != 0), pats=lambda j: z3.Select(A1.arr, j)))),
            ("single neurons and inputs are left alone", z3.Implies(z3.Or(l0.n_inputs <= 1, l0.n_outputs <= 1), c.ret == 0))]


def mc_cands(c, s, S0, k):
    l0, l1 = c.o.l, c.view("l", s)
    A0, A1, w0, w1 = l0.weight_active, l1.weight_active, l0.weights, l1.weights
    n = l0.n_weights
    out = [ForallP(lambda p: z3.Implies(p >= k, z3.And(z3.Select(w1.arr, p) == z3.Select(w0.arr, p))), pats=lambda p: z3.Select(w1.arr, p)),
           ForallP(lambda p: z3.Implies(p >= k, z3.And(z3.Select(A1.arr, p) == z3.Select(A0.arr, p))), pats=lambda p: z3.Select(A1.arr, p)),
           z3.Implies(l0.n_active == CNT(A0.arr, n), l1.n_active == CNT(A1.arr, n))]
    for v in ints(c, s, S0):
        out.append(GImp(v == 0, Forall(0, n, lambda j: (A0[j] != 0) == (A1[j] != 0), pats=lambda j: z3.Select(A1.arr, j))))
    return out


add("layer_mutate_connectivity", "l mu_enable mu_disable", requires=wc_req, setup=cnt_zero,
    modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("bool", c.o.l.weight_active._b), FAt("Layer", "n_active", c.o.l._b)],
    ensures=mc_ens, cands=mc_cands, opts={"loop_lemmas": lambda c, h, e, k: [cnt_upd(c.view("l", h).weight_active.arr, c.view("l", e).weight_active.arr, k, c.o.l.n_weights)]})
