"""Numerical kernels, losses and the rule predictors."""
from .rule import *

# ---------------------------------------------------------------- rows of a matrix
class Rows:
    """predicate "row i of array S is correct", for S stored row after row.
    el(S,i,j) is the element statement, about S[i*width+j] only."""
    def __init__(self, tag, sort=AR):
        self.tag, self.sort = tag, sort
        self.P = z3.Function("ROW_" + tag, sort, I, B)
        self.W = z3.Function("ROWWIT_" + tag, sort, I, I)
        self.T = z3.Function("TOUCH_" + tag, I, B)

    def facts(self, width, el, trig, ctrig=None, wit=False):
        """trig(i): a term present for every row in play; wit: a correct row is
        used only at the positions where another array's row is in doubt"""
        i, k, j = z3.Consts("rwi rwk rwj", I)
        S, S2 = z3.Const("rwS", self.sort), z3.Const("rwS2", self.sort)
        w = self.W(S, i)
        out = [z3.ForAll([S, i], z3.Or(self.P(S, i), z3.And(0 <= w, w < width, z3.Not(el(S, i, w)))), patterns=[self.P(S, i)]),
               z3.ForAll([S, S2, i], z3.Implies(z3.And(self.P(S, i), 0 <= self.W(S2, i), self.W(S2, i) < width), el(S, i, self.W(S2, i))),
                         patterns=[mpat(self.P(S, i), self.P(S2, i))]) if wit else
               z3.ForAll([S, i, j], z3.Implies(z3.And(self.P(S, i), 0 <= j, j < width), el(S, i, j)),
                         patterns=[mpat(self.P(S, i), z3.Select(S, i * width + j))] if ctrig is None else [mpat(self.P(S, i), ctrig(i, j))]),
               z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k), i * width + width <= k * width),
                         patterns=[mpat(trig(i), trig(k))])]
        return out

    def __call__(self, S):
        return lambda i: self.P(S, i)

    def pats(self, S, trig):
        return lambda i: [self.P(S, i), trig(i)]


def outside(c, v0, v1, n):
    """elements of the array outside [off, off+n) keep their value"""
    o = v0._o
    return ForallP(lambda p: z3.Implies(z3.Or(p < o, p >= o + n), z3.Select(v1.arr, p) == z3.Select(v0.arr, p)),
                   pats=lambda p: z3.Select(v1.arr, p))


def inside(c, v0, v1, n, f):
    o = v0._o
    if BOUND[0] is not None:
        return Forall(0, n, lambda j: v1[j] == f(j, v0[j]))
    return ForallP(lambda p: z3.Implies(z3.And(o <= p, p < o + n), z3.Select(v1.arr, p) == f(simp(p - o), z3.Select(v0.arr, p))),
                   pats=lambda p: z3.Select(v1.arr, p))


DOT_ = z3.Function("DOT", AR, I, AR, I, I, R)


def DOT(c, a, oa, b, ob, n):
    """sum_{j<n} a[oa+j]*b[ob+j]"""
    if BOUND[0] is not None:
        return c.sum(n, lambda j: z3.Select(a, oa + j) * z3.Select(b, ob + j))
    return DOT_(a, oa, b, ob, n)


def dot_def(c, st):
    if BOUND[0] is None:
        X, Y = c.o.X, c.o.Y
        st.fact(DOT_(X.arr, X._o, Y.arr, Y._o, c.o.N) == c.sum(c.o.N, lambda j: X[j] * Y[j]))


U1 = ("unit strides, lengths", )


def unit(c, *nms):
    return [("unit strides", z3.And(c.o.N >= 0, *[c.view(n, c.old) == 1 for n in nms]))]


add("blas_dot", "N X INCX Y INCY", requires=lambda c: unit(c, "INCX", "INCY"), setup=dot_def,
    ensures=lambda c: [("inner product", c.ret == DOT(c, c.o.X.arr, c.o.X._o, c.o.Y.arr, c.o.Y._o, c.o.N))])
add("blas_axpy", "N ALPHA X INCX Y INCY", requires=lambda c: unit(c, "INCX", "INCY") + [("no overlap", c.o.X._b != c.o.Y._b)],
    modifies=lambda c: [AAt("double", c.o.Y._b)],
    ensures=lambda c: [("Y += a*X", inside(c, c.o.Y, c.n.Y, c.o.N, lambda j, y: y + c.o.ALPHA * c.o.X[j])),
                       ("rest unchanged", outside(c, c.o.Y, c.n.Y, c.o.N))])
add("blas_scal", "N ALPHA X INCX", requires=lambda c: unit(c, "INCX"),
    modifies=lambda c: [AAt("double", c.o.X._b)],
    ensures=lambda c: [("X *= a", inside(c, c.o.X, c.n.X, c.o.N, lambda j, x: x * c.o.ALPHA)),
                       ("rest unchanged", outside(c, c.o.X, c.n.X, c.o.N))])
add("blas_mul", "N X INCX Y INCY", requires=lambda c: unit(c, "INCX", "INCY") + [("no overlap", c.o.X._b != c.o.Y._b)],
    modifies=lambda c: [AAt("double", c.o.Y._b)],
    ensures=lambda c: [("Y *= X", inside(c, c.o.Y, c.n.Y, c.o.N, lambda j, y: y * c.o.X[j])),
                       ("rest unchanged", outside(c, c.o.Y, c.n.Y, c.o.N))])
add("blas_sum", "X N", requires=lambda c: [c.o.N >= 0],
    ensures=lambda c: [("sum", c.ret == c.sum(c.o.N, lambda j: c.o.X[j]))])

# ---------------------------------------------------------------- losses
LOG, SQRT = ufr("log"), ufr("sqrt")


def loss(name, f, mean, neg=False, **k):
    def ens(c):
        s = c.sum(c.o.xcsf.y_dim, lambda j: f(c, c.o.pred[j], c.o.y[j]))
        if mean:
            s = rdiv(s, toreal(c.o.xcsf.y_dim))
        return [("value", c.ret == (-s if neg else s))]
    add(name, "xcsf pred y", requires=lambda c: [c.o.xcsf.y_dim >= 1], ensures=ens, **k)


loss("loss_mae", lambda c, p, y: absr(y - p), True)
loss("loss_mse", lambda c, p, y: (y - p) * (y - p), True)
loss("loss_log", lambda c, p, y: y * LOG(maxr(p, EPS)), False, True)
loss("loss_binary_log", lambda c, p, y: y * LOG(maxr(p, EPS)) + (1 - y) * LOG(maxr(1 - p, EPS)), False, True)


def hub(c, p, y):
    d = c.o.xcsf.HUBER_DELTA
    a = y - p
    return z3.If(absr(a) > d, d * d / 2 + d * (absr(a) - d), a * a / 2)


loss("loss_huber", hub, True)
add("loss_rmse", "xcsf pred y", requires=lambda c: [c.o.xcsf.y_dim >= 1],
    ensures=lambda c: [("value", c.ret == SQRT(rdiv(c.sum(c.o.xcsf.y_dim, lambda j: (c.o.y[j] - c.o.pred[j]) * (c.o.y[j] - c.o.pred[j])),
                                                   toreal(c.o.xcsf.y_dim))))])


def onehot_ens(c):
    m = fresh("am", I)
    fst = [0 <= m, m < c.o.xcsf.y_dim, Forall(0, c.o.xcsf.y_dim, lambda j: c.o.pred[j] <= c.o.pred[m]),
           Forall(0, m, lambda j: c.o.pred[j] < c.o.pred[m])]
    return [("zero exactly when the (first) largest prediction is the labelled class", Dual(
        [fst, c.ret == z3.If(c.o.y[m] == 1, rval(0), rval(1))],
        z3.Implies(conj(fst), c.ret == z3.If(c.o.y[m] == 1, rval(0), rval(1)))))]


add("loss_onehot", "xcsf pred y", bounded_setup=lambda c, K: [c.o.xcsf.y_dim <= K], requires=lambda c: [c.o.xcsf.y_dim >= 1], ensures=onehot_ens)

LOSSES = [("LOSS_MAE", "loss_mae"), ("LOSS_MSE", "loss_mse"), ("LOSS_RMSE", "loss_rmse"), ("LOSS_LOG", "loss_log"),
          ("LOSS_BINARY_LOG", "loss_binary_log"), ("LOSS_ONEHOT", "loss_onehot"), ("LOSS_HUBER", "loss_huber")]


def loss_set_ens(c):
    lf = c.o.xcsf.LOSS_FUNC
    p1 = z3.Select(c.field("XCSF", "loss_ptr", c.new), c.o.xcsf._b)
    p0 = z3.Select(c.field("XCSF", "loss_ptr", c.old), c.o.xcsf._b)
    out = []
    known = []
    for m, f in LOSSES:
        k = macro(m)
        known.append(lf != k)
        out.append(("selects " + m, z3.Implies(lf == k, z3.And(p1 == z3.Const("fn_" + f, I), c.ret == k))))
    out.append(("rejects anything else", z3.Implies(z3.And(*known), z3.And(c.ret == macro("LOSS_INVALID"), p1 == p0))))
    return out


add("loss_set_func", "xcsf", modifies=lambda c: [FAt("XCSF", "loss_ptr", c.o.xcsf._b)], ensures=loss_set_ens)

# ---------------------------------------------------------------- constant prediction
def cons_val(c, p, y):
    e = toreal(c.o.c.exp)
    return z3.If(e * c.o.xcsf.BETA < 1, rdiv(p * toreal(c.o.c.exp - 1) + y, e), p + c.o.xcsf.BETA * (y - p))


add("pred_constant_update", "xcsf c x y",
    requires=lambda c: [c.o.xcsf.y_dim >= 0, c.o.c.prediction._b != c.o.y._b],
    modifies=lambda c: [AAt("double", c.o.c.prediction._b)],
    ensures=lambda c: [("running mean, then Widrow-Hoff", Forall(0, c.o.xcsf.y_dim, lambda j:
        c.n.c.prediction[j] == cons_val(c, c.o.c.prediction[j], c.o.y[j])))])
add("pred_constant_compute", "xcsf c x", ensures=lambda c: [("keeps its estimate", c.n.c.prediction._b == c.o.c.prediction._b)])
for nm, ps in (("pred_constant_crossover", "xcsf c1 c2"), ("pred_constant_mutate", "xcsf c"), ("pred_nlms_crossover", "xcsf c1 c2"),
               ("pred_rls_crossover", "xcsf c1 c2"), ("pred_rls_mutate", "xcsf c")):
    add(nm, ps, ensures=lambda c: [("nothing changes, nothing reported", c.ret == 0)])

# ---------------------------------------------------------------- basis
TRI = z3.Function("TRI", I, I, I)        # entries used by the first i quadratic rows
QR = Rows("quad")


def is_quad(c):
    t = c.o.xcsf.pred.type
    return z3.Or(t == macro("PRED_TYPE_NLMS_QUADRATIC"), t == macro("PRED_TYPE_RLS_QUADRATIC"))


QROW = z3.Function("QROW", AR, AR, I, I, B)
QWIT = z3.Function("QWIT", AR, AR, I, I, I)


def q_el(T, x, xd, i, j):
    return z3.Select(T, 1 + xd + TRI(xd, i) + (j - i)) == z3.Select(x, i) * z3.Select(x, j)


def quad_setup(c, st):
    """QROW(T,x,xd,i): T holds x_i*x_j for every j in [i,xd), row after row"""
    i, k, j = z3.Consts("qi qk qj_", I)
    T, x = z3.Consts("qT qx", AR)
    xd = c.o.xcsf.x_dim
    xa = c.o.x.arr
    w = QWIT(T, x, xd, i)
    st.fact(z3.ForAll([T, x, i], z3.Or(QROW(T, x, xd, i), z3.And(i <= w, w < xd, z3.Not(q_el(T, x, xd, i, w)))), patterns=[QROW(T, x, xd, i)]))
    st.fact(z3.ForAll([T, x, i, j], z3.Implies(z3.And(QROW(T, x, xd, i), i <= j, j < xd), q_el(T, x, xd, i, j)),
                      patterns=[mpat(QROW(T, x, xd, i), z3.Select(x, j))]))
    st.fact(TRI(xd, 0) == 0)
    st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < xd), z3.And(TRI(xd, i + 1) == TRI(xd, i) + xd - i, TRI(xd, i) >= 0)),
                      patterns=[z3.Select(xa, i)]))
    # induction on k: rows do not overlap
    st.fact(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k <= xd), TRI(xd, i) + xd - i <= TRI(xd, k)),
                      patterns=[mpat(z3.Select(xa, i), TRI(xd, k))]))


def basis(c, T, x, X0):
    """ensures clauses: T is the basis expansion of x"""
    xd = c.o.xcsf.x_dim
    Ta = T.arr
    def row(i):
        if BOUND[0] is not None:
            k = BOUND[0]
            tri = i * xd - cdiv(i * (i - 1), ival(2))
            return [z3.Implies(z3.And(is_quad(c), i + d < xd), z3.Select(Ta, 1 + xd + tri + d) == x[i] * x[i + d]) for d in range(k)]
        return z3.Implies(is_quad(c), QROW(Ta, x.arr, xd, i))
    return [("offset term", z3.Select(Ta, 0) == X0),
            ("linear terms", ForallP(lambda p: z3.Implies(z3.And(1 <= p, p <= xd), z3.Select(Ta, p) == x[p - 1]),
                                     pats=lambda p: z3.Select(Ta, p)) if BOUND[0] is None else
             Forall(0, xd, lambda j: z3.Select(Ta, j + 1) == x[j])),
            ("quadratic terms", Forall(0, xd, row, pats=lambda i: [QROW(Ta, x.arr, xd, i), z3.Select(x.arr, i)]))]


add("pred_transform_input", "xcsf x X0 tmp_input",
    requires=lambda c: [c.o.xcsf.x_dim >= 0, c.o.x._b != c.o.tmp_input._b],
    setup=quad_setup,
    modifies=lambda c: [AAt("double", c.o.tmp_input._b)],
    ensures=lambda c: basis(c, c.n.tmp_input, c.o.x, c.o.X0),
    roles=lambda c, s, S0, k: [1 + c.o.xcsf.x_dim + TRI(c.o.xcsf.x_dim, k)],
    opts={"lean": True, "loop_lemmas": lambda c, h, e, k: [tri_step(c, k)]},
    cands=lambda c, s, S0, k: [Forall(0, k, lambda i: QROW(c.view("tmp_input", s).arr, c.o.x.arr, c.o.xcsf.x_dim, i),
                                      pats=lambda i: [QROW(c.view("tmp_input", s).arr, c.o.x.arr, c.o.xcsf.x_dim, i), z3.Select(c.o.x.arr, i)])] +
    [g for l, g in basis(c, c.view("tmp_input", s), c.o.x, c.o.X0)[:2]])


def tri_step(c, k):
    xd = c.o.xcsf.x_dim
    return z3.Implies(z3.And(0 <= k, k < xd), z3.And(TRI(xd, k + 1) == TRI(xd, k) + xd - k, TRI(xd, k) >= 0))


# ---------------------------------------------------------------- NLMS / RLS
def lin(tag):
    return lambda c, st, nm="c": c.view(nm, st).pred.as_(tag)


nl, rl = lin("PredNLMS"), lin("PredRLS")


def lin_req(c, p, y=None):
    bs = [p.weights, p.tmp_input, c.o.c.prediction, c.o.x] + ([y] if y is not None else [])
    return [("well-formed prediction", z3.And(c.o.xcsf.x_dim >= 0, c.o.xcsf.y_dim >= 0, p.n >= 0, nonnull(*bs), distinct(*bs)))]


def lin_compute(name, get):
    def ens(c):
        p0, p1 = get(c, c.old), get(c, c.new)
        return [(l, g) for l, g in basis(c, p1.tmp_input, c.o.x, c.o.xcsf.pred.x0)] + [
            ("weighted sum of the basis", Forall(0, c.o.xcsf.y_dim, lambda i: c.n.c.prediction[i] ==
             DOT(c, p0.weights.arr, simp(i * p0.n), p1.tmp_input.arr, ival(0), p0.n)))]
    add(name, "xcsf c x", requires=lambda c: lin_req(c, get(c, c.old)),
        modifies=lambda c: [AAt("double", get(c, c.old).tmp_input._b), AAt("double", c.o.c.prediction._b)],
        ensures=ens)


lin_compute("pred_nlms_compute", nl)
lin_compute("pred_rls_compute", rl)

WR = Rows("nlms")


def nlms_el(c, S, i, j):
    p = nl(c, c.old)
    x0 = c.o.xcsf.pred.x0
    norm = x0 * x0 + DOT(c, c.o.x.arr, ival(0), c.o.x.arr, ival(0), c.o.xcsf.x_dim)
    corr = rdiv(p.eta * (c.o.y[i] - c.o.c.prediction[i]), norm)
    ix = i * p.n + j
    return z3.Select(S, ix) == z3.Select(p.weights.arr, ix) + corr * p.tmp_input[j]


def nlms_ens(c):
    S = nl(c, c.new).weights.arr
    p = nl(c, c.old)
    if BOUND[0] is not None:
        return [("gradient step", Forall(0, c.o.xcsf.y_dim, lambda i: Forall(0, p.n, lambda j: nlms_el(c, S, i, j))))]
    return [("normalised least-mean-square step", Forall(0, c.o.xcsf.y_dim, WR(S), pats=WR.pats(S, lambda i: z3.Select(c.o.y.arr, i))))]


def nlms_setup(c, st):
    if BOUND[0] is None:
        for f in WR.facts(nl(c, c.old).n, lambda S, i, j: nlms_el(c, S, i, j), lambda i: z3.Select(c.o.y.arr, i)):
            st.fact(f)


add("pred_nlms_update", "xcsf c x y",
    requires=lambda c: lin_req(c, nl(c, c.old), c.o.y), setup=nlms_setup,
    modifies=lambda c: [AAt("double", nl(c, c.old).weights._b)],
    ensures=nlms_ens,
    cands=lambda c, s, S0, k: [ForallP(lambda p: z3.Implies(p >= k * nl(c, c.old).n, z3.Select(nl(c, s).weights.arr, p) ==
                                                          z3.Select(nl(c, c.old).weights.arr, p)),
                                       pats=lambda p: z3.Select(nl(c, s).weights.arr, p))] if BOUND[0] is None else [])

add("pred_nlms_mutate", "xcsf c",
    requires=lambda c: [c.o.xcsf.pred.eta_min <= c.o.xcsf.pred.eta, nl(c, c.old).mu._b > 0,
                        ("rate", z3.Implies(c.o.xcsf.pred.evolve_eta != 0, mu_ok(nl(c, c.old).mu[0])))],
    modifies=lambda c: [FAt("PredNLMS", "eta", nl(c, c.old)._b), AAt("double", nl(c, c.old).mu._b)],
    ensures=lambda c: [("reports a change iff the learning rate changed", iff(c.ret, nl(c, c.new).eta != nl(c, c.old).eta)),
                       ("learning rate stays in range", z3.Implies(c.o.xcsf.pred.evolve_eta != 0, z3.And(
                           c.o.xcsf.pred.eta_min <= nl(c, c.new).eta, nl(c, c.new).eta <= c.o.xcsf.pred.eta))),
                       ("otherwise untouched", z3.Implies(c.o.xcsf.pred.evolve_eta == 0, nl(c, c.new).eta == nl(c, c.old).eta))])
