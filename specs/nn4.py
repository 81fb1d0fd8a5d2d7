"""Fully-connected layers: creation, copying, release, resizing, evolution, storage."""
from .nn3 import *

NMU = 6
CARR = ("state", "output", "biases", "bias_updates", "delta")
CWGT = ("weights", "weight_updates", "weight_active")
CALL = CARR + CWGT + ("mu",)
CF = SIZES + LEARN


def con_alloc(c, l, zero):
    n, w = l.n_outputs, l.n_weights
    return [owned(c, *[getattr(l, f)._b for f in CALL]),
            roomy(c, *[(getattr(l, f)._b, 8 * n) for f in CARR], (l.weights._b, 8 * w), (l.weight_updates._b, 8 * w), (l.weight_active._b, w), (l.mu._b, 8 * NMU))] + [
            ("%s starts at zero" % f, Forall(0, m, lambda j, f=f: getattr(l, f)[j] == 0, pats=lambda j, f=f: z3.Select(getattr(l, f).arr, j))) for f, m in zero(n, w)]


CZERO = lambda n, w: [("state", n), ("output", n), ("delta", n), ("bias_updates", n), ("weight_updates", w)]
GUARDS = ("malloc_layer_arrays", "layer_guard_outputs", "layer_guard_weights")


def ci_ens(c):
    a, l = c.o.args, c.n.l
    A, w = l.weight_active, l.n_weights
    opts = [("LAYER_EVOLVE_WEIGHTS", a.evolve_weights), ("LAYER_EVOLVE_NEURONS", a.evolve_neurons), ("LAYER_EVOLVE_FUNCTIONS", a.evolve_functions), ("LAYER_SGD_WEIGHTS", a.sgd_weights),
            ("LAYER_EVOLVE_ETA", a.evolve_eta), ("LAYER_EVOLVE_CONNECT", a.evolve_connect)]
    return con_alloc(c, l, lambda n, m: CZERO(n, m) + [("biases", n)]) + [
        ("shape", z3.And(l.n_inputs == a.n_inputs, l.n_outputs == a.n_init, l.max_outputs == a.n_max, l.n_weights == a.n_inputs * a.n_init, l.n_biases == a.n_init, l.out_w == a.n_init, l.out_h == 1, l.out_c == 1)),
        ("as configured", z3.And(l.function == a.function, l.eta_max == a.eta, l.eta_min == a.eta_min, l.momentum == a.momentum, l.decay == a.decay, l.max_neuron_grow == a.max_neuron_grow)),
        ("rate in range", z3.And(a.eta_min <= l.eta, l.eta <= a.eta)),
        ("fully connected", Forall(0, w, lambda j: A[j] == 1, pats=lambda j: z3.Select(A.arr, j))), ("and counted", l.n_active == w)] + [
        ("option %s as asked" % n, opt_(l.options, n) == (v != 0)) for n, v in opts]


add("layer_args_opt", "args", requires=lambda c: [nonnull(c.o.args)], ensures=lambda c: [("option %s as asked" % n, opt_(c.ret, n) == (v != 0)) for n, v in [
    ("LAYER_EVOLVE_WEIGHTS", c.o.args.evolve_weights), ("LAYER_EVOLVE_NEURONS", c.o.args.evolve_neurons), ("LAYER_EVOLVE_FUNCTIONS", c.o.args.evolve_functions),
    ("LAYER_SGD_WEIGHTS", c.o.args.sgd_weights), ("LAYER_EVOLVE_ETA", c.o.args.evolve_eta), ("LAYER_EVOLVE_CONNECT", c.o.args.evolve_connect)]])
add("neural_layer_connected_init", "l args", requires=lambda c: [nonnull(c.o.l, c.o.args), ("range", c.o.args.eta_min <= c.o.args.eta)],
    modifies=lambda c: [FAt("Layer", f, c.o.l._b) for f in CF + CALL], ensures=ci_ens, opts={"inline": GUARDS})


def cc_ens(c):
    p, l = c.o.src, lay(c, c.ret._b)
    n, w = p.n_outputs, p.n_weights
    return [("a new layer", z3.And(c.ret._b >= c.old.nxt, *[c.ret._b != getattr(l, f)._b for f in CALL])), ("of the same kind", z3.And(l.type == p.type, l.layer_vptr._b == p.layer_vptr._b))] + \
        same_fields(p, l, CF) + con_alloc(c, l, CZERO) + [
        eqarr(p.weights, l.weights, w, "same weights"), eqarr(p.weight_active, l.weight_active, w, "same connections"), eqarr(p.biases, l.biases, n, "same biases"), eqarr(p.mu, l.mu, NMU, "same mutation rates")]


add("neural_layer_connected_copy", "src", requires=lambda c: [nonnull(c.o.src)] + wf_layer(c.o.src), ensures=cc_ens, opts={"inline": GUARDS + ("layer_defaults",)})
add("neural_layer_connected_free", "l", requires=lambda c: free_req(c, CALL), modifies=lambda c: [GAt("freed", b) for b in blocks(c, CALL)], ensures=lambda c: [freed(c, CALL)], opts={"track_free": True})
add("neural_layer_connected_output", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("its output array", c.ret._b == c.o.l.output._b)])
add("neural_layer_connected_rand", "l", requires=wc_req, modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("double", c.o.l.biases._b), AAt("bool", c.o.l.weight_active._b), FAt("Layer", "n_active", c.o.l._b)],
    ensures=lambda c: [("every connection is active", Forall(0, c.o.l.n_weights, lambda j: c.n.l.weight_active[j] == 1, pats=lambda j: z3.Select(c.n.l.weight_active.arr, j))),
                       ("and counted", c.n.l.n_active == c.o.l.n_weights)])


def cl_pre(c, st):
    p = lay(c, src_base(), st)
    bs = [getattr(p, f) for f in CALL]
    return [nonnull(*bs), distinct(*bs), p.n_weights >= 1, p.n_outputs >= 1, p.n_biases == p.n_outputs, p.out_w == p.n_outputs, p.out_h == 1, p.out_c == 1]


def cl_ens(c):
    p, l = lay(c, src_base(), c.old), c.n.l
    n, w = p.n_outputs, p.n_weights
    return same_fields(p, l, CF) + con_alloc(c, l, lambda n, m: [("state", n), ("output", n), ("delta", n)]) + [
        eqarr(p.weights, l.weights, w, "same weights"), eqarr(p.weight_active, l.weight_active, w, "same connections"), eqarr(p.biases, l.biases, n, "same biases"), eqarr(p.mu, l.mu, NMU, "same mutation rates"),
        eqarr(p.weight_updates, l.weight_updates, w, "same weight momentum"), eqarr(p.bias_updates, l.bias_updates, n, "same bias momentum")] + consumed(c)


add("neural_layer_connected_load", "l fp", requires=lambda c: [nonnull(c.o.l)], setup=after_save("neural_layer_connected_save", lambda c, b: [Ptr(b), Ptr(ival(7))], cl_pre),
    modifies=lambda c: STREAM(c) + [FAt("Layer", f, c.o.l._b) for f in CF + CALL], ensures=cl_ens, opts={"inline": GUARDS})


# evolving a layer
def cm_req(c):
    l = c.o.l
    return [nonnull(l)] + wf_layer(l) + [
        ("mutation rates", z3.And(l.mu._b > 0, *[l.mu._b != getattr(l, f)._b for f in CARR + CWGT])), ("rates in range", Forall(0, NMU, lambda j: mu_ok(l.mu[j]), pats=lambda j: z3.Select(l.mu.arr, j))),
        ("learning rate range", z3.And(l.eta_min <= l.eta_max, l.eta_min <= l.eta, l.eta <= l.eta_max)), ("room for a neuron", z3.And(1 <= l.n_outputs, l.n_outputs <= l.max_outputs)),
        ("counted", l.n_active == CNT(l.weight_active.arr, l.n_weights)), ("the output is a row of the neurons", z3.And(l.out_w == l.n_outputs, l.out_h == 1, l.out_c == 1))]


def cm_ens(c):
    l0, l1 = c.o.l, c.n.l
    off = lambda *ns: z3.Not(z3.Or(*[opt_(l0.options, n) for n in ns]))
    same = lambda f, n: Forall(0, n, lambda j: getattr(l1, f)[j] == getattr(l0, f)[j], pats=lambda j: z3.Select(getattr(l1, f).arr, j))
    act = Forall(0, l0.n_weights, lambda j: (l1.weight_active[j] != 0) == (l0.weight_active[j] != 0), pats=lambda j: z3.Select(l1.weight_active.arr, j))
    quiet = c.ret == 0
    W, N, C = "LAYER_EVOLVE_WEIGHTS", "LAYER_EVOLVE_NEURONS", "LAYER_EVOLVE_CONNECT"
    return [("the layer stays consistent", z3.And(l1.n_outputs >= 1, l1.n_outputs <= l0.max_outputs, l1.n_weights == l1.n_inputs * l1.n_outputs, l1.n_biases == l1.n_outputs)),
            ("learning rate in range", z3.And(l0.eta_min <= l1.eta, l1.eta <= l0.eta_max)),
            ("the function is a known one", z3.And(0 <= l1.function, l1.function < NFUN)),
            ("mutation rates in range", Forall(0, NMU, lambda j: mu_ok(l1.mu[j]), pats=lambda j: z3.Select(l1.mu.arr, j))),
            ("active connections are counted", l1.n_active == CNT(l1.weight_active.arr, l1.n_weights)),
            ("no growth unless neurons evolve", z3.Implies(off(N), l1.n_outputs == l0.n_outputs)),
            ("learning rate kept unless it evolves", z3.Implies(off("LAYER_EVOLVE_ETA"), l1.eta == l0.eta)),
            ("function kept unless it evolves", z3.Implies(off("LAYER_EVOLVE_FUNCTIONS"), l1.function == l0.function)),
            ("weights kept unless something about them evolves", GImp(off(W, N, C), same("weights", l0.n_weights))),
            ("biases kept unless they evolve", GImp(off(W, N), same("biases", l0.n_outputs))),
            ("connections kept unless they evolve", GImp(off(N, C), act)),
            ("the output is a row of the neurons", z3.And(l1.out_w == l1.n_outputs, l1.out_h == 1, l1.out_c == 1)),
            ("boolean", z3.Or(quiet, c.ret == 1)),
            ("no change reported: same shape", z3.Implies(quiet, z3.And(l1.n_outputs == l0.n_outputs, l1.eta == l0.eta, l1.function == l0.function))),
            ("no change reported: same weights", GImp(quiet, same("weights", l0.n_weights))), ("no change reported: same biases", GImp(quiet, same("biases", l0.n_outputs))),
            ("no change reported: same connections", GImp(quiet, act))]


MUTF = GROW + ("n_outputs", "n_biases", "n_weights", "n_active", "eta", "function", "recurrent_function", "out_w", "out_h", "out_c")
add("neural_layer_connected_mutate", "l", requires=cm_req, ensures=cm_ens,
    modifies=lambda c: [FAt("Layer", f, c.o.l._b) for f in MUTF] + [AAt("double", c.o.l.weights._b), AAt("double", c.o.l.biases._b), AAt("bool", c.o.l.weight_active._b), AAt("double", c.o.l.mu._b)])


# fitting a layer to the one before it
def cr_parts(c, wt, wu, wa, lim):
    """the rows and columns of the new matrices that lim(row, column) holds for"""
    l, p = c.o.l, c.o.prev
    ni, nn = l.n_inputs, p.n_outputs
    unbounded()

    def q(new, old, fresh_):
        def f(x):
            r, k = ROWF(nn, x), COLF(nn, x)
            v = z3.Select(new, x)
            return z3.Implies(z3.And(x >= 0, lim(r, k)), z3.If(k < ni, v == z3.Select(old, POSF(ni, r, k)), z3.BoolVal(True) if fresh_ is None else v == fresh_))
        return ForallP(f, pats=lambda x: z3.Select(new, x))
    return [q(n, o, v) for n, o, v in ((wt, l.weights.arr, None), (wu, l.weight_updates.arr, rval(0)), (wa, l.weight_active.arr, ival(1))) if n is not None]


def cr_ens(c):
    l0, l1, p = c.o.l, c.n.l, c.o.prev
    nw = p.n_outputs * l0.n_outputs
    con = opt_(l0.options, "LAYER_EVOLVE_CONNECT")
    old = [getattr(l0, f)._b for f in CWGT]
    P = cr_parts(c, l1.weights.arr, l1.weight_updates.arr, l1.weight_active.arr, lambda r, q: z3.And(0 <= r, r < l0.n_outputs))
    ni, nn = l0.n_inputs, p.n_outputs
    x = lambda q: POSF(ni, ROWF(nn, q), COLF(nn, q))
    inn = lambda q: z3.And(0 <= q, 0 <= ROWF(nn, q), ROWF(nn, q) < l0.n_outputs)
    A0, A1, w0, w1 = l0.weight_active.arr, l1.weight_active.arr, l0.weights.arr, l1.weights.arr
    return [("fitted to the layer before it", z3.And(l1.n_inputs == p.n_outputs, l1.n_weights == nw)),
            owned(c, *[getattr(l1, f)._b for f in CWGT]), roomy(c, (l1.weights._b, 8 * nw), (l1.weight_updates._b, 8 * nw), (l1.weight_active._b, nw)),
            ("kept inputs keep their weights", GImp(z3.Not(con), P[0])), ("kept inputs keep their momentum, new ones have none", P[1]), ("kept inputs keep their connections, new ones are connected", GImp(z3.Not(con), P[2])),
            ("active connections stay active", ForallP(lambda q: z3.Implies(z3.And(inn(q), z3.Or(COLF(nn, q) >= ni, z3.Select(A0, x(q)) != 0)), z3.Select(A1, q) != 0), pats=lambda q: z3.Select(A1, q))),
            ("active connections keep their weight", ForallP(lambda q: z3.Implies(z3.And(inn(q), COLF(nn, q) < ni, z3.Select(A0, x(q)) != 0), z3.Select(w1, q) == z3.Select(w0, x(q))), pats=lambda q: z3.Select(w1, q))),
            ("every neuron has an active input when connections evolve", GImp(con, Forall(0, l0.n_outputs, lambda i: rhas(c, A1, i), pats=lambda i: RHAS(A1, i)))),
            ("every input is used when connections evolve", GImp(con, Forall(0, nn, lambda i: chas(c, A1, i), pats=lambda i: CHAS(A1, i)))),
            ("active connections are counted", l1.n_active == CNT(l1.weight_active.arr, nw)),
            ("the old arrays are freed", z3.And(*[z3.Select(c.g("freed"), b) == 1 for b in old]))]


def ptrs(s, S0):
    return [s.vars[q] for q, v in (S0 or s).vars.items() if isinstance(v, Ptr) and v.loc is None and v.pend is None]


def cr_cands(c, s, S0, k):
    vs = ctrs(c, s, S0)
    A = lambda key, v: z3.Select(c.ex.hmap(s, ("A", key)), v.base)
    out = []
    for lim in [lambda r, q: r < k] + [lambda r, q, a=a: z3.Or(r < a, z3.And(r == a, q < k)) for a in vs]:
        for v in ptrs(s, S0):
            d, b = A("double", v), A("bool", v)
            out += cr_parts(c, d, None, None, lim) + cr_parts(c, None, d, None, lim) + cr_parts(c, None, None, b, lim)
    return out + [fits(c, u) for u in vs + [k]]


def fits(c, u):
    """the row of the new matrix that neuron u has lies within it"""
    ld, no = c.o.prev.n_outputs, c.o.l.n_outputs
    return z3.Implies(z3.And(0 <= u, u < no), z3.And(simp(u * ld) >= 0, simp(u * ld + ld) <= ld * no))


def cr_lemmas(c, h, e, k):
    vs = ctrs(c, h) + [k]
    return [at_pos(ld, u, v) for ld in (c.o.l.n_inputs, c.o.prev.n_outputs) for u in vs for v in vs if not z3.eq(u, v)] + [fits(c, u) for u in vs + [simp(k + 1)]]


def cr_setup(c, st):
    unbounded()
    cnt_zero(c, st)
    for x in decode_facts(c.o.prev.n_outputs):
        st.fact(x)
    st.fact(fits(c, ival(0)))


add("neural_layer_connected_resize", "l prev", requires=lambda c: [nonnull(c.o.l, c.o.prev), c.o.l._b != c.o.prev._b, ("size", c.o.prev.n_outputs >= 1)] + wf_layer(c.o.l) + [("live", z3.And(c.o.l.weight_active._b != c.o.l.weights._b,
    c.o.l.weight_active._b != c.o.l.weight_updates._b, *[getattr(c.o.l, f)._b < c.old.nxt for f in CALL], *[z3.Select(c.g("freed", c.old), getattr(c.o.l, f)._b) == 0 for f in CWGT]))],
    ensures=cr_ens, modifies=lambda c: [FAt("Layer", f, c.o.l._b) for f in CWGT + ("n_inputs", "n_weights", "n_active")] + [GAt("freed", getattr(c.o.l, f)._b) for f in CWGT], cands=cr_cands, setup=cr_setup, opts=dict(NL, track_free=True, loop_lemmas=cr_lemmas))
