"""Layers: creation, copying, growth, mutation, storage."""
from .nn import *
from .ser import *

LTYPES = ("CONNECTED", "DROPOUT", "NOISE", "SOFTMAX", "RECURRENT", "LSTM", "MAXPOOL", "CONVOLUTIONAL", "AVGPOOL", "UPSAMPLE")
LNAMES = [(n.lower(), macro(n)) for n in LTYPES]
add("layer_set_vptr", "l", requires=lambda c: [nonnull(c.o.l)], modifies=lambda c: [FAt("Layer", "layer_vptr", c.o.l._b)],
    ensures=lambda c: [("%s layers use their own implementation" % n, z3.Implies(c.o.l.type == m, c.n.l.layer_vptr._b == table(c, "layer_%s_vtbl" % n))) for n, m in LNAMES] + [
        ("only known kinds are accepted", z3.Or(*[c.o.l.type == m for n, m in LNAMES]))])
add("layer_type_as_int", "type", requires=lambda c: [nonnull(c.o.type)], ensures=lambda c: [
    ("'%s' names its kind" % n, z3.Implies(spelled(c.o.type, n), c.ret == m)) for n, m in LNAMES])
add("layer_type_as_string", "type", ensures=lambda c: [
    ("the name of '%s'" % n, z3.Implies(c.o.type == m, c.ret._b == c.ex.strconst(n).base)) for n, m in LNAMES] + [
    ("only known kinds have names", z3.Or(*[c.o.type == m for n, m in LNAMES]))])
add("layer_receives_images", "type", ensures=lambda c: [("exactly the image layers", iff(c.ret, z3.Or(*[c.o.type == macro(n) for n in ("AVGPOOL", "MAXPOOL", "UPSAMPLE", "CONVOLUTIONAL")])))])
NOMAX, NWMAX = macro("N_OUTPUTS_MAX"), macro("N_WEIGHTS_MAX")
add("layer_guard_outputs", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("returns only for a sane size", z3.And(1 <= c.o.l.n_outputs, c.o.l.n_outputs <= NOMAX))])
add("layer_guard_weights", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("returns only for a sane size", z3.And(1 <= c.o.l.n_weights, c.o.l.n_weights <= NWMAX))])
add("layer_guard_biases", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("returns only for a sane size", z3.And(1 <= c.o.l.n_biases, c.o.l.n_biases <= NOMAX))])

GROW = ("weights", "weight_active", "weight_updates", "state", "output", "biases", "bias_updates", "delta")


def grow_ens(c):
    l0, l1 = c.o.l, c.n.l
    N = c.o.N
    n1 = l0.n_outputs + N
    nw = n1 * l0.n_inputs
    keepw = lambda f: Forall(0, minr(l0.n_weights, nw), lambda j: getattr(l1, f)[j] == getattr(l0, f)[j], pats=lambda j: z3.Select(getattr(l1, f).arr, j))
    keepn = lambda f: Forall(0, minr(l0.n_outputs, n1), lambda j: getattr(l1, f)[j] == getattr(l0, f)[j], pats=lambda j: z3.Select(getattr(l1, f).arr, j))
    zero = lambda f: Forall(l0.n_outputs, n1, lambda j: getattr(l1, f)[j] == 0, pats=lambda j: z3.Select(getattr(l1, f).arr, j))
    A1, w1 = l1.weight_active, l1.weights
    con = opt_(l0.options, "LAYER_EVOLVE_CONNECT")
    return [("sizes", z3.And(l1.n_outputs == n1, l1.n_biases == n1, l1.n_weights == nw)),
            owned(c, *[getattr(l1, f)._b for f in GROW]),
            roomy(c, *[(getattr(l1, f)._b, 8 * n1) for f in ("state", "output", "biases", "bias_updates", "delta")], (l1.weights._b, 8 * nw), (l1.weight_updates._b, 8 * nw), (A1._b, nw)),
            ("kept weights", keepw("weights")), ("kept connections", keepw("weight_active")), ("kept momentum", keepw("weight_updates")), ("kept biases", keepn("biases")), ("kept bias momentum", keepn("bias_updates")),
            ("new weights start without momentum", Forall(l0.n_weights, nw, lambda j: l1.weight_updates[j] == 0, pats=lambda j: z3.Select(l1.weight_updates.arr, j))),
            ("new weights are connected unless connectivity evolves, and zero when not", Forall(l0.n_weights, nw, lambda j: z3.And(
                z3.Or(A1[j] == 0, A1[j] == 1), z3.Implies(A1[j] == 0, z3.And(con, w1[j] == 0))), pats=lambda j: z3.Select(A1.arr, j)))] + [
            ("new %s is zero" % f, zero(f)) for f in ("biases", "bias_updates", "output", "state", "delta")] + [
            ("counts the active connections", l1.n_active == CNT(A1.arr, nw))]


def layer_fields(c, b, fs):
    return [FAt("Layer", f, b) for f in fs]


add("layer_add_neurons", "l N", requires=lambda c: [nonnull(c.o.l)] + wf_layer(c.o.l), setup=cnt_zero,
    modifies=lambda c: layer_fields(c, c.o.l._b, GROW + ("n_outputs", "n_biases", "n_weights", "n_active")), ensures=grow_ens, opts={"inline": ("layer_guard_outputs", "layer_guard_weights")})

add("LayerVtbl.layer_impl_print", "l print_weights", trusted=True, note="prints")

# every neuron keeps an input and every input a neuron
RHAS, CHAS = z3.Function("ROWHAS", AI, I, B), z3.Function("COLHAS", AI, I, B)
RBASE = z3.Function("ROWBASE", I, I)      # n_inputs * row
RWIT, CWIT = z3.Function("ROWHASWIT", AI, I, I), z3.Function("COLHASWIT", AI, I, I)


def rhas(c, S, i):
    l = c.o.l
    if BOUND[0] is not None:
        return z3.Or(*[z3.And(q < l.n_inputs, z3.Select(S, l.n_inputs * i + q) != 0) for q in range(BOUND[0])])
    return RHAS(S, i)


def chas(c, S, j):
    l = c.o.l
    if BOUND[0] is not None:
        return z3.Or(*[z3.And(q < l.n_outputs, z3.Select(S, l.n_inputs * q + j) != 0) for q in range(BOUND[0])])
    return CHAS(S, j)


def rep_setup(c, st):
    cnt_zero(c, st)
    if BOUND[0] is not None:
        return
    ni, no = c.o.l.n_inputs, c.o.l.n_outputs
    S, T = z3.Consts("rpS rpT", AI)
    i, j = z3.Consts("rpi rpj", I)
    ok = lambda w, n, p: z3.And(0 <= w, w < n, p != 0)
    st.fact(z3.ForAll([S, i], z3.Implies(RHAS(S, i), ok(RWIT(S, i), ni, z3.Select(S, RBASE(i) + RWIT(S, i)))), patterns=[RHAS(S, i)]))
    st.fact(z3.ForAll([S, i], z3.Implies(CHAS(S, i), ok(CWIT(S, i), no, z3.Select(S, RBASE(CWIT(S, i)) + i))), patterns=[CHAS(S, i)]))
    st.fact(z3.ForAll([S, T, i], z3.Implies(z3.And(RHAS(S, i), z3.Select(T, RBASE(i) + RWIT(S, i)) != 0), RHAS(T, i)), patterns=[mpat(RHAS(S, i), RHAS(T, i))]))
    st.fact(z3.ForAll([S, T, i], z3.Implies(z3.And(CHAS(S, i), z3.Select(T, RBASE(CWIT(S, i)) + i) != 0), CHAS(T, i)), patterns=[mpat(CHAS(S, i), CHAS(T, i))]))
    st.fact(z3.ForAll([T, i, j], z3.Implies(ok(j, ni, z3.Select(T, RBASE(i) + j)), RHAS(T, i)), patterns=[mpat(RHAS(T, i), MARK(j))]))
    st.fact(z3.ForAll([T, i, j], z3.Implies(ok(j, no, z3.Select(T, RBASE(j) + i)), CHAS(T, i)), patterns=[mpat(CHAS(T, i), MARK(j))]))


def rep_parts(c, s, nr, nc):
    l0, l1 = c.o.l, c.view("l", s)
    S, S0 = l1.weight_active.arr, l0.weight_active.arr
    n = l0.n_weights
    return [("every neuron has an active input", Forall(0, nr, lambda i: rhas(c, S, i), pats=lambda i: RHAS(S, i))),
            ("every input is used", Forall(0, nc, lambda i: chas(c, S, i), pats=lambda i: CHAS(S, i))),
            ("nothing is disconnected", ForallP(lambda p: z3.Implies(z3.Select(S0, p) != 0, z3.Select(S, p) != 0), pats=lambda p: z3.Select(S, p))),
            ("weights of kept connections are kept", ForallP(lambda p: z3.Implies(z3.Select(S0, p) != 0, z3.Select(l1.weights.arr, p) == z3.Select(l0.weights.arr, p)), pats=lambda p: z3.Select(l1.weights.arr, p))),
            ("the count of active connections follows", z3.Implies(l0.n_active == CNT(S0, n), l1.n_active == CNT(S, n)))]


def rep_cands(c, s, S0, k):
    l0, l1 = c.o.l, c.view("l", s)
    S = l1.weight_active.arr
    ps = rep_parts(c, s, k, k)
    full = rep_parts(c, s, l0.n_outputs, l0.n_inputs)
    out = [g for _, g in ps] + [full[0][1], full[1][1]]
    vs = ints(c, s, S0)
    for x, v in enumerate(vs):
        out += [v >= 0, Forall(0, v, lambda i: chas(c, S, i), pats=lambda i: CHAS(S, i))]
        for y, a in enumerate(vs):
            if x == y:
                continue
            out += [z3.Implies(v >= 1, rhas(c, S, a)), z3.Implies(v >= 1, chas(c, S, a)),
                    GImp(v < 1, Forall(0, k, lambda j, a=a: z3.Implies(MARK(j), z3.Select(S, (RBASE(a) if BOUND[0] is None else l0.n_inputs * a) + j) == 0), pats=lambda j: MARK(j)))]
    return out


_fid = [0]


def fresh_id():
    _fid[0] += 1
    return _fid[0]


def rep_lemmas(c, h, e, k):
    S, T = c.view("l", h).weight_active.arr, c.view("l", e).weight_active.arr
    vs = ints(c, e) + [k]
    out = [MARK(k)] + [RBASE(u) == c.o.l.n_inputs * u for u in vs]
    T1, S1, i = fresh("repT", AI), fresh("repS", AI), z3.Const("rpi", I)
    out += [T1 == T, S1 == S, z3.ForAll([i], z3.Implies(z3.And(RHAS(S1, i), z3.Select(T1, RBASE(i) + RWIT(S1, i)) != 0), RHAS(T1, i)), patterns=[RHAS(T1, i)]),
            z3.ForAll([i], z3.Implies(z3.And(CHAS(S1, i), z3.Select(T1, RBASE(CWIT(S1, i)) + i) != 0), CHAS(T1, i)), patterns=[CHAS(T1, i)])] if BOUND[0] is None else []
    j = z3.Const("rpj", I)
    n = c.o.l.n_weights
    if BOUND[0] is None:
        ni, no = c.o.l.n_inputs, c.o.l.n_outputs
        for u in vs:
            out.append(z3.ForAll([j], z3.And(z3.Implies(z3.And(0 <= u, u < no, 0 <= j, j < ni), z3.And(0 <= RBASE(u), RBASE(u) + j < n)),
                                             z3.Implies(z3.And(0 <= j, j < no, 0 <= u, u < ni), z3.And(0 <= RBASE(j), RBASE(j) + u < n))), patterns=[MARK(j)]))
            for f in (lambda j, u=u: u + j, lambda j, u=u: RBASE(j) + u):
                w = z3.Function("cw%d" % fresh_id(), I, I)(j)
                p = f(j)
                out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= p, p < n), z3.Or(CNT(T1, n) == CNT(S1, n) - on1(S1, p) + on1(T1, p), z3.And(
                    w != p, 0 <= w, w < n, z3.Select(S1, w) != z3.Select(T1, w)))), patterns=[MARK(j)]))
    out += [z3.Implies(z3.And(0 <= u, u < c.o.l.n_outputs, 0 <= v, v < c.o.l.n_inputs), z3.And(0 <= c.o.l.n_inputs * u + v, c.o.l.n_inputs * u + v < c.o.l.n_weights)) for u in vs for v in vs]
    return out


RMARK = dict(rand_uniform_int=Contract("rand_uniform_int", "min max", ensures=lambda c: [z3.Implies(c.o.min < c.o.max, z3.And(c.o.min <= c.ret, c.ret < c.o.max)), MARK(c.ret), RBASE(c.ret) == c.ex.cur_ctx.o.l.n_inputs * c.ret], trusted=True))
add("layer_ensure_input_represention", "l", requires=lambda c: [nonnull(c.o.l)] + wf_layer(c.o.l), setup=rep_setup, cands=rep_cands,
    modifies=lambda c: [AAt("double", c.o.l.weights._b), AAt("bool", c.o.l.weight_active._b), FAt("Layer", "n_active", c.o.l._b)],
    ensures=lambda c: rep_parts(c, c.new, c.o.l.n_outputs, c.o.l.n_inputs), opts={"loop_lemmas": rep_lemmas, "lean": True, "no_nl": True, "no_values": True, "overlay": RMARK})
