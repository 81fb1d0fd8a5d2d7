"""Layers: creation, copying, release, storage, and what the layers without weights compute."""
from .nn2 import *
from dv.smt import cdiv as smt_cdiv

SIZES = ("n_inputs", "n_outputs", "max_outputs", "out_w", "out_h", "out_c")
IMG = SIZES + ("height", "width", "channels")
LEARN = ("options", "function", "eta", "eta_max", "eta_min", "momentum", "decay", "max_neuron_grow", "n_weights", "n_biases", "n_active")
KIND = {   # kind: (fields that make up the layer, arrays of one element per output)
    "dropout": (SIZES + ("probability", "scale"), ("output", "delta", "state")),
    "noise": (SIZES + ("probability", "scale"), ("output", "delta", "state")),
    "softmax": (SIZES + ("scale",), ("output", "delta")),
    "maxpool": (IMG + ("pad", "size", "stride"), ("output", "delta", "indexes")),
    "avgpool": (IMG, ("output", "delta")),
    "upsample": (IMG + ("stride",), ("output", "delta")),
}
ESZ = lambda f: 4 if f == "indexes" else 8


def lay(c, b, st=None):
    return c.obj(b, "Layer", st or c.new)


def alloc_ens(c, l, arrs, zero=True, n=None):
    n = l.n_outputs if n is None else n
    out = [owned(c, *[getattr(l, f)._b for f in arrs]) if len(arrs) > 1 else ("own storage", getattr(l, arrs[0])._b >= c.old.nxt), roomy(c, *[(getattr(l, f)._b, ESZ(f) * n) for f in arrs])]
    if zero:
        out += [("%s starts at zero" % f, Forall(0, n, lambda j, f=f: getattr(l, f)[j] == 0, pats=lambda j, f=f: z3.Select(getattr(l, f).arr, j))) for f in arrs]
    return out


def same_fields(p, q, fs):
    return [("same %s" % f, getattr(q, f) == getattr(p, f)) for f in fs]


def blocks(c, arrs):
    return [getattr(c.o.l, f)._b for f in arrs]


def free_req(c, arrs):
    return [nonnull(c.o.l), ("live, separate blocks", z3.And(z3.Distinct(*blocks(c, arrs)), *[z3.And(b > 0, z3.Select(c.g("freed", c.old), b) == 0) for b in blocks(c, arrs)]))]


def freed(c, arrs):
    return ("every array is freed", z3.And(*[z3.Select(c.g("freed"), b) == 1 for b in blocks(c, arrs)]))


ALLF = SIZES + ("probability", "scale", "height", "width", "channels", "pad", "size", "stride", "output", "delta", "state", "indexes")


def sane(l):
    return ("sizes", z3.And(l.n_outputs >= 1, l.n_inputs >= 1))


INIT = {
    "dropout": lambda a, l: z3.And(l.n_inputs == a.n_inputs, l.n_outputs == a.n_inputs, l.max_outputs == a.n_inputs, l.probability == a.probability,
                                   z3.Implies(a.probability < 1, l.scale == rdiv(rval(1), 1 - a.probability)), l.out_c == a.channels, l.out_w == a.width, l.out_h == a.height),
    "noise": lambda a, l: z3.And(l.n_inputs == a.n_inputs, l.n_outputs == a.n_inputs, l.max_outputs == a.n_inputs, l.probability == a.probability, l.scale == a.scale,
                                 l.out_c == a.channels, l.out_w == a.width, l.out_h == a.height),
    "softmax": lambda a, l: z3.And(l.n_inputs == a.n_inputs, l.n_outputs == a.n_inputs, l.max_outputs == a.n_inputs, l.scale == a.scale, l.out_w == a.n_inputs, l.out_c == 1, l.out_h == 1),
    "avgpool": lambda a, l: z3.And(l.height == a.height, l.width == a.width, l.channels == a.channels, l.out_w == 1, l.out_h == 1, l.out_c == a.channels, l.n_outputs == a.channels,
                                   l.max_outputs == a.channels, l.n_inputs == a.height * a.width * a.channels),
    "upsample": lambda a, l: z3.And(l.height == a.height, l.width == a.width, l.channels == a.channels, l.stride == a.stride, l.out_w == a.width * a.stride, l.out_h == a.height * a.stride,
                                    l.out_c == a.channels, l.n_outputs == l.out_h * l.out_w * l.out_c, l.max_outputs == l.n_outputs, l.n_inputs == a.height * a.width * a.channels),
    "maxpool": lambda a, l: z3.And(l.height == a.height, l.width == a.width, l.channels == a.channels, l.stride == a.stride, l.pad == a.pad, l.size == a.size,
                                   l.out_w == cdiv(a.width + a.pad - a.size, a.stride) + 1, l.out_h == cdiv(a.height + a.pad - a.size, a.stride) + 1,
                                   l.out_c == a.channels, l.n_outputs == l.out_h * l.out_w * l.out_c, l.max_outputs == l.n_outputs, l.n_inputs == a.height * a.width * a.channels),
}


def cdiv(a, b):
    """integer division of non-negative numbers"""
    return a / b


def init_req(kind):
    def f(c):
        a = c.o.args
        r = [nonnull(c.o.l, a)]
        if kind in ("avgpool", "upsample", "maxpool"):
            r.append(("image", z3.And(a.height >= 1, a.width >= 1, a.channels >= 1)))
        if kind in ("upsample", "maxpool"):
            r.append(("stride", a.stride >= 1))
        if kind == "maxpool":
            r.append(("window", z3.And(a.pad >= 0, a.size >= 1, a.width + a.pad >= a.size, a.height + a.pad >= a.size)))
        return r
    return f


RESIZE = {
    "dropout": lambda p, o, l: z3.And(l.n_inputs == p.n_outputs, l.n_outputs == p.n_outputs, l.max_outputs == p.n_outputs, l.out_w == p.out_w, l.out_h == p.out_h, l.out_c == p.out_c),
    "softmax": lambda p, o, l: z3.And(l.n_inputs == p.n_outputs, l.n_outputs == p.n_outputs, l.max_outputs == p.n_outputs, l.out_w == p.n_outputs, l.out_h == 1, l.out_c == 1),
    "avgpool": lambda p, o, l: z3.And(l.height == p.out_h, l.width == p.out_w, l.channels == p.out_c, l.out_c == p.out_c, l.n_outputs == p.out_c, l.max_outputs == p.out_c,
                                      l.n_inputs == p.out_h * p.out_w * p.out_c, l.out_w == o.out_w, l.out_h == o.out_h),
    "upsample": lambda p, o, l: z3.And(l.height == p.out_h, l.width == p.out_w, l.channels == p.out_c, l.out_c == p.out_c, l.out_w == p.out_w * o.stride, l.out_h == p.out_h * o.stride,
                                       l.n_outputs == l.out_h * l.out_w * l.out_c, l.max_outputs == l.n_outputs, l.n_inputs == p.out_h * p.out_w * p.out_c),
    "maxpool": lambda p, o, l: z3.And(l.height == p.out_h, l.width == p.out_w, l.channels == p.out_c, l.out_c == p.out_c, l.out_w == cdiv(p.out_w + o.pad - o.size, o.stride) + 1,
                                      l.out_h == cdiv(p.out_h + o.pad - o.size, o.stride) + 1, l.n_outputs == l.out_h * l.out_w * l.out_c, l.max_outputs == l.n_outputs,
                                      l.n_inputs == p.out_h * p.out_w * p.out_c),
}
RESIZE["noise"] = RESIZE["dropout"]


def resize_req(kind, arrs):
    def f(c):
        r = free_req(c, arrs) + [nonnull(c.o.prev), c.o.prev._b != c.o.l._b]
        p, l = c.o.prev, c.o.l
        if kind in ("upsample", "maxpool"):
            r.append(("stride", l.stride >= 1))
        if kind == "maxpool":
            r.append(("window", z3.And(l.pad >= 0, l.size >= 1, p.out_w + l.pad >= l.size, p.out_h + l.pad >= l.size)))
        return r
    return f


for _k, (_fs, _as) in KIND.items():
    _p = "neural_layer_" + _k
    mods = lambda c, fs=_fs, a=_as: [FAt("Layer", f, c.o.l._b) for f in fs + a]
    add(_p + "_init", "l args", requires=init_req(_k), modifies=mods,
        ensures=lambda c, k=_k, a=_as: [("made as configured", INIT[k](c.o.args, c.n.l))] + alloc_ens(c, c.n.l, a), opts={"inline": ("malloc_layer_arrays", "layer_guard_outputs")})
    add(_p + "_copy", "src", requires=lambda c, k=_k: [nonnull(c.o.src), sane(c.o.src)] + ([("as many outputs as inputs", c.o.src.n_outputs == c.o.src.n_inputs)] if k in ("dropout", "noise", "softmax") else []),
        ensures=lambda c, k=_k, fs=_fs, a=_as: [("a new layer", z3.And(c.ret._b >= c.old.nxt, *[c.ret._b != getattr(lay(c, c.ret._b), x)._b for x in a])),
                                                ("of the same kind", z3.And(lay(c, c.ret._b).type == c.o.src.type, lay(c, c.ret._b).layer_vptr._b == c.o.src.layer_vptr._b))] +
        same_fields(c.o.src, lay(c, c.ret._b), fs) + alloc_ens(c, lay(c, c.ret._b), a),
        opts={"inline": ("malloc_layer_arrays", "layer_guard_outputs", "layer_defaults")})
    add(_p + "_free", "l", requires=lambda c, a=_as: free_req(c, a), modifies=lambda c, a=_as: [GAt("freed", b) for b in blocks(c, a)],
        ensures=lambda c, a=_as: [freed(c, a)], opts={"track_free": True, "inline": ("free_layer_arrays",)})
    add(_p + "_resize", "l prev", requires=resize_req(_k, _as), modifies=lambda c, fs=_fs, a=_as: mods(c, fs, a) + [GAt("freed", b) for b in blocks(c, a)],
        ensures=lambda c, k=_k, a=_as: [("fitted to the layer before it", RESIZE[k](c.o.prev, c.o.l, c.n.l)), freed(c, a)] + alloc_ens(c, c.n.l, a, zero=k not in ("maxpool", "avgpool")),
        opts={"track_free": True, "inline": ("free_layer_arrays", "malloc_layer_arrays", "realloc_layer_arrays", "layer_guard_outputs")})
    add(_p + "_load", "l fp", requires=lambda c: [nonnull(c.o.l)],
        setup=after_save(_p + "_save", lambda c, b: [Ptr(b), Ptr(ival(7))], lambda c, st, k=_k: [lay(c, src_base(), st).n_outputs >= 1] + (
            [lay(c, src_base(), st).out_w == lay(c, src_base(), st).n_outputs, lay(c, src_base(), st).out_h == 1, lay(c, src_base(), st).out_c == 1] if k == "softmax" else [])),
        modifies=lambda c, fs=_fs, a=_as: STREAM(c) + mods(c, fs, a),
        ensures=lambda c, fs=_fs, a=_as: same_fields(lay(c, src_base(), c.old), c.n.l, fs) + alloc_ens(c, c.n.l, a) + consumed(c),
        opts={"inline": ("malloc_layer_arrays", "layer_guard_outputs")})
    add(_p + "_output", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("its output array", c.ret._b == c.o.l.output._b)])
    add(_p + "_mutate", "l", requires=lambda c: [nonnull(c.o.l)], ensures=lambda c: [("nothing to evolve", z3.Not(c.ret != 0))])


# ---------------------------------------------------------------- what the layers without weights compute
def io_req(c, *arrs):
    l = c.o.l
    bs = [getattr(l, f) for f in arrs]
    return [nonnull(l, c.o.net, c.o.input, *bs), ("sizes", z3.And(l.n_inputs >= 1, l.n_outputs == l.n_inputs)), ("no overlap", distinct(c.o.input, *bs))]


def drop_ens(keep, hit):
    def f(c):
        l0, l1 = c.o.l, c.n.l
        n = l0.n_inputs
        t = c.o.net.train != 0
        x = c.o.input
        o = ForallP(lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.If(z3.And(t, l1.state[p] < l0.probability), hit(c, p, l1), z3.Select(l1.output.arr, p) == z3.If(t, keep(c, x[p]), x[p]))),
                    pats=lambda p: z3.Select(l1.output.arr, p)) if BOUND[0] is None else Forall(0, n, lambda p: z3.If(
                        z3.And(t, l1.state[p] < l0.probability), hit(c, p, l1), l1.output[p] == z3.If(t, keep(c, x[p]), x[p])))
        return [("each unit is passed on, or hit with the given probability when training", o),
                ("draws are kept for the backward pass", GImp(t, Forall(0, n, lambda j: z3.And(0 <= l1.state[j], l1.state[j] <= 1), pats=lambda j: z3.Select(l1.state.arr, j)))),
                ("draws are untouched otherwise", GImp(z3.Not(t), outside(c, l0.state, l1.state, ival(0))))]
    return f


def drop_cands(ens):
    def f(c, s, S0, k):
        class V:
            pass
        n = c.o.l.n_inputs
        l0, l1 = c.o.l, c.view("l", s)
        return [Forall(0, k, lambda j: z3.And(0 <= l1.state[j], l1.state[j] <= 1), pats=lambda j: z3.Select(l1.state.arr, j)),
                Forall(0, k, lambda j: ens(c, j, l1), pats=lambda j: z3.Select(l1.output.arr, j)),
                Forall(0, k, lambda j: l1.output[j] == c.o.input[j], pats=lambda j: z3.Select(l1.output.arr, j))]
    return f


def unit(keep, hit):
    return lambda c, j, l1: z3.If(l1.state[j] < c.o.l.probability, hit(c, j, l1), l1.output[j] == keep(c, c.o.input[j]))


dk, dh = lambda c, v: v * c.o.l.scale, lambda c, p, l1: z3.Select(l1.output.arr, p) == 0
nk, nh = lambda c, v: v, lambda c, p, l1: z3.BoolVal(True)
OUTM = lambda c: [AAt("double", c.o.l.state._b), AAt("double", c.o.l.output._b)]
add("neural_layer_dropout_forward", "l net input", requires=lambda c: io_req(c, "state", "output"), modifies=OUTM, ensures=drop_ens(dk, dh), cands=drop_cands(unit(dk, dh)))
add("neural_layer_noise_forward", "l net input", requires=lambda c: io_req(c, "state", "output"), modifies=OUTM, ensures=drop_ens(nk, nh), cands=drop_cands(unit(nk, nh)))


def back_req(c, *arrs):
    l = c.o.l
    return [nonnull(l, l.delta, *[getattr(l, f) for f in arrs]), ("sizes", z3.And(l.n_inputs >= 1, l.n_outputs >= 1)),
            ("no overlap", z3.And(c.o.delta._b >= 0, *[c.o.delta._b != getattr(l, f)._b for f in ("delta",) + arrs]))]


BACKM = lambda c: [AAt("double", c.o.delta._b)]


def back(kind, f, lab, *arrs):
    add("neural_layer_%s_backward" % kind, "l net input delta", requires=lambda c: back_req(c, *arrs), modifies=BACKM,
        ensures=lambda c: [(lab, GImp(hasptr(c.o.delta), inside(c, c.o.delta, c.n.delta, c.o.l.n_inputs, lambda j, v: f(c, j, v)))),
                           ("other errors kept", GImp(hasptr(c.o.delta), outside(c, c.o.delta, c.n.delta, c.o.l.n_inputs)))])


back("dropout", lambda c, j, v: z3.If(c.o.l.state[j] < c.o.l.probability, rval(0), v + c.o.l.delta[j] * c.o.l.scale), "kept units pass their scaled error back, dropped ones none", "state")
back("noise", lambda c, j, v: v + c.o.l.delta[j], "errors are passed back")
back("softmax", lambda c, j, v: v + c.o.l.delta[j], "errors are passed back")

# softmax: the running maximum of the first n inputs
MAXF = z3.Function("RUNMAX", AR, I, I, R)


def runmax(v, n):
    if BOUND[0] is not None:
        m = v[0]
        for q in range(1, BOUND[0]):
            m = z3.If(z3.And(q < n, v[q] > m), v[q], m)
        return m
    return MAXF(v.arr, v._o, n)


def sm_term(c, j):
    x, s = c.o.input, c.o.l.scale
    return EXP(rdiv(x[j], s) - rdiv(runmax(x, c.o.l.n_inputs), s))


def sm_ens(c):
    l0, l1 = c.o.l, c.n.l
    n = l0.n_inputs
    S = c.sum(n, lambda j: sm_term(c, j))
    return [("outputs are the exponentials over their sum", inside(c, l0.output, l1.output, n, lambda j, v: rdiv(sm_term(c, j), S))),
            ("other outputs kept", outside(c, l0.output, l1.output, n))]


def sm_cands(c, s, S0, k):
    l0, l1 = c.o.l, c.view("l", s)
    n = l0.n_inputs
    S = lambda m: c.sum(m, lambda j: sm_term(c, j))
    return [x == runmax(c.o.input, q_) for x in reals(s, S0) for q_ in (k, simp(k + 1), n)] + [x == S(q_) for x in reals(s, S0) for q_ in (k, n)] + [
        inside(c, l0.output, l1.output, k, lambda j, v: sm_term(c, j)),
        inside(c, l0.output, l1.output, n, lambda j, v: z3.If(j < k, rdiv(sm_term(c, j), S(n)), sm_term(c, j))), S(k) > 0 if BOUND[0] is None else z3.BoolVal(True)]


def sm_lemmas(c, h, e, k):
    x = c.o.input
    if BOUND[0] is not None:
        return []
    st = lambda m: z3.Implies(m >= 1, runmax(x, simp(m + 1)) == z3.If(x[m] > runmax(x, m), x[m], runmax(x, m)))
    return [st(k), st(simp(k + 1)), st(simp(k - 1)), EXP(rdiv(x[k], c.o.l.scale) - rdiv(runmax(x, c.o.l.n_inputs), c.o.l.scale)) > 0]


def sm_setup(c, st):
    if BOUND[0] is None:
        st.fact(runmax(c.o.input, ival(1)) == c.o.input[0])


add("neural_layer_softmax_forward", "l net input", requires=lambda c: io_req(c, "output") + [("scale", c.o.l.scale > 0)], modifies=lambda c: [AAt("double", c.o.l.output._b)], setup=sm_setup,
    ensures=sm_ens, cands=sm_cands, opts={"loop_lemmas": sm_lemmas})

# average pooling: one output per channel
PSUM = z3.Function("PLANESUM", AR, I, I, I, R)      # sum of the first i inputs of plane k


class Plane:
    def __init__(self, c):
        l = c.o.l
        self.x, self.n = c.o.input, l.height * l.width
        self.key = (self.x.arr, self.x._o)

    def __call__(self, k, i):
        if BOUND[0] is not None:
            return sum((z3.If(q < i, self.x[self.n * k + q], rval(0)) for q in range(BOUND[0])), rval(0))
        return PSUM(*self.key, k, i)

    def step(self, k, i):
        return z3.And(self(k, ival(0)) == 0, z3.Implies(i >= 0, self(k, simp(i + 1)) == self(k, i) + self.x[self.n * k + i]))


def img_req(c, *arrs):
    l = c.o.l
    bs = [getattr(l, f) for f in arrs]
    return [nonnull(l, c.o.input, *bs), ("image", z3.And(l.height >= 1, l.width >= 1, l.channels >= 1, l.height * l.width >= 1)), ("no overlap", distinct(c.o.input, *bs))]


def avg_ens(c):
    P = Plane(c)
    l0, l1 = c.o.l, c.n.l
    return [("each output is the mean of its plane", inside(c, l0.output, l1.output, l0.channels, lambda k, v: rdiv(P(k, P.n), toreal(P.n)))),
            ("other outputs kept", outside(c, l0.output, l1.output, l0.channels))]


def avg_cands(c, s, S0, k):
    P = Plane(c)
    l0, l1 = c.o.l, c.view("l", s)
    vs = ints(c, s, S0)
    out = [l1.output[a] == P(a, k) for a in vs] + [x == P(a, k) for a in vs for x in reals(s, S0)]
    out += [inside(c, l0.output, l1.output, a, lambda q, v: rdiv(P(q, P.n), toreal(P.n))) for a in vs]
    out += [ForallP(lambda p, a=a: z3.Implies(z3.Or(p < 0, p > a, p >= l0.channels), z3.Select(l1.output.arr, p) == z3.Select(l0.output.arr, p)), pats=lambda p: z3.Select(l1.output.arr, p)) for a in vs]
    return out


add("neural_layer_avgpool_forward", "l net input", requires=lambda c: img_req(c, "output"), modifies=lambda c: [AAt("double", c.o.l.output._b)], ensures=avg_ens, cands=avg_cands,
    setup=lambda c, st: st.fact(z3.ForAll([z3.Const("avk", I)], Plane(c)(z3.Const("avk", I), ival(0)) == 0, patterns=[Plane(c)(z3.Const("avk", I), ival(0))])) if BOUND[0] is None else None,
    opts={"loop_lemmas": lambda c, h, e, k: [Plane(c).step(u, v) for u in ints(c, h) + [k] for v in ints(c, h) + [k] if not z3.eq(u, v)], "lean": True, "no_nl": True, "no_values": True})


def avgb_ens(c, s=None, lim=None):
    l = c.o.l
    n = l.height * l.width
    D0, D1 = c.o.delta, c.view("delta", s or c.new)
    f = lambda k: rdiv(l.delta[k], toreal(n))
    if lim is None:
        lim = lambda r, q: r < l.channels
    if BOUND[0] is not None:
        return Forall(0, l.channels, lambda k: Forall(0, n, lambda i: D1[n * k + i] == D0[n * k + i] + z3.If(lim(k, i), f(k), rval(0))))
    o = D0._o

    def body(p):
        r, q = ROWF(n, simp(p - o)), COLF(n, simp(p - o))
        v = z3.Select(D0.arr, p)
        return z3.Select(D1.arr, p) == z3.If(z3.And(0 <= r, lim(r, q)), v + f(r), v)
    return ForallP(body, pats=lambda p: z3.Select(D1.arr, p))


def avgb_cands(c, s, S0, k):
    vs = ints(c, s, S0)
    return [avgb_ens(c, s, lambda r, q: r < k)] + [avgb_ens(c, s, lambda r, q, a=a: z3.Or(r < a, z3.And(r == a, q < k))) for a in vs]


def avgb_setup(c, st):
    if BOUND[0] is None:
        for x in decode_facts(c.o.l.height * c.o.l.width):
            st.fact(x)


add("neural_layer_avgpool_backward", "l net input delta", requires=lambda c: back_req(c) + [("image", z3.And(c.o.l.height >= 1, c.o.l.width >= 1, c.o.l.channels >= 1, c.o.l.height * c.o.l.width >= 1))],
    modifies=BACKM, setup=avgb_setup, ensures=lambda c: [("each input of a plane gets an equal share of the error", GImp(hasptr(c.o.delta), avgb_ens(c)))], cands=avgb_cands,
    opts={"loop_lemmas": lambda c, h, e, k: [at_pos(c.o.l.height * c.o.l.width, u, v) for u in ints(c, h) + [k] for v in ints(c, h) + [k] if not z3.eq(u, v)], "lean": True, "no_nl": True, "no_values": True})


def unbounded():
    if BOUND[0] is not None:
        raise Unsupported("no bounded form")


def ctrs(c, s, S0=None):
    """integer locals that are not just read from the layer"""
    out = []
    par = list(c.params)
    for q_, v in (S0 or s).vars.items():
        if v is None or not z3.is_expr(v) or v.sort() != I or any(z3.is_expr(x) and z3.eq(v, x) for x in par):
            continue
        if z3.is_int_value(v) or z3.is_const(v) or z3.is_add(v):
            out.append(s.vars[q_])
    return out


# upsampling: the outputs in order; each repeats one input
UROW = z3.Function("UPROW", I, I, I)           # where row j of plane k of the output starts
UIDX = z3.Function("UPINDEX", I, I)            # the input that output p repeats
USC = z3.Function("UPSCATTER", AR, I, I, I, R)  # error that the first t outputs send to input q


def up_defs(c, k, j, i):
    l = c.o.l
    w, h, s, n = l.width, l.height, l.stride, l.channels
    U = UROW(k, j)
    if i is None:
        return [U == k * w * h * s * s + j * w * s, UROW(k, simp(j + 1)) == U + w * s, UROW(k, ival(0)) == k * w * h * s * s, UROW(simp(k + 1), ival(0)) == UROW(k, h * s), UROW(ival(0), ival(0)) == 0]
    return [z3.Implies(z3.And(0 <= k, k < n, 0 <= j, j < h * s, 0 <= i, i < w * s), z3.And(U + i >= 0, UIDX(U + i) == k * w * h + (j / s) * w + i / s))]


def up_lemmas(sc):
    def f(c, h_, e, k):
        unbounded()
        vs = ctrs(c, h_) + [k]
        out = []
        for x in vs:
            for y in vs:
                out += up_defs(c, x, y, None)
                for z in vs:
                    if not (z3.eq(x, y) or z3.eq(y, z) or z3.eq(x, z)):
                        out += up_defs(c, x, y, z)
                        if sc:
                            q_ = z3.Const("usq", I)
                            t = UROW(x, y) + z
                            d = c.o.l.delta
                            G = lambda u: USC(d.arr, d._o, q_, u)
                            out.append(z3.ForAll([q_], G(simp(t + 1)) == G(t) + z3.If(UIDX(t) == q_, d[t], rval(0)), patterns=[G(simp(t + 1))]))
        return out + [UROW(c.o.l.channels, ival(0)) == c.o.l.channels * c.o.l.width * c.o.l.height * c.o.l.stride * c.o.l.stride]
    return f


def up_req(c):
    l = c.o.l
    return [("image", z3.And(l.height >= 1, l.width >= 1, l.channels >= 1, l.stride >= 1, l.height * l.stride >= 1, l.width * l.stride >= 1))]


def up_inv(c, s, B_):
    l1 = c.view("l", s)
    return Forall(0, B_, lambda p: l1.output[p] == c.o.input[UIDX(p)], pats=lambda p: z3.Select(l1.output.arr, p))


def up_bounds(c, s, S0, k):
    vs = ctrs(c, s, S0)
    return [UROW(k, ival(0))] + [UROW(a, k) for a in vs] + [UROW(a, b) + k for x, a in enumerate(vs) for y, b in enumerate(vs) if x != y]


def up_setup(c, st):
    unbounded()
    l = c.o.l
    st.fact(z3.And(UROW(ival(0), ival(0)) == 0, UROW(l.channels, ival(0)) == l.channels * l.width * l.height * l.stride * l.stride))
    q_ = z3.Const("usq", I)
    d = l.delta
    st.fact(z3.ForAll([q_], USC(d.arr, d._o, q_, ival(0)) == 0, patterns=[USC(d.arr, d._o, q_, ival(0))]))


NL = {"lean": True, "no_nl": True, "no_values": True}
add("neural_layer_upsample_forward", "l net input", requires=lambda c: [nonnull(c.o.l, c.o.input, c.o.l.output), ("no overlap", c.o.input._b != c.o.l.output._b)] + up_req(c),
    modifies=lambda c: [AAt("double", c.o.l.output._b)], setup=up_setup, ensures=lambda c: [("each output repeats its input", up_inv(c, c.new, UROW(c.o.l.channels, ival(0))))],
    cands=lambda c, s, S0, k: [up_inv(c, s, b) for b in up_bounds(c, s, S0, k)], opts=dict(NL, loop_lemmas=up_lemmas(False)))


def ub_inv(c, s, B_):
    D0, D1, d = c.o.delta, c.view("delta", s), c.o.l.delta
    return ForallP(lambda p: z3.Select(D1.arr, p) == z3.Select(D0.arr, p) + USC(d.arr, d._o, simp(p - D0._o), B_), pats=lambda p: z3.Select(D1.arr, p))


add("neural_layer_upsample_backward", "l net input delta", requires=lambda c: back_req(c) + up_req(c), modifies=BACKM, setup=up_setup,
    ensures=lambda c: [("each input gets the errors of its copies", GImp(hasptr(c.o.delta), ub_inv(c, c.new, UROW(c.o.l.channels, ival(0)))))],
    cands=lambda c, s, S0, k: [ub_inv(c, s, b) for b in up_bounds(c, s, S0, k)], opts=dict(NL, loop_lemmas=up_lemmas(True)))

# max pooling
MSC = z3.Function("POOLSCATTER", AR, I, z3.ArraySort(I, I), I, I, I, R)     # error that the first t outputs send to input q
FIDX = z3.Function("WINBEST", AR, I, I, I, I, I, I, I)                        # best input among the first rows n and m further elements of the window
FVAL = z3.Function("WINVALUE", AR, I, I, I, I, I, I, R)
DMAX = z3.Real("HUGE_1.7976931348623157e+308")


def mp_inv(c, s, k):
    l, D0, D1 = c.o.l, c.o.delta, c.view("delta", s)
    d, x = l.delta, l.indexes
    return ForallP(lambda p: z3.Select(D1.arr, p) == z3.Select(D0.arr, p) + MSC(d.arr, d._o, x.arr, x._o, simp(p - D0._o), k), pats=lambda p: z3.Select(D1.arr, p))


def mp_lemmas(c, h, e, k):
    unbounded()
    d, x = c.o.l.delta, c.o.l.indexes
    q_ = z3.Const("msq", I)
    G = lambda t: MSC(d.arr, d._o, x.arr, x._o, q_, t)
    return [z3.ForAll([q_], G(simp(k + 1)) == G(k) + z3.If(x[k] == q_, d[k], rval(0)), patterns=[G(simp(k + 1))])]


def mp_setup(c, st):
    unbounded()
    d, x = c.o.l.delta, c.o.l.indexes
    q_ = z3.Const("msq", I)
    G = MSC(d.arr, d._o, x.arr, x._o, q_, ival(0))
    st.fact(z3.ForAll([q_], G == 0, patterns=[G]))


add("neural_layer_maxpool_backward", "l net input delta", requires=lambda c: back_req(c, "indexes"), modifies=BACKM, setup=mp_setup,
    ensures=lambda c: [("each error goes to the input it came from", GImp(hasptr(c.o.delta), mp_inv(c, c.new, c.o.l.n_outputs)))],
    cands=lambda c, s, S0, k: [mp_inv(c, s, k)], opts={"loop_lemmas": mp_lemmas})


class Win:
    """the elements of one pooling window in order, and the first largest of them so far"""
    def __init__(self, c, i, j, k):
        self.l, self.x = c.o.l, c.o.input
        self.a = (i, j, k)

    def idx(self, n, m):
        return FIDX(self.x.arr, self.x._o, *self.a, n, m)

    def val(self, n, m):
        return FVAL(self.x.arr, self.x._o, *self.a, n, m)

    def at(self, n, m):
        l, (i, j, k) = self.l, self.a
        off = smt_cdiv(-l.pad, ival(2))
        h, w = off + i * l.stride + n, off + j * l.stride + m
        p = w + l.width * (h + l.height * k)
        return z3.And(h >= 0, h < l.height, w >= 0, w < l.width, p < l.n_inputs), p

    def step(self, n, m):
        ok, p = self.at(n, m)
        t = z3.And(ok, self.x[p] > self.val(n, m))
        z = ival(0)
        return [self.idx(n, simp(m + 1)) == z3.If(t, p, self.idx(n, m)), self.val(n, simp(m + 1)) == z3.If(t, self.x[p], self.val(n, m)),
                self.idx(simp(n + 1), z) == self.idx(n, self.l.size), self.val(simp(n + 1), z) == self.val(n, self.l.size)]

    def best(self):
        return self.idx(self.l.size, ival(0))


def cdivt(a, b):
    return smt_cdiv(a, b)


def mw_setup(c, st):
    unbounded()
    W = Win(c, c.o.i, c.o.j, c.o.k)
    st.fact(z3.And(W.idx(ival(0), ival(0)) == -1, W.val(ival(0), ival(0)) == -DMAX))


def mw_cands2(c, s, S0, k):
    W = Win(c, c.o.i, c.o.j, c.o.k)
    vs = ctrs(c, s, S0)
    out = []
    for v in vs:
        out += [v == W.idx(k, ival(0))] + [v == W.idx(a, k) for a in vs]
    for v in reals(s, S0):
        out += [v == W.val(k, ival(0))] + [v == W.val(a, k) for a in vs]
    return out


def mw_lem(c, h, e, k):
    unbounded()
    W = Win(c, c.o.i, c.o.j, c.o.k)
    vs = ctrs(c, h) + [k]
    return [f for x in vs for y in vs for f in W.step(x, y)]


def pool_req(c):
    l = c.o.l
    return [nonnull(l, c.o.input), ("window", z3.And(l.size >= 1, l.stride >= 1, l.pad >= 0, l.height >= 1, l.width >= 1, l.channels >= 1, l.out_h >= 0, l.out_w >= 0,
                                                  l.n_inputs >= 1))]


add("max_pool", "l input i j k", requires=pool_req, setup=mw_setup, cands=mw_cands2,
    ensures=lambda c: [("the first largest input of the window", c.ret == Win(c, c.o.i, c.o.j, c.o.k).best()), ("an input", z3.And(0 <= c.ret, c.ret < c.o.l.n_inputs))],
    opts=dict(NL, loop_lemmas=mw_lem))

OROW = z3.Function("POOLROW", I, I, I)        # where row i of plane k of the output starts
OBEST = z3.Function("POOLBEST", I, I)         # the input that output p takes


def mo_defs(c, k, i, j):
    l = c.o.l
    U = OROW(k, i)
    if j is None:
        return [U == l.out_w * (i + l.out_h * k), OROW(k, simp(i + 1)) == U + l.out_w, OROW(k, ival(0)) == l.out_w * (0 + l.out_h * k), OROW(simp(k + 1), ival(0)) == OROW(k, l.out_h), OROW(ival(0), ival(0)) == 0]
    return [z3.Implies(z3.And(0 <= k, k < l.channels, 0 <= i, i < l.out_h, 0 <= j, j < l.out_w), z3.And(U + j >= 0, U + j < l.n_outputs, OBEST(U + j) == Win(c, i, j, k).best()))]


def mo_lemmas(c, h, e, k):
    unbounded()
    vs = ctrs(c, h) + [k]
    out = [OROW(c.o.l.channels, ival(0)) == c.o.l.n_outputs]
    for x in vs:
        for y in vs:
            out += mo_defs(c, x, y, None)
            for z in vs:
                if not (z3.eq(x, y) or z3.eq(y, z) or z3.eq(x, z)):
                    out += mo_defs(c, x, y, z)
    return out


def mo_inv(c, s, B_):
    l1 = c.view("l", s)
    return [Forall(0, B_, lambda p: l1.output[p] == c.o.input[OBEST(p)], pats=lambda p: z3.Select(l1.output.arr, p)),
            Forall(0, B_, lambda p: l1.indexes[p] == OBEST(p), pats=lambda p: z3.Select(l1.indexes.arr, p))]


def mo_cands(c, s, S0, k):
    vs = ctrs(c, s, S0)
    bs = [OROW(k, ival(0))] + [OROW(a, k) for a in vs] + [OROW(a, b) + k for x, a in enumerate(vs) for y, b in enumerate(vs) if x != y]
    return [f for b in bs for f in mo_inv(c, s, b)]


def mo_setup(c, st):
    unbounded()
    st.fact(z3.And(OROW(ival(0), ival(0)) == 0, OROW(c.o.l.channels, ival(0)) == c.o.l.n_outputs))


add("neural_layer_maxpool_forward", "l net input", requires=lambda c: pool_req(c) + [nonnull(c.o.l.output, c.o.l.indexes), ("no overlap", c.o.input._b != c.o.l.output._b),
                                                                              ("as many outputs as windows", c.o.l.n_outputs == c.o.l.out_w * (0 + c.o.l.out_h * c.o.l.channels))],
    modifies=lambda c: [AAt("double", c.o.l.output._b), AAt("i4", c.o.l.indexes._b)], setup=mo_setup, cands=mo_cands,
    ensures=lambda c: [("each output is the largest input of its window", mo_inv(c, c.new, c.o.l.n_outputs)[0]), ("and where it came from is kept", mo_inv(c, c.new, c.o.l.n_outputs)[1])],
    opts=dict(NL, loop_lemmas=mo_lemmas))
