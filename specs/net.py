"""Networks: a list of layers, from the tail (input side) to the head (output side).

Ghost state per network b: seq[b] (nodes, tail first), len[b], pos[b] (node -> index), cpos[b] (layer -> index).
What a network does with its layers is specified through a log the layer interface keeps: which
layer was run, on which input, with which errors, and in which order."""
from .nn2 import *
from .ser import after_save, consumed, pos, src_base
from .pop import qall, defarr, store_ghost, AA, GHOST_SORTS

for _g in ("fw_at", "fw_in", "bw_at", "bw_in", "bw_to", "up_at", "mu_at", "cp_of", "rel", "clk", "rn_at", "mu_r", "in_of", "in_ni", "in_h", "in_w", "in_c", "in_n", "in_t"):
    GHOST_SORTS[_g] = AI
for _g in ("bw_e", "bw_z"):
    GHOST_SORTS[_g] = z3.ArraySort(I, AR)


class N:
    def __init__(s, c, b, st):
        s.c, s.b, s.st = c, b, st
        s.A = z3.Select(c.g("seq", st), b)
        s.n = z3.Select(c.g("len", st), b)
        s.P = z3.Select(c.g("pos", st), b)
        s.CP = z3.Select(c.g("cpos", st), b)

    def node(s, k):
        return z3.Select(s.A, k)

    def lp(s, k):
        return z3.Select(s.c.field("Llist", "layer", s.st), s.node(k))

    def l(s, k, st=None):
        return s.c.obj(s.lp(k), "Layer", st or s.st)


def net(c, st, b=None):
    return N(c, c.o.net._b if b is None else b, st)


def wfn(c, b, st):
    x = N(c, b, st)
    o = c.obj(b, "Net", st)
    pv, nx = c.field("Llist", "prev", st), c.field("Llist", "next", st)
    return [("network shape", z3.And(x.n >= 0, o.n_layers == x.n, x.node(ival(0)) == o.tail._b, x.node(x.n) == 0, z3.If(x.n == 0, z3.And(o.head._b == 0, o.tail._b == 0), o.head._b == x.node(simp(x.n - 1))))),
            ("network nodes", Forall(0, x.n, lambda k: z3.And(x.node(k) > 0, x.node(k) < st.nxt, z3.Select(x.P, x.node(k)) == k, x.lp(k) > 0, x.lp(k) < st.nxt, z3.Select(x.CP, x.lp(k)) == k), pats=lambda k: z3.Select(x.A, k))),
            ("nothing beyond the ends", ForallP(lambda k: z3.Implies(z3.Or(k < 0, k >= x.n), x.node(k) == 0), pats=lambda k: z3.Select(x.A, k))),
            ("forward links", Forall(0, x.n, lambda k: z3.Select(pv, x.node(k)) == x.node(k + 1), pats=lambda k: z3.Select(pv, x.node(k)))),
            ("backward links", Forall(0, x.n, lambda k: z3.Select(nx, x.node(k)) == z3.If(k == 0, ival(0), x.node(k - 1)), pats=lambda k: z3.Select(nx, x.node(k))))]


def down(x):
    """the nodes from the head to the tail, then the end"""
    return lambda k: z3.If(k < x.n, x.node(x.n - 1 - k), ival(0))


def nseqs(c, S0):
    x = net(c, S0)
    return [(x.node, x.n), (down(x), x.n)]


def clk(c, st):
    return z3.Select(c.g("clk", st), 0)


def at(c, g, p, st=None):
    return z3.Select(c.g(g, st), p)


def tick(c, g, **logs):
    t = clk(c, c.old)
    return [clk(c, None) == t + 1, at(c, g, c.o.l._b) == t] + [at(c, k, c.o.l._b) == v for k, v in logs.items()]


V = "LayerVtbl.layer_impl_"
LOGM = lambda c, *gs: [GAt("clk", ival(0))] + [GAt(g, c.o.l._b) for g in gs]
NOTE = "each kind of layer, behind the table; the kinds are proved under C26, C28 and C29"
add(V + "forward", "l net input", trusted=True, note=NOTE, modifies=lambda c: LOGM(c, "fw_at", "fw_in") + [AAt("double", c.o.l.output._b), AAt("double", c.o.l.state._b)],
    ensures=lambda c: tick(c, "fw_at", fw_in=c.o.input._b))
add(V + "output", "l", trusted=True, note=NOTE, ensures=lambda c: [c.ret._b == c.o.l.output._b, c.ret._o == c.o.l.output._o])
add(V + "backward", "l net input delta", trusted=True, note=NOTE, modifies=lambda c: LOGM(c, "bw_at", "bw_in", "bw_to", "bw_e", "bw_z") + [AAt("double", c.o.l.delta._b), AAt("double", c.o.delta._b), AAt("double", c.o.l.weight_updates._b), AAt("double", c.o.l.bias_updates._b)],
    ensures=lambda c: tick(c, "bw_at", bw_in=c.o.input._b, bw_to=c.o.delta._b, bw_e=c.o.l.delta.arr, bw_z=c.o.delta.arr))
add(V + "update", "l", trusted=True, note=NOTE, modifies=lambda c: LOGM(c, "up_at"), ensures=lambda c: tick(c, "up_at"))
add(V + "rand", "l", trusted=True, note=NOTE, modifies=lambda c: LOGM(c, "rn_at"), ensures=lambda c: tick(c, "rn_at"))
add(V + "copy", "src", trusted=True, note=NOTE, modifies=lambda c: [GAll("cp_of")], ensures=lambda c: [c.ret._b >= c.old.nxt, c.ret._b < c.new.nxt, at(c, "cp_of", c.ret._b) == c.o.src._b] + [
    ForallP(lambda p: z3.Implies(p < c.old.nxt, at(c, "cp_of", p) == at(c, "cp_of", p, c.old)), pats=lambda p: at(c, "cp_of", p))])
add(V + "free", "l", trusted=True, note=NOTE, modifies=lambda c: [GAt("rel", c.o.l._b)], ensures=lambda c: [at(c, "rel", c.o.l._b) == at(c, "rel", c.o.l._b, c.old) + 1])
AREA = z3.Function("AREA", I, I, I, I)      # width x height x channels
image = lambda l: AREA(l.out_w, l.out_h, l.out_c) == l.n_outputs
SHAPE = ("n_outputs", "out_w", "out_h", "out_c")
add(V + "mutate", "l", trusted=True, note=NOTE, modifies=lambda c: LOGM(c, "mu_at", "mu_r") + [FAt("Layer", f, c.o.l._b) for f in SHAPE],
    ensures=lambda c: tick(c, "mu_at", mu_r=c.ret) + [z3.Or(c.ret == 0, c.ret == 1), z3.Implies(c.ret == 0, c.n.l.n_outputs == c.o.l.n_outputs), z3.Implies(image(c.o.l), image(c.n.l))])
add(V + "resize", "l prev", trusted=True, note=NOTE, requires=lambda c: [("the layer before has as many outputs as its image", image(c.o.prev))], modifies=lambda c: [FAt("Layer", f, c.o.l._b) for f in SHAPE + ("n_inputs",)],
    ensures=lambda c: [c.n.l.n_inputs == c.o.prev.n_outputs, image(c.n.l)])

REQ = lambda c: [nonnull(c.o.net)] + wfn(c, c.o.net._b, c.old)
O = {"lean": True, "no_nl": True, "no_values": True}


# ---------------------------------------------------------------- running a network
def prop_inv(c, s, k):
    x = net(c, c.old)
    t = clk(c, c.old)
    return [clk(c, s) == t + k, Forall(0, k, lambda q: z3.And(at(c, "fw_at", x.lp(q), s) == t + q, at(c, "fw_in", x.lp(q), s) == z3.If(q == 0, c.o.input._b, x.l(q - 1).output._b)), pats=lambda q: x.node(q))]


def prop_cands(c, s, S0, k):
    x = net(c, c.old)
    return prop_inv(c, s, k) + [v.base == z3.If(k == 0, c.o.input._b, x.l(simp(k - 1)).output._b) for v in vptrs(s, S0)]


def vptrs(s, S0):
    return [s.vars[q] for q, v in (S0 or s).vars.items() if isinstance(v, Ptr) and v.loc is None and isinstance(s.vars[q], Ptr)]


add("neural_propagate", "net input train", requires=REQ, seqs=nseqs, modifies=lambda c: [FAt("Net", "train", c.o.net._b), GAt("clk", ival(0)), GAll("fw_at"), GAll("fw_in"), AAll("double")],
    ensures=lambda c: [("the mode is kept", c.n.net.train == c.o.train), ("as many runs as layers", prop_inv(c, c.new, net(c, c.old).n)[0]),
                       ("each layer runs once, in order, on the output of the one before it", prop_inv(c, c.new, net(c, c.old).n)[1])], cands=prop_cands, opts=O)
add("neural_rand", "net", requires=REQ, seqs=nseqs, modifies=lambda c: [GAt("clk", ival(0)), GAll("rn_at")],
    ensures=lambda c: [("every layer is randomised once", Forall(0, net(c, c.old).n, lambda q: at(c, "rn_at", net(c, c.old).lp(q)) == clk(c, c.old) + q, pats=lambda q: net(c, c.old).node(q))), ("and nothing else", clk(c, None) == clk(c, c.old) + net(c, c.old).n)],
    cands=lambda c, s, S0, k: [clk(c, s) == clk(c, c.old) + k, Forall(0, k, lambda q: at(c, "rn_at", net(c, c.old).lp(q), s) == clk(c, c.old) + q, pats=lambda q: net(c, c.old).node(q))], opts=O)
add("neural_output", "net IDX", requires=lambda c: REQ(c) + [("a layer", net(c, c.old).n >= 1)],
    ensures=lambda c: [("the output asked for", c.ret == net(c, c.old).l(net(c, c.old).n - 1).output[c.o.IDX]), ("only outputs the network has", z3.And(0 <= c.o.IDX, c.o.IDX < c.o.net.n_outputs))])
add("neural_outputs", "net", requires=lambda c: REQ(c) + [("a layer", net(c, c.old).n >= 1)], ensures=lambda c: [("the outputs of the last layer", c.ret._b == net(c, c.old).l(net(c, c.old).n - 1).output._b)])
WEIGHTED = [macro(n) for n in ("CONNECTED", "RECURRENT", "LSTM", "CONVOLUTIONAL")]


def size_of(c, m):
    x = net(c, c.old)
    return c.sum(m, lambda q: z3.If(z3.Or(*[x.l(q).type == t for t in WEIGHTED]), x.l(q).n_active, ival(0)), real=False)


add("neural_size", "net", requires=REQ, seqs=nseqs, ensures=lambda c: [("the active connections of the layers with weights", c.ret == toreal(size_of(c, net(c, c.old).n)))],
    cands=lambda c, s, S0, k: [v == size_of(c, k) for v in ints(c, s, S0)])


# ---------------------------------------------------------------- learning
def dl(x, q):
    return x.l(q).delta


def learn_req(c):
    x = net(c, c.old)
    return REQ(c) + [("a layer", x.n >= 1), ("sizes and separate errors", Forall(0, x.n, lambda q: z3.And(
        x.l(q).n_outputs >= 0, dl(x, q)._b > 0, dl(x, q)._o == 0, x.l(q).output._o == 0, at(c, "dpos", dl(x, q)._b, c.old) == q, at(c, "opos", x.l(q).output._b, c.old) == 1, at(c, "opos", dl(x, q)._b, c.old) == 0,
        *[at(c, "opos", getattr(x.l(q), f)._b, c.old) == 2 for f in ("weight_updates", "bias_updates")]), pats=lambda q: x.node(q))),
        ("the target and input are apart", z3.And(at(c, "opos", c.o.truth._b, c.old) == 1, at(c, "opos", ival(0), c.old) == 2))]


GHOST_SORTS["dpos"] = AI
GHOST_SORTS["opos"] = AI


def cont(c, b, s):
    return z3.Select(c.ex.hmap(s, ("A", "double")), b)


def all2(vs, body, *pats):
    try:
        return z3.ForAll(vs, body, patterns=[mpat(*pats) if len(pats) > 1 else pats[0]])
    except z3.Z3Exception:
        return z3.ForAll(vs, body)      # a goal over merged states


def zeroed(c, s, k):
    """the errors of the first k layers are zero"""
    x = net(c, c.old)
    q, j = z3.Consts("zq zj", I)
    e = z3.Select(cont(c, dl(x, q)._b, s), j)
    return all2([q, j], z3.Implies(z3.And(0 <= q, q < k, 0 <= j, j < x.l(q).n_outputs), e == 0), x.node(q), e)


def kept_out(c, s):
    p = z3.Const("zp", I)
    return all2([p], z3.Implies(z3.Select(c.g("opos", c.old), p) == 1, cont(c, p, s) == cont(c, p, c.old)), cont(c, p, s))


def head_err(c, A, m):
    x = net(c, c.old)
    h = x.l(x.n - 1)
    return Forall(0, m, lambda j: z3.Select(A, j) == c.o.truth[j] - h.output[j], pats=lambda j: z3.Select(A, j))


def bw_inv(c, s, k):
    x = net(c, c.old)
    t = clk(c, c.old)
    j = z3.Const("zj", I)

    def one(q):
        # layer q is step n-1-q
        return z3.And(at(c, "bw_at", x.lp(q), s) == t + x.n - 1 - q, at(c, "bw_in", x.lp(q), s) == z3.If(q == 0, c.o.input._b, x.l(q - 1).output._b),
                      at(c, "bw_to", x.lp(q), s) == z3.If(q == 0, ival(0), dl(x, q - 1)._b))
    zs = z3.Const("zq", I)
    z = z3.Select(at(c, "bw_z", x.lp(zs), s), j)
    return [Forall(x.n - k, x.n, one, pats=lambda q: x.node(q)),
            all2([zs, j], z3.Implies(z3.And(x.n - k <= zs, zs < x.n, 1 <= zs, 0 <= j, j < x.l(zs - 1).n_outputs), z == 0), x.node(zs), z),
            GImp(k >= 1, head_err(c, at(c, "bw_e", x.lp(simp(x.n - 1)), s), x.l(x.n - 1).n_outputs))]


def up_inv_(c, s, k):
    x = net(c, c.old)
    return Forall(0, k, lambda q: at(c, "up_at", x.lp(q), s) == clk(c, c.old) + x.n + q, pats=lambda q: x.node(q))


def learn_cands(c, s, S0, k):
    unbounded_()
    x = net(c, c.old)
    h = dl(x, simp(x.n - 1))._b
    D = cont(c, h, s)
    t = clk(c, c.old)
    return [zeroed(c, s, k), zeroed(c, s, x.n), zeroed(c, s, simp(x.n - 1)), zeroed(c, s, simp(x.n - 1 - k)), kept_out(c, s), head_err(c, D, k), GImp(k == 0, head_err(c, D, x.l(x.n - 1).n_outputs)),
            clk(c, s) == t + k, clk(c, s) == t + x.n + k, clk(c, s) == t] + bw_inv(c, s, k) + bw_inv(c, s, x.n) + [up_inv_(c, s, k)]


def unbounded_():
    if BOUND[0] is not None:
        raise Unsupported("no bounded form")


def learn_ens(c):
    unbounded_()
    x = net(c, c.old)
    b = bw_inv(c, c.new, x.n)
    return [("errors pass once through each layer, from the output to the input, each on what it was run on", b[0]), ("errors passed back add up from zero", b[1]),
            ("the error starts as target less output", b[2]), ("then every layer is updated once", up_inv_(c, c.new, x.n)), ("and nothing else is done", clk(c, None) == clk(c, c.old) + 2 * x.n)]


add("neural_learn", "net truth input", requires=learn_req, seqs=nseqs, modifies=lambda c: [GAt("clk", ival(0)), AAll("double")] + [GAll(g) for g in ("bw_at", "bw_in", "bw_to", "bw_e", "bw_z", "up_at")],
    ensures=learn_ens, cands=learn_cands, opts=O)


# ---------------------------------------------------------------- fitting and evolving
def fit(x, st, q):
    return x.l(q, st).n_inputs == x.l(q - 1, st).n_outputs


def fits_all(c, st, lo, hi):
    x = net(c, c.old)
    return Forall(lo, hi, lambda q: fit(x, st, q), pats=lambda q: x.node(q))


def images(c, st):
    x = net(c, c.old)
    return Forall(0, x.n, lambda q: image(x.l(q, st)), pats=lambda q: x.node(q))


def mut_cands(c, s, S0, k):
    x = net(c, c.old)
    t = clk(c, c.old)
    rest = Forall(k, x.n, lambda q: z3.And(x.l(q, s).n_inputs == x.l(q).n_inputs, x.l(q, s).n_outputs == x.l(q).n_outputs), pats=lambda q: x.node(q))
    out = [images(c, s), fits_all(c, s, 1, k), rest, Forall(0, k, lambda q: at(c, "mu_at", x.lp(q), s) == t + q, pats=lambda q: x.node(q)), clk(c, s) == t + k]
    out += [v.base == z3.If(k == 0, ival(0), x.lp(simp(k - 1))) for v in vptrs(s, S0)]
    for v in ints(c, s, S0):
        out += [z3.Or(v == 0, v == 1), z3.Implies(z3.And(k >= 1, k < x.n, v == 0), x.l(k, s).n_inputs == x.l(simp(k - 1), s).n_outputs), z3.Implies(k == 0, v == 0),
                GImp(v == 0, Forall(0, k, lambda q: at(c, "mu_r", x.lp(q), s) == 0, pats=lambda q: x.node(q))),
                z3.Implies(v != 0, z3.Exists([z3.Const("mq", I)], z3.And(0 <= z3.Const("mq", I), z3.Const("mq", I) < k, at(c, "mu_r", x.lp(z3.Const("mq", I)), s) != 0)))]
    return out


def mut_ens(c):
    x = net(c, c.old)
    q = z3.Const("mq", I)
    return [("the layers still fit together", fits_all(c, c.new, 1, x.n)), ("the outputs fit the images", images(c, c.new)), ("every layer is mutated once, in order", Forall(0, x.n, lambda q: at(c, "mu_at", x.lp(q)) == clk(c, c.old) + q, pats=lambda q: x.node(q))),
            ("no change reported means no layer changed", GImp(c.ret == 0, Forall(0, x.n, lambda q: at(c, "mu_r", x.lp(q)) == 0, pats=lambda q: x.node(q))))]


IMGREQ = lambda c: REQ(c) + [("the outputs fit the images", images(c, c.old))]
FITREQ = lambda c: IMGREQ(c) + [("the layers fit together", fits_all(c, c.old, 1, net(c, c.old).n))]
SHAPEM = [FAll("Layer", f) for f in SHAPE + ("n_inputs",)]
add("neural_mutate", "net", requires=FITREQ, seqs=nseqs, modifies=lambda c: SHAPEM + [GAt("clk", ival(0)), GAll("mu_at"), GAll("mu_r")], ensures=mut_ens, cands=mut_cands, opts=O)
add("neural_resize", "net", requires=IMGREQ, seqs=nseqs, modifies=lambda c: SHAPEM, ensures=lambda c: [("the layers fit together", fits_all(c, c.new, 1, net(c, c.old).n))],
    cands=mut_cands, opts=O)


# ---------------------------------------------------------------- building, copying, releasing
NETF = ("head", "tail", "n_layers", "n_inputs", "n_outputs", "output")
NETM = lambda c, b: [FAt("Net", f, b) for f in NETF] + [GAt(g, b) for g in ("seq", "pos", "len", "cpos")]
NODEM = [FAll("Llist", f) for f in ("layer", "prev", "next")]


def none_ghost(nm):
    def f(c, st):
        store_ghost(c, st, getattr(c.o, nm)._b, N=z3.K(I, ival(0)), n=ival(0))
    return f


add("neural_init", "net", requires=lambda c: [nonnull(c.o.net)], modifies=lambda c: NETM(c, c.o.net._b) + [FAt("Net", "train", c.o.net._b)], ghost_exit=none_ghost("net"),
    ensures=lambda c: wfn(c, c.o.net._b, c.new) + [("no layer", z3.And(net(c, c.new).n == 0, c.n.net.n_inputs == 0, c.n.net.n_outputs == 0, c.n.net.train == 0))])


def ins_req(c):
    x = net(c, c.old)
    r = REQ(c) + [("a layer that is not in the network", z3.And(c.o.l._b > 0, c.o.l._b < c.old.nxt)), ("new", Forall(0, x.n, lambda k: x.lp(k) != c.o.l._b, pats=lambda k: x.node(k)))]
    return r


def ins_ens(c):
    x, y = net(c, c.old), net(c, c.new)
    return wfn(c, c.o.net._b, c.new) + [
        ("one layer more", y.n == x.n + 1), ("the new layer is the output", y.lp(x.n) == c.o.l._b), ("in a node of its own", y.node(x.n) >= c.old.nxt),
        ("the others keep their places", Forall(0, x.n, lambda k: z3.And(y.node(k) == x.node(k), y.lp(k) == x.lp(k)), pats=lambda k: y.node(k))),
        ("outputs are the new layer's", z3.And(c.n.net.n_outputs == c.o.l.n_outputs, c.n.net.output._b == c.o.l.output._b)),
        ("inputs are the first layer's", c.n.net.n_inputs == z3.If(x.n == 0, c.o.l.n_inputs, c.o.net.n_inputs))] + other_nodes(c, x)


def other_nodes(c, x):
    F = lambda f, s: c.field("Llist", f, s)
    body = lambda p, f: z3.Implies(z3.And(p < c.old.nxt, z3.Not(z3.And(0 <= z3.Select(x.P, p), z3.Select(x.P, p) < x.n, x.node(z3.Select(x.P, p)) == p))), z3.Select(F(f, None), p) == z3.Select(F(f, c.old), p))
    return [("nodes of other networks keep their %s" % f, ForallP(lambda p, f=f: body(p, f), pats=lambda p, f=f: z3.Select(F(f, None), p))) for f in ("layer", "prev", "next")]


def ins_ghost(c, st):
    b = c.o.net._b
    x = net(c, c.old)
    h = z3.Select(c.field("Net", "head", st), b)
    N1 = defarr(st, lambda k: z3.If(k < x.n, x.node(k), z3.If(k == x.n, h, ival(0))))
    P1 = defarr(st, lambda p: z3.If(p == h, x.n, z3.Select(x.P, p)))
    C1_ = defarr(st, lambda p: z3.If(p == c.o.l._b, x.n, z3.Select(x.CP, p)))
    store_ghost(c, st, b, N=N1, P=P1, CP=C1_, n=x.n + 1)


def no_node(c, st):
    """no field on entry holds a pointer to a node that does not exist yet"""
    p = z3.Int("clo!p")
    for f in ("next", "prev"):
        F = c.field("Llist", f, st)
        st.fact(qall(p, z3.Select(F, p) < st.nxt, z3.Select(F, p)))


INSM = lambda c: NETM(c, c.o.net._b) + NODEM
add("neural_insert", "net l pos", requires=lambda c: ins_req(c) + [("at the output end", c.o.pos == net(c, c.old).n)], seqs=nseqs, modifies=INSM, ensures=ins_ens, ghost_exit=ins_ghost, setup=no_node, opts=O)
add("neural_push", "net l", requires=ins_req, modifies=INSM, ensures=ins_ens, opts=O)


def copy_inv(c, s, k):
    d, x = N(c, c.o.dest._b, s), N(c, c.o.src._b, c.old)
    return wfn(c, c.o.dest._b, s) + [("as many layers", d.n == k), ("each a copy of the layer in its place", Forall(0, k, lambda q: at(c, "cp_of", d.lp(q), s) == x.lp(q), pats=lambda q: d.node(q))),
                                     ("of its own", Forall(0, k, lambda q: z3.And(d.lp(q) >= c.old.nxt, d.node(q) >= c.old.nxt), pats=lambda q: d.node(q)))]


def src_kept(c, s):
    x = N(c, c.o.src._b, s)
    return Forall(0, x.n, lambda q: z3.And(x.lp(q) == N(c, c.o.src._b, c.old).lp(q), *[z3.Select(c.field("Llist", f, s), x.node(q)) == z3.Select(c.field("Llist", f, c.old), x.node(q)) for f in ("prev", "next")]), pats=lambda q: x.node(q))


def copy_cands(c, s, S0, k):
    d = N(c, c.o.dest._b, s)
    o = c.obj(c.o.dest._b, "Net", s)
    last = c.obj(d.lp(simp(k - 1)), "Layer", s)
    x = N(c, c.o.src._b, c.old)
    return [g for _, g in copy_inv(c, s, k)] + [z3.And(k <= x.n, v.base == x.node(k)) for v in vptrs(s, S0)] + [src_kept(c, s), z3.Implies(k >= 1, z3.And(o.n_outputs == last.n_outputs, o.output._b == last.output._b))]


add("neural_copy", "dest src", requires=lambda c: [nonnull(c.o.dest, c.o.src), c.o.dest._b != c.o.src._b] + wfn(c, c.o.src._b, c.old), seqs=lambda c, S0: [(N(c, c.o.src._b, c.old).node, N(c, c.o.src._b, c.old).n)],
    modifies=lambda c: NETM(c, c.o.dest._b) + [FAt("Net", "train", c.o.dest._b), GAll("cp_of")] + NODEM, cands=copy_cands, opts=O,
    ensures=lambda c: copy_inv(c, c.new, N(c, c.o.src._b, c.old).n) + [("the source is untouched", src_kept(c, c.new))])


def free_ens(c):
    x = net(c, c.old)
    dead = lambda p: z3.Select(c.g("freed"), p) == 1
    return [("every layer is released", Forall(0, x.n, lambda k: z3.And(at(c, "rel", x.lp(k)) == at(c, "rel", x.lp(k), c.old) + 1, dead(x.lp(k)), dead(x.node(k))), pats=lambda k: x.node(k))),
            ("none is left", z3.And(c.n.net.n_layers == 0, c.n.net.tail._b == 0))]


def free_cands(c, s, S0, k):
    x = net(c, c.old)
    o = c.obj(c.o.net._b, "Net", s)
    F = c.g("freed", s)
    return [z3.And(o.n_layers == x.n - k, k <= x.n), o.tail._b == x.node(k),
            Forall(0, k, lambda q: z3.And(at(c, "rel", x.lp(q), s) == at(c, "rel", x.lp(q), c.old) + 1, z3.Select(F, x.lp(q)) == 1, z3.Select(F, x.node(q)) == 1), pats=lambda q: x.node(q)),
            Forall(k, x.n, lambda q: z3.And(at(c, "rel", x.lp(q), s) == at(c, "rel", x.lp(q), c.old), z3.Select(F, x.lp(q)) == 0, z3.Select(F, x.node(q)) == 0), pats=lambda q: x.node(q)),
            ] + [v.base == x.node(k) for v in vptrs(s, S0)]


def free_req(c):
    x = net(c, c.old)
    return REQ(c) + [("layers and nodes are live and distinct", Forall(0, x.n, lambda k: z3.And(z3.Select(c.g("freed", c.old), x.lp(k)) == 0, z3.Select(c.g("freed", c.old), x.node(k)) == 0), pats=lambda k: x.node(k))),
                     ("layers are no nodes", Forall(0, x.n, lambda k: z3.And(z3.Select(x.P, x.lp(k)) == -1, z3.Select(x.CP, x.node(k)) == -1), pats=lambda k: x.node(k)))]


add("neural_free", "net", requires=free_req, seqs=nseqs, modifies=lambda c: [FAt("Net", "tail", c.o.net._b), FAt("Net", "n_layers", c.o.net._b), GAll("rel"), GAll("freed")], ensures=free_ens, cands=free_cands, opts=dict(O, track_free=True))


# ---------------------------------------------------------------- making a network from a description
INLOG = {"in_ni": "n_inputs", "in_h": "height", "in_w": "width", "in_c": "channels", "in_n": "n_init", "in_t": "type"}
LFIELDS = ("type", "state", "output", "options", "weights", "weight_active", "biases", "bias_updates", "weight_updates", "delta", "n_inputs", "n_outputs", "max_outputs", "n_weights", "n_biases", "n_active", "out_w", "out_h", "out_c")
add(V + "init", "l args", trusted=True, note=NOTE, modifies=lambda c: [FAt("Layer", f, c.o.l._b) for f in LFIELDS] + [GAt(g, c.o.l._b) for g in list(INLOG) + ["in_of"]],
    ensures=lambda c: [at(c, "in_of", c.o.l._b) == c.o.args._b] + [at(c, g, c.o.l._b) == getattr(c.o.args, f) for g, f in INLOG.items()])
SAMESIZE = ("AVGPOOL", "MAXPOOL", "DROPOUT", "UPSAMPLE", "SOFTMAX", "NOISE")


def args_list(c):
    x = N(c, c.o.arg._b, c.old)
    nx = c.field("ArgsLayer", "next", c.old)
    return [("a list of layer descriptions", z3.And(x.n >= 0, x.node(ival(0)) == c.o.arg._b, x.node(x.n) == 0)),
            ("of distinct parts", Forall(0, x.n, lambda k: z3.And(x.node(k) > 0, x.node(k) < c.old.nxt, z3.Select(x.P, x.node(k)) == k, z3.Select(nx, x.node(k)) == x.node(k + 1)), pats=lambda k: x.node(k)))]


def made(c, s, n):
    """the first n layers are those described, each fitted to the one before it"""
    x, y = N(c, c.o.arg._b, c.old), N(c, c.o.net._b, s)
    ty = c.field("ArgsLayer", "type", c.old)
    lg = lambda g, k: at(c, g, y.lp(k), s)

    def fit(k):
        p = y.l(k - 1)
        return z3.And(lg("in_ni", k) == p.n_outputs, lg("in_h", k) == p.out_h, lg("in_w", k) == p.out_w, lg("in_c", k) == p.out_c)
    return [("each description made a layer, in its place", Forall(0, n, lambda k: z3.And(lg("in_of", k) == x.node(k), lg("in_t", k) == z3.Select(ty, x.node(k))), pats=lambda k: y.node(k))),
            ("each is described with the outputs of the layer before it", Forall(1, n, fit, pats=lambda k: y.node(k))),
            ("layers that keep the size are given it", Forall(1, n, lambda k: z3.Implies(z3.Or(*[lg("in_t", k) == macro(t) for t in SAMESIZE]), lg("in_n", k) == y.l(k - 1).n_outputs), pats=lambda k: y.node(k)))]


def create_cands(c, s, S0, k):
    x, y = N(c, c.o.arg._b, c.old), N(c, c.o.net._b, s)
    o = c.obj(c.o.net._b, "Net", s)
    out = [g for _, g in wfn(c, c.o.net._b, s)] + [g for _, g in made(c, s, k)] + [y.n == k, k <= x.n,
        z3.Implies(k >= 1, z3.And(o.n_inputs == y.l(ival(0)).n_inputs, o.n_outputs == y.l(simp(k - 1)).n_outputs))]
    for v in vptrs(s, S0):
        out += [v.base == x.node(k), v.base == z3.If(k == 0, ival(0), y.lp(simp(k - 1)))]
    return out


add("neural_create", "net arg", requires=lambda c: [nonnull(c.o.net), c.o.net._b != c.o.arg._b] + args_list(c), seqs=lambda c, S0: [(N(c, c.o.arg._b, c.old).node, N(c, c.o.arg._b, c.old).n)],
    modifies=lambda c: NETM(c, c.o.net._b) + [FAt("Net", "train", c.o.net._b)] + NODEM + [FAll("ArgsLayer", f) for f in ("height", "width", "channels", "n_inputs", "n_init")] + [GAll(g) for g in list(INLOG) + ["in_of"]],
    cands=create_cands, ensures=lambda c: wfn(c, c.o.net._b, c.new) + [("one layer per description, at least one", z3.And(net(c, c.new).n == N(c, c.o.arg._b, c.old).n, net(c, c.new).n >= 1)),
        ("inputs are those of the first layer", c.n.net.n_inputs == net(c, c.new).l(ival(0)).n_inputs)] + made(c, c.new, net(c, c.new).n), opts=O)


# ---------------------------------------------------------------- storing a network
GHOST_SORTS["st_layer"] = AI
LTOK = 211


def lstate(c, p, st=None):
    return at(c, "st_layer", p, st)


def _ltok():
    G3 = [GAll("fsi"), GAll("fsz"), GAll("fpos")]

    def save_ens(c):
        q = pos(c, c.old)
        return [c.g("fsi") == z3.Store(c.g("fsi", c.old), q, lstate(c, c.o.l._b, c.old)), c.g("fsz") == z3.Store(c.g("fsz", c.old), q, ival(LTOK)), c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.ret == 1]

    def load_ens(c):
        q = pos(c, c.old)
        return [c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.g("st_layer") == z3.Store(c.g("st_layer", c.old), c.o.l._b, z3.Select(c.g("fsi", c.old), q)), c.ret == 1]
    return {"layer_save": Contract("layer_save", "l fp", modifies=lambda c: G3, ensures=save_ens, trusted=True),
            "layer_load": Contract("layer_load", "l fp", requires=lambda c: [("a layer is read where one was written", z3.Select(c.g("fsz", c.old), pos(c, c.old)) == LTOK)],
                                   modifies=lambda c: [GAll("fpos"), GAll("st_layer")] + [FAt("Layer", f, c.o.l._b) for f in LFIELDS], ensures=load_ens, trusted=True)}


def start():
    return z3.Const("stream_start", I)


def nl_pre(c, st):
    return [src_base() != c.o.net._b] + [g for _, g in wfn(c, src_base(), st)]


def nl_cands(c, s, S0, k):
    x, d = N(c, src_base(), c.old), N(c, c.o.net._b, s)
    o = c.obj(src_base(), "Net", c.old)
    fi, fz = c.g("fsi", s), c.g("fsz", s)
    rec = lambda j: z3.And(z3.Select(fi, start() + 3 + j) == lstate(c, x.lp(j), c.old), z3.Select(fz, start() + 3 + j) == LTOK)
    head = [z3.And(z3.Select(fi, simp(start() + i)) == v, z3.Select(fz, simp(start() + i)) == 104) for i, v in enumerate((x.n, o.n_inputs, o.n_outputs))]
    return head + [Forall(0, k, rec, pats=lambda j: x.node(j)), Forall(0, x.n, rec, pats=lambda j: x.node(j)), z3.Implies(k < x.n, rec(k)), pos(c, s) == start() + 3 + k, k <= x.n, d.n == k,
                   Forall(0, k, lambda j: z3.And(d.lp(j) >= c.old.nxt, d.node(j) >= c.old.nxt, lstate(c, d.lp(j), s) == lstate(c, x.lp(j), c.old)), pats=lambda j: d.node(j))] + [g for _, g in wfn(c, c.o.net._b, s)]


def nl_ens(c):
    x, d = N(c, src_base(), c.old), net(c, c.new)
    return [("as many layers", d.n == x.n), ("every layer is restored, in its place", Forall(0, x.n, lambda j: lstate(c, d.lp(j), c.new) == lstate(c, x.lp(j), c.old), pats=lambda j: d.node(j))),
            ("in storage of their own", Forall(0, x.n, lambda j: z3.And(d.lp(j) >= c.old.nxt, d.node(j) >= c.old.nxt), pats=lambda j: d.node(j)))] + wfn(c, c.o.net._b, c.new) + consumed(c)


add("neural_load", "net fp", requires=lambda c: [nonnull(c.o.net)], setup=after_save("neural_save", lambda c, b: [Ptr(b), Ptr(ival(7))], nl_pre), seqs=lambda c, S0: [(N(c, src_base(), S0).node, N(c, src_base(), S0).n)],
    modifies=lambda c: NETM(c, c.o.net._b) + [FAt("Net", "train", c.o.net._b), GAll("fpos"), GAll("st_layer")] + NODEM, cands=nl_cands, ensures=nl_ens, opts=dict(O, overlay=_ltok()))
