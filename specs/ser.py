"""Saving and loading. The contract of each load function is stated over the effect of the
real save function: the precondition's stream is produced by running the save code of the
tree on a ghost object, then load must rebuild that object and consume exactly what was
written. The two may thus change their format together."""
from .life import *


def pos(c, st=None):
    return z3.Select(c.g("fpos", st), ival(0))


def src_base():
    return z3.Const("arg_saved", I)


def after_save(save, mkargs, pre=None):
    """setup: run `save` on the ghost object, remember where it ended, rewind"""
    def setup(c, st):
        ex = c.ex
        fn, unit = ex.prog.func(save)
        if fn is None:
            raise Unsupported("no function " + save)
        b = src_base()
        st.fact(z3.And(b > 0, b < ex.nxt0))
        for f in (pre(c, st) if pre else ()):
            st.fact(conj(f))
        start = z3.Const("stream_start", I)
        if prove(st.terms(), z3.BoolVal(False), 1.0)[0] == "proved":
            raise Unsupported("contradictory description of the saved object")
        st.heap[("G", "fpos")] = z3.Store(ex.hmap(st, ("G", "fpos")), ival(0), start)
        keep, ex.cur_ctx = ex.cur_ctx, Ctx(ex, c.con, c.params, c.ptypes, st.copy(), st.copy(), None, c.rtype)
        ret = ex.inline(fn, unit, mkargs(c, b), st)
        ex.cur_ctx = keep
        end = z3.Select(st.heap[("G", "fpos")], ival(0))
        g = ex.hmap(st, ("G", "fend"))
        st.heap[("G", "fend")] = z3.Store(z3.Store(g, ival(0), end), ival(1), ret)
        st.heap[("G", "fpos")] = z3.Store(st.heap[("G", "fpos")], ival(0), start)
    return setup


def consumed(c):
    e = c.g("fend", c.old)
    return [("everything that was saved is read, nothing more", pos(c) == z3.Select(e, ival(0))),
            ("as many records are reported read as written", c.ret == z3.Select(e, ival(1)))]


STREAM = lambda c: [GAll("fpos")]


def cargs(c, b):
    return [Ptr(c.o.xcsf._b), Ptr(b), Ptr(ival(7))]


def src(c, slot, T, st=None):
    return getattr(c.obj(src_base(), "Cl", st or c.old), slot).as_(T)


def sep(c, st, slot, T, *fs):
    """the saved rule's parts"""
    o = c.obj(src_base(), "Cl", st)
    p = getattr(o, slot).as_(T)
    return [nonnull(p, *[getattr(p, f) for f in fs]), o._b != c.o.c._b]


def load(comp, slot, T, eq, arrs, pre=None, req=None, own=None, **k):
    add(comp + "_load", "xcsf c fp", requires=lambda c: [nonnull(c.o.c)] + (req(c) if req else []),
        setup=after_save(comp + "_save", cargs, lambda c, st: sep(c, st, slot, T, *arrs) + (pre(c, st) if pre else [])),
        modifies=lambda c: STREAM(c) + [FAt("Cl", slot, c.o.c._b)],
        ensures=lambda c: eq(c, src(c, slot, T), getattr(c.n.c, slot).as_(T)) + (own(c) if own else []) + consumed(c), **k)


DIM = lambda c: [("dimension", XD(c) >= 0)]
two_eq = lambda f1, f2: (lambda c, p, q: [eqarr(getattr(p, f1), getattr(q, f1), XD(c), "same " + f1), eqarr(getattr(p, f2), getattr(q, f2), XD(c), "same " + f2),
                                          ("same mutation rates", q.mu[0] == p.mu[0])])
load("cond_rectangle", "cond", "CondRectangle", two_eq("b1", "b2"), ("b1", "b2", "mu"), req=DIM, own=lambda c: own2(c, "c", "CondRectangle", "b1", "b2"))
load("cond_ellipsoid", "cond", "CondEllipsoid", two_eq("center", "spread"), ("center", "spread", "mu"), req=DIM, own=lambda c: own2(c, "c", "CondEllipsoid", "center", "spread"))
load("cond_ternary", "cond", "CondTernary",
     lambda c, p, q: [("same length", q.length == p.length), eqarr(p.string, q.string, p.length, "same symbols"), ("same mutation rates", q.mu[0] == p.mu[0])],
     ("string", "mu"), pre=lambda c, st: [src(c, "cond", "CondTernary", st).length >= 1], own=lambda c: tern_own(c, "c", src(c, "cond", "CondTernary").length))
load("act_integer", "act", "ActInteger", lambda c, p, q: [("same action", q.action == p.action), ("same mutation rates", q.mu[0] == p.mu[0])], ("mu",))


def lin_pre(kind):
    def f(c, st):
        p = src(c, "pred", "Pred" + kind.upper(), st)
        return [z3.And(p.n == npred(c, macro(PT[kind])), p.n_weights == p.n * c.o.xcsf.y_dim)]
    return f


load("pred_nlms", "pred", "PredNLMS",
     lambda c, p, q: [("same size", z3.And(q.n == p.n, q.n_weights == p.n_weights)), eqarr(p.weights, q.weights, p.n_weights, "same weights"),
                      ("same rates", z3.And(q.eta == p.eta, q.mu[0] == p.mu[0]))], ("weights", "mu"), pre=lin_pre("nlms"), req=lin_cfg,
     own=lambda c: lin_own(c, "nlms", "c"))
load("pred_rls", "pred", "PredRLS",
     lambda c, p, q: [("same size", z3.And(q.n == p.n, q.n_weights == p.n_weights)), eqarr(p.weights, q.weights, p.n_weights, "same weights"),
                      eqarr(p.matrix, q.matrix, p.n * p.n, "same gain matrix")], ("weights", "matrix"), pre=lin_pre("rls"), req=lin_cfg,
     own=lambda c: lin_own(c, "rls", "c"))
add("cond_dummy_load", "xcsf c fp", setup=after_save("cond_dummy_save", cargs), modifies=STREAM, ensures=consumed)
add("pred_constant_load", "xcsf c fp", setup=after_save("pred_constant_save", cargs), modifies=STREAM, ensures=consumed)

# ---------------------------------------------------------------- a component seen as one record
# state of a component, condition or prediction as a value; loading yields a new component in that state
ST = {}


def token(save, load, slot, code):
    """contracts for callers: what the round trip of a component amounts to"""
    g = "st_" + slot
    state = lambda c, o, st: z3.Select(c.g(g, st), getattr(o, slot)._b)
    fs = lambda c, st: (c.g("fsi", st), c.g("fsz", st), c.g("fpos", st))

    def save_ens(c):
        (i0, z0, p0), (i1, z1, p1) = fs(c, c.old), fs(c, c.new)
        q = pos(c, c.old)
        return [i1 == z3.Store(i0, q, state(c, c.o.c, c.old)), z1 == z3.Store(z0, q, ival(code)), p1 == z3.Store(p0, ival(0), q + 1), c.ret == 1]

    def load_ens(c):
        q = pos(c, c.old)
        return [c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), state(c, c.n.c, c.new) == z3.Select(c.g("fsi", c.old), q),
                getattr(c.n.c, slot)._b >= c.old.nxt, c.ret == 1]

    def load_req(c):
        r = [("a %s is read where one was written" % slot, z3.Select(c.g("fsz", c.old), pos(c, c.old)) == code)]
        return r
    s = Contract(save, "xcsf c fp", modifies=lambda c: [GAll("fsi"), GAll("fsz"), GAll("fpos")], ensures=save_ens, trusted=True)
    l = Contract(load, "xcsf c fp", requires=load_req, modifies=lambda c: [GAll("fpos"), FAt("Cl", slot, c.o.c._b), GAll(g)],
                 ensures=lambda c: load_ens(c) + [ForallP(lambda p: z3.Implies(p < c.old.nxt, z3.Select(c.g(g), p) == z3.Select(c.g(g, c.old), p)), pats=lambda p: z3.Select(c.g(g), p))],
                 trusted=True)
    return {save: s, load: l}


CHOSE = z3.Function("CHOSE", I, I, I)
CH = {"cond": 0, "pred": 1, "act": 2}


def chosen(slot, fn):
    """ghost: the table of the component was selected for this configuration"""
    v = slot + "_vptr"
    return Contract(fn, "xcsf c", modifies=lambda c: [FAt("Cl", v, c.o.c._b)] + ([FAt("Cl", "act_vptr", c.o.c._b)] if slot == "cond" else []),
                    ensures=lambda c: [getattr(c.n.c, v)._b == CHOSE(ival(CH[slot]), getattr(c.o.xcsf, {"cond": "cond", "pred": "pred", "act": "act"}[slot]).type)] + (
                        [z3.Or(c.n.c.act_vptr._b == c.o.c.act_vptr._b, c.n.c.act_vptr._b == CHOSE(ival(3), c.o.xcsf.cond.type))] if slot == "cond" else []), trusted=True)


OV = {}
for _slot, _vt, _set in (("cond", "CondVtbl", "condition_set"), ("pred", "PredVtbl", "prediction_set"), ("act", "ActVtbl", "action_set")):
    OV.update(token("%s.%s_impl_save" % (_vt, _slot), "%s.%s_impl_load" % (_vt, _slot), _slot, 200 + CH[_slot]))
    OV[_set] = chosen(_slot, _set)

    def _need(slot, con):
        old = con.requires
        con.requires = lambda c: old(c) + [("its implementation was chosen before", z3.Or(
            getattr(c.o.c, slot + "_vptr")._b == CHOSE(ival(CH[slot]), getattr(c.o.xcsf, slot).type),
            z3.And(slot == "act", getattr(c.o.c, "act_vptr")._b == CHOSE(ival(3), c.o.xcsf.cond.type))))]
    _need(_slot, OV["%s.%s_impl_load" % (_vt, _slot)])

RFIELDS = ("err", "fit", "num", "exp", "size", "time", "m", "age", "mtotal", "action")


def rule_eq(c):
    p, q = c.obj(src_base(), "Cl", c.old), c.n.c
    return [("same " + f, getattr(q, f) == getattr(p, f)) for f in RFIELDS] + [
        eqarr(p.prediction, q.prediction, c.o.xcsf.y_dim, "same prediction"),
        ("its own prediction vector", z3.And(q.prediction._b >= c.old.nxt, bytes_(c, q.prediction._b) >= 8 * c.o.xcsf.y_dim))] + [
        ("same state of the " + n, z3.Select(c.g("st_" + s, c.new), getattr(q, s)._b) == z3.Select(c.g("st_" + s, c.old), getattr(p, s)._b)) for s, n in (
            ("cond", "condition"), ("pred", "prediction"), ("act", "action"))]


add("cl_load", "xcsf c fp", requires=lambda c: [nonnull(c.o.c), ("outputs", c.o.xcsf.y_dim >= 1)],
    setup=after_save("cl_save", cargs, lambda c, st: [nonnull(c.obj(src_base(), "Cl", st).prediction), src_base() != c.o.c._b,
                                                    *[getattr(c.obj(src_base(), "Cl", st), s)._b < c.ex.nxt0 for s in ("cond", "act", "pred")]]),
    modifies=lambda c: STREAM(c) + [FAt("Cl", f, c.o.c._b) for f in RFIELDS + ("prediction", "cond", "pred", "act", "cond_vptr", "pred_vptr", "act_vptr")] + [
        GAll("st_" + s) for s in CH],
    ensures=lambda c: rule_eq(c) + consumed(c), opts={"overlay": OV})

# ---------------------------------------------------------------- GP trees and DGP graphs
GPF = ("len", "pos")
DGF = ("evolve_cycles", "n_inputs", "n", "t", "klen", "max_t", "max_k")


def tree_eq(c, p, q):
    return same_("tree", GPF, p, q) + [eqarr(p.tree, q.tree, p.len, "same tree"), ("same mutation rates", q.mu[0] == p.mu[0]),
                                       ("its own storage", z3.And(q.tree._b >= c.old.nxt, q.mu._b >= c.old.nxt, q.tree._b != q.mu._b, bytes_(c, q.tree._b) >= 4 * p.len, bytes_(c, q.mu._b) >= 8))]


def graph_eq(c, p, q):
    arr = (("state", p.n, 8), ("initial_state", p.n, 8), ("function", p.n, 4), ("connectivity", p.klen, 4))
    own = [getattr(q, a)._b for a in ("state", "initial_state", "function", "connectivity", "mu", "tmp_state", "tmp_input")]
    return same_("graph", DGF, p, q) + [eqarr(getattr(p, a), getattr(q, a), n, "same " + a) for a, n, _ in arr] + [
        ("same mutation rates", z3.And(*[q.mu[i] == p.mu[i] for i in range(3)])),
        ("its own storage", z3.And(z3.Distinct(*own), *[b >= c.old.nxt for b in own])),
        ("room", z3.And(*[bytes_(c, getattr(q, a)._b) >= w * n for a, n, w in arr + (("tmp_state", p.n, 8), ("tmp_input", p.max_k, 8), ("mu", ival(3), 8))]))]


def same_(w, fs, p, q):
    return [("same %s %s" % (w, f), getattr(q, f) == getattr(p, f)) for f in fs]


def tree_ok(p):
    return [nonnull(p.tree, p.mu), p.len >= 1, p.tree._b != p.mu._b]


def graph_ok(p):
    return [nonnull(p.state, p.initial_state, p.function, p.connectivity, p.mu), p.n >= 1, p.klen >= 1, p.max_k >= 0]


def kind(comp, T, sub, ok, eq, inl, extra=None, pre=None):
    def cpre(c, st):
        o = c.obj(src_base(), "Cl", st)
        p = o.cond.as_(T)
        return [p._b > 0, o._b != c.o.c._b] + ok(getattr(p, sub)) + (pre(c, p) if pre else [])
    add(comp + "_load", "xcsf c fp", requires=lambda c: [nonnull(c.o.c)], setup=after_save(comp + "_save", cargs, cpre),
        modifies=lambda c: STREAM(c) + [FAt("Cl", "cond", c.o.c._b)],
        ensures=lambda c: eq(c, getattr(src(c, "cond", T), sub), getattr(c.n.c.cond.as_(T), sub)) + [("its own condition", c.n.c.cond._b >= c.old.nxt)] + (
            extra(c, src(c, "cond", T), c.n.c.cond.as_(T)) if extra else []) + consumed(c), inline=inl, opts={"parts": True})


kind("cond_gp", "CondGP", "gp", tree_ok, tree_eq, ("tree_load", "tree_save"))
kind("cond_dgp", "CondDGP", "dgp", graph_ok, graph_eq, ("graph_load", "graph_save"))



def n_out(c):
    """bits needed to name every action"""
    from dv.builtins import ufr
    v = ufr("log2")(z3.ToReal(c.o.xcsf.n_actions))
    up = -z3.ToReal(z3.ToInt(-v))
    return z3.ToInt(z3.If(up > 1, up, rval(1)))


kind("rule_dgp_cond", "RuleDGP", "dgp", graph_ok, graph_eq, ("graph_load", "graph_save"), pre=lambda c, p: [p.n_outputs == n_out(c)],
     extra=lambda c, p, q: [("same number of action nodes", q.n_outputs == p.n_outputs)])
