"""Single rules: actions, accuracy, parameter updates, subsumption tests,
genetic operators; the component virtual tables are abstracted by contracts."""
from .cond import *

MATCHF = z3.Function("MATCHF", I, I, I, I)     # (xcsf, classifier, input) -> 0/1
ACTF = z3.Function("ACTF", I, I, I, I)
PREDA = z3.Function("PREDA", I, I, I, AR)      # (xcsf, classifier, input) -> prediction vector


def PREDF(x, c, i, j):
    return z3.Select(PREDA(x, c, i), j)


GENC = z3.Function("GENC", I, I, I, I)
GENA = z3.Function("GENA", I, I, I, I)
SIZEC = z3.Function("SIZEC", I, I, R)
SIZEP = z3.Function("SIZEP", I, I, R)
LOSSF = z3.Function("LOSSF", AR, AR, R)
POW = ufr("pow", 2)

VNOTE = "rule components (condition, prediction, action implementations) touch only their own storage"


def isb(v):
    return z3.And(v >= 0, v <= 1)


def vt(name, params, **k):
    k.setdefault("note", VNOTE)
    add(name, params, trusted=True, **k)


HASD = z3.Function("KEEPSDATA", I, z3.BoolSort())     # implementations that keep data of their own (a dummy condition does not)


def own_part(c, nm, f):
    """that part of the rule lies in storage of its own, if its kind keeps any"""
    o = c.view(nm, c.new)
    return z3.Or(z3.Not(HASD(getattr(o, f + "_vptr")._b)), getattr(o, f)._b >= c.old.nxt)


vt("CondVtbl.cond_impl_match", "xcsf c x", ensures=lambda c: [isb(c.ret), c.ret == MATCHF(c.o.xcsf._b, c.o.c._b, c.o.x._b)])
vt("CondVtbl.cond_impl_general", "xcsf c1 c2", ensures=lambda c: [isb(c.ret), c.ret == GENC(c.o.xcsf._b, c.o.c1._b, c.o.c2._b)])
vt("CondVtbl.cond_impl_crossover", "xcsf c1 c2", modifies=lambda c: [GAt("xo_c", c.o.c1._b), GAt("xo_c", c.o.c2._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("xo_c"), c.o.c1._b) == c.ret, z3.Select(c.g("xo_c"), c.o.c2._b) == c.ret])
vt("CondVtbl.cond_impl_mutate", "xcsf c", modifies=lambda c: [GAt("mu_c", c.o.c._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("mu_c"), c.o.c._b) == c.ret])
vt("CondVtbl.cond_impl_copy", "xcsf dest src", modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b), GAt("cpy_c", c.o.dest._b)],
   ensures=lambda c: [own_part(c, "dest", "cond"), z3.Select(c.g("cpy_c"), c.o.dest._b) == c.o.src._b])
vt("CondVtbl.cond_impl_init", "xcsf c", modifies=lambda c: [FAt("Cl", "cond", c.o.c._b), GAt("ini_c", c.o.c._b)],
   ensures=lambda c: [own_part(c, "c", "cond"), z3.Select(c.g("ini_c"), c.o.c._b) == 1])
vt("CondVtbl.cond_impl_cover", "xcsf c x", modifies=lambda c: [GAt("cov_c", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("cov_c"), c.o.c._b) == c.o.x._b])
vt("CondVtbl.cond_impl_update", "xcsf c x y", modifies=lambda c: [GAt("upd_c", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("upd_c"), c.o.c._b) == z3.Select(c.g("upd_c", c.old), c.o.c._b) + 1])
vt("CondVtbl.cond_impl_free", "xcsf c", modifies=lambda c: [GAt("fre_c", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("fre_c"), c.o.c._b) == z3.Select(c.g("fre_c", c.old), c.o.c._b) + 1])
vt("CondVtbl.cond_impl_size", "xcsf c", ensures=lambda c: [c.ret == SIZEC(c.o.xcsf._b, c.o.c._b)])

vt("PredVtbl.pred_impl_compute", "xcsf c x", modifies=lambda c: [AAt("double", c.o.c.prediction._b)],
   ensures=lambda c: [c.n.c.prediction.arr == PREDA(c.o.xcsf._b, c.o.c._b, c.o.x._b)])
vt("PredVtbl.pred_impl_crossover", "xcsf c1 c2", modifies=lambda c: [GAt("xo_p", c.o.c1._b), GAt("xo_p", c.o.c2._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("xo_p"), c.o.c1._b) == c.ret, z3.Select(c.g("xo_p"), c.o.c2._b) == c.ret])
vt("PredVtbl.pred_impl_mutate", "xcsf c", modifies=lambda c: [GAt("mu_p", c.o.c._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("mu_p"), c.o.c._b) == c.ret])
vt("PredVtbl.pred_impl_copy", "xcsf dest src", modifies=lambda c: [FAt("Cl", "pred", c.o.dest._b), GAt("cpy_p", c.o.dest._b), GAt("ini_p", c.o.dest._b)],
   ensures=lambda c: [own_part(c, "dest", "pred"), z3.Select(c.g("cpy_p"), c.o.dest._b) == c.o.src._b,
                      z3.Select(c.g("ini_p"), c.o.dest._b) == 0])
vt("PredVtbl.pred_impl_init", "xcsf c", modifies=lambda c: [FAt("Cl", "pred", c.o.c._b), GAt("ini_p", c.o.c._b), GAt("cpy_p", c.o.c._b)],
   ensures=lambda c: [own_part(c, "c", "pred"), z3.Select(c.g("ini_p"), c.o.c._b) == 1])
vt("PredVtbl.pred_impl_update", "xcsf c x y", modifies=lambda c: [GAt("upd_p", c.o.c._b), AAt("double", c.o.c.prediction._b)],
   ensures=lambda c: [z3.Select(c.g("upd_p"), c.o.c._b) == z3.Select(c.g("upd_p", c.old), c.o.c._b) + 1])
vt("PredVtbl.pred_impl_free", "xcsf c", modifies=lambda c: [GAt("fre_p", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("fre_p"), c.o.c._b) == z3.Select(c.g("fre_p", c.old), c.o.c._b) + 1])
vt("PredVtbl.pred_impl_size", "xcsf c", ensures=lambda c: [c.ret == SIZEP(c.o.xcsf._b, c.o.c._b)])

vt("ActVtbl.act_impl_compute", "xcsf c x",
   ensures=lambda c: [c.ret == ACTF(c.o.xcsf._b, c.o.c._b, c.o.x._b), 0 <= c.ret, c.ret < c.o.xcsf.n_actions])
vt("ActVtbl.act_impl_general", "xcsf c1 c2", ensures=lambda c: [isb(c.ret), c.ret == GENA(c.o.xcsf._b, c.o.c1._b, c.o.c2._b)])
vt("ActVtbl.act_impl_crossover", "xcsf c1 c2", modifies=lambda c: [GAt("xo_a", c.o.c1._b), GAt("xo_a", c.o.c2._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("xo_a"), c.o.c1._b) == c.ret, z3.Select(c.g("xo_a"), c.o.c2._b) == c.ret])
vt("ActVtbl.act_impl_mutate", "xcsf c", modifies=lambda c: [GAt("mu_a", c.o.c._b)],
   ensures=lambda c: [isb(c.ret), z3.Select(c.g("mu_a"), c.o.c._b) == c.ret])
vt("ActVtbl.act_impl_copy", "xcsf dest src", modifies=lambda c: [FAt("Cl", "act", c.o.dest._b), GAt("cpy_a", c.o.dest._b)],
   ensures=lambda c: [own_part(c, "dest", "act"), z3.Select(c.g("cpy_a"), c.o.dest._b) == c.o.src._b])
vt("ActVtbl.act_impl_init", "xcsf c", modifies=lambda c: [FAt("Cl", "act", c.o.c._b), GAt("ini_a", c.o.c._b)],
   ensures=lambda c: [own_part(c, "c", "act"), z3.Select(c.g("ini_a"), c.o.c._b) == 1])
vt("ActVtbl.act_impl_cover", "xcsf c x action", modifies=lambda c: [GAt("cov_a", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("cov_a"), c.o.c._b) == c.o.action])
vt("ActVtbl.act_impl_update", "xcsf c x y", modifies=lambda c: [GAt("upd_a", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("upd_a"), c.o.c._b) == z3.Select(c.g("upd_a", c.old), c.o.c._b) + 1])
vt("ActVtbl.act_impl_free", "xcsf c", modifies=lambda c: [GAt("fre_a", c.o.c._b)],
   ensures=lambda c: [z3.Select(c.g("fre_a"), c.o.c._b) == z3.Select(c.g("fre_a", c.old), c.o.c._b) + 1])
vt("XCSF.loss_ptr", "xcsf pred y", ensures=lambda c: [c.ret == LOSSF(c.o.pred.arr, c.o.y.arr), c.ret >= 0],
   note="the configured loss is one of the functions of loss.c (each under its own contract); only its non-negativity is used")

# ---------------------------------------------------------------- rule
add("cl_init", "xcsf c size time",
    requires=lambda c: [nonnull(c.o.c)],
    modifies=lambda c: [FAt("Cl", f, c.o.c._b) for f in
                        ("fit", "err", "num", "exp", "size", "time", "prediction", "action", "m", "age", "mtotal")],
    ensures=lambda c: [
        ("initial parameters", z3.And(c.n.c.fit == c.o.xcsf.INIT_FITNESS, c.n.c.err == c.o.xcsf.INIT_ERROR,
                                      c.n.c.num == 1, c.n.c.exp == 0, c.n.c.size == c.o.size, c.n.c.time == c.o.time,
                                      c.n.c.age == 0, c.n.c.mtotal == 0, c.n.c.action == 0, c.n.c.m == 0)),
        ("own zeroed prediction", z3.And(c.n.c.prediction._b >= c.old.nxt)),
        ("prediction is zero", Forall(0, c.o.xcsf.y_dim, lambda j: c.n.c.prediction[j] == 0))])

add("cl_acc", "xcsf c",
    ensures=lambda c: [("accuracy", c.ret == z3.If(
        c.o.c.err > c.o.xcsf.E0,
        maxr(c.o.xcsf.ALPHA * POW(rdiv(c.o.c.err, c.o.xcsf.E0), -c.o.xcsf.NU), EPS), rval(1))),
        ("positive", c.ret > 0)])

def del_vote(x, c, avg):
    """deletion vote of rule c (views at one state)"""
    return z3.If(z3.And(c.exp > x.THETA_DEL, c.fit < x.DELTA * avg * toreal(c.num)),
                 rdiv(c.size * toreal(c.num) * avg, rdiv(c.fit, toreal(c.num))),
                 c.size * toreal(c.num))


add("cl_del_vote", "xcsf c avg_fit",
    ensures=lambda c: [("deletion vote", c.ret == del_vote(c.o.xcsf, c.o.c, c.o.avg_fit))])

add("cl_update_fit", "xcsf c acc_sum acc",
    modifies=lambda c: [FAt("Cl", "fit", c.o.c._b)],
    ensures=lambda c: [("fitness moves to the relative accuracy", c.n.c.fit == c.o.c.fit + c.o.xcsf.BETA * (
        rdiv(c.o.acc * toreal(c.o.c.num), c.o.acc_sum) - c.o.c.fit)),
        ("and stays positive", z3.Implies(z3.And(c.o.c.fit > 0, 0 <= c.o.xcsf.BETA, c.o.xcsf.BETA <= 1, c.o.acc > 0, c.o.c.num >= 1, c.o.acc_sum > 0),
                                          c.n.c.fit > 0))])


def upd_ens(c):
    o, n, x = c.o.c, c.n.c, c.o.xcsf
    e1 = toreal(o.exp + 1)
    # the constant predictor keeps its state in the prediction vector, so the
    # vector that was scored is the one before the components are updated
    err = LOSSF(z3.If(c.o.cur == 0, PREDA(x._b, o._b, c.o.x._b), o.prediction.arr), c.o.y.arr)
    sn = toreal(c.o.set_num)
    mam = e1 * x.BETA < 1
    return [("experience", n.exp == o.exp + 1),
            ("error: running mean, then Widrow-Hoff", n.err == z3.If(
                mam, rdiv(o.err * toreal(o.exp) + err, e1), o.err + x.BETA * (err - o.err))),
            ("set size: running mean, then Widrow-Hoff", n.size == z3.If(
                mam, rdiv(o.size * toreal(o.exp) + sn, e1), o.size + x.BETA * (sn - o.size))),
            ("each component updated once", z3.And(*[
                z3.Select(c.g(g), o._b) == z3.Select(c.g(g, c.old), o._b) + 1 for g in ("upd_c", "upd_p", "upd_a")]))]


add("cl_update", "xcsf c x y set_num cur",
    requires=lambda c: [c.o.c.prediction._b != c.o.y._b, c.o.c.exp >= 0],
    modifies=lambda c: [FAt("Cl", f, c.o.c._b) for f in ("exp", "err", "size")] + [AAt("double", c.o.c.prediction._b)] +
                       [GAt(g, c.o.c._b) for g in ("upd_c", "upd_p", "upd_a")],
    ensures=upd_ens)

add("cl_match", "xcsf c x",
    modifies=lambda c: [FAt("Cl", f, c.o.c._b) for f in ("m", "mtotal", "age")],
    ensures=lambda c: [("result is the condition's verdict", c.ret == MATCHF(c.o.xcsf._b, c.o.c._b, c.o.x._b)),
                       ("recorded", c.n.c.m == c.ret),
                       ("counts", z3.And(c.n.c.age == c.o.c.age + 1, c.n.c.mtotal == c.o.c.mtotal + c.ret))])
add("cl_mfrac", "xcsf c",
    ensures=lambda c: [("fraction matched", c.ret == z3.If(c.o.c.age > 0, rdiv(toreal(c.o.c.mtotal), toreal(c.o.c.age)), rval(0)))])
add("cl_m", "xcsf c", ensures=lambda c: [("flag", c.ret == c.o.c.m)])
add("cl_action", "xcsf c x",
    modifies=lambda c: [FAt("Cl", "action", c.o.c._b)],
    ensures=lambda c: [("computed and recorded", z3.And(c.ret == ACTF(c.o.xcsf._b, c.o.c._b, c.o.x._b), c.n.c.action == c.ret,
                                                       0 <= c.ret, c.ret < c.o.xcsf.n_actions))])
add("cl_predict", "xcsf c x",
    modifies=lambda c: [AAt("double", c.o.c.prediction._b)],
    ensures=lambda c: [("own prediction returned", c.ret._b == c.o.c.prediction._b),
                       ("computed", c.n.c.prediction.arr == PREDA(c.o.xcsf._b, c.o.c._b, c.o.x._b))])
add("cl_subsumer", "xcsf c",
    ensures=lambda c: [("experienced and accurate", iff(c.ret, z3.And(c.o.c.exp > c.o.xcsf.THETA_SUB, c.o.c.err < c.o.xcsf.E0)))])
add("cl_general", "xcsf c1 c2",
    ensures=lambda c: [("condition and action both at least as general", iff(c.ret, z3.And(
        GENC(c.o.xcsf._b, c.o.c1._b, c.o.c2._b) == 1, GENA(c.o.xcsf._b, c.o.c1._b, c.o.c2._b) == 1)))])
add("cl_mutate", "xcsf c",
    modifies=lambda c: [GAt(g, c.o.c._b) for g in ("mu_c", "mu_p", "mu_a")],
    ensures=lambda c: [("reports a change iff some component changed", iff(c.ret, z3.Or(
        z3.Select(c.g("mu_c"), c.o.c._b) == 1, z3.Select(c.g("mu_p"), c.o.c._b) == 1,
        z3.And(c.o.xcsf.n_actions > 1, z3.Select(c.g("mu_a"), c.o.c._b) == 1))))])
add("cl_crossover", "xcsf c1 c2",
    modifies=lambda c: [GAt(g, x._b) for g in ("xo_c", "xo_p", "xo_a") for x in (c.o.c1, c.o.c2)],
    ensures=lambda c: [("reports a change iff some component changed", iff(c.ret, z3.Or(*[
        z3.Select(c.g(g), x._b) == 1 for g in ("xo_c", "xo_p", "xo_a")]))) for x in (c.o.c1, c.o.c2)])
add("cl_cond_size", "xcsf c", ensures=lambda c: [("size", c.ret == SIZEC(c.o.xcsf._b, c.o.c._b))])
add("cl_pred_size", "xcsf c", ensures=lambda c: [("size", c.ret == SIZEP(c.o.xcsf._b, c.o.c._b))])

CLF = ("fit", "err", "num", "exp", "size", "time", "action", "m", "age", "mtotal")
VPS = ("cond_vptr", "pred_vptr", "act_vptr")


def vsame(c):
    return ("same implementations", z3.And(*[getattr(c.n.dest, f)._b == getattr(c.o.src, f)._b for f in VPS]))


add("cl_copy", "xcsf dest src",
    requires=lambda c: [nonnull(c.o.dest, c.o.src), distinct(c.o.dest, c.o.src)],
    modifies=lambda c: [FAt("Cl", f, c.o.dest._b) for f in VPS + ("cond", "pred", "act")] +
                       [GAt(g, c.o.dest._b) for g in ("cpy_c", "cpy_p", "cpy_a", "ini_p")],
    ensures=lambda c: [vsame(c), ("components copied", z3.And(
        z3.Select(c.g("cpy_c"), c.o.dest._b) == c.o.src._b, z3.Select(c.g("cpy_a"), c.o.dest._b) == c.o.src._b,
        z3.If(c.o.xcsf.ea.pred_reset != 0, z3.Select(c.g("ini_p"), c.o.dest._b) == 1,
              z3.And(z3.Select(c.g("cpy_p"), c.o.dest._b) == c.o.src._b, z3.Select(c.g("ini_p"), c.o.dest._b) == 0)))),
        ("own storage", z3.And(*[own_part(c, "dest", f) for f in ("cond", "pred", "act")]))])
add("cl_init_copy", "xcsf dest src",
    requires=lambda c: [nonnull(c.o.dest, c.o.src), distinct(c.o.dest, c.o.src)],
    modifies=lambda c: [FAt("Cl", f, c.o.dest._b) for f in VPS + CLF + ("cond", "pred", "act", "prediction")] +
                       [GAt(g, c.o.dest._b) for g in ("cpy_c", "cpy_p", "cpy_a", "ini_p")],
    ensures=lambda c: [vsame(c), ("components copied", z3.And(*[
        z3.Select(c.g(g), c.o.dest._b) == c.o.src._b for g in ("cpy_c", "cpy_p", "cpy_a")])),
        ("parameters copied", z3.And(*[getattr(c.n.dest, f) == getattr(c.o.src, f) for f in CLF])),
        ("current prediction copied", Forall(0, c.o.xcsf.y_dim, lambda j: c.n.dest.prediction[j] == c.o.src.prediction[j], pats=lambda j: c.n.dest.prediction[j])),
        ("own storage", z3.And(c.n.dest.prediction._b >= c.old.nxt, *[own_part(c, "dest", f) for f in ("cond", "pred", "act")]))])

vt("action_set", "xcsf c", modifies=lambda c: [FAt("Cl", "act_vptr", c.o.c._b)], note="selects a virtual table by configured type")
vt("prediction_set", "xcsf c", modifies=lambda c: [FAt("Cl", "pred_vptr", c.o.c._b)], note="selects a virtual table by configured type")
vt("condition_set", "xcsf c", modifies=lambda c: [FAt("Cl", "cond_vptr", c.o.c._b)], note="selects a virtual table by configured type")
add("cl_rand", "xcsf c",
    requires=lambda c: [nonnull(c.o.c)],
    modifies=lambda c: [FAt("Cl", f, c.o.c._b) for f in VPS + ("cond", "pred", "act")] +
                       [GAt(g, c.o.c._b) for g in ("ini_c", "ini_p", "ini_a", "cpy_p")],
    ensures=lambda c: [("all components initialised", z3.And(*[z3.Select(c.g(g), c.o.c._b) == 1 for g in ("ini_c", "ini_p", "ini_a")])),
                       ("own storage", z3.And(*[own_part(c, "c", f) for f in ("cond", "pred", "act")]))])
add("cl_cover", "xcsf c x action",
    requires=lambda c: [nonnull(c.o.c)],
    modifies=lambda c: [FAt("Cl", f, c.o.c._b) for f in VPS + ("cond", "pred", "act", "m", "action")] +
                       [GAt(g, c.o.c._b) for g in ("ini_c", "ini_p", "ini_a", "cov_c", "cov_a", "cpy_p")],
    ensures=lambda c: [("condition covers the input, action is the requested one", z3.And(
        z3.Select(c.g("cov_c"), c.o.c._b) == c.o.x._b, z3.Select(c.g("cov_a"), c.o.c._b) == c.o.action)),
        ("components initialised", z3.And(*[z3.Select(c.g(g), c.o.c._b) == 1 for g in ("ini_c", "ini_p", "ini_a")])),
        ("marked as matching with that action", z3.And(c.n.c.m == 1, c.n.c.action == c.o.action))])
add("cl_free", "xcsf c",
    requires=lambda c: [nonnull(c.o.c)],
    modifies=lambda c: [GAt(g, c.o.c._b) for g in ("fre_c", "fre_p", "fre_a")],
    ensures=lambda c: [("every component freed once", z3.And(*[
        z3.Select(c.g(g), c.o.c._b) == z3.Select(c.g(g, c.old), c.o.c._b) + 1 for g in ("fre_c", "fre_p", "fre_a")]))])


# ---------------------------------------------------------------- integer actions
def ai(c, nm, st):
    return c.view(nm, st).act.as_("ActInteger")


add("act_integer_general", "xcsf c1 c2",
    ensures=lambda c: [("same action", iff(c.ret, ai(c, "c1", c.old).action == ai(c, "c2", c.old).action))])
add("act_integer_crossover", "xcsf c1 c2", ensures=lambda c: [("nothing changes", c.ret == 0)])
add("act_integer_mutate", "xcsf c",
    requires=lambda c: [c.o.xcsf.n_actions >= 1, 0 <= ai(c, "c", c.old).action, ai(c, "c", c.old).action < c.o.xcsf.n_actions,
                        mu1(c, ai(c, "c", c.old))],
    modifies=lambda c: [FAt("ActInteger", "action", c.o.c.act._b), AAt("double", ai(c, "c", c.old).mu._b)],
    ensures=lambda c: [("reports a change iff the action changed", iff(c.ret, ai(c, "c", c.new).action != ai(c, "c", c.old).action)),
                       ("action stays valid", z3.And(0 <= ai(c, "c", c.new).action, ai(c, "c", c.new).action < c.o.xcsf.n_actions)),
                       mu1(c, ai(c, "c", c.new))])
add("act_integer_compute", "xcsf c x", ensures=lambda c: [("the action", c.ret == ai(c, "c", c.old).action)])
add("act_integer_cover", "xcsf c x action", modifies=lambda c: [FAt("ActInteger", "action", c.o.c.act._b)],
    ensures=lambda c: [("the action", ai(c, "c", c.new).action == c.o.action)])
add("act_integer_copy", "xcsf dest src",
    requires=lambda c: [nonnull(c.o.dest, c.o.src)],
    modifies=lambda c: [FAt("Cl", "act", c.o.dest._b)],
    ensures=lambda c: (lambda a, b: [("own storage", z3.And(b._b >= c.old.nxt, b.mu._b >= c.old.nxt)),
                                     ("equal", z3.And(a.action == b.action, a.mu[0] == b.mu[0]))])(ai(c, "src", c.old), ai(c, "dest", c.new)))
add("act_integer_init", "xcsf c",
    requires=lambda c: [nonnull(c.o.c), c.o.xcsf.n_actions >= 1],
    modifies=lambda c: [FAt("Cl", "act", c.o.c._b)],
    ensures=lambda c: (lambda b: [("own storage", z3.And(b._b >= c.old.nxt, b.mu._b >= c.old.nxt)),
                                  ("valid action", z3.And(0 <= b.action, b.action < c.o.xcsf.n_actions)), mu1(c, b)])(ai(c, "c", c.new)))
