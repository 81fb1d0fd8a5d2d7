"""Reinforcement learning: single steps, trials, experiments."""
from .proto import *

tr("XCSF.loss_ptr", "xcsf pred y", ensures=lambda c: [c.ret == LOSS1(at0(c, c.o.pred), at0(c, c.o.y))],
   note="with one output the configured loss compares the first entry of each vector")


def states(c, st=None, **want):
    return [("%s is %s" % (k.replace("_", " "), ["closed", "open", "stale", "dangling"][v]), ty(c, k, st) == v) for k, v in want.items()]


def usable(c, *names):
    return [("%s holds no released rules" % f.replace("_", " "), z3.And(ty(c, f, c.old) >= OPEN, ty(c, f, c.old) <= STALE)) for f in names]


def hasprev(c):
    return c.o.xcsf.prev_aset.list._b != 0


def onedim(c):
    x = c.o.xcsf
    return [("one output", x.y_dim == 1), ("prediction array", z3.And(x.pa_size == x.n_actions, x.n_actions >= 1)), ("inputs", x.x_dim >= 1)]


def act_ok(c):
    return ("a valid action", z3.And(0 <= c.o.action, c.o.action < c.o.xcsf.n_actions))


# ---------------------------------------------------------------- parts of a trial
padd("xcs_rl_init_trial", "xcsf", requires=lambda c: states(c, c.old, prev_aset=CLOSED, kset=CLOSED),
    modifies=lambda c: setf(sb(c, "prev_aset")) + setf(sb(c, "kset")) + [GAt("ty", sb(c, "prev_aset")), GAt("ty", sb(c, "kset"))] +
    [FAt("XCSF", f, c.o.xcsf._b) for f in ("prev_reward", "prev_pred", "prev_state")],
    ensures=lambda c: states(c, prev_aset=OPEN, kset=OPEN) + [
        ("no previous action set", c.n.xcsf.prev_aset.list._b == 0), ("previous reward and prediction are zero", z3.And(c.n.xcsf.prev_reward == 0, c.n.xcsf.prev_pred == 0)),
        ("own copy of the previous state", z3.And(c.n.xcsf.prev_state._b >= c.old.nxt, z3.Select(c.g("bytes"), c.n.xcsf.prev_state._b) >= 8 * c.o.xcsf.x_dim)),
        ("which is live", z3.Select(c.g("freed"), c.n.xcsf.prev_state._b) == 0)], opts={"track_free": True})
padd("xcs_rl_end_trial", "xcsf", requires=lambda c: [("previous action set open", ty(c, "prev_aset", c.old) != CLOSED), ("match set closed", ty(c, "mset", c.old) == CLOSED),
                                                    ("action set closed", ty(c, "aset", c.old) == CLOSED), ("live state copy", z3.Select(c.g("freed", c.old), c.o.xcsf.prev_state._b) == 0)] + states(c, c.old, kset=OPEN),
    modifies=lambda c: setf(sb(c, "prev_aset")) + setf(sb(c, "kset")) + [GAll("ty"), GAll("freed")],
    ensures=lambda c: states(c, prev_aset=CLOSED, kset=CLOSED, mset=CLOSED, aset=CLOSED) + [("the state copy is released", z3.Select(c.g("freed"), c.o.xcsf.prev_state._b) == 1)],
    opts={"track_free": True})
padd("xcs_rl_init_step", "xcsf", requires=lambda c: states(c, c.old, mset=CLOSED, aset=CLOSED),
    modifies=lambda c: setf(sb(c, "mset")) + setf(sb(c, "aset")) + [GAt("ty", sb(c, "mset")), GAt("ty", sb(c, "aset"))],
    ensures=lambda c: states(c, mset=OPEN, aset=OPEN) + [("empty", z3.And(c.n.xcsf.mset.list._b == 0, c.n.xcsf.aset.list._b == 0))])


def endstep_exit(cx, s):
    """the rules of the action set now belong to the previous action set"""
    p, a = sb(cx, "prev_aset"), sb(cx, "aset")
    t = cx.g("ty", s)
    cx.ex.oblige(s, z3.Select(t, p) == CLOSED, "the old previous action set was released before being replaced", None, "post")
    v0 = z3.Select(t, a)
    s.heap[("G", "ty")] = z3.Store(z3.Store(t, p, v0), a, ival(CLOSED))


def endstep_ens(c):
    x, n = c.o.xcsf, c.n.xcsf
    return [("match set released", ty(c, "mset") == CLOSED), ("action set handed over", z3.And(ty(c, "prev_aset") == ty(c, "aset", c.old), ty(c, "aset") == CLOSED)),
            ("the action set becomes the previous one", z3.And(n.prev_aset.list._b == x.aset.list._b, n.prev_aset.size == x.aset.size, n.prev_aset.num == x.aset.num)),
            ("its reward", n.prev_reward == c.o.reward), ("the prediction for its action", n.prev_pred == x.pa[c.o.action]),
            ("its state", Forall(0, x.x_dim, lambda i: n.prev_state[i] == c.o.state[i], pats=lambda i: n.prev_state[i]))]


padd("xcs_rl_end_step", "xcsf state action reward", requires=lambda c: [
        act_ok(c), seen(c), ("inputs", c.o.xcsf.x_dim >= 1), ("sets in use", z3.And(ty(c, "mset", c.old) != CLOSED, ty(c, "prev_aset", c.old) != CLOSED, ty(c, "aset", c.old) != CLOSED)),
        ("state copy", z3.And(nonnull(c.o.xcsf.prev_state, c.o.state), c.o.xcsf.prev_state._b != c.o.state._b, c.o.xcsf.prev_state._b != c.o.xcsf.pa._b))],
    modifies=lambda c: setf(sb(c, "mset")) + setf(sb(c, "prev_aset")) + [GAt("ty", sb(c, f)) for f in WORK] + [FAt("XCSF", f, c.o.xcsf._b) for f in ("prev_reward", "prev_pred")] + [AAt("double", c.o.xcsf.prev_state._b)],
    ensures=endstep_ens, ghost_exit=endstep_exit)


# ---------------------------------------------------------------- learning
def upd_ens(c):
    x = c.o.xcsf
    u0, e0 = G0(c, "u_n"), G0(c, "e_n")
    prev, done = hasprev(c), c.o.done == 1
    np_, nd = z3.If(prev, 1, 0), z3.If(done, 1, 0)
    ix = u0 + np_
    ex = x.explore == 1
    return [("one update per completed transition", G(c, "u_n") == u0 + np_ + nd),
            ("the previous action set learns discounted best value plus its reward", z3.Implies(prev, z3.And(
                G(c, "u_s", u0) == sb(c, "prev_aset"), G(c, "u_t", u0) == x.prev_reward + x.GAMMA * BESTV(x.pa.arr, x.pa_size)))),
            ("on the previous state", z3.Implies(prev, z3.And(G(c, "u_x", u0) == x.prev_state._b, G(c, "u_o", u0) == 0))),
            ("using predictions recomputed for the previous state", z3.Implies(prev, G(c, "u_c", u0) == 0)),
            ("at the end the current action set learns the reward", z3.Implies(done, z3.And(G(c, "u_s", ix) == sb(c, "aset"), G(c, "u_t", ix) == c.o.reward))),
            ("on the current state", z3.Implies(done, z3.And(G(c, "u_x", ix) == c.o.state._b, G(c, "u_o", ix) == off(c.o.state)))),
            ("rule discovery runs after each update exactly when exploring", G(c, "e_n") == e0 + z3.If(ex, np_ + nd, 0)),
            ("in the updated sets", z3.Implies(ex, z3.And(z3.Implies(prev, G(c, "e_s", e0) == sb(c, "prev_aset")), z3.Implies(done, G(c, "e_s", e0 + np_) == sb(c, "aset"))))),
            ("the action set is that of the executed action", z3.And(G(c, "as_a") == c.o.action, G(c, "as_m") == G0(c, "m_n"))),
            ("kept sets hold no released rules", z3.And(ty(c, "prev_aset") >= OPEN, ty(c, "prev_aset") <= STALE, ty(c, "aset") >= OPEN, ty(c, "aset") <= STALE, ty(c, "kset") == OPEN, ty(c, "mset") != CLOSED)),
            ("still no previous action set", z3.Implies(z3.Not(prev), c.n.xcsf.prev_aset.list._b == 0))]


LEARN = ("ty", "u_n", "u_s", "u_x", "u_o", "u_t", "u_c", "u_yb", "u_yo", "e_n", "e_s", "as_a", "as_m")
MATCHG = ("m_n", "m_x", "m_o", "m_c", "p_n", "p_m", "p_a", "rh")


def step_ready(c):
    return [act_ok(c), ("match set without deleted rules", ty(c, "mset", c.old) == OPEN), ("action set ready", z3.And(ty(c, "aset", c.old) == OPEN, c.o.xcsf.aset.list._b == 0)),
            ("deleted rules are collected", ty(c, "kset", c.old) == OPEN)] + usable(c, "prev_aset")


def learn_mods(c):
    return [x for f in ("prev_aset", "aset", "kset", "pset") for x in setf(sb(c, f))] + stats(c) + [GAll(g) for g in LEARN]


def seen(c):
    return ("the state is the one matched", z3.And(G0(c, "m_x") == c.o.state._b, G0(c, "m_o") == off(c.o.state)))


padd("xcs_rl_update", "xcsf state action reward done", requires=lambda c: onedim(c) + step_ready(c) + [seen(c), z3.And(c.o.done >= 0, c.o.done <= 1, c.o.xcsf.explore >= 0, c.o.xcsf.explore <= 1)],
    modifies=learn_mods, ensures=upd_ens)


def err_val(c):
    x = c.o.xcsf
    p = x.pa[c.o.action]
    return z3.If(hasprev(c), LOSS1(x.prev_pred, x.prev_reward + x.GAMMA * p) / c.o.max_p, 0) + z3.If(c.o.done == 1, LOSS1(p, c.o.reward) / c.o.max_p, 0)


def log_err(cx, s):
    g = cx.g("rlerr", s)
    s.heap[("G", "rlerr")] = z3.Store(g, 0, z3.Select(g, 0) + cx.ret)


padd("xcs_rl_error", "xcsf action reward done max_p", requires=lambda c: [act_ok(c), ("maximum payoff", c.o.max_p > 0), c.o.done >= 0, c.o.done <= 1],
    modifies=lambda c: [FAt("XCSF", "error", c.o.xcsf._b), GAll("rlerr")], ghost_exit=log_err,
    ensures=lambda c: [("relative prediction error of the completed transitions", c.ret == err_val(c)),
                       ("moving average", c.n.xcsf.error == c.o.xcsf.error + (c.ret - c.o.xcsf.error) * c.o.xcsf.BETA),
                       ("accumulated", G(c, "rlerr") == G0(c, "rlerr") + c.ret)])


def dec_ens(c):
    x = c.o.xcsf
    h = G0(c, "rh")
    best = c.ret == BESTA(c.n.xcsf.pa.arr, x.n_actions, h)
    rnd = c.ret == RANDA(h)
    return [("a valid action", z3.And(0 <= c.ret, c.ret < x.n_actions)), ("matched on the current state, covering if needed", z3.And(
                G(c, "m_x") == c.o.state._b, G(c, "m_o") == off(c.o.state), G(c, "m_n") == G0(c, "m_n") + 1, G(c, "m_c") == 1)),
            ("predictions are those of this match set", z3.And(G(c, "p_n") == G0(c, "p_n") + 1, G(c, "p_m") == G0(c, "m_n"))),
            ("the best action when exploiting", z3.Implies(z3.Or(x.explore == 0, x.P_EXPLORE <= 0), best)),
            ("a random action under full exploration", z3.Implies(z3.And(x.explore == 1, x.P_EXPLORE >= 1), rnd)), ("best or random", z3.Or(best, rnd)),
            ("match set without deleted rules", ty(c, "mset") == OPEN), ("others hold no released rules", z3.And(
                z3.Implies(x.aset.list._b == 0, ty(c, "aset") == ty(c, "aset", c.old)), ty(c, "kset") == OPEN, z3.Or(ty(c, "prev_aset") == ty(c, "prev_aset", c.old), ty(c, "prev_aset") == STALE)))]


# the match log: p_m holds the number of the match (counted before it is incremented by the next)
C["pa_build"].ensures = lambda c: app(c, "p_n") + [G(c, "p_m") == G0(c, "m_n") - 1]


def dec_mods(c):
    return setf(sb(c, "mset")) + setf(sb(c, "pset")) + setf(sb(c, "kset")) + stats(c) + [AAt("double", c.o.xcsf.pa._b), AAt("double", c.o.xcsf.nr._b), GAll("ty")] + [GAll(g) for g in MATCHG]


padd("xcs_rl_decision", "xcsf state", requires=lambda c: onedim(c) + [
        ("match set ready", z3.And(ty(c, "mset", c.old) == OPEN, c.o.xcsf.mset.list._b == 0)), ("deleted rules are collected", ty(c, "kset", c.old) == OPEN),
        ("mode", z3.And(c.o.xcsf.explore >= 0, c.o.xcsf.explore <= 1)),
        ("prediction array", z3.And(c.o.xcsf.pa._b != c.o.xcsf.nr._b, nonnull(c.o.xcsf.pa)))],
    modifies=dec_mods, ensures=dec_ens)


# ---------------------------------------------------------------- whole trials
def idle(c, st=None):
    return states(c, st, prev_aset=CLOSED, kset=CLOSED, mset=CLOSED, aset=CLOSED)


def trial_req(c):
    x = c.o.xcsf
    return onedim(c) + idle(c, c.old) + [("prediction arrays", z3.And(x.pa._b != x.nr._b, nonnull(x.pa, x.nr), x.pa._b < c.old.nxt, x.nr._b < c.old.nxt))]


def trial_mods(c):
    return [x for f in SETS + ("pset",) for x in setf(sb(c, f))] + stats(c) + [AAt("double", c.o.xcsf.pa._b), AAt("double", c.o.xcsf.nr._b)] + \
        [GAll(g) for g in LEARN + MATCHG + ("freed", "rlerr")] + [FAt("XCSF", f, c.o.xcsf._b) for f in ("prev_reward", "prev_pred", "prev_state", "explore", "error")]


def fit_ens(c):
    x, n = c.o.xcsf, c.n.xcsf
    u0, e0 = G0(c, "u_n"), G0(c, "e_n")
    return [("every set is released", z3.And(*[g for _, g in idle(c)])), ("one match, on the given state, with covering", z3.And(
                G(c, "m_n") == G0(c, "m_n") + 1, G(c, "m_x") == c.o.state._b, G(c, "m_o") == off(c.o.state), G(c, "m_c") == 1)),
            ("returns the loss of the prediction made before learning", c.ret == LOSS1(n.pa[c.o.action], c.o.reward)),
            ("one update, of the action's set, towards the reward", z3.And(G(c, "u_n") == u0 + 1, G(c, "u_s", u0) == sb(c, "aset"), G(c, "u_t", u0) == c.o.reward,
                                                                         G(c, "u_x", u0) == c.o.state._b, G(c, "u_o", u0) == off(c.o.state))),
            ("the action's set", z3.And(G(c, "as_a") == c.o.action, G(c, "as_m") == G(c, "m_n"))),
            ("rule discovery once in that set", z3.And(G(c, "e_n") == e0 + 1, G(c, "e_s", e0) == sb(c, "aset"))),
            ("training mode", n.explore == 1),
            ("moving average of the error", n.error == x.error + (c.ret - x.error) * x.BETA)]


padd("xcs_rl_fit", "xcsf state action reward", requires=lambda c: trial_req(c) + [act_ok(c), ("state", z3.And(nonnull(c.o.state), c.o.state._b < c.old.nxt, c.o.state._b != c.o.xcsf.pa._b, c.o.state._b != c.o.xcsf.nr._b))],
     modifies=trial_mods, ensures=fit_ens)


def log_perf(cx, s):
    g = cx.g("perf", s)
    e = z3.If(cx.o.explore == 1, ival(1), ival(0))
    s.heap[("G", "perf")] = z3.Store(g, e, z3.Select(g, e) + cx.ret)
    g = cx.g("tr_n", s)
    s.heap[("G", "tr_n")] = z3.Store(g, e, z3.Select(g, e) + 1)


def run_ens(c):
    x, n = c.o.xcsf, c.n.xcsf
    steps = G(c, "x_n") - G0(c, "x_n")
    e = z3.If(c.o.explore == 1, ival(1), ival(0))
    return [("every set is released", z3.And(*[g for _, g in idle(c)])), ("one reset of the environment", G(c, "r_n") == G0(c, "r_n") + 1),
            ("number of steps", z3.And(1 <= steps, steps <= x.TELETRANSPORTATION)),
            ("ends at the end of the problem or at the step limit", z3.Or(G(c, "env_done") == 1, steps == x.TELETRANSPORTATION)),
            ("mean error per step", at0(c, c.n.error, c.new) * toreal(steps) == G(c, "rlerr") - G0(c, "rlerr")),
            ("performance", c.ret == z3.If(MULTI(x.env._b) == 0, z3.If(G(c, "rew") > 0, rval(1), rval(0)), toreal(steps))),
            ("mode", n.explore == c.o.explore), ("the set of the executed action", G(c, "as_a") == G(c, "x_a")), ("one decision per step", z3.And(G(c, "m_n") == G0(c, "m_n") + steps, G(c, "s_n") == G0(c, "s_n") + steps)),
            ("one update per completed transition at most", z3.And(G(c, "u_n") <= G0(c, "u_n") + steps, G(c, "u_n") >= G0(c, "u_n"))),
            ("no rule discovery when exploiting", z3.Implies(c.o.explore == 0, G(c, "e_n") == G0(c, "e_n"))),
            ("rule discovery after every update when exploring", z3.Implies(c.o.explore == 1, G(c, "e_n") - G0(c, "e_n") == G(c, "u_n") - G0(c, "u_n"))),
            ("logged", z3.And(c.g("perf") == z3.Store(c.g("perf", c.old), e, G0(c, "perf", e) + c.ret), c.g("tr_n") == z3.Store(c.g("tr_n", c.old), e, G0(c, "tr_n", e) + 1)))]


def run_cands(c, s, S0, k):
    g = lambda n, i=0: z3.Select(c.g(n, s), i)
    g0 = lambda n, i=0: z3.Select(c.g(n, c.old), i)
    t = lambda f: z3.Select(c.g("ty", s), sb(c, f))
    x = c.obj(c.o.xcsf._b, "XCSF", s)
    return [t("mset") == CLOSED, t("aset") == CLOSED, t("kset") == OPEN, z3.And(t("prev_aset") >= OPEN, t("prev_aset") <= STALE),
            g("x_n") == g0("x_n") + k, g("m_n") == g0("m_n") + k, g("s_n") == g0("s_n") + k, g("u_n") >= g0("u_n"),
            g("u_n") <= g0("u_n") + k - z3.If(z3.And(g("env_done") == 0, k > 0), 1, 0),
            g("u_n") <= g0("u_n") + k - z3.If(z3.And(g("env_done") == 0, x.prev_aset.list._b != 0), 1, 0),
            z3.Implies(k > 0, g("as_a") == g("x_a")), z3.Implies(k == 0, x.prev_aset.list._b == 0), z3.And(g("env_done") >= 0, g("env_done") <= 1),
            z3.Implies(x.explore == 0, g("e_n") == g0("e_n")), z3.Implies(x.explore == 1, g("e_n") - g0("e_n") == g("u_n") - g0("u_n")),
            z3.Select(c.g("freed", s), x.prev_state._b) == 0, x.prev_state._b > 0, x.prev_state._b >= c.old.nxt, x.prev_state._b != x.pa._b,
            at0(c, c.o.error._at(s), s) == g("rlerr") - g0("rlerr")]


padd("xcs_rl_trial", "xcsf error explore", requires=lambda c: trial_req(c) + [
        ("at least one step", c.o.xcsf.TELETRANSPORTATION >= 1), ("mode", z3.And(c.o.explore >= 0, c.o.explore <= 1)), nonnull(c.o.error), ("error is separate", z3.And(
            c.o.error._b != c.o.xcsf.pa._b, c.o.error._b != c.o.xcsf.nr._b, c.o.error._b < c.old.nxt))],
     modifies=lambda c: trial_mods(c) + [AAt("double", c.o.error._b)] + [GAll(g) for g in ("x_n", "x_a", "rew", "env_done", "s_n", "r_n", "perf", "tr_n")],
     ensures=run_ens, cands=run_cands, ghost_exit=log_perf,
     roles=lambda c, s, S0, k: [lambda t: t == z3.Select(c.g("env_done", s), 0) if t.sort() == I else z3.BoolVal(False),
                                lambda t: z3.Implies(k > 0, t == z3.Select(c.g("rew", s), 0)) if t.sort() == R else z3.BoolVal(False)])



def exp_ens(c):
    x = c.o.xcsf
    return [("every set is released", z3.And(*[g for _, g in idle(c)])), ("exploration and exploitation alternate", z3.And(
                G(c, "tr_n", 0) == G0(c, "tr_n", 0) + x.MAX_TRIALS, G(c, "tr_n", 1) == G0(c, "tr_n", 1) + x.MAX_TRIALS)),
            ("mean performance of the exploitation trials", c.ret * toreal(x.MAX_TRIALS) == G(c, "perf", 0) - G0(c, "perf", 0))]


padd("xcs_rl_exp", "xcsf", requires=lambda c: trial_req(c) + [("at least one step", c.o.xcsf.TELETRANSPORTATION >= 1), ("at least one trial", c.o.xcsf.MAX_TRIALS >= 1), ("reporting interval", c.o.xcsf.PERF_TRIALS >= 1)],
     modifies=lambda c: trial_mods(c) + [GAll(g) for g in ("x_n", "x_a", "rew", "env_done", "s_n", "r_n", "perf", "tr_n")],
     ensures=exp_ens, cands=lambda c, s, S0, k: [z3.Select(c.g("ty", s), sb(c, f)) == CLOSED for f in SETS] + [
         z3.Select(c.g("tr_n", s), i) == z3.Select(c.g("tr_n", c.old), i) + k for i in (0, 1)],
     roles=lambda c, s, S0, k: [lambda t: t == z3.Select(c.g("perf", s), 0) - z3.Select(c.g("perf", c.old), 0) if t.sort() == R else z3.BoolVal(False)])
