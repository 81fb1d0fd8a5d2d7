"""Learning protocols: how a trial drives matching, prediction, reinforcement and the genetic
algorithm (reinforcement learning and supervised learning).

The set operations are used here through abstractions: a rule set is closed (0), open and free of
deleted rules (1), open but possibly holding rules that were deleted and wait in the kill set (2), or
open and holding released rules (3).  Every update and every run of the genetic algorithm is logged."""
from .cond import *

GHOST_SORTS.update({"u_t": z3.ArraySort(I, R), "acc": z3.ArraySort(I, R), "rlerr": z3.ArraySort(I, R), "perf": z3.ArraySort(I, R),
                    "rew": z3.ArraySort(I, R), "u_y": z3.ArraySort(I, AR), "palog": z3.ArraySort(I, AR)})
LOSS1 = z3.Function("LOSS1", R, R, R)            # one-output loss (prediction, target)
LOSSV = z3.Function("LOSSV", AR, I, I, R)        # loss (predictions, target array, target offset)
BESTV = z3.Function("BESTV", AR, I, R)           # largest of the first n entries
BESTA = z3.Function("BESTA", AR, I, I, I)        # the choice among the best actions (predictions, n, random history)
RANDA = z3.Function("RANDA", I, I)               # a random action (random history)
CLOSED, OPEN, STALE, DANGLING = 0, 1, 2, 3
SETS = ("prev_aset", "mset", "aset", "kset")
WORK = ("prev_aset", "mset", "aset")
PNOTE = "abstracts the contract of the set operation (verified on its own under the set properties) to what the protocol needs"


def sb(c, f):
    return getattr(c.o.xcsf, f)._b


def G(c, name, i=0, st=None):
    return z3.Select(c.g(name, st), i if not isinstance(i, int) else ival(i))


def G0(c, name, i=0):
    return G(c, name, i, c.old)


def ty(c, f, st=None):
    return z3.Select(c.g("ty", st), sb(c, f))


def off(a):
    return a._o if hasattr(a, "_o") else ival(0)


def bas(a):
    return a._b if hasattr(a, "_b") else a.base


def at0(c, a, st=None):
    """the number a pointer points to"""
    if isinstance(a, Ptr) and a.loc is not None:
        return z3.Select(c.field(a.loc[0], a.loc[1], st if st is not None else c.old), a.base)
    return z3.Select(a.arr, off(a))


def apart(c, st):
    st.fact(z3.Distinct(*[sb(c, f) for f in SETS + ("pset",)]))


def padd(*a, **k):
    k.setdefault("setup", apart)
    return add(*a, **k)


def isset(c, which):
    return z3.Or(*[which == sb(c, f) for f in WORK])


def keep_log(c, name, upto, but=()):
    """entries of a log below an index are kept"""
    return z3.BoolVal(True)


def app(c, cnt, **logs):
    """append one entry to a log"""
    n = G0(c, cnt)
    out = [G(c, cnt) == n + 1]
    for k, v in logs.items():
        out.append(c.g(k) == z3.Store(c.g(k, c.old), n, v))
    return out


def stale_others(c, but=None):
    """deletions may leave deleted rules in every open working set"""
    t0 = c.g("ty", c.old)
    t = t0
    for f in WORK:
        b = sb(c, f)
        if but is not None:
            t = z3.Store(t, b, z3.If(z3.And(z3.Select(t0, b) == OPEN, b != but, getattr(c.o.xcsf, f).list._b != 0), STALE, z3.Select(t0, b)))
        else:
            t = z3.Store(t, b, z3.If(z3.And(z3.Select(t0, b) == OPEN, getattr(c.o.xcsf, f).list._b != 0), STALE, z3.Select(t0, b)))
    return c.g("ty") == t


def setf(b):
    return [FAt("Set", f, b) for f in ("list", "size", "num")]


def tr(name, params, **k):
    k.setdefault("note", PNOTE)
    add(name, params, trusted=True, **k)


def stats(c):
    return [FAt("XCSF", f, c.o.xcsf._b) for f in ("mset_size", "aset_size", "mfrac", "time")]


tr("clset_init", "set", requires=lambda c: [("the set is not in use", z3.Select(c.g("ty", c.old), c.o.set._b) == CLOSED)],
   modifies=lambda c: setf(c.o.set._b) + [GAt("ty", c.o.set._b)],
   ensures=lambda c: [c.n.set.list._b == 0, c.n.set.size == 0, c.n.set.num == 0, z3.Select(c.g("ty"), c.o.set._b) == OPEN])
tr("clset_free", "set", requires=lambda c: [("the set is in use", z3.Select(c.g("ty", c.old), c.o.set._b) != CLOSED)],
   modifies=lambda c: setf(c.o.set._b) + [GAt("ty", c.o.set._b)],
   ensures=lambda c: [c.n.set.list._b == 0, c.n.set.size == 0, c.n.set.num == 0, z3.Select(c.g("ty"), c.o.set._b) == CLOSED])


def kill_ens(c):
    t0 = c.g("ty", c.old)
    t = z3.Store(t0, c.o.set._b, ival(CLOSED))
    for f in WORK:
        b = sb(c, f)
        t = z3.Store(t, b, z3.If(z3.Select(t0, b) == STALE, DANGLING, z3.Select(t0, b)))
    return [c.g("ty") == t, c.n.set.list._b == 0, c.n.set.size == 0, c.n.set.num == 0]


tr("clset_kill", "xcsf set", requires=lambda c: [("the set of deleted rules", c.o.set._b == sb(c, "kset")), ("it is in use", ty(c, "kset", c.old) == OPEN)],
   modifies=lambda c: setf(c.o.set._b) + [GAll("ty")], ensures=kill_ens)
tr("clset_match", "xcsf x cover", requires=lambda c: [
        ("match set ready", z3.And(ty(c, "mset", c.old) == OPEN, c.o.xcsf.mset.list._b == 0)), ("deleted rules are collected", ty(c, "kset", c.old) == OPEN)],
   modifies=lambda c: setf(sb(c, "mset")) + setf(sb(c, "pset")) + setf(sb(c, "kset")) + stats(c) + [GAll("ty"), GAll("m_n"), GAll("m_x"), GAll("m_o"), GAll("m_c")],
   ensures=lambda c: [stale_others(c, sb(c, "mset")), c.n.xcsf.mset.size >= 0, z3.Implies(c.o.cover == 1, c.n.xcsf.mset.size >= 1)] +
   app(c, "m_n") + [G(c, "m_x") == c.o.x._b, G(c, "m_o") == off(c.o.x), G(c, "m_c") == c.o.cover])
tr("pa_build", "xcsf x", requires=lambda c: [("the match set was formed for this input", z3.And(G0(c, "m_x") == c.o.x._b, G0(c, "m_o") == off(c.o.x))),
                                             ("match set without deleted rules", ty(c, "mset", c.old) == OPEN), ("not empty", c.o.xcsf.mset.size >= 1)],
   modifies=lambda c: [AAt("double", c.o.xcsf.pa._b), AAt("double", c.o.xcsf.nr._b), GAll("p_n"), GAll("p_m"), GAll("p_a")],
   ensures=lambda c: app(c, "p_n") + [G(c, "p_m") == G0(c, "m_n")])
tr("clset_action", "xcsf action", requires=lambda c: [("match set without deleted rules", ty(c, "mset", c.old) == OPEN),
                                                      ("action set ready", z3.And(ty(c, "aset", c.old) == OPEN, c.o.xcsf.aset.list._b == 0))],
   modifies=lambda c: setf(sb(c, "aset")) + stats(c) + [GAll("as_a"), GAll("as_m")],
   ensures=lambda c: [G(c, "as_a") == c.o.action, G(c, "as_m") == G0(c, "m_n"), c.n.xcsf.aset.size >= 0])
tr("clset_validate", "set", requires=lambda c: [("the set's rules have not been released", z3.And(z3.Select(c.g("ty", c.old), c.o.set._b) >= OPEN, z3.Select(c.g("ty", c.old), c.o.set._b) <= STALE))],
   modifies=lambda c: setf(c.o.set._b) + [GAt("ty", c.o.set._b)], ensures=lambda c: [z3.Select(c.g("ty"), c.o.set._b) == OPEN])
tr("clset_update", "xcsf set x y cur", requires=lambda c: [
        ("one of the working sets", isset(c, c.o.set._b)), ("no deleted rules in the set", z3.Select(c.g("ty", c.old), c.o.set._b) == OPEN), ("deleted rules are collected", ty(c, "kset", c.old) == OPEN)],
   modifies=lambda c: setf(sb(c, "kset")) + setf(sb(c, "pset")) + setf(c.o.set._b) + [GAll(g) for g in ("ty", "u_n", "u_s", "u_x", "u_o", "u_t", "u_c", "u_yb", "u_yo")],
   ensures=lambda c: [stale_others(c, c.o.set._b)] + app(c, "u_n", u_s=c.o.set._b, u_x=c.o.x._b, u_o=off(c.o.x), u_t=at0(c, c.o.y), u_c=c.o.cur,
                                                        u_yb=bas(c.o.y), u_yo=off(c.o.y)))
tr("ea", "xcsf set", requires=lambda c: [("one of the working sets", isset(c, c.o.set._b)), ("no deleted rules in the set", z3.Select(c.g("ty", c.old), c.o.set._b) == OPEN),
                                         ("deleted rules are collected", ty(c, "kset", c.old) == OPEN)],
   modifies=lambda c: setf(sb(c, "kset")) + setf(sb(c, "pset")) + stats(c) + [GAll(g) for g in ("ty", "e_n", "e_s")],
   ensures=lambda c: [stale_others(c)] + app(c, "e_n", e_s=c.o.set._b))
add("param_set_explore", "xcsf a", modifies=lambda c: [FAt("XCSF", "explore", c.o.xcsf._b)], ensures=lambda c: [("the mode", c.n.xcsf.explore == c.o.a), ("accepted", c.ret._b == 0)])
ANOTE = "the functions reading the prediction array have their own contracts; here their results are named"
tr("pa_best_val", "xcsf", ensures=lambda c: [c.ret == BESTV(c.o.xcsf.pa.arr, c.o.xcsf.pa_size)], note=ANOTE)
tr("pa_val", "xcsf action", requires=lambda c: [("a valid action", z3.And(0 <= c.o.action, c.o.action < c.o.xcsf.n_actions))],
   ensures=lambda c: [c.ret == c.o.xcsf.pa[c.o.action]], note=ANOTE)
tr("pa_best_action", "xcsf", modifies=lambda c: [GAll("rh")],
   ensures=lambda c: [0 <= c.ret, c.ret < c.o.xcsf.n_actions, c.ret == BESTA(c.o.xcsf.pa.arr, c.o.xcsf.n_actions, G0(c, "rh")), G(c, "rh") == G0(c, "rh") + 1], note=ANOTE)
tr("pa_rand_action", "xcsf", modifies=lambda c: [GAll("rh")],
   ensures=lambda c: [0 <= c.ret, c.ret < c.o.xcsf.n_actions, c.ret == RANDA(G0(c, "rh")), G(c, "rh") == G0(c, "rh") + 1], note=ANOTE)
ENOTE = "environments behave as an interface: they own their state; the two built-in ones are verified on their own"
tr("EnvVtbl.env_impl_is_done", "xcsf", ensures=lambda c: [c.ret == G0(c, "env_done"), c.ret >= 0, c.ret <= 1], note=ENOTE)
MULTI = z3.Function("ENVMULTI", I, I)
MAXP = z3.Function("ENVMAXP", I, R)
tr("EnvVtbl.env_impl_multistep", "xcsf", ensures=lambda c: [c.ret == MULTI(c.o.xcsf.env._b), c.ret >= 0, c.ret <= 1], note=ENOTE)
tr("EnvVtbl.env_impl_max_payoff", "xcsf", ensures=lambda c: [c.ret == MAXP(c.o.xcsf.env._b), c.ret > 0], note=ENOTE)
tr("EnvVtbl.env_impl_execute", "xcsf action", requires=lambda c: [("a valid action", z3.And(0 <= c.o.action, c.o.action < c.o.xcsf.n_actions)), ("not past the end of the problem", G0(c, "env_done") == 0)],
   modifies=lambda c: [GAll("x_n"), GAll("x_a"), GAll("rew"), GAll("env_done")],
   ensures=lambda c: app(c, "x_n") + [G(c, "x_a") == c.o.action, G(c, "rew") == c.ret, G(c, "env_done") >= 0, G(c, "env_done") <= 1], note=ENOTE)
tr("EnvVtbl.env_impl_get_state", "xcsf", modifies=lambda c: [GAll("s_n")],
   ensures=lambda c: app(c, "s_n") + [c.ret._b > 0, c.ret._b < c.old.nxt, c.ret._b != c.o.xcsf.pa._b, c.ret._b != c.o.xcsf.nr._b, c.ret._b != c.o.xcsf.prev_state._b], note=ENOTE)
tr("EnvVtbl.env_impl_reset", "xcsf", modifies=lambda c: [GAll("r_n"), GAll("env_done")], ensures=lambda c: app(c, "r_n") + [G(c, "env_done") == 0], note=ENOTE)


def perf_ens(c):
    shown = z3.And(c.o.trial > 0, c.o.trial % c.o.xcsf.PERF_TRIALS == 0)
    return [("restarts the windowed average exactly when it was reported", at0(c, v1, c.new) == z3.If(shown, rval(0), at0(c, v0, c.old)))
            for v0, v1 in ((c.o.error, c.n.error), (c.o.terror, c.n.terror))]


add("perf_print", "xcsf error terror trial", requires=lambda c: [("reporting interval", c.o.xcsf.PERF_TRIALS >= 1), ("two averages", bas(c.o.error) != bas(c.o.terror))],
    modifies=lambda c: [AAt("double", bas(c.o.error)), AAt("double", bas(c.o.terror))], ensures=perf_ens)
