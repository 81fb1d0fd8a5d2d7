"""Saving and loading the parameters, and the whole system."""
from .ser import *
from .ser import after_save, consumed, pos, src_base

XF = ("time", "error", "mset_size", "aset_size", "mfrac", "explore", "x_dim", "y_dim", "n_actions", "OMP_NUM_THREADS", "RANDOM_STATE", "POP_INIT",
      "MAX_TRIALS", "PERF_TRIALS", "POP_SIZE", "LOSS_FUNC", "HUBER_DELTA", "GAMMA", "TELETRANSPORTATION", "P_EXPLORE", "SET_SUBSUMPTION",
      "THETA_SUB", "E0", "ALPHA", "NU", "BETA", "DELTA", "THETA_DEL", "INIT_FITNESS", "INIT_ERROR", "M_PROBATION", "STATEFUL", "COMPACTION")
EAF = ("select_type", "select_size", "theta", "lambda", "p_crossover", "err_reduc", "fit_reduc", "subsumption", "pred_reset")
CF = ("type", "eta", "min", "max", "spread_min", "p_dontcare", "bits")
PF = ("type", "eta", "eta_min", "lambda", "scale_factor", "x0", "evolve_eta")
DF = ("evolve_cycles", "max_k", "max_t", "n", "n_inputs")
TF = ("max", "min", "n_inputs", "n_constants", "init_depth", "max_len")
TAG = {"ea": "ArgsEA", "act": "ArgsAct", "cond": "ArgsCond", "pred": "ArgsPred"}


def sx(c, st):
    return c.obj(src_base(), "XCSF", st)


def same(fs, p, q):
    return [("same " + f, getattr(q, f) == getattr(p, f)) for f in fs]


def largs_tok():
    """a list of layer parameters seen as one record"""
    st = lambda c, p, s: z3.Select(c.g("st_largs", s), p)

    def loc(c):
        p = c.raw("largs")
        if p.loc is None:
            raise Unsupported("address of a list of layer parameters")
        return p.loc, p.base

    def cell(c, s):
        (tag, f), b = loc(c)
        return z3.Select(c.field(tag, f, s), b)

    def save_ens(c):
        q = pos(c, c.old)
        return [c.g("fsi") == z3.Store(c.g("fsi", c.old), q, st(c, c.o.args._b, c.old)), c.g("fsz") == z3.Store(c.g("fsz", c.old), q, ival(220)),
                c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.ret == 1]

    def load_ens(c):
        q = pos(c, c.old)
        g0, g1 = c.g("st_largs", c.old), c.g("st_largs")
        return [c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), z3.Select(g1, cell(c, c.new)) == z3.Select(c.g("fsi", c.old), q), c.ret == 1,
                z3.Or(cell(c, c.new) >= c.old.nxt, cell(c, c.new) == 0),
                ForallP(lambda p: z3.Implies(z3.And(p > 0, p < c.old.nxt), z3.Select(g1, p) == z3.Select(g0, p)), pats=lambda p: z3.Select(g1, p))]
    return {"layer_args_save": Contract("layer_args_save", "args fp", modifies=lambda c: [GAll("fsi"), GAll("fsz"), GAll("fpos")], ensures=save_ens, trusted=True),
            "layer_args_load": Contract("layer_args_load", "largs fp", requires=lambda c: [("a list is read where one was written", z3.Select(c.g("fsz", c.old), pos(c, c.old)) == 220)],
                                        modifies=lambda c: [GAll("fpos"), GAll("st_largs"), FAt(loc(c)[0][0], loc(c)[0][1], loc(c)[1])], ensures=load_ens, trusted=True)}


LT = largs_tok()


def apart(c, st, *subs):
    """the saved system and the one loaded into are different objects, parts included"""
    p, q = sx(c, st), c.o.xcsf
    out = [src_base() != q._b]
    for s in subs:
        out.append(z3.And(getattr(p, s)._b != getattr(q, s)._b, getattr(p, s)._b > 0, getattr(q, s)._b > 0))
    return out


def par_load(fn, sub, tag, fs, largs=True, extra=None, extra_mods=None, pre=None):
    def ens(c):
        p, q = getattr(sx(c, c.old), sub), getattr(c.n.xcsf, sub)
        r = same(fs, p, q)
        if largs:
            r.append(("same layer parameters", z3.Select(c.g("st_largs"), q.largs._b) == z3.Select(c.g("st_largs", c.old), p.largs._b)))
        return r + (extra(c, p, q) if extra else []) + consumed(c)

    def mods(c):
        b = getattr(c.o.xcsf, sub)._b
        return STREAM(c) + [FAt(tag, f, b) for f in fs] + ([FAt(tag, "largs", b), GAll("st_largs")] if largs else []) + (extra_mods(c) if extra_mods else [])
    add(fn + "_load", "xcsf fp", setup=after_save(fn + "_save", lambda c, b: [Ptr(b), Ptr(ival(7))], lambda c, st: apart(c, st, sub) + (
        [z3.And(getattr(sx(c, st), sub).largs._b > 0, getattr(sx(c, st), sub).largs._b < c.ex.nxt0)] if largs else []) + (pre(c, st) if pre else [])),
        modifies=mods, ensures=ens, opts={"overlay": LT})


par_load("ea_param", "ea", "ArgsEA", EAF, largs=False)
par_load("action_param", "act", "ArgsAct", ("type",))
par_load("pred_param", "pred", "ArgsPred", PF)


def cond_pre(c, st):
    p, q = sx(c, st).cond, c.o.xcsf.cond
    return [p.dargs._b != q.dargs._b, p.targs._b != q.targs._b, p.targs._b > 0, q.targs._b > 0, p.dargs._b > 0, q.dargs._b > 0, p.targs.constants._b != q.targs.constants._b,
            p.targs.constants._b > 0, p.targs.n_constants >= 1]


def cond_extra(c, p, q):
    return [("graph " + l, g) for l, g in same(DF, p.dargs, q.dargs)] + [("tree " + l, g) for l, g in same(TF, p.targs, q.targs)] + [
        eqarr(p.targs.constants, q.targs.constants, p.targs.n_constants, "same tree constants"),
        ("room for the tree constants", z3.And(bytes_(c, q.targs.constants._b) >= 8 * p.targs.n_constants, q.targs.constants._b > 0))]


def cond_mods(c):
    q = c.o.xcsf.cond
    return [FAt("ArgsDGP", f, q.dargs._b) for f in DF] + [FAt("ArgsGPTree", f, q.targs._b) for f in TF + ("constants",)] + [AAt("double", q.targs.constants._b)]


par_load("cond_param", "cond", "ArgsCond", CF, extra=cond_extra, extra_mods=cond_mods, pre=cond_pre)


# ---------------------------------------------------------------- all parameters
def part_tok(save, load, g, key, code, mods=lambda c: []):
    """a part of the system, proved to survive on its own, seen as one record"""
    def save_ens(c):
        q = pos(c, c.old)
        return [c.g("fsi") == z3.Store(c.g("fsi", c.old), q, z3.Select(c.g(g, c.old), key(c.o.xcsf))), c.g("fsz") == z3.Store(c.g("fsz", c.old), q, ival(code)),
                c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.ret == 1]

    def load_ens(c):
        q = pos(c, c.old)
        return [c.g("fpos") == z3.Store(c.g("fpos", c.old), ival(0), q + 1), c.ret == 1,
                c.g(g) == z3.Store(c.g(g, c.old), key(c.o.xcsf), z3.Select(c.g("fsi", c.old), q))]
    return {save: Contract(save, "xcsf fp", modifies=lambda c: [GAll("fsi"), GAll("fsz"), GAll("fpos")], ensures=save_ens, trusted=True),
            load: Contract(load, "xcsf fp", requires=lambda c: [("read where it was written", z3.Select(c.g("fsz", c.old), pos(c, c.old)) == code)],
                           modifies=lambda c: [GAll("fpos"), GAll(g)] + mods(c), ensures=load_ens, trusted=True)}


SUBS = {"ea": "ea_param", "act": "action_param", "cond": "cond_param", "pred": "pred_param"}
PT_ = {}
for _i, (_s, _f) in enumerate(SUBS.items()):
    PT_.update(part_tok(_f + "_save", _f + "_load", "st_par_" + _s, lambda x, s=_s: getattr(x, s)._b, 230 + _i))


def par_pre(c, st):
    p = sx(c, st)
    return apart(c, st, "ea", "act", "cond", "pred", "population_file") + [z3.And(p.x_dim >= 1, p.y_dim >= 1, p.n_actions >= 1)]


def par_ens(c):
    p, q = sx(c, c.old), c.n.xcsf
    n = z3.If(STRLEN(p.population_file._b) < MAXN, STRLEN(p.population_file._b), MAXN)
    return same(XF, p, q) + [("same parameters of " + s, z3.Select(c.g("st_par_" + s), getattr(q, s)._b) == z3.Select(c.g("st_par_" + s, c.old), getattr(p, s)._b)) for s in SUBS] + [
        eqarr(p.population_file, q.population_file, n + 1, "same population file name"),
        ("room for the name", bytes_(c, q.population_file._b) >= n + 1),
        ("loss function of the loaded choice", z3.Or(q.loss_ptr == LOSSF(q.LOSS_FUNC), z3.Or(q.LOSS_FUNC < 0, q.LOSS_FUNC >= LN)))] + consumed(c)


from dv.builtins import STRLEN
MAXN = 512
LN = 7
LOSSF = z3.Function("LOSSF", I, I)
lossc = Contract("loss_set_func", "xcsf", modifies=lambda c: [FAt("XCSF", "loss_ptr", c.o.xcsf._b)], trusted=True,
                 ensures=lambda c: [z3.Implies(z3.And(c.o.xcsf.LOSS_FUNC >= 0, c.o.xcsf.LOSS_FUNC < LN), c.n.xcsf.loss_ptr == LOSSF(c.o.xcsf.LOSS_FUNC))])

add("param_load", "xcsf fp", setup=after_save("param_save", lambda c, b: [Ptr(b), Ptr(ival(7))], par_pre),
    modifies=lambda c: STREAM(c) + [FAt("XCSF", f, c.o.xcsf._b) for f in XF + ("population_file", "loss_ptr")] + [GAll("st_par_" + s) for s in SUBS],
    ensures=par_ens, opts={"overlay": dict(PT_, loss_set_func=lossc), "par": 4})


# ---------------------------------------------------------------- the whole system
NACT, YDIM = z3.Function("NACT", I, I), z3.Function("YDIM", I, I)
SYS = {}
SYS.update(part_tok("param_save", "param_load", "st_par", lambda x: x._b, 240, lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in XF + ("population_file", "loss_ptr")]))
SYS.update(part_tok("clset_pset_save", "clset_pset_load", "st_pop", lambda x: x.pset._b, 241, lambda c: [FAt("Set", f, c.o.xcsf.pset._b) for f in ("list", "size", "num")]))
_pl = SYS["param_load"].ensures
SYS["param_load"].ensures = lambda c: _pl(c) + [z3.And(c.n.xcsf.n_actions == NACT(v), c.n.xcsf.y_dim == YDIM(v), NACT(v) >= 1, YDIM(v) >= 1)
                                                for v in [z3.Select(c.g("st_par"), c.o.xcsf._b)]]
SYS["clset_kill"] = Contract("clset_kill", "xcsf set", modifies=lambda c: [FAt("Set", f, c.o.set._b) for f in ("list", "size", "num")], trusted=True)
SYS["clset_init"] = Contract("clset_init", "set", modifies=lambda c: [FAt("Set", f, c.o.set._b) for f in ("list", "size", "num")], trusted=True)


def sys_ens(c):
    p, q = sx(c, c.old), c.n.xcsf
    n = q.n_actions * q.y_dim
    return [("same parameters and time", z3.Select(c.g("st_par"), q._b) == z3.Select(c.g("st_par", c.old), p._b)),
            ("same population", z3.Select(c.g("st_pop"), q.pset._b) == z3.Select(c.g("st_pop", c.old), p.pset._b)),
            ("prediction arrays of the loaded dimensions", z3.And(q.pa_size == n, z3.Distinct(q.pa._b, q.nr._b, q.cover._b),
                                                                *[z3.And(b._b > 0, bytes_(c, b._b) >= 8 * n) for b in (q.pa, q.nr, q.cover)]))] + consumed(c)


add("xcsf_load", "xcsf filename", requires=lambda c: [nonnull(c.o.xcsf)],
    setup=after_save("xcsf_save", lambda c, b: [Ptr(b), Ptr(ival(8))], lambda c, st: [src_base() != c.o.xcsf._b]),
    modifies=lambda c: STREAM(c) + [FAt("XCSF", f, c.o.xcsf._b) for f in XF + ("population_file", "loss_ptr", "pa", "nr", "cover", "pa_size")] + [GAll("st_par"), GAll("st_pop")] + [
        FAt("Set", f, c.o.xcsf.pset._b) for f in ("list", "size", "num")],
    ensures=sys_ens, inline=("pa_init", "pa_free"), opts={"overlay": SYS})
