"""Parameters: every setter stores exactly the values of its documented range and never any
other, touches nothing else, and a fresh system has every parameter in range."""
from .cond import *
from .setp_table import TABLE


def rng(lo, hi, v):
    r = []
    if lo is not None:
        r.append(v >= lo)
    if hi is not None:
        r.append(v <= hi)
    return z3.And(*r) if r else z3.BoolVal(True)


def num(v, like):
    return (rval(v) if like.sort() == R else ival(int(v))) if v is not None else None


def where(c, obj, st):
    """the object holding the parameter"""
    v = c.o if st is c.old else c.n
    if obj == "args":
        return v.args
    return v.xcsf if obj == "xcsf" else getattr(v.xcsf, obj)


TAGS = {"xcsf": "XCSF", "ea": "ArgsEA", "cond": "ArgsCond", "pred": "ArgsPred", "act": "ArgsAct"}


def setter(fn, obj, tag, field, lo, hi, mode):
    tgt = lambda c, st: getattr(where(c, obj, st), field)
    tag = tag or TAGS[obj]

    def ens(c):
        a = c.o.a
        l, h = num(lo, a), num(hi, a)
        ok = rng(l, h, a)
        new, old = tgt(c, c.new), tgt(c, c.old)
        if mode == "reject":
            return [("a value in range is stored and accepted", z3.Implies(ok, z3.And(new == a, c.ret._b == 0))),
                    ("a value out of range is refused with a message and changes nothing", z3.Implies(z3.Not(ok), z3.And(new == old, c.ret._b != 0)))]
        r = [("a value in range is stored", z3.Implies(ok, new == a))]
        if l is not None:
            r.append(("a value too small is replaced by the smallest", z3.Implies(a < l, new == l)))
        if h is not None:
            r.append(("a value too large is replaced by the largest", z3.Implies(a > h, new == h)))
        if mode == "always":
            r.append(("accepted", c.ret._b == 0))
        return r
    add(fn, "args a" if obj == "args" else "xcsf a", requires=lambda c: [nonnull(where(c, obj, c.old))],
        modifies=lambda c: [FAt(tag, field, where(c, obj, c.old)._b)] + ([GAll("seed")] if fn == "param_set_random_state" else []), ensures=ens)


for _r in TABLE:
    setter(*_r)
add("omp_set_num_threads", "n", trusted=True, note="the OpenMP runtime")
add("rand_init", "", trusted=True, modifies=lambda c: [GAll("seed")], note="seeds the generator")
add("rand_init_seed", "s", trusted=True, modifies=lambda c: [GAll("seed")], note="seeds the generator")


# ---------------------------------------------------------------- choices by number or name
def choice(fn, obj, field, valid, bad):
    def ens(c):
        a, new, old = c.o.a, getattr(where(c, obj, c.new), field), getattr(where(c, obj, c.old), field)
        ok = z3.Or(*[a == v for v in valid])
        return [("a known choice is stored", z3.Implies(ok, z3.And(new == a, c.ret == a))),
                ("an unknown one is refused and changes nothing", z3.Implies(z3.Not(ok), z3.And(new == old, c.ret == bad)))]
    add(fn, "xcsf a", requires=lambda c: [nonnull(where(c, obj, c.old))], modifies=lambda c: [FAt(TAGS[obj], field, where(c, obj, c.old)._b)], ensures=ens)


choice("ea_param_set_select_type", "ea", "select_type", (macro("EA_SELECT_ROULETTE"), macro("EA_SELECT_TOURNAMENT")), macro("EA_SELECT_INVALID"))

LNUM = macro("LOSS_NUM")
add("loss_set_func", "xcsf", trusted=True, note="proved under C07", modifies=lambda c: [FAt("XCSF", "loss_ptr", c.o.xcsf._b)])
add("param_set_loss_func", "xcsf a", modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("LOSS_FUNC", "loss_ptr")],
    ensures=lambda c: [("only a known loss is stored", z3.And(c.o.a >= 0, c.o.a < LNUM, c.n.xcsf.LOSS_FUNC == c.o.a))])

# ---------------------------------------------------------------- defaults
BYOBJ = {}
for _fn, _o, _t, _f, _lo, _hi, _m in TABLE:
    BYOBJ.setdefault(_t or _o, []).append((_f, _lo, _hi))


def in_range(o, key, skip=()):
    r = []
    for f, lo, hi in BYOBJ[key]:
        if f in skip or (lo is None and hi is None):
            continue
        v = getattr(o, f)
        r.append(("default %s in range" % f, rng(num(lo, v), num(hi, v), v)))
    return r


def all_fields(tag, key, b, extra=()):
    return [FAt(tag, f, b) for f, _, _ in BYOBJ[key]] + [FAt(tag, f, b) for f in extra]


add("rand_uniform", "min max", requires=lambda c: [], ensures=lambda c: [], modifies=lambda c: [GAll("seed")], trusted=True, note="proved under C03") if "rand_uniform" not in C else None
add("ea_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.ea)], modifies=lambda c: all_fields("ArgsEA", "ea", c.o.xcsf.ea._b, ("select_type",)),
    ensures=lambda c: in_range(c.n.xcsf.ea, "ea") + [("a known selection", z3.Or(*[c.n.xcsf.ea.select_type == macro(m) for m in ("EA_SELECT_ROULETTE", "EA_SELECT_TOURNAMENT")]))])


def layers(c, head, first, last=None, n=2):
    """the default layers form a chain: each takes as many inputs as the one before has units"""
    a = head
    r = [("layers exist", a._b >= c.old.nxt), ("the first layer takes the inputs", a.n_inputs == first)]
    for i in range(n - 1):
        b = a.next
        r += [("layer %d exists" % (i + 1), b._b >= c.old.nxt), ("layer %d takes the units of the one before" % (i + 1), b.n_inputs == a.n_init)]
        a = b
    r.append(("the chain ends", a.next._b == 0))
    if last is not None:
        r.append(("as many units as needed at the end", a.n_init == last))
    return r


def ldef(fn, obj, tag, last, n):
    add(fn, "xcsf", requires=lambda c: [nonnull(getattr(c.o.xcsf, obj))], modifies=lambda c: [FAt(tag, "largs", getattr(c.o.xcsf, obj)._b)],
        ensures=lambda c: layers(c, getattr(c.n.xcsf, obj).largs, c.o.xcsf.x_dim, last(c) if last else None, n), inline=("layer_args_init", "layer_args_copy"))


ldef("cond_neural_param_defaults", "cond", "ArgsCond", None, 2)
ldef("pred_neural_param_defaults", "pred", "ArgsPred", lambda c: c.o.xcsf.y_dim, 2)
ldef("act_neural_param_defaults", "act", "ArgsAct", lambda c: c.o.xcsf.n_actions, 3)
add("action_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.act)], modifies=lambda c: all_fields("ArgsAct", "act", c.o.xcsf.act._b, ("largs",)),
    ensures=lambda c: in_range(c.n.xcsf.act, "act") + [("layers", c.n.xcsf.act.largs._b >= c.old.nxt)])
add("pred_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.pred)], modifies=lambda c: all_fields("ArgsPred", "pred", c.o.xcsf.pred._b, ("largs",)),
    ensures=lambda c: in_range(c.n.xcsf.pred, "pred") + [("learning-rate bounds in order", c.n.xcsf.pred.eta_min <= c.n.xcsf.pred.eta), ("layers", c.n.xcsf.pred.largs._b >= c.old.nxt)])
add("cond_ternary_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.cond)], modifies=lambda c: [FAt("ArgsCond", f, c.o.xcsf.cond._b) for f in ("p_dontcare", "bits")],
    ensures=lambda c: [(l, g) for l, g in in_range(c.n.xcsf.cond, "cond", ("eta", "spread_min", "type"))])
add("cond_dgp_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.cond), ("inputs", c.o.xcsf.x_dim >= 1)], modifies=lambda c: [FAt("ArgsCond", "dargs", c.o.xcsf.cond._b)],
    ensures=lambda c: in_range(c.n.xcsf.cond.dargs, "ArgsDGP") + [("own storage", c.n.xcsf.cond.dargs._b >= c.old.nxt), ("its inputs", c.n.xcsf.cond.dargs.n_inputs == c.o.xcsf.x_dim)], inline=("graph_args_init",))
add("tree_args_init_constants", "args", requires=lambda c: [nonnull(c.o.args), ("count", c.o.args.n_constants >= 1), ("range", c.o.args.min <= c.o.args.max)],
    modifies=lambda c: [FAt("ArgsGPTree", "constants", c.o.args._b), GAll("seed")],
    ensures=lambda c: [("own storage", z3.And(c.n.args.constants._b >= c.old.nxt, z3.Select(c.g("bytes"), c.n.args.constants._b) >= 8 * c.o.args.n_constants)),
                       ("constants within their range", Forall(0, c.o.args.n_constants, lambda i: z3.And(c.o.args.min <= c.n.args.constants[i], c.n.args.constants[i] <= c.o.args.max),
                                                               pats=lambda i: c.n.args.constants[i]))])
add("cond_gp_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.cond), ("inputs", c.o.xcsf.x_dim >= 1)], modifies=lambda c: [FAt("ArgsCond", "targs", c.o.xcsf.cond._b), GAll("seed")],
    ensures=lambda c: in_range(c.n.xcsf.cond.targs, "ArgsGPTree") + [("own storage", c.n.xcsf.cond.targs._b >= c.old.nxt), ("its inputs", c.n.xcsf.cond.targs.n_inputs == c.o.xcsf.x_dim),
                                                                    ("constant range in order", c.n.xcsf.cond.targs.min <= c.n.xcsf.cond.targs.max)], inline=("tree_args_init",))
add("cond_param_defaults", "xcsf", requires=lambda c: [nonnull(c.o.xcsf.cond), ("inputs", c.o.xcsf.x_dim >= 1)],
    modifies=lambda c: all_fields("ArgsCond", "cond", c.o.xcsf.cond._b, ("largs", "dargs", "targs")) + [GAll("seed")],
    ensures=lambda c: in_range(c.n.xcsf.cond, "cond") + [("input range in order", c.n.xcsf.cond.min <= c.n.xcsf.cond.max)] + [
        ("storage of " + f, getattr(c.n.xcsf.cond, f)._b >= c.old.nxt) for f in ("largs", "dargs", "targs")])


def init_ens(c):
    q = c.n.xcsf
    return [("the dimensions are those given", z3.And(q.x_dim == c.o.x_dim, q.y_dim == c.o.y_dim, q.n_actions == c.o.n_actions))] + in_range(q, "xcsf") + [
        ("a known loss", z3.And(q.LOSS_FUNC >= 0, q.LOSS_FUNC < LNUM))] + in_range(q.ea, "ea") + in_range(q.cond, "cond") + in_range(q.pred, "pred") + in_range(q.act, "act") + [
        ("own storage of " + f, getattr(q, f)._b >= c.old.nxt) for f in ("ea", "act", "cond", "pred", "population_file")] + [
        ("parts distinct", z3.Distinct(*[getattr(q, f)._b for f in ("ea", "act", "cond", "pred", "population_file")])),
        ("no population file", q.population_file[0] == 0)]


add("param_init", "xcsf x_dim y_dim n_actions", requires=lambda c: [nonnull(c.o.xcsf), ("dimensions", z3.And(c.o.x_dim >= 1, c.o.y_dim >= 1, c.o.n_actions >= 1))],
    modifies=lambda c: all_fields("XCSF", "xcsf", c.o.xcsf._b, ("time", "error", "mset_size", "aset_size", "mfrac", "ea", "act", "cond", "pred", "population_file", "LOSS_FUNC", "loss_ptr")) + [GAll("seed")],
    ensures=init_ens)


# ---------------------------------------------------------------- names
def names(prefix, pairs):
    return [(n, macro(prefix + m) if isinstance(m, str) else m) for n, m in pairs]


NAMES = {
    "condition_type": (macro("COND_TYPE_INVALID"), [("dummy", "COND_TYPE_DUMMY"), ("hyperrectangle_csr", "COND_TYPE_HYPERRECTANGLE_CSR"), ("hyperrectangle_ubr", "COND_TYPE_HYPERRECTANGLE_UBR"),
                       ("hyperellipsoid", "COND_TYPE_HYPERELLIPSOID"), ("neural", "COND_TYPE_NEURAL"), ("tree_gp", "COND_TYPE_GP"), ("dgp", "COND_TYPE_DGP"), ("ternary", "COND_TYPE_TERNARY"),
                       ("rule_dgp", "RULE_TYPE_DGP"), ("rule_neural", "RULE_TYPE_NEURAL"), ("rule_network", "RULE_TYPE_NETWORK")]),
    "prediction_type": (macro("PRED_TYPE_INVALID"), [("constant", "PRED_TYPE_CONSTANT"), ("nlms_linear", "PRED_TYPE_NLMS_LINEAR"), ("nlms_quadratic", "PRED_TYPE_NLMS_QUADRATIC"),
                        ("rls_linear", "PRED_TYPE_RLS_LINEAR"), ("rls_quadratic", "PRED_TYPE_RLS_QUADRATIC"), ("neural", "PRED_TYPE_NEURAL")]),
    "action_type": (macro("ACT_TYPE_INVALID"), [("integer", "ACT_TYPE_INTEGER"), ("neural", "ACT_TYPE_NEURAL")]),
    "ea_type": (macro("EA_SELECT_INVALID"), [("roulette", "EA_SELECT_ROULETTE"), ("tournament", "EA_SELECT_TOURNAMENT")]),
    "loss_type": (macro("LOSS_INVALID"), [("mae", "LOSS_MAE"), ("mse", "LOSS_MSE"), ("rmse", "LOSS_RMSE"), ("log", "LOSS_LOG"), ("binary_log", "LOSS_BINARY_LOG"),
                  ("onehot", "LOSS_ONEHOT"), ("huber", "LOSS_HUBER")]),
}
NAMES = {k: (b, [(n, macro(m)) for n, m in v]) for k, (b, v) in NAMES.items()}


def spelled(p, name):
    return z3.And(*[p[i] == ord(ch) for i, ch in enumerate(name + "\0")])


for _k, (_bad, _v) in NAMES.items():
    def _as_int(c, bad=_bad, v=_v):
        return [("'%s' names its kind" % n, z3.Implies(spelled(c.o.type, n), c.ret == m)) for n, m in v] + [
            ("any other name is invalid", z3.Or(c.ret == bad, *[z3.And(spelled(c.o.type, n), c.ret == m) for n, m in v]))]

    def _as_str(c, v=_v):
        return [("the name of kind '%s'" % n, z3.Implies(c.o.type == m, c.ret._b == c.ex.strconst(n).base)) for n, m in v]
    add(_k + "_as_int", "type", requires=lambda c: [nonnull(c.o.type)], ensures=_as_int)
    add(_k + "_as_string", "type", ensures=_as_str)


def by_name(fn, obj, field, kind):
    bad, v = NAMES[kind]

    def ens(c):
        new, old = getattr(where(c, obj, c.new), field), getattr(where(c, obj, c.old), field)
        return [("'%s' selects its kind" % n, z3.Implies(spelled(c.o.a, n), z3.And(new == m, c.ret == m))) for n, m in v] + [
            ("an unknown name is refused and changes nothing", z3.Or(z3.And(c.ret == bad, new == old), *[spelled(c.o.a, n) for n, m in v]))]
    add(fn, "xcsf a", requires=lambda c: [nonnull(where(c, obj, c.old), c.o.a)], modifies=lambda c: [FAt(TAGS[obj], field, where(c, obj, c.old)._b)], ensures=ens)


by_name("ea_param_set_type_string", "ea", "select_type", "ea_type")
by_name("cond_param_set_type_string", "cond", "type", "condition_type")
by_name("pred_param_set_type_string", "pred", "type", "prediction_type")
by_name("action_param_set_type_string", "act", "type", "action_type")

from dv.builtins import STRLEN


def file_ens(c):
    n = z3.If(STRLEN(c.o.a._b) < 512, STRLEN(c.o.a._b), 512)
    q = c.n.xcsf.population_file
    return [("the name is copied", Forall(0, n, lambda i: q[i] == c.o.a[i], pats=lambda i: q[i])), ("and ends where it ends", q[n] == 0), ("accepted", c.ret._b == 0),
            ("its own storage", z3.And(q._b >= c.old.nxt, z3.Select(c.g("bytes"), q._b) >= n + 1))]


add("param_set_population_file", "xcsf a", requires=lambda c: [nonnull(c.o.xcsf, c.o.a), ("not the stored name itself", c.o.a._b != c.o.xcsf.population_file._b), c.o.a._o == 0],
    modifies=lambda c: [FAt("XCSF", "population_file", c.o.xcsf._b)], ensures=file_ens)
C["loss_set_func"].ensures = lambda c: [z3.Implies(z3.And(c.o.xcsf.LOSS_FUNC >= 0, c.o.xcsf.LOSS_FUNC < LNUM), c.ret == c.o.xcsf.LOSS_FUNC)]
_lv = NAMES["loss_type"][1]
add("param_set_loss_func_string", "xcsf a", requires=lambda c: [nonnull(c.o.xcsf, c.o.a)], modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("LOSS_FUNC", "loss_ptr")],
    ensures=lambda c: [("'%s' selects its loss" % n, z3.Implies(spelled(c.o.a, n), z3.And(c.n.xcsf.LOSS_FUNC == m, c.ret == macro("PARAM_FOUND")))) for n, m in _lv] + [
        ("an unknown name is refused and changes nothing", z3.Or(z3.And(c.ret == macro("PARAM_INVALID"), c.n.xcsf.LOSS_FUNC == c.o.xcsf.LOSS_FUNC, c.n.xcsf.loss_ptr == c.o.xcsf.loss_ptr), *[spelled(c.o.a, n) for n, m in _lv]))])
