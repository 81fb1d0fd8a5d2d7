"""Supervised learning: presentation of samples, training, prediction, scoring."""
from .proto import *

LEARN = ("ty", "u_n", "u_s", "u_x", "u_o", "u_t", "u_c", "u_yb", "u_yo", "e_n", "e_s", "m_n", "m_x", "m_o", "m_c", "p_n", "p_m", "p_a")
# the samples presented so far, in test mode (0) and training mode (1)
LOGS = ("s_x", "s_xo", "s_y", "s_yo", "s_pa", "s_r")
TRIAL = tuple(g + m for g in LOGS + ("s_n",) for m in "01")
for _m in "01":
    GHOST_SORTS["s_pa" + _m] = z3.ArraySort(I, AR)
    GHOST_SORTS["acc" + _m] = z3.ArraySort(I, R)
GHOST_SORTS["ma"] = z3.ArraySort(I, R)


def train(c):
    return c.o.xcsf.explore == 1


def by_mode(c, name, f):
    """the log of the current mode changes as given, the other one does not"""
    return [z3.Implies(train(c), f(name + "1")), z3.Implies(z3.Not(train(c)), f(name + "0")),
            z3.Implies(train(c), c.g(name + "0") == c.g(name + "0", c.old)), z3.Implies(z3.Not(train(c)), c.g(name + "1") == c.g(name + "1", c.old))]


tr("XCSF.loss_ptr", "xcsf pred y", requires=lambda c: [
        ("judges the system prediction", z3.And(c.o.pred._b == c.o.xcsf.pa._b, off(c.o.pred) == 0)),
        ("against the target of the sample just presented", z3.And(c.o.y._b == G0(c, "l_y"), off(c.o.y) == G0(c, "l_yo")))],
   modifies=lambda c: [GAll(g) for g in ("acc0", "acc1", "l_n0", "l_n1", "ma")],
   ensures=lambda c: [c.ret == LOSSV(c.o.pred.arr, c.o.y._b, off(c.o.y))] + by_mode(c, "acc", lambda g: G(c, g) == G0(c, g) + c.ret) +
   by_mode(c, "l_n", lambda g: G(c, g) == G0(c, g) + 1) + [G(c, "ma") == G0(c, "ma") + z3.If(train(c), (c.ret - G0(c, "ma")) * c.o.xcsf.BETA, rval(0))],
   note="the configured loss is one of the functions of loss.c (each under its own contract); the sum of its values is tracked per mode")


padd("xcs_supervised_sample", "data cnt shuffle", requires=lambda c: [("samples", c.o.data.n_samples >= 1), ("position", c.o.cnt >= 0)], setup=None, modifies=lambda c: [GAll("l_row")],
     ghost_exit=lambda cx, s: s.heap.__setitem__(("G", "l_row"), z3.Store(cx.g("l_row", s), 0, cx.ret)),
     ensures=lambda c: [("a row of the data", z3.And(0 <= c.ret, c.ret < c.o.data.n_samples)), ("in order unless shuffled", z3.Implies(c.o.shuffle == 0, c.ret == c.o.cnt % c.o.data.n_samples)), ("remembered", G(c, "l_row") == c.ret)])


def idle(c, st=None):
    return z3.And(ty(c, "mset", st) == CLOSED, ty(c, "kset", st) == CLOSED, ty(c, "aset", st) == CLOSED, ty(c, "prev_aset", st) == CLOSED)


def base_req(c):
    x = c.o.xcsf
    return [("no set in use", idle(c, c.old)), ("prediction arrays", z3.And(x.pa._b != x.nr._b, nonnull(x.pa, x.nr))), ("sizes", z3.And(x.pa_size >= 1, x.x_dim >= 1))]


def logged(c):
    y = c.o.y
    return (("s_x", bas(c.o.x)), ("s_xo", off(c.o.x)), ("s_y", bas(y)), ("s_yo", off(y)), ("s_pa", c.n.xcsf.pa.arr), ("s_r", G0(c, "l_row")))


def log_trial(cx, s):
    for m in "01":
        on = train(cx) if m == "1" else z3.Not(train(cx))
        n = z3.Select(cx.g("s_n" + m, s), 0)
        for g, v in logged(cx):
            a = cx.g(g + m, s)
            s.heap[("G", g + m)] = z3.If(on, z3.Store(a, n, v), a)
        a = cx.g("s_n" + m, s)
        s.heap[("G", "s_n" + m)] = z3.If(on, z3.Store(a, 0, n + 1), a)
    s.heap[("G", "l_y")] = z3.Store(cx.g("l_y", s), 0, bas(cx.o.y))
    s.heap[("G", "l_yo")] = z3.Store(cx.g("l_yo", s), 0, off(cx.o.y))


def st_ens(c):
    x, n = c.o.xcsf, c.n.xcsf
    u0, e0 = G0(c, "u_n"), G0(c, "e_n")
    cov = c.o.cover._b != 0
    learn = x.explore == 1
    built = z3.And(G(c, "p_n") == G0(c, "p_n") + 1, G(c, "p_m") == G0(c, "m_n"))
    return [("every set is released", idle(c)),
            ("one match, on the given input", z3.And(G(c, "m_n") == G0(c, "m_n") + 1, G(c, "m_x") == c.o.x._b, G(c, "m_o") == off(c.o.x))),
            ("covering exactly when no default is given", G(c, "m_c") == z3.If(cov, 0, 1)),
            ("prediction from the match set, or the given default when nothing matches", z3.Or(built, z3.And(cov, G(c, "p_n") == G0(c, "p_n")))),
            ("the default is used as given", DefaultUsed(c)),
            ("one update of the match set towards the target exactly in training mode", G(c, "u_n") == u0 + z3.If(learn, 1, 0)),
            ("that update", z3.Implies(learn, z3.And(G(c, "u_s", u0) == sb(c, "mset"), G(c, "u_x", u0) == c.o.x._b, G(c, "u_o", u0) == off(c.o.x), G(c, "u_yb", u0) == c.o.y._b, G(c, "u_yo", u0) == off(c.o.y)))),
            ("rule discovery exactly in training mode", z3.And(G(c, "e_n") == e0 + z3.If(learn, 1, 0), z3.Implies(learn, G(c, "e_s", e0) == sb(c, "mset")))),
            ("counted", z3.And(*by_mode(c, "s_n", lambda g: G(c, g) == G0(c, g) + 1))),
            ("logged", z3.And(*[z for nm, v in logged(c) for z in by_mode(c, nm, lambda g, v=v: c.g(g) == z3.Store(c.g(g, c.old), G0(c, "s_n" + g[-1]), v))])),
            ("target remembered", z3.And(G(c, "l_y") == c.o.y._b, G(c, "l_yo") == off(c.o.y)))]


class DefaultUsed:
    def __init__(self, c):
        self.c = c

    def body(self):
        c = self.c
        return G(c, "p_n") == G0(c, "p_n"), Forall(0, c.o.xcsf.pa_size, lambda j: c.n.xcsf.pa[j] == c.o.cover[j], pats=lambda j: c.n.xcsf.pa[j])

    def as_fact(self):
        h, f = self.body()
        return z3.Implies(h, f.as_fact())

    def as_goal(self):
        h, f = self.body()
        return z3.Implies(h, f.as_goal())


def st_mods(c):
    return [x for f in SETS + ("pset",) for x in setf(sb(c, f))] + stats(c) + [AAt("double", c.o.xcsf.pa._b), AAt("double", c.o.xcsf.nr._b)] + [
        GAll(g) for g in LEARN + TRIAL + ("l_y", "l_yo")]


def inp_sep(c, *ps):
    out = []
    for p in ps:
        b = getattr(c.o, p)._b
        out.append(z3.And(b != c.o.xcsf.pa._b, b != c.o.xcsf.nr._b))
    return ("inputs are separate from the prediction arrays", z3.And(*out))


C["pa_build"].ensures = lambda c: app(c, "p_n") + [G(c, "p_m") == G0(c, "m_n") - 1]
padd("xcs_supervised_trial", "xcsf x y cover", requires=lambda c: base_req(c) + [inp_sep(c, "x", "cover"), ("mode", z3.And(c.o.xcsf.explore >= 0, c.o.xcsf.explore <= 1))],
     modifies=st_mods, ensures=st_ens, ghost_exit=log_trial)


# ---------------------------------------------------------------- data sets
def data_ok(c, d, st=None):
    x = c.o.xcsf
    return [("samples", z3.And(d.n_samples >= 1, d.x_dim >= 1, d.y_dim >= 1)), ("data is separate", z3.And(d.x._b > 0, d.y._b > 0, *[
        z3.And(a != x.pa._b, a != x.nr._b) for a in (d.x._b, d.y._b)]))]


def rows(c, d, m, n, row=None, cond=None, st=None, n0=None, cols=True):
    """the samples presented in mode m since the start are rows of the data, inputs with their own targets"""
    st = st if st is not None else c.new
    n0 = G0(c, "s_n" + m)

    def f(j):
        p = n0 + j
        xo, yo = z3.Select(c.g("s_xo" + m, st), p), z3.Select(c.g("s_yo" + m, st), p)
        r = [z3.Select(c.g("s_x" + m, st), p) == d.x._b, z3.Select(c.g("s_y" + m, st), p) == d.y._b]
        w = row(j) if row and cond is None else z3.Select(c.g("s_r" + m, st), p)
        r += [xo == w * d.x_dim, yo == w * d.y_dim, 0 <= w, w < d.n_samples]
        if row and cond is not None:
            r.append(z3.Implies(cond, w == row(j)))
        return z3.Implies(MARK(j), z3.And(*r))
    return Forall(0, n, f, pats=lambda j: MARK(j))


def cnt(c, g, n):
    return G(c, g) == G0(c, g) + n


def all_mods(c):
    return st_mods(c) + [GAll(g) for g in ("acc0", "acc1", "l_n0", "l_n1", "ma", "l_row")] + [FAt("XCSF", "explore", c.o.xcsf._b)]


def score_ens(n, row, cond=None):
    def f(c):
        d = c.o.data
        k = n(c)
        return [("every set is released", idle(c)), ("nothing is learned", z3.And(cnt(c, "u_n", 0), cnt(c, "e_n", 0), cnt(c, "s_n1", 0))), ("test mode", c.n.xcsf.explore == 0),
                ("each sample is presented once and judged once", z3.And(cnt(c, "s_n0", k), cnt(c, "l_n0", k))), ("rows with their own targets", rows(c, d, "0", k, row, cond(c) if cond else None)),
                ("mean loss", c.ret * toreal(k) == G(c, "acc0") - G0(c, "acc0"))]
    return f


def loop_cands(parts):
    def f(c, s, S0, k):
        z = lambda n: z3.Select(c.g(n, s), 0)
        z0 = lambda n: z3.Select(c.g(n, c.old), 0)
        out = [z3.And(*[z3.Select(c.g("ty", s), sb(c, q)) == CLOSED for q in SETS])]
        out += [z("s_n0") == z0("s_n0") + k, z("s_n1") == z0("s_n1") + k, z("l_n0") == z0("l_n0") + k, z("l_n1") == z0("l_n1") + k, z("u_n") == z0("u_n"), z("e_n") == z0("e_n")]
        return out + parts(c, s, k)
    return f


def acc_role(c, s, m):
    return lambda t: t == z3.Select(c.g("acc" + m, s), 0) - z3.Select(c.g("acc" + m, c.old), 0) if t.sort() == R else z3.BoolVal(False)


padd("xcs_supervised_score", "xcsf data cover", opts={"cand_timeout": 5}, requires=lambda c: base_req(c) + data_ok(c, c.o.data) + [inp_sep(c, "cover")], modifies=all_mods,
     ensures=score_ens(lambda c: c.o.data.n_samples, lambda j: j),
     cands=loop_cands(lambda c, s, k: [rows(c, c.o.data, "0", k, lambda j: j, None, s)]), roles=lambda c, s, S0, k: [acc_role(c, s, "0")])


def scn_n(c):
    return z3.If(c.o.N > c.o.data.n_samples, c.o.data.n_samples, c.o.N)


class scn_all:
    """all rows when more are asked for than there are, otherwise sampled rows"""
    def __init__(self, c):
        d = c.o.data
        self.h, self.a, self.b = c.o.N > d.n_samples, rows(c, d, "0", d.n_samples, lambda j: j), rows(c, d, "0", c.o.N)

    def as_fact(self):
        return z3.And(z3.Implies(self.h, self.a.as_fact()), z3.Implies(z3.Not(self.h), self.b.as_fact()))

    def as_goal(self):
        return z3.And(z3.Implies(self.h, self.a.as_goal()), z3.Implies(z3.Not(self.h), self.b.as_goal()))


def scn_rows(c):
    return ("rows with their own targets", scn_all(c))


padd("xcs_supervised_score_n", "xcsf data N cover", requires=lambda c: base_req(c) + data_ok(c, c.o.data) + [inp_sep(c, "cover"), ("at least one", c.o.N >= 1)], modifies=all_mods,
     ensures=lambda c: [scn_rows(c) if "own targets" in lab else (lab, g) for lab, g in score_ens(scn_n, None)(c)], cands=loop_cands(lambda c, s, k: [rows(c, c.o.data, "0", k, None, None, s)]), roles=lambda c, s, S0, k: [acc_role(c, s, "0")])


def fit_n(c):
    return z3.If(c.o.test_data._b != 0, c.o.trials, 0)


def fit_ens(c):
    n, x = c.n.xcsf, c.o.xcsf
    row = lambda d: lambda j: (j + c.o.start) % d.n_samples
    k = c.o.trials
    return [("every set is released", idle(c)), ("one training sample per trial", z3.And(cnt(c, "s_n1", k), cnt(c, "l_n1", k), cnt(c, "u_n", k), cnt(c, "e_n", k))),
            ("and one test sample when test data is given", z3.And(cnt(c, "s_n0", fit_n(c)), cnt(c, "l_n0", fit_n(c)))),
            ("training rows with their own targets, in order unless shuffled", rows(c, c.o.train_data, "1", k, row(c.o.train_data), c.o.shuffle == 0)),
            ("test rows with their own targets, in order unless shuffled", rows(c, c.o.test_data, "0", fit_n(c), row(c.o.test_data), c.o.shuffle == 0)),
            ("mean training loss", c.ret * toreal(k) == G(c, "acc1") - G0(c, "acc1")), ("moving average of the training loss", n.error == G(c, "ma"))]


def fit_cands(c, s, S0, k):
    z = lambda n: z3.Select(c.g(n, s), 0)
    z0 = lambda n: z3.Select(c.g(n, c.old), 0)
    t = z3.If(c.o.test_data._b != 0, k, 0)
    row = lambda d: lambda j: (j + c.o.start) % d.n_samples
    return [z3.And(*[z3.Select(c.g("ty", s), sb(c, q)) == CLOSED for q in SETS])] + [z(g) == z0(g) + k for g in ("s_n1", "l_n1", "u_n", "e_n")] + [z(g) == z0(g) + t for g in ("s_n0", "l_n0")] + [
        c.obj(c.o.xcsf._b, "XCSF", s).error == z("ma"), rows(c, c.o.train_data, "1", k, row(c.o.train_data), c.o.shuffle == 0, s),
        rows(c, c.o.test_data, "0", t, row(c.o.test_data), c.o.shuffle == 0, s)]


def test_ok(c):
    return [("test " + lab, z3.Implies(c.o.test_data._b != 0, g)) for lab, g in data_ok(c, c.o.test_data)]


padd("xcs_supervised_fit", "xcsf train_data test_data shuffle start trials", requires=lambda c: base_req(c) + data_ok(c, c.o.train_data) + test_ok(c) + [
        ("at least one trial", z3.And(c.o.trials >= 1, c.o.start >= 0)), ("mode", z3.And(c.o.shuffle >= 0, c.o.shuffle <= 1)), ("reporting interval", c.o.xcsf.PERF_TRIALS >= 1),
        ("error so far", c.o.xcsf.error == G0(c, "ma"))],
     modifies=lambda c: all_mods(c) + [FAt("XCSF", "error", c.o.xcsf._b)], ensures=fit_ens, cands=fit_cands, roles=lambda c, s, S0, k: [acc_role(c, s, "1")], opts={"cand_timeout": 5})


MARK2 = z3.Function("MARK2", I, I, z3.BoolSort())


class OutRows:
    """for each sample r < n, the outputs written for it are those predicted on it"""
    def __init__(self, c, st, n):
        ps, o = c.o.xcsf.pa_size, off(c.o.pred)
        P = c.o.pred._at(st).arr
        S = c.g("s_pa0", st)
        n0 = G0(c, "s_n0")
        self.f = lambda r, j: z3.Implies(z3.And(0 <= r, r < n, 0 <= j, j < ps, MARK2(r, j)), z3.Select(P, o + r * ps + j) == sel(z3.Select(S, n0 + r), j))

    def as_fact(self):
        r, j = fresh("orr", I), fresh("orj", I)
        return z3.ForAll([r, j], self.f(r, j), patterns=[MARK2(r, j)])

    def as_goal(self):
        return self.f(fresh("okr", I), fresh("okj", I))


def out_lemma(c, h, e, k):
    """a later row starts after the end of an earlier one"""
    r, j = fresh("orr", I), fresh("orj", I)
    ps = c.o.xcsf.pa_size
    return [z3.ForAll([r, j], z3.Implies(z3.And(0 <= r, r < k), r * ps + ps <= k * ps), patterns=[MARK2(r, j)])]


padd("xcs_supervised_predict", "xcsf x pred n_samples cover", requires=lambda c: base_req(c) + [inp_sep(c, "cover", "x", "pred"), ("samples", c.o.n_samples >= 0),
                                                                                            ("separate outputs", z3.And(c.o.pred._b != c.o.x._b, c.o.pred._b != c.o.cover._b))],
     modifies=lambda c: all_mods(c) + [AAt("double", c.o.pred._b)],
     ensures=lambda c: [("every set is released", idle(c)), ("nothing is learned", z3.And(cnt(c, "u_n", 0), cnt(c, "e_n", 0), cnt(c, "s_n1", 0))), ("test mode", c.n.xcsf.explore == 0),
                        ("each sample is presented once, in order", z3.And(cnt(c, "s_n0", c.o.n_samples))), ("inputs", in_rows(c, c.new, c.o.n_samples)),
                        ("each sample's outputs are what was predicted on it", OutRows(c, c.new, c.o.n_samples))],
     cands=loop_cands(lambda c, s, k: [in_rows(c, s, k), OutRows(c, s, k)]), opts={"loop_lemmas": out_lemma, "cand_timeout": 4})


def in_rows(c, st, n):
    n0 = G0(c, "s_n0")
    return Forall(0, n, lambda j: z3.Implies(MARK(j), z3.And(z3.Select(c.g("s_x0", st), n0 + j) == c.o.x._b,
                                                            z3.Select(c.g("s_xo0", st), n0 + j) == off(c.o.x) + j * c.o.xcsf.x_dim)), pats=lambda j: MARK(j))
