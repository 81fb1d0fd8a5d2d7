"""Creation, copying and release of the parts of a rule."""
from .num import *
from . import tern as _t

tern = _t.tern


def ell(c, nm, st):
    return c.view(nm, st).cond.as_("CondEllipsoid")


def bytes_(c, b, st=None):
    return z3.Select(c.g("bytes", st), b)


def owned(c, *bs):
    """new blocks, all different"""
    return ("own storage", z3.And(z3.Distinct(*bs), *[b >= c.old.nxt for b in bs]))


def roomy(c, *pairs):
    return ("blocks are large enough", z3.And(*[bytes_(c, b) >= n for b, n in pairs]))


def between(c, arr, n, lo, hi, lab):
    return (lab, Forall(0, n, lambda j: z3.And(lo <= arr[j], arr[j] <= hi), pats=lambda j: z3.Select(arr.arr, j)))


def eqarr(a, b, n, lab):
    return (lab, Forall(0, n, lambda j: b[j] == a[j], pats=lambda j: z3.Select(b.arr, j)))


def mu_in(a, n=1):
    return ("mutation rates in range", z3.And(*[mu_ok(a[i]) for i in range(n)]))


XD = lambda c: c.o.xcsf.x_dim


def cfg(c):
    return [nonnull(c.o.c), ("configuration", z3.And(XD(c) >= 0, c.o.xcsf.cond.min <= c.o.xcsf.cond.max))]


# ---------------------------------------------------------------- conditions
def two(c, st, nm, T, f1, f2):
    p = c.view(nm, st).cond.as_(T)
    return p, getattr(p, f1), getattr(p, f2)


def spread_rng(c):
    d = absr(c.o.xcsf.cond.max - c.o.xcsf.cond.min)
    m = c.o.xcsf.cond.spread_min
    return minr(m, d), maxr(m, d)


def own2(c, nm, T, f1, f2):
    p, a, b = two(c, c.new, nm, T, f1, f2)
    return [owned(c, p._b, a._b, b._b, p.mu._b), roomy(c, (a._b, 8 * XD(c)), (b._b, 8 * XD(c)), (p.mu._b, 8))]


def rect_init_ens(c):
    p, a, b = two(c, c.new, "c", "CondRectangle", "b1", "b2")
    lo, hi = c.o.xcsf.cond.min, c.o.xcsf.cond.max
    slo, shi = spread_rng(c)
    csr = c.o.xcsf.cond.type == CSR()
    return own2(c, "c", "CondRectangle", "b1", "b2") + [
        between(c, a, XD(c), lo, hi, "centres or bounds within the range"),
        between(c, b, XD(c), z3.If(csr, slo, lo), z3.If(csr, shi, hi), "spreads or bounds within the range"), mu_in(p.mu)]


def init_cands(T, fs):
    """what a loop filling a fresh array maintains, whichever array it is"""
    def f(c, s, S0, k):
        m = c.ex._hm(s, ("A", "double"))
        lo, hi = c.o.xcsf.cond.min, c.o.xcsf.cond.max
        slo, shi = spread_rng(c)
        F_ = z3.BoolVal(False)

        def fill(lo, hi, n):
            def g(t):
                if t.sort() != I:
                    return F_
                row = z3.Select(m, t)
                return conj(Forall(0, n, lambda j: z3.And(lo <= z3.Select(row, j), z3.Select(row, j) <= hi), pats=lambda j: z3.Select(row, j)))
            return RoleAny(g)
        return [fill(lo, hi, k), fill(slo, shi, k), fill(lo, hi, XD(c)), fill(slo, shi, XD(c))]
    return f


add("cond_rectangle_init", "xcsf c", requires=cfg, modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=rect_init_ens, roles=init_cands("CondRectangle", ("b1", "b2")))


def ell_init_ens(c):
    p, a, b = two(c, c.new, "c", "CondEllipsoid", "center", "spread")
    slo, shi = spread_rng(c)
    return own2(c, "c", "CondEllipsoid", "center", "spread") + [
        between(c, a, XD(c), c.o.xcsf.cond.min, c.o.xcsf.cond.max, "centres within the range"),
        between(c, b, XD(c), slo, shi, "spreads within the range"), mu_in(p.mu)]


add("cond_ellipsoid_init", "xcsf c", requires=cfg, modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=ell_init_ens, roles=init_cands("CondEllipsoid", ("center", "spread")))


def copy2(fn, T, f1, f2):
    def ens(c):
        p, a, b = two(c, c.old, "src", T, f1, f2)
        q, a1, b1 = two(c, c.new, "dest", T, f1, f2)
        return own2(c, "dest", T, f1, f2) + [eqarr(a, a1, XD(c), "same %s" % f1), eqarr(b, b1, XD(c), "same %s" % f2), ("same mutation rates", q.mu[0] == p.mu[0])]
    add(fn, "xcsf dest src", requires=lambda c: [nonnull(c.o.dest, c.o.src), ("dimension", XD(c) >= 0)],
        modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b)], ensures=ens)


copy2("cond_rectangle_copy", "CondRectangle", "b1", "b2")
copy2("cond_ellipsoid_copy", "CondEllipsoid", "center", "spread")


def release(fn, parts):
    """every part is freed exactly once and nothing else is"""
    def req(c):
        bs = parts(c)
        return [("live, separate blocks", z3.And(z3.Distinct(*bs), *[z3.And(b > 0, z3.Select(c.g("freed", c.old), b) == 0) for b in bs]))]
    add(fn, "xcsf c", requires=req, modifies=lambda c: [GAt("freed", b) for b in parts(c)],
        ensures=lambda c: [("every block is freed", z3.And(*[z3.Select(c.g("freed"), b) == 1 for b in parts(c)]))],
        opts={"track_free": True})


def parts(T, fs, slot="cond"):
    def f(c):
        p = getattr(c.o.c, slot).as_(T)
        return [p._b] + [getattr(p, x)._b for x in fs]
    return f


release("cond_rectangle_free", parts("CondRectangle", ("b1", "b2", "mu")))
release("cond_ellipsoid_free", parts("CondEllipsoid", ("center", "spread", "mu")))
release("cond_ternary_free", parts("CondTernary", ("string", "tmp_input", "mu")))
release("act_integer_free", parts("ActInteger", ("mu",), "act"))
release("pred_nlms_free", parts("PredNLMS", ("weights", "tmp_input", "mu"), "pred"))
release("pred_rls_free", parts("PredRLS", ("weights", "matrix", "tmp_input", "tmp_vec", "tmp_matrix1", "tmp_matrix2"), "pred"))


# ternary strings
def symbol(v):
    return z3.Or(v == _t.HASH, v == _t.C0, v == _t.C1)


def tsyms(arr, n):
    return ("symbols are 0, 1 or #", Forall(0, n, lambda j: symbol(arr[j]), pats=lambda j: z3.Select(arr.arr, j)))


add("cond_ternary_rand", "xcsf c", requires=lambda c: [nonnull(tern(c, "c", c.old), tern(c, "c", c.old).string), ("length", tern(c, "c", c.old).length >= 0)],
    modifies=lambda c: [AAt("i1", tern(c, "c", c.old).string._b)],
    ensures=lambda c: [tsyms(tern(c, "c", c.new).string, tern(c, "c", c.old).length),
                       ("all don't care when the probability is one", Forall(0, tern(c, "c", c.old).length, lambda j: z3.Implies(
                           c.o.xcsf.cond.p_dontcare >= 1, tern(c, "c", c.new).string[j] == _t.HASH), pats=lambda j: z3.Select(tern(c, "c", c.new).string.arr, j))),
                       ("no don't care when the probability is zero", Forall(0, tern(c, "c", c.old).length, lambda j: z3.Implies(
                           c.o.xcsf.cond.p_dontcare <= 0, tern(c, "c", c.new).string[j] != _t.HASH), pats=lambda j: z3.Select(tern(c, "c", c.new).string.arr, j)))])


def tern_own(c, nm, n):
    p = tern(c, nm, c.new)
    return [owned(c, p._b, p.string._b, p.tmp_input._b, p.mu._b),
            roomy(c, (p.string._b, n), (p.tmp_input._b, c.o.xcsf.cond.bits), (p.mu._b, 8))]


add("cond_ternary_init", "xcsf c", requires=lambda c: [nonnull(c.o.c), ("configuration", z3.And(XD(c) >= 0, c.o.xcsf.cond.bits >= 0, XD(c) * c.o.xcsf.cond.bits >= 0))],
    modifies=lambda c: [FAt("Cl", "cond", c.o.c._b)],
    ensures=lambda c: tern_own(c, "c", XD(c) * c.o.xcsf.cond.bits) + [
        ("one symbol per bit of every input", tern(c, "c", c.new).length == XD(c) * c.o.xcsf.cond.bits),
        tsyms(tern(c, "c", c.new).string, tern(c, "c", c.new).length), mu_in(tern(c, "c", c.new).mu)])
add("cond_ternary_copy", "xcsf dest src", requires=lambda c: [nonnull(c.o.dest, c.o.src), ("length", tern(c, "src", c.old).length >= 0)],
    modifies=lambda c: [FAt("Cl", "cond", c.o.dest._b)],
    ensures=lambda c: tern_own(c, "dest", tern(c, "src", c.old).length) + [
        ("same length", tern(c, "dest", c.new).length == tern(c, "src", c.old).length),
        eqarr(tern(c, "src", c.old).string, tern(c, "dest", c.new).string, tern(c, "src", c.old).length, "same symbols"),
        ("same mutation rates", tern(c, "dest", c.new).mu[0] == tern(c, "src", c.old).mu[0])])

# ---------------------------------------------------------------- predictions
# position p of an array lies on the stride: p = o + w*inc with 0 <= w < n, where w is STRW
STR = z3.Function("STR", I, I, I, I, z3.BoolSort())
STRW = z3.Function("STRW", I, I, I, I)


def stride_defs():
    p, o, inc, n = z3.Consts("stp sto sti stn", I)
    w = STRW(o, inc, p)
    t = STR(o, inc, n, p)
    return [z3.ForAll([o, inc, n, p], z3.And(t == z3.And(0 <= w, w < n, p == o + w * inc), MARK(w)), patterns=[t])]


def fill_setup(c, st):
    if BOUND[0] is None:
        i = z3.Const("sti", I)
        o, inc = c.o.X._o, c.o.INCX
        # Euclid: the quotient of i*inc is i
        st.fact(z3.ForAll([i], STRW(o, inc, o + i * inc) == i, patterns=[STRW(o, inc, o + i * inc)]))
        for f in stride_defs():
            st.fact(f)


def fill_pos(c):
    o, inc = c.o.X._o, c.o.INCX
    return lambda i: o + i * inc


def fill_only(c, s, n):
    a1 = c.view("X", s).arr
    return ForallP(lambda p: z3.Or(z3.Select(a1, p) == z3.Select(c.o.X.arr, p), STR(c.o.X._o, c.o.INCX, n, p)), pats=lambda p: z3.Select(a1, p))


add("blas_fill", "N ALPHA X INCX", setup=fill_setup,
    requires=lambda c: [("stride", z3.And(c.o.N >= 0, c.o.INCX >= 1))],
    modifies=lambda c: [AAt("double", c.o.X._b)],
    ensures=lambda c: [("every strided element is set", Forall(0, c.o.N, lambda i: z3.Select(c.n.X.arr, fill_pos(c)(i)) == c.o.ALPHA, pats=lambda i: i * c.o.INCX))] + (
                      [("no other element changes", fill_only(c, c.new, c.o.N))] if BOUND[0] is None else []),
    cands=lambda c, s, S0, k: [fill_only(c, s, c.o.N)] if BOUND[0] is None else [])

BIAS = Rows("bias")


def bias_el(c, S, i, j, n):
    return z3.Select(S, i * n + j) == z3.If(j == 0, c.o.xcsf.pred.x0, rval(0))


def bias_setup(kind):
    def f(c, st):
        if BOUND[0] is None:
            n = npred(c, macro(PT[kind]))
            for g in BIAS.facts(n, lambda S, i, j: bias_el(c, S, i, j, n), lambda i: MARK(i), wit=True) + stride_defs():
                st.fact(g)
    return f


def bias_ens(c, kind, p):
    n = npred(c, macro(PT[kind]))
    if BOUND[0] is None:
        return [("weights start at zero, bias weights at the configured value", Forall(0, c.o.xcsf.y_dim, lambda i: z3.Implies(MARK(i), BIAS(p.weights.arr)(i)), pats=lambda i: MARK(i)))]
    return [("weights start at zero, bias weights at the configured value", Forall(0, c.o.xcsf.y_dim, lambda i: Forall(0, n, lambda j: bias_el(c, p.weights.arr, i, j, n))))]


def pn(c):
    x = XD(c)
    return x


def npred(c, q):
    x = XD(c)
    return z3.If(c.o.xcsf.pred.type == q, 1 + 2 * x + cdiv(x * (x - 1), ival(2)), x + 1)


PT = {"nlms": "PRED_TYPE_NLMS_QUADRATIC", "rls": "PRED_TYPE_RLS_QUADRATIC"}


def pview(c, kind, nm, st):
    return c.view(nm, st).pred.as_("Pred" + kind.upper())


def lin_cfg(c):
    x, y = XD(c), c.o.xcsf.y_dim
    return [("configuration", z3.And(x >= 1, y >= 1, x * (x - 1) >= 0)),
            ("positive products", z3.And((x + 1) * y >= 0, (1 + 2 * x + cdiv(x * (x - 1), ival(2))) * y >= 0))]


def lin_own(c, kind, nm):
    p = pview(c, kind, nm, c.new)
    arrs = ["weights", "tmp_input"] + (["mu"] if kind == "nlms" else ["matrix", "tmp_vec", "tmp_matrix1", "tmp_matrix2"])
    sz = {"weights": 8 * p.n_weights, "tmp_input": 8 * p.n, "mu": ival(8), "tmp_vec": 8 * p.n}
    for a in ("matrix", "tmp_matrix1", "tmp_matrix2"):
        sz[a] = 8 * (p.n * p.n)
    return [owned(c, p._b, *[getattr(p, a)._b for a in arrs]),
            roomy(c, *[(getattr(p, a)._b, sz[a]) for a in arrs]),
            ("one weight per input term", p.n == npred(c, macro(PT[kind]))),
            ("per output", p.n_weights == p.n * c.o.xcsf.y_dim)]


def nlms_init_ens(c):
    p = pview(c, "nlms", "c", c.new)
    g = c.o.xcsf.pred
    return lin_own(c, "nlms", "c") + bias_ens(c, "nlms", p) + [
        ("learning rate", z3.If(g.evolve_eta != 0, z3.And(minr(g.eta_min, g.eta) <= p.eta, p.eta <= maxr(g.eta_min, g.eta), mu_ok(p.mu[0])), z3.And(p.eta == g.eta, p.mu[0] == 0)))]


add("pred_nlms_init", "xcsf c", requires=lambda c: [nonnull(c.o.c)] + lin_cfg(c), modifies=lambda c: [FAt("Cl", "pred", c.o.c._b)], ensures=nlms_init_ens, setup=bias_setup("nlms"))


def lin_copy_req(c, kind):
    p = pview(c, kind, "src", c.old)
    return [nonnull(c.o.dest, c.o.src, p), ("separate rules", c.o.dest._b != c.o.src._b),
            ("a rule of this configuration", z3.And(p.n == npred(c, macro(PT[kind])), p.n_weights == p.n * c.o.xcsf.y_dim)),
            ] + lin_cfg(c)


def nlms_copy_ens(c):
    p, q = pview(c, "nlms", "src", c.old), pview(c, "nlms", "dest", c.new)
    return lin_own(c, "nlms", "dest") + [eqarr(p.weights, q.weights, p.n_weights, "same weights"),
                                         ("same learning and mutation rates", z3.And(q.eta == p.eta, q.mu[0] == p.mu[0]))]


add("pred_nlms_copy", "xcsf dest src", requires=lambda c: lin_copy_req(c, "nlms"), modifies=lambda c: [FAt("Cl", "pred", c.o.dest._b)], ensures=nlms_copy_ens)

GM = Rows("gain")


def gain_el(c, S, i, j):
    n = npred(c, macro(PT["rls"]))
    return z3.Select(S, i * n + j) == z3.If(i == j, c.o.xcsf.pred.scale_factor, rval(0))


def rls_setup(c, st):
    bias_setup("rls")(c, st)
    if BOUND[0] is None:
        for f in GM.facts(npred(c, macro(PT["rls"])), lambda S, i, j: gain_el(c, S, i, j), lambda i: MARK(i), wit=True):
            st.fact(f)


def rls_init_ens(c, nm="c"):
    p = pview(c, "rls", nm, c.new)
    g = c.o.xcsf.pred
    out = lin_own(c, "rls", nm)
    if nm == "c":
        out += bias_ens(c, "rls", p)
    if BOUND[0] is None:
        out += [("the gain matrix starts as a scaled identity", Forall(0, p.n, lambda i: z3.Implies(MARK(i), GM(p.matrix.arr)(i)), pats=lambda i: MARK(i)))]
    else:
        out += [("the gain matrix starts as a scaled identity", Forall(0, p.n, lambda i: Forall(0, p.n, lambda j: gain_el(c, p.matrix.arr, i, j))))]
    return out


add("pred_rls_init", "xcsf c", requires=lambda c: [nonnull(c.o.c)] + lin_cfg(c), modifies=lambda c: [FAt("Cl", "pred", c.o.c._b)], ensures=rls_init_ens, setup=rls_setup)
add("pred_rls_copy", "xcsf dest src", requires=lambda c: lin_copy_req(c, "rls"), modifies=lambda c: [FAt("Cl", "pred", c.o.dest._b)], setup=rls_setup,
    ensures=lambda c: rls_init_ens(c, "dest") + [eqarr(pview(c, "rls", "src", c.old).weights, pview(c, "rls", "dest", c.new).weights,
                                                       pview(c, "rls", "src", c.old).n_weights, "same weights")])


# ---------------------------------------------------------------- which implementation a rule uses
def table(c, name):
    """address of a table of implementations, if the function refers to it"""
    for k, v in c.ex.gbase.items():
        if k == name or k.endswith(":" + name):
            return v
    return ival(-1)


def slots(c, name, struct):
    """(slot, function) pairs of a constant table, from its initialiser"""
    g = None
    for u in c.ex.prog.units.values() if isinstance(c.ex.prog.units, dict) else c.ex.prog.units:
        g = g or u.gvars.get(name)
    ini = [x for x in (g or {}).get("inner", []) if x.get("kind") == "InitListExpr"]
    if not ini:
        raise Unsupported("table %s not found" % name)
    out = []
    for (f, _), e in zip(c.ex.prog.structs[struct], ini[0]["inner"]):
        while e["kind"] not in ("DeclRefExpr",) and e.get("inner"):
            e = e["inner"][0]
        out.append((f, (e.get("referencedDecl") or {}).get("name")))
    return out


def wired(c, name, struct, prefix, impl):
    """every slot under contract holds the implementation that was verified for it"""
    known = {"%s_%s" % (p, f.split("_impl_")[1]) for p in PREFIXES for f, _ in slots(c, name, struct)}
    out = []
    for f, fn in slots(c, name, struct):
        want = "%s_%s" % (prefix, f.split("_impl_")[1])
        if fn == want:
            out.append(z3.BoolVal(True))
        elif fn in known:
            out.append(z3.BoolVal(False))
        else:
            raise Unsupported("%s.%s is %s, a function without a contract" % (name, f, fn))
    return z3.And(*out)


PREFIXES = ("cond_dummy", "cond_rectangle", "cond_ellipsoid", "cond_ternary", "pred_constant", "pred_nlms", "pred_rls", "act_integer",
            "cond_neural", "cond_gp", "cond_dgp", "pred_neural", "act_neural", "rule_dgp", "rule_neural")


def dispatch(fn, sub, slot, struct, tbl):
    def types():
        return {macro(t): tb for t, tb in tbl.items()}

    def ens(c):
        t = getattr(c.o.xcsf, sub).type
        out = []
        for m, tb in tbl.items():
            out.append(("type %s selects %s" % (m.split("_TYPE_")[1].lower(), tb), z3.Implies(t == macro(m), getattr(c.n.c, slot)._b == table(c, tb + "_vtbl"))))
        if sub == "cond":
            out.append(("the kind of action is kept for basic conditions", z3.Or(c.n.c.act_vptr._b == c.o.c.act_vptr._b, z3.And(*[t != macro(m) for m in tbl]))))
        for tb in dict.fromkeys(tbl.values()):
            out.append(("the %s table holds the %s functions" % (tb, tb), wired(c, tb + "_vtbl", struct, tb, slot)))
        return out
    add(fn, "xcsf c", requires=lambda c: [nonnull(c.o.c)], ensures=lambda c: ens(c) if c.ex.verifying == fn else [],
        modifies=lambda c: [FAt("Cl", slot, c.o.c._b)] + ([FAt("Cl", "act_vptr", c.o.c._b)] if sub == "cond" else []))


dispatch("condition_set", "cond", "cond_vptr", "CondVtbl", {
    "COND_TYPE_DUMMY": "cond_dummy", "COND_TYPE_HYPERRECTANGLE_CSR": "cond_rectangle", "COND_TYPE_HYPERRECTANGLE_UBR": "cond_rectangle",
    "COND_TYPE_HYPERELLIPSOID": "cond_ellipsoid", "COND_TYPE_TERNARY": "cond_ternary", "COND_TYPE_NEURAL": "cond_neural", "COND_TYPE_GP": "cond_gp", "COND_TYPE_DGP": "cond_dgp"})
dispatch("prediction_set", "pred", "pred_vptr", "PredVtbl", {
    "PRED_TYPE_CONSTANT": "pred_constant", "PRED_TYPE_NLMS_LINEAR": "pred_nlms", "PRED_TYPE_NLMS_QUADRATIC": "pred_nlms",
    "PRED_TYPE_RLS_LINEAR": "pred_rls", "PRED_TYPE_RLS_QUADRATIC": "pred_rls", "PRED_TYPE_NEURAL": "pred_neural"})
dispatch("action_set", "act", "act_vptr", "ActVtbl", {"ACT_TYPE_INTEGER": "act_integer", "ACT_TYPE_NEURAL": "act_neural"})

_clf = C["cl_free"]


def clf_blocks(c):
    return [c.o.c.prediction._b, c.o.c._b]


add("cl_free", "xcsf c",
    requires=lambda c: [nonnull(c.o.c), ("live, separate blocks", z3.And(z3.Distinct(*clf_blocks(c)), *[z3.And(b > 0, z3.Select(c.g("freed", c.old), b) == 0) for b in clf_blocks(c)]))],
    modifies=lambda c: _clf.modifies(c) + [GAt("freed", b) for b in clf_blocks(c)],
    ensures=lambda c: _clf.ensures(c) + [("the rule and its prediction are freed", z3.And(*[z3.Select(c.g("freed"), b) == 1 for b in clf_blocks(c)]))],
    opts={"track_free": True})
