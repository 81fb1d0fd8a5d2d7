"""Drive verification of one contract; discharge obligations."""
import time
import traceback
import z3
from .smt import *
from .engine import *
from . import builtins as _b
from . import cast
from .pool import pmap


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "proved"     # proved | failed | unknown | error | missing
        self.obls = []             # (label, line, status)
        self.detail = ""
        self.time = 0.0
        self.paths = 0
        self.inlined = []
        self.used = []
        self.externals = []
        self.loops = []
        self.bounded = None
        self.n_loop_obls = 0
        self.solver_time = 0.0
        self.queries = 0

    def summary(self):
        return "%s %s (%d obligations, %.1fs) %s" % (self.name, self.status, len(self.obls), self.time, self.detail)


def sum_clauses(ex, facts, goal, wide=True):
    """instances of two induction lemmas about finite sums (congruence and prepend),
    skolemised: (equal length and equal terms) -> equal sums"""
    apps = {}
    gids = []
    def walk(t, seen):
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.decl().name() in ("SUMR", "SUMI") and z3.is_const(x.arg(0)):
                    apps[x.get_id()] = x
                stack.extend(x.children())
    seen = set()
    walk(goal, seen)
    gl = list(apps)
    if not gl:
        return []
    for f in facts:
        walk(f, seen)
    al = list(apps.values())
    if wide and len(al) > 14:
        al = [apps[i] for i in gl] + [a for a in al if a.get_id() not in gl][-12:]
    gset = set(gl)
    bodies = {D.decl().name(): (b, k) for D, b, k, real in ex.sums}
    out = []
    for i, g in enumerate(al):
        for a in al[i + 1:]:
            if a.decl().name() != g.decl().name() or a.arg(0).eq(g.arg(0)):
                continue
            if not wide and g.get_id() not in gset and a.get_id() not in gset:
                continue
            bg, kg = bodies.get(g.arg(0).decl().name(), (None, None))
            ba, ka = bodies.get(a.arg(0).decl().name(), (None, None))
            if bg is None or ba is None:
                continue
            G = lambda k: z3.substitute(bg, (kg, k))
            A = lambda k: z3.substitute(ba, (ka, k))
            k = fresh("sk", I)
            out.append(z3.Or(a.arg(1) != g.arg(1), z3.And(0 <= k, k < g.arg(1), G(k) != A(k)), a == g))
            for (x, X, y, Y) in ((a, A, g, G), (g, G, a, A)):
                k2 = fresh("sk", I)
                out.append(z3.Or(x.arg(1) != y.arg(1) + 1, y.arg(1) < 0,
                                 z3.And(0 <= k2, k2 < y.arg(1), X(simp(k2 + 1)) != Y(k2)), x == X(ival(0)) + y))
    return out


def prove_s(ex, facts, goal, tm, want_model=False):
    r = prove(facts, goal, tm)
    if r[0] == "proved" or BOUND[0] is not None:
        return r
    for wide in (False, True):
        ls = sum_clauses(ex, facts, goal, wide)
        if not ls:
            return r
        r = prove(facts + ls, goal, tm)
        if r[0] == "proved":
            return r
    return r


def has_quant(t, memo={}):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack += x.children()
    return False


def ground_only(facts, goal):
    """does the goal follow from the facts that contain no quantifier?"""
    if has_quant(goal):
        return False
    sv = z3.Solver()
    sv.set("timeout", 2000)
    sv.add(*[t for t in facts if not has_quant(t)])
    sv.add(z3.Not(goal))
    t0 = time.time()
    r = sv.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    return r == z3.unsat


def discharge(ex, o, tm):
    facts = o.facts + ex.global_facts
    goal = o.goal
    if o.kind == "safety" and BOUND[0] is None and ground_only(facts, goal):
        return "proved", None
    st, m = prove(facts, goal, tm)
    if st == "proved":
        return st, None
    if o.kind != "safety" and BOUND[0] is None and ground_only(facts, goal):
        return "proved", None
    ls = []
    for wide in (False, True) if BOUND[0] is None else ():
        ls = sum_clauses(ex, facts, goal, wide)
        if ls:
            st, m = prove(facts + ls, goal, tm)
            if st == "proved":
                return st, None
    # split conjunctions
    if z3.is_and(goal):
        ok = True
        for c in goal.children():
            s, mm = prove(facts + ls, c, tm)
            if s != "proved":
                ok = False
                break
        if ok:
            return "proved", None
    st, m = prove(facts + ls, goal, tm, want_model=True)
    return st, m


def verify(prog, contracts, name, unroll=None, timeout=10.0, quick_fail=False, builtins=None, extra=None):
    con = contracts[name]
    res = Result(name)
    t0 = time.time()
    q0, s0 = STATS.queries, STATS.time
    fn, unit = prog.func(name)
    if fn is None:
        res.status = "missing"
        res.detail = "function not present in the tree"
        return res
    ex = Executor(prog, contracts, unroll=unroll, builtins=builtins)
    BOUND[0] = unroll
    ORACLE[0] = Oracle()
    NONL[0] = bool(con.opts.get("no_nl")) and unroll is None
    ex.track_free = con.opts.get("track_free", False)
    ex.verifying = con.name
    ex.cur = con
    tm = con.timeout or timeout
    try:
        st = State()
        nxt0 = z3.Const("nxt0", I)
        st.nxt = nxt0
        ex.nxt0 = nxt0
        st.fact(nxt0 > 1)
        ptypes, args = [], []
        for c in fn["inner"]:
            if c["kind"] == "ParmVarDecl":
                t = ex.ty(c)
                if t.k == "arr":
                    t = CType("ptr", to=t.to)
                ptypes.append(t)
                i = len(args)
                nm = con.params[i] if i < len(con.params) else c.get("name", "a%d" % i)
                if t.k == "double":
                    v = z3.Const("arg_" + nm, R)
                elif t.k == "int":
                    v = z3.Const("arg_" + nm, I)
                    ex.num_fact(st, v, t)
                elif t.k == "ptr":
                    b = z3.Const("arg_" + nm, I)
                    st.fact(b < nxt0)
                    v = Ptr(b)
                else:
                    raise Unsupported("param type")
                args.append(v)
        rt = parse_type(fn["type"]["qualType"].split("(")[0], prog.typedefs)
        if len(args) != len(con.params):
            res.status = "error"
            res.detail = "signature changed"
            return res
        old = st.copy()
        cx = Ctx(ex, con, args, ptypes, st, st, None, rt)
        fr = Frame(name, unit, 0)
        ex.frames.append(fr)
        for lab, g in items(con.requires(cx)):
            f = conj(g)
            st.fact(f)
            ORACLE[0].learn(f)
        if con.setup:
            con.setup(cx, st)
        if unroll is not None and con.bounded_setup:
            for g in con.bounded_setup(cx, unroll):
                st.fact(conj(g))
        # vacuity: the precondition must be satisfiable
        vac = prove(st.terms(), z3.BoolVal(False), 2.0)
        if vac[0] == "proved":
            res.status = "error"
            res.detail = "vacuous precondition"
            return res
        old = st.copy()
        ex.cur_ctx = Ctx(ex, con, args, ptypes, old, old, None, rt)
        # collect spec sums
        outs = ex.run_body(fn, unit, args, st)
        ex.frames = [fr]
        res.paths = len(outs)
        if not outs and not con.opts.get("may_not_return"):
            res.status = "error"
            res.detail = "no path returns"
            return res
        live = [feasible(s.terms() + ex.global_facts, 2.0) for s, _ in outs]
        dead = not any(live) or unroll is None and all(
            prove(s.terms() + ex.global_facts, z3.BoolVal(False), 1.5)[0] == "proved" for (s, _), ok_ in zip(outs, live) if ok_)
        if outs and dead:
            # contradictory facts would discharge anything
            res.status = "error"
            res.detail = "vacuous: every path to the end is contradictory"
            return res
        for (s, v), ok_ in zip(outs, live):
            if not ok_:
                continue
            cx = Ctx(ex, con, args, ptypes, old, s, v, rt)
            if con.ghost_exit:
                con.ghost_exit(cx, s)
            if con.hints:
                for g in con.hints(cx):
                    s.fact(conj(g))
            for lab, g in items(con.ensures(cx)):
                ex.oblige(s, g, "postcondition: " + lab, None, "post")
            if con.frame:
                frame_check(ex, con, cx, old, s, nxt0)
        # solve
        failed = []
        par = con.opts.get("par", 0) if unroll is None else 0
        pre = {}
        if par:
            def one(o):
                q1, t1 = STATS.queries, STATS.time
                a, m = discharge(ex, o, tm)
                return a, str(m)[:4000] if m is not None else None, STATS.queries - q1, STATS.time - t1
            for o, r in zip(ex.obls, pmap(one, ex.obls, par)):
                pre[id(o)] = r or ("unknown", None, 0, 0)
                STATS.queries += pre[id(o)][2]
                STATS.time += pre[id(o)][3]
        for o in ex.obls:
            o.status, o.model = pre[id(o)][:2] if par else discharge(ex, o, tm)
            res.obls.append((o.label, o.line, o.status, o.fn))
            if o.status != "proved":
                failed.append(o)
                if quick_fail:
                    break
        if failed:
            res.status = "failed" if any(o.status == "failed" for o in failed) else "unknown"
            o = failed[0]
            res.detail = "%s (in %s line %s): %s" % (o.label, o.fn, o.line, o.status)
            res.model = [(str(o.label), str(o.model)[:4000]) for o in failed if o.model is not None][:3]
        if not ex.obls:
            res.status = "error"
            res.detail = "no obligations generated"
    except Unsupported as e:
        res.status = "error"
        res.detail = "outside the supported subset: " + str(e)
    except Exception as e:
        res.status = "error"
        res.detail = "internal: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    BOUND[0] = None
    res.time = time.time() - t0
    res.inlined = sorted(ex.inlined)
    res.used = sorted(ex.used_contracts)
    res.externals = sorted(ex.externals)
    res.loops = ex.loop_info
    res.n_loop_obls = getattr(ex, "loop_obls", 0)
    res.queries = STATS.queries - q0
    res.solver_time = STATS.time - s0
    if unroll is not None:
        res.bounded = unroll
    return res


def embedded(m):
    out, seen, stack = [], set(), list(m)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        if z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if t.num_args() == 1 and t.decl().name().startswith("emb_") and t.sort() == I:
            out.append(t)
        stack += t.children()
    return out


def frame_check(ex, con, cx, old, s, nxt0):
    allowed = {}
    for m in con.modifies(Ctx(ex, con, cx.params, cx.ptypes, old, old, None, cx.rtype)):
        if m.base is None:
            allowed[m.key] = None
        elif m.key in allowed:
            if allowed[m.key] is not None:
                allowed[m.key].append(m.base)
        else:
            allowed[m.key] = [m.base]
    embs = embedded(s.terms()) if (con.opts.get("bounds") or con.opts.get("parts")) else []
    for key, m in s.heap.items():
        if len(key) == 4 or key[0] == "G" and key[1] in ("bytes", "freed") and key not in allowed and not ex.track_free:
            continue
        if key[0] == "A" and key[1].endswith("#off"):
            continue
        m0 = ex._hm(old, key)
        if m.eq(m0):
            continue
        if key in allowed and allowed[key] is None:
            continue
        p = fresh("fp", I)
        hyp = [p < nxt0] + [p != b for b in allowed.get(key, [])]
        # parts embedded in objects allocated by the function itself
        hyp += [z3.Or(e.arg(0) < nxt0, p != e) for e in embs]
        if key[0] == "A":
            i = fresh("fi", I)
            goal = z3.Implies(z3.And(*hyp), z3.Select(z3.Select(m, p), i) == z3.Select(z3.Select(m0, p), i))
        else:
            goal = z3.Implies(z3.And(*hyp), z3.Select(m, p) == z3.Select(m0, p))
        ex.oblige(s, goal, "frame: %s unchanged outside the modifies clause" % (".".join(map(str, key[1:]))), None, "frame")
