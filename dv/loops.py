"""Loop rule: inductive invariants, generated and then proved.

Every invariant that is assumed for an arbitrary iteration has been proved to
hold on entry and to be preserved by one iteration starting from an arbitrary
state that satisfies the invariants kept (Houdini fixpoint).  Nothing here
refers to source variable names, so renaming or restructuring a loop does not
by itself lose the proof.
"""
import time
import z3
from .smt import *
from .engine import *
from .pool import pmap


class Cand:
    """candidate invariant: f(state, it) -> formula (z3 Bool or Forall..) or None"""
    def __init__(self, name, f, prio=1):
        self.name = name
        self.f = f
        self.prio = prio


class Role2:
    """relation between two loop variables, whatever they are called"""
    def __init__(self, f):
        self.f = f


class RoleAny:
    """relation for a scalar variable the loop does not modify"""
    def __init__(self, f):
        self.f = f


class Mods:
    def __init__(self):
        self.vars = {}      # key -> set of 'v' / 'base','off'
        self.keys = {}      # heap key -> list of bases or None (= all)
        self.nxt = False
        self.ext = set()

    def size(self):
        return (len(self.vars), sum(1 for _ in self.vars.values()), len(self.keys),
                sum(1 for b in self.keys.values() if b is None),
                sum(len(b) for b in self.keys.values() if b is not None), self.nxt, len(self.ext),
                sum(len(v) for v in self.vars.values()))


def vdiff(a, b):
    """which parts of a variable changed"""
    if a is b:
        return set()
    if isinstance(a, tuple) or isinstance(b, tuple):
        return set()
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        r = set()
        if not a.base.eq(b.base):
            r.add("base")
        if not a.off.eq(b.off):
            r.add("off")
        if a.loc != b.loc:
            r.add("base")
        return r
    if isinstance(a, (SVal,)) or isinstance(b, SVal):
        return {"v"}
    if a is None and b is None:
        return set()
    if a is None or b is None:
        return {"v"}
    if isinstance(a, Ptr) != isinstance(b, Ptr):
        return {"v"}
    return set() if a.eq(b) else {"v"}


def havoc(ex, S0, mods, start):
    H = S0.copy()
    names = {}
    for key, parts in mods.vars.items():
        v = S0.vars.get(key)
        if v is None:
            H.vars[key] = None
            continue
        if isinstance(v, Ptr):
            if v.loc is not None and "base" in parts:
                # field pointers that move are not summarised
                raise Unsupported("moving field pointer")
            H.vars[key] = Ptr(fresh("vb", I) if "base" in parts else v.base,
                              fresh("vo", I) if "off" in parts else v.off, v.loc)
            if "base" in parts:
                names[key] = 1
        else:
            H.vars[key] = fresh("v", v.sort())
    for key, bases in mods.keys.items():
        m = ex._hm(S0, key)
        if bases is None:
            H.heap[key] = fresh("Hm_" + "_".join(map(str, key[1:])), m.sort())
        else:
            cur = m
            for b in bases:
                cur = sto(cur, b, fresh("Hv_" + "_".join(map(str, key[1:])), m.sort().range()))
            H.heap[key] = cur
    if mods.nxt:
        H.nxt = fresh("nxt", I)
        H.fact(H.nxt >= S0.nxt)
    for key, parts in mods.vars.items():
        v = H.vars.get(key)
        if isinstance(v, Ptr) and "base" in parts:
            H.fact(v.base < H.nxt)
    return H


def collect(ex, base_state, outs, mods, wlog, start):
    ch = False
    before = mods.size()
    for s in outs:
        if s is None:
            continue
        for key in base_state.vars:
            if key not in s.vars:
                continue
            d = vdiff(base_state.vars[key], s.vars[key])
            if d:
                mods.vars.setdefault(key, set()).update(d)
        for key in s.heap:
            a = ex._hm(base_state, key)
            if not a.eq(s.heap[key]):
                if key not in mods.keys:
                    mods.keys[key] = []
        if not s.nxt.eq(base_state.nxt):
            mods.nxt = True
        for k in s.ext:
            if isinstance(k, tuple) and k[0] in ("ginit", "gfn"):
                continue
            if k not in base_state.ext or base_state.ext[k] is not s.ext[k]:
                mods.ext.add(k)
    for key, base, idx in wlog:
        if key not in mods.keys:
            mods.keys[key] = []
        cur = mods.keys[key]
        if cur is None:
            continue
        if isinstance(base, str) or not invariant_since(base, start):
            mods.keys[key] = None
        elif not any(base.eq(b) for b in cur):
            cur.append(base)
    return mods.size() != before


def silent_iter(ex, H, cond, body, inc, dowhile):
    ex.silent += 1
    save = ex.wlog
    ex.wlog = []
    try:
        r = ex.iterate(H, cond, body, inc, dowhile)
        w = ex.wlog
    finally:
        ex.wlog = save
        ex.silent -= 1
    return r, w


def summarize(ex, node, st, cond, body, inc, dowhile):
    line = node.get("_line")
    start = stamp()
    S0 = st
    fnname = ex.frames[-1].fname

    # ---- phase A: what does the loop modify?
    mods = Mods()
    ex.light += 1
    H = S0
    for _ in range(8):
        (xs, end, brk, rets), w = silent_iter(ex, H, cond, body, inc, dowhile)
        # fresh allocations inside the body are not loop-invariant bases
        w2 = []
        for key, base, idx in w:
            w2.append((key, base, idx))
        outs = [end] + brk + [s for s, _ in rets] + [xs]
        # bases allocated inside the loop: depend on H.nxt (fresh symbol) unless first round
        changed = collect(ex, H, outs, mods, w2 if H is not S0 else
                          [(k, b if (not isinstance(b, str) and not alloc_after(b, S0)) else "ALL", i) for k, b, i in w2], mods and start)
        if not changed and H is not S0:
            break
        H = havoc(ex, S0, mods, start)
    ex.light -= 1
    drop = [k for k, b in mods.keys.items() if b == []]
    for k in drop:
        mods.keys[k] = None if not w_has(w, k) else mods.keys[k]
        if mods.keys[k] == []:
            mods.keys[k] = None
    if mods.ext:
        return ext_loop(ex, node, S0, mods, cond, body, inc, dowhile, start)
    H = havoc(ex, S0, mods, start)
    it = fresh("it", I)
    H.fact(it >= 0)
    if ex.light:
        # only the modified set is needed by an outer loop's phase A
        return finish(ex, H, cond, body, inc, dowhile, light=True)

    tm = ex.cur.opts.get("cand_timeout", ex.cand_timeout) if ex.cur is not None else ex.cand_timeout
    tm *= CAND_SCALE[0]
    closed = {}      # (key, part) -> fn(it) term

    def at(k0, part):
        v = S0.vars[k0]
        if isinstance(v, Ptr):
            return v.base if part == "base" else v.off
        return v

    def getp(s, k0, part):
        v = s.vars.get(k0)
        if isinstance(v, Ptr):
            return v.base if part == "base" else v.off
        return v

    def setp(s, k0, part, t):
        v = s.vars[k0]
        if isinstance(v, Ptr):
            s.vars[k0] = Ptr(t if part == "base" else v.base, t if part == "off" else v.off, v.loc)
        else:
            s.vars[k0] = t

    kept = []

    def with_inv(Hs, cands, itv):
        s = Hs.copy()
        for c in cands:
            f = c.f(s, itv)
            if f is not None:
                s.fact(conj(f))
        return s

    # ---- phase B1: linear recurrences (inner loops only havocked)
    ex.light += 1
    (xs, end, brk, rets), w = silent_iter(ex, H, cond, body, inc, dowhile)
    ex.light -= 1
    if end is None:
        # the body never falls through: at most one iteration
        return finish(ex, S0, cond, body, inc, dowhile)
    for key, parts in mods.vars.items():
        for part in parts:
            if S0.vars.get(key) is None:
                continue
            h, e = getp(H, key, part), getp(end, key, part)
            if h is None or e is None or isinstance(h, (SVal,)) or isinstance(e, (SVal, Ptr)) or isinstance(h, Ptr):
                continue
            if h.sort() == I and part != "base":
                d = z3.simplify(e - h)
                if invariant_since(d, start):
                    v0 = at(key, part)
                    closed[(key, part)] = (lambda k, v0=v0, d=d: simp(v0 + d * k))
    for (key, part), f in closed.items():
        setp(H, key, part, f(it))

    # ---- a loop that provably runs at most U times is unrolled completely
    U = ex.cur.opts.get("small_loops") if ex.cur is not None else None
    if U and closed:
        ex.light += 1
        (xs, end, brk, rets), w = silent_iter(ex, H, cond, body, inc, dowhile)
        ex.light -= 1
        if end is not None and prove(end.terms() + ex.global_facts, it < U, 0.5)[0] == "proved":
            r = full_unroll(ex, S0, cond, body, inc, dowhile, U)
            if r is not None:
                return r

    # ---- phase B1b: pointers walking a known sequence
    seqs = []
    if ex.cur is not None and ex.cur.seqs is not None and ex.cur_ctx is not None:
        seqs = ex.cur.seqs(ex.cur_ctx, S0)
    facts0 = S0.terms() + ex.global_facts
    for key, parts in list(mods.vars.items()):
        if "base" not in parts or (key, "base") in closed:
            continue
        v0 = S0.vars.get(key)
        if not isinstance(v0, Ptr) or v0.loc is not None:
            continue
        for (sf, ln) in seqs:
            for sh in (0,):
                if prove(facts0, sf(ival(0)) == v0.base, tm)[0] != "proved":
                    continue
                Ht = H.copy()
                setp(Ht, key, "base", sf(it))
                Ht.fact(z3.And(it >= 0, it <= ln))
                ex.light += 1
                (x2, e2, b2, r2), w2 = silent_iter(ex, Ht, cond, body, inc, dowhile)
                ex.light -= 1
                if e2 is None:
                    continue
                goal = z3.And(getp(e2, key, "base") == sf(it + 1), it + 1 <= ln)
                ok = prove(e2.terms() + ex.global_facts, goal, tm)[0] == "proved"
                if ok and prove(facts0, ln >= 0, tm)[0] == "proved":
                    closed[(key, "base")] = sf
                    setp(H, key, "base", sf(it))
                    H.fact(z3.And(it >= 0, it <= ln))
                    kept.append(("list position", 1))
                    break
            if (key, "base") in closed:
                break

    # ---- phase B2: candidates
    lean = ex.cur is not None and ex.cur.opts.get("lean")
    ex.light += 1 if lean else 0
    (xs, end, brk, rets), w = silent_iter(ex, H, cond, body, inc, dowhile)
    ex.light -= 1 if lean else 0
    if end is None:
        return finish(ex, S0, cond, body, inc, dowhile)
    cands = []
    gen_candidates(ex, cands, S0, H, end, mods, closed, it, start, w, getp, at)
    spec_candidates(ex, cands, S0, H, mods, it, closed)
    # what an enclosing loop's earlier, stronger hypothesis could not keep is not tried again
    outer = getattr(ex, "lost_memo", None)
    nid = (node["id"],) + tuple(getattr(f, "site", None) for f in ex.frames)
    names = [c.name for c in cands]
    if outer is not None and outer.get(nid, (None,))[0] == names:
        drop_ix = outer[nid][1]
        todo = [c for i, c in enumerate(cands) if i not in drop_ix]
    else:
        todo = list(cands)
    ex.lost_memo = {}
    # ---- phase C: Houdini
    allc = cands
    cands = houdini(ex, S0, H, todo, it, cond, body, inc, dowhile, tm)
    if outer is not None:
        outer[nid] = (names, {i for i, c in enumerate(allc) if c not in cands and not hasattr(c, "twin") and not hasattr(c, "whole")})
    # ---- phase C2: accumulators and facts that need the first fixpoint
    Hi = with_inv(H, cands, it)
    (xs, end, brk, rets), w = silent_iter(ex, Hi, cond, body, inc, dowhile)
    if end is not None and not ex.cur.opts.get("no_values"):
        c2 = []
        gen_candidates2(ex, c2, S0, Hi, end, mods, closed, it, start, w, getp, at)
        if c2:
            ex.lost_memo = {}
            cands = houdini(ex, S0, H, cands + c2, it, cond, body, inc, dowhile, tm, old=len(cands))
            Hi = with_inv(H, cands, it)
    ex.loop_info.append((fnname, line, [c.name for c in cands], len(closed)))
    if not ex.silent:
        # record the inductiveness proofs as discharged obligations
        for c in cands:
            ex.loop_obls = getattr(ex, "loop_obls", 0) + 2
    try:
        return finish(ex, Hi, cond, body, inc, dowhile)
    finally:
        ex.lost_memo = outer


def full_unroll(ex, S0, cond, body, inc, dowhile, U):
    outs, exits, cur = [], [], S0
    for i in range(U + 1):
        if i == U:
            xs, end, brk, rets = silent_iter(ex, cur, cond, body, inc, dowhile)[0]
            if end is not None and prove(end.terms() + ex.global_facts, z3.BoolVal(False), 2.0)[0] != "proved":
                return None
            if xs is not None:
                exits.append(xs)
            break
        xs, end, brk, rets = ex.iterate(cur, cond, body, inc, dowhile)
        if xs is not None and feasible(xs.terms() + ex.global_facts, 0.5):
            exits.append(xs)
        exits += brk
        outs += [("return", s, v) for s, v in rets]
        if end is None or not feasible(end.terms() + ex.global_facts, 0.5):
            break
        cur = end
    m = ex.merge([e for e in exits if e is not None])
    if m is not None:
        outs.append(("normal", m, None))
    return outs


def alloc_after(b, S0):
    d = z3.simplify(b - S0.nxt)
    return z3.is_int_value(d) and d.as_long() >= 0


def w_has(w, key):
    return any(k == key for k, _, _ in w)


def finish(ex, H, cond, body, inc, dowhile, light=False):
    if light:
        (xs, end, brk, rets), w = silent_iter(ex, H, cond, body, inc, dowhile)
        if ex.wlog is not None:
            ex.wlog.extend(w)
    else:
        save = ex.wlog
        if save is not None:
            ex.wlog = []
        xs, end, brk, rets = ex.iterate(H, cond, body, inc, dowhile)
        if save is not None:
            save.extend(ex.wlog)
            ex.wlog = save
    outs = [("return", s, v) for s, v in rets]
    m = ex.merge([s for s in [xs] + brk if s is not None])
    if m is not None:
        outs.append(("normal", m, None))
    return outs


def prove_s(ex, facts, goal, tm):
    from .verify import prove_s as p
    return p(ex, facts, goal, tm)


def check_all(ex, facts, goals, tm):
    """one provability verdict per goal (None goals count as proved)"""
    par = ex.cur.opts.get("par", 0) if ex.cur is not None else 0
    if not par or BOUND[0] is not None:
        return [g is None or prove_s(ex, facts, g, tm)[0] == "proved" for g in goals]

    def one(g):
        q0, t0 = STATS.queries, STATS.time
        r = g is None or prove_s(ex, facts, g, tm)[0] == "proved"
        return r, STATS.queries - q0, STATS.time - t0
    out = []
    for r in pmap(one, goals, par):
        if r is None:
            out.append(False)
        else:
            out.append(r[0])
            STATS.queries += r[1]
            STATS.time += r[2]
    return out


def houdini(ex, S0, H, cands, it, cond, body, inc, dowhile, tm, old=0):
    # entry
    live = []
    f0 = S0.terms() + ex.global_facts + [it == it]
    todo = []
    for i, c in enumerate(cands):
        if i < old:
            live.append(c)
            continue
        try:
            g = c.f(S0, ival(0))
        except Unsupported:
            continue
        if g is None:
            continue
        g = conj(g, goal=True)
        if z3.is_false(g) or z3.is_false(z3.simplify(g)):
            continue
        todo.append((c, g))
    live += [c for (c, g), ok in zip(todo, check_all(ex, f0, [g for c, g in todo], tm)) if ok]
    # a prefix of a statement that holds throughout is only tried when the whole is lost
    held = {}
    whole = {c.whole for c in live if hasattr(c, "whole")}
    for c in list(live):
        if hasattr(c, "twin") and c.twin in whole:
            held[c.twin] = c
            live.remove(c)
    # preservation
    for rnd in range(16):
        if not live:
            return live
        s = H.copy()
        for c in live:
            f = c.f(s, it)
            if f is not None:
                s.fact(conj(f))
        (xs, end, brk, rets), w = silent_iter(ex, s, cond, body, inc, dowhile)
        if end is None:
            return live
        facts = end.terms() + ex.global_facts + sum_steps(ex, it)
        if ex.cur is not None and ex.cur.opts.get("loop_lemmas"):
            facts = facts + [conj(f) for f in ex.cur.opts["loop_lemmas"](ex.cur_ctx, s, end, it)]
        nxt = []
        lost = False
        gs = []
        for c in live:
            g = c.f(end, simp(it + 1))
            gs.append(None if g is None else conj(g, goal=True))
        for c, ok in zip(live, check_all(ex, facts, gs, tm)):
            if ok:
                nxt.append(c)
            elif getattr(c, "whole", None) in held:
                nxt.append(held.pop(c.whole))
                lost = True
        if lost:
            live = nxt
            continue
        if len(nxt) == len(live):
            return live
        live = nxt
    return []


def sum_steps(ex, it):
    out = []
    for D, b, k, real in ex.sums:
        S = SUMR if real else SUMI
        out.append(z3.Implies(it >= 0, S(D, it + 1) == S(D, it) + D[it]))
        out.append(z3.Implies(it >= 0, S(D, it + 2) == S(D, it + 1) + D[it + 1]))
    return out


def spec_candidates(ex, cands, S0, H, mods, it, closed):
    con, cx = ex.cur, ex.cur_ctx
    if con is None or cx is None:
        return
    mark = z3.Const("RETMARK_I", I)
    markr = z3.Const("RETMARK_R", R)

    def mk(state):
        ret = None
        rt = cx.rtype
        if rt is not None and rt.k != "void":
            ret = markr if rt.k == "double" else (Ptr(mark) if rt.k == "ptr" else mark)
        return Ctx(ex, con, cx.params, cx.ptypes, cx.old, state, ret, rt)

    def mentions(t):
        c = consts_of(t)
        return "RETMARK_I" in c or "RETMARK_R" in c

    its = [] if con.opts.get("lean") else items(con.ensures(mk(S0)))
    for idx, (lab, g) in enumerate(its):
        def get(state, idx=idx):
            gs = items(con.ensures(mk(state)))
            return gs[idx][1]
        try:
            t = conj(g)
        except Exception:
            continue
        if mentions(t):
            continue
        if isinstance(g, Forall):
            def pf(state, k, get=get):
                q = get(state)
                return Forall(q.lo, q.lo + k, q.f, q.pats, q.name)
            cands.append(Cand("prefix of: " + lab, pf))
            cands[-1].twin = idx
        cands.append(Cand("post holds throughout: " + lab, lambda state, k, get=get: get(state)))
        cands[-1].whole = idx
    if con.cands is not None:
        n = len(con.cands(cx, S0, S0, ival(0)))
        for i in range(n):
            cands.append(Cand("supplied %d" % i, lambda state, k, i=i: con.cands(cx, state, S0, k)[i]))
    if con.roles is not None:
        # equalities variable == role term, for every modified variable of the sort
        rl = con.roles(cx, S0, S0, ival(0))
        n = len(rl)
        slots = [(key, part) for key, parts in mods.vars.items() for part in sorted(parts)
                 if (key, part) not in closed and S0.vars.get(key) is not None]
        every = []
        for key, v in S0.vars.items():
            if isinstance(v, tuple) and v[0] == "mem":
                t = v[2]
                if t.k in ("int", "double") or t.k == "ptr" and t.to.k != "fn":
                    hk = ("A", kind_of(t))
                    bs = mods.keys.get(hk, ())
                    if bs is None or any(v[1].eq(b) for b in bs):
                        slots.append((key, "mem"))
                        every.append((key, "mem"))
                elif t.k == "arr":
                    every.append((key, "arr"))
            elif isinstance(v, Ptr):
                every.append((key, "base"))
            elif v is not None and not isinstance(v, (tuple, SVal)):
                every.append((key, "v"))

        def gv(state, sl):
            v = state.vars.get(sl[0])
            if v is None or isinstance(v, SVal):
                return None
            if isinstance(v, tuple):
                if sl[1] == "arr":
                    return v[1]
                if sl[1] != "mem":
                    return None
                return sel(sel(ex._hm(state, ("A", kind_of(v[2]))), v[1]), ival(0))
            return (v.base if sl[1] == "base" else v.off) if isinstance(v, Ptr) else v
        for i in range(n):
            r0 = rl[i]
            if isinstance(r0, Role2):
                for a in slots:
                    for b in slots:
                        if a == b:
                            continue
                        def r2(state, k, a=a, b=b, i=i):
                            x, y = gv(state, a), gv(state, b)
                            if x is None or y is None:
                                return None
                            return con.roles(cx, state, S0, k)[i].f(x, y)
                        cands.append(Cand("pair role %d" % i, r2))
                continue
            for sl in ([e for e in every if e not in slots] if isinstance(r0, RoleAny) else slots):
                if isinstance(r0, RoleAny) and not gv(S0, sl).sort() in (I, R):
                    continue
                def rf(state, k, sl=sl, i=i):
                    t = gv(state, sl)
                    if t is None:
                        return None
                    r = con.roles(cx, state, S0, k)[i]
                    if isinstance(r, RoleAny):
                        return r.f(t)
                    if callable(r):
                        return r(t)
                    if t.sort() != r.sort():
                        return z3.BoolVal(False)
                    return t == r
                cands.append(Cand("role %d" % i, rf))


def targets(mods):
    """SMT arrays written by the loop: (heap key, base or None)"""
    for key, bases in mods.keys.items():
        if bases is None:
            yield key, None
        else:
            for b in bases:
                yield key, b


def tget(ex, s, key, base):
    m = ex._hm(s, key)
    return m if base is None else sel(m, base)


def writes_of(ex, key, base, w, start):
    """index terms written in this array during the iteration"""
    out = []
    for k, b, idx in w:
        if k != key:
            continue
        if isinstance(b, str):
            return None
        if base is None:
            i = b
        else:
            if not b.eq(base):
                continue
            if key[0] != "A" or idx is None:
                return None
            i = idx
        if not any(i.eq(o) for o in out):
            out.append(i)
    return out


def gen_candidates(ex, cands, S0, H, end, mods, closed, it, start, w, getp, at):
    # scalar vars: monotonicity / bounds
    for key, parts in mods.vars.items():
        for part in parts:
            if (key, part) in closed or S0.vars.get(key) is None:
                continue
            v0 = at(key, part)
            if v0 is None or isinstance(v0, SVal):
                continue
            h = getp(H, key, part)
            e = getp(end, key, part)
            if e is None or h is None or isinstance(e, (Ptr, SVal)):
                continue
            if v0.sort() in (I, R) and part != "base" and not ex.cur.opts.get("lean"):
                cands.append(Cand("v>=v0", lambda s, k, key=key, part=part, v0=v0: getp(s, key, part) >= v0))
                cands.append(Cand("v<=v0", lambda s, k, key=key, part=part, v0=v0: getp(s, key, part) <= v0))
                if v0.sort() == I:
                    cands.append(Cand("v<=v0+it", lambda s, k, key=key, part=part, v0=v0: getp(s, key, part) <= v0 + k))
                    cands.append(Cand("bool", lambda s, k, key=key, part=part: z3.And(getp(s, key, part) >= 0, getp(s, key, part) <= 1)))
    # loop condition bound:  i <= n  from  i < n
    if end is not None:
        hn = len(H.pc)
        for kk, t in end.pc[hn:hn + 3]:
            if kk != "b":
                continue
            for c in conjuncts(t):
                if z3.is_app(c) and c.num_args() == 2 and c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_DISTINCT):
                    a, b = c.children()
                    if a.sort() != I:
                        continue
                    cs = consts_of(c)
                    if not all(CREATED.get(n, 0) <= start or n == it.decl().name() for n in cs):
                        continue
                    kd = c.decl().kind()
                    if kd == z3.Z3_OP_LT:
                        f = lambda s, k, a=a, b=b: subst(a, it, k) <= subst(b, it, k)
                    elif kd == z3.Z3_OP_GT:
                        f = lambda s, k, a=a, b=b: subst(a, it, k) >= subst(b, it, k)
                    elif kd == z3.Z3_OP_LE:
                        f = lambda s, k, a=a, b=b: subst(a, it, k) <= subst(b, it, k) + 1
                    else:
                        f = lambda s, k, a=a, b=b: subst(a, it, k) + 1 >= subst(b, it, k)
                    cands.append(Cand("loop bound", f))
                    # clipped version: valid when the loop may not be entered
                    if kd == z3.Z3_OP_LT:
                        cands.append(Cand("loop bound (entered)", lambda s, k, a=a, b=b: z3.Implies(k > 0, subst(a, it, k) <= subst(b, it, k))))
    # arrays: frame
    for key, base in targets(mods):
        T0 = tget(ex, S0, key, base)
        ws = writes_of(ex, key, base, w, start)
        if ws is None:
            continue
        nested = base is None and key[0] == "A"
        idxs = [i for i in ws if all(CREATED.get(n, 0) <= start or n == it.decl().name() for n in consts_of(i))]
        if len(idxs) != len(ws):
            # unknown index: objects allocated by the loop are at or above S0.nxt
            cands.append(Cand("frame below nxt", lambda s, k, key=key, base=base, T0=T0:
                              ForallP(lambda p: z3.Implies(p < S0.nxt, z3.Select(tget(ex, s, key, base), p) == z3.Select(T0, p)),
                                      pats=lambda p: z3.Select(tget(ex, s, key, base), p)) if not tget(ex, s, key, base).eq(T0) else z3.BoolVal(True)))
            continue
        lin = []
        for i in idxs:
            d = z3.simplify(subst(i, it, it + 1) - i)
            if z3.is_int_value(d) and abs(d.as_long()) == 1:
                lin.append((subst(i, it, ival(0)), d.as_long()))
            elif z3.is_int_value(d) and d.as_long() == 0:
                lin.append((i, 0))
            else:
                lin.append(None)
        if all(x is not None for x in lin):
            def fr(s, k, key=key, base=base, T0=T0, lin=tuple(lin)):
                T = tget(ex, s, key, base)
                if T.eq(T0):
                    return z3.BoolVal(True)
                def body(p):
                    hit = []
                    for a, d in lin:
                        if d == 0:
                            hit.append(p == a)
                        elif d == 1:
                            hit.append(z3.And(a <= p, p < a + k))
                        else:
                            hit.append(z3.And(a - k < p, p <= a))
                    return z3.Or(z3.Or(*hit), z3.Select(T, p) == z3.Select(T0, p))
                return ForallP(body, pats=lambda p: z3.Select(T, p))
            cands.append(Cand("frame", fr))
        else:
            W = z3.Function("wit!%d" % (stamp()), I, I)
            CREATED["wit"] = 0
            fresh("w", I)
            def fr2(s, k, key=key, base=base, T0=T0, idxs=tuple(idxs), W=W):
                T = tget(ex, s, key, base)
                if T.eq(T0):
                    return z3.BoolVal(True)
                def fact(p):
                    return z3.Or(z3.Select(T, p) == z3.Select(T0, p),
                                 z3.And(0 <= W(p), W(p) < k, z3.Or(*[subst(i, it, W(p)) == p for i in idxs])))
                def goal(p):
                    km = simp(k - 1)
                    return z3.Or(z3.Select(T, p) == z3.Select(T0, p),
                                 z3.And(0 <= W(p), W(p) < k, z3.Or(*[subst(i, it, W(p)) == p for i in idxs])),
                                 z3.And(k >= 1, z3.Or(*[subst(i, it, km) == p for i in idxs])))
                return Dual(ForallP(fact, pats=lambda p: z3.Select(T, p)), ForallP(goal))
            cands.append(Cand("footprint", fr2))


def subst(t, v, k):
    if isinstance(k, int):
        k = ival(k)
    return z3.substitute(t, (v, k))


def conjuncts(t):
    if z3.is_and(t):
        for c in t.children():
            yield from conjuncts(c)
    elif z3.is_not(t) and z3.is_or(t.arg(0)):
        for c in t.arg(0).children():
            yield from conjuncts(z3.Not(c))
    elif z3.is_not(t) and z3.is_app(t.arg(0)) and t.arg(0).num_args() == 2:
        a = t.arg(0)
        k = a.decl().kind()
        x, y = a.children()
        m = {z3.Z3_OP_LT: lambda: x >= y, z3.Z3_OP_LE: lambda: x > y,
             z3.Z3_OP_GT: lambda: x <= y, z3.Z3_OP_GE: lambda: x < y}
        yield m[k]() if k in m else t
    else:
        yield t


def gen_candidates2(ex, cands, S0, H, end, mods, closed, it, start, w, getp, at):
    """value closed forms: accumulators, element-wise array values, per-iteration
    path facts; everything expressed over entry state and the iteration index"""
    itn = it.decl().name()

    def ok(t):
        return all(CREATED.get(n, 0) <= start or n == itn for n in consts_of(t))

    # replace reads of havocked arrays by reads of the entry arrays
    def to_entry(t):
        pairs = []
        for key, base in targets(mods):
            h, z = tget(ex, H, key, base), tget(ex, S0, key, base)
            if not h.eq(z):
                pairs.append((h, z))
        for key, bases in mods.keys.items():
            if bases is None:
                continue
            h, z = ex._hm(H, key), ex._hm(S0, key)
            if not h.eq(z):
                pairs.append((h, z))
        return z3.simplify(z3.substitute(t, *pairs)) if pairs else t

    # array element values
    obs = []   # (in-body fresh term, reader)
    for key, base in targets(mods):
        if base is not None and not z3.is_array(tget(ex, S0, key, base)):
            # one scalar field: accumulator, or a function of the iteration
            v, h, v0 = tget(ex, end, key, base), tget(ex, H, key, base), tget(ex, S0, key, base)
            dl = to_entry(diff(v, h))
            rd = lambda s, key=key, base=base: tget(ex, s, key, base)
            if ok(dl):
                acc_cand(ex, cands, rd, v0, dl, it, v.sort() == R)
            v2 = to_entry(z3.simplify(v))
            if ok(v2):
                cands.append(Cand("cell last value", lambda s, k, rd=rd, v2=v2, v0=v0:
                                  z3.If(k > 0, rd(s) == subst(v2, it, simp(k - 1)), rd(s) == v0)))
            continue
        ws = writes_of(ex, key, base, w, start)
        if ws is None:
            continue
        for i in ws:
            if not ok(i):
                continue
            v = sel(tget(ex, end, key, base), i)
            v2 = to_entry(z3.simplify(v))
            d = z3.simplify(subst(i, it, it + 1) - i)
            if z3.is_int_value(d) and d.as_long() == 0:
                # accumulator cell: value at a fixed index
                h = sel(tget(ex, H, key, base), i)
                if v.sort() in (R, I):
                    dl = diff(v, h)
                    if ok(dl):
                        acc_cand(ex, cands, lambda s, key=key, base=base, i=i: sel(tget(ex, s, key, base), i),
                                 sel(tget(ex, S0, key, base), i), dl, it, v.sort() == R)
                    if ok(v2):
                        cands.append(Cand("cell last value", lambda s, k, key=key, base=base, i=i, v2=v2:
                                          z3.If(k > 0, sel(tget(ex, s, key, base), i) == subst(v2, it, simp(k - 1)),
                                                sel(tget(ex, s, key, base), i) == sel(tget(ex, S0, key, base), i))))
                continue
            if ok(v2):
                def vf(s, k, key=key, base=base, i=i, v2=v2):
                    T = tget(ex, s, key, base)
                    return Forall(ival(0), k, lambda q: z3.Select(T, subst(i, it, q)) == subst(v2, it, q), name="w")
                def vf_lin(s, k, key=key, base=base, i=i, v2=v2, d=d):
                    T = tget(ex, s, key, base)
                    a = subst(i, it, ival(0))
                    return ForallP(lambda p: z3.Implies(z3.And(a <= p, p < a + k),
                                                        z3.Select(T, p) == subst(v2, it, simp(p - a))),
                                   pats=lambda p: z3.Select(T, p))
                if z3.is_int_value(d) and d.as_long() == 1:
                    cands.append(Cand("values", vf_lin))
                else:
                    cands.append(Cand("values", vf))
            elif z3.is_const(v) and CREATED.get(v.decl().name(), 0) > start:
                obs.append((v, key, base, i))
            else:
                # a choice whose conditions are not expressible: one of the values
                lv = ite_leaves(v2)
                if lv is not None and len(lv) > 1 and all(ok(t) for t in lv):
                    def vch(s, k, key=key, base=base, i=i, lv=tuple(lv), d=d):
                        T = tget(ex, s, key, base)
                        if z3.is_int_value(d) and d.as_long() == 1:
                            a = subst(i, it, ival(0))
                            return ForallP(lambda p: z3.Implies(z3.And(a <= p, p < a + k), z3.Or(
                                *[z3.Select(T, p) == subst(t, it, simp(p - a)) for t in lv])), pats=lambda p: z3.Select(T, p))
                        return Forall(ival(0), k, lambda q: z3.Or(
                            *[z3.Select(T, subst(i, it, q)) == subst(t, it, q) for t in lv]), name="c")
                    cands.append(Cand("value choice", vch))
    # scalar accumulators
    for key, parts in mods.vars.items():
        for part in parts:
            if (key, part) in closed or S0.vars.get(key) is None or part == "base":
                continue
            v0 = at(key, part)
            h, e = getp(H, key, part), getp(end, key, part)
            if e is None or h is None or isinstance(e, (Ptr, SVal)) or isinstance(h, (Ptr, SVal)):
                continue
            dl = to_entry(diff(e, h))
            if ok(dl):
                acc_cand(ex, cands, lambda s, key=key, part=part: getp(s, key, part), v0, dl, it, v0.sort() == R)
            e2 = to_entry(z3.simplify(e))
            if ok(e2):
                cands.append(Cand("last value", lambda s, k, key=key, part=part, e2=e2:
                                  z3.Implies(k > 0, getp(s, key, part) == subst(e2, it, simp(k - 1)))))
                cands.append(Cand("first value", lambda s, k, key=key, part=part, v0=v0:
                                  z3.Implies(k == 0, getp(s, key, part) == v0)))
    # path facts of completed iterations
    hn = len(H.pc)
    for kk, t in end.pc[hn:]:
        for c in conjuncts(t):
            if z3.is_quantifier(c):
                continue
            t2 = to_entry(z3.simplify(c))
            if z3.is_true(t2):
                continue
            if itn not in consts_of(t2) and not obs:
                continue
            if ok(t2):
                if kk == "f" and not interesting(t2):
                    continue
                cands.append(Cand("path fact", lambda s, k, t2=t2: Forall(ival(0), k, lambda q: subst(t2, it, q), name="f")))
            else:
                extra = [n for n in consts_of(t2) if not (CREATED.get(n, 0) <= start or n == itn)]
                mp = {v.decl().name(): (v, key, base, i) for v, key, base, i in obs}
                if extra and all(n in mp for n in extra):
                    def of(s, k, t2=t2, extra=tuple(extra), mp=mp):
                        def body(q):
                            r = t2
                            pr = []
                            for n in extra:
                                v, key, base, i = mp[n]
                                pr.append((v, z3.Select(tget(ex, s, key, base), i)))
                            r = z3.substitute(r, *pr)
                            return subst(r, it, q)
                        return Forall(ival(0), k, body, name="o")
                    cands.append(Cand("contract fact", of))


def diff(e, h, depth=0):
    """e - h, pushed through choices"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and depth < 6:
        a, b = diff(e.arg(1), h, depth + 1), diff(e.arg(2), h, depth + 1)
        return a if a.eq(b) else z3.If(e.arg(0), a, b)
    return z3.simplify(e - h)


def ite_leaves(t, depth=0):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        if depth > 4:
            return None
        a, b = ite_leaves(t.arg(1), depth + 1), ite_leaves(t.arg(2), depth + 1)
        if a is None or b is None:
            return None
        return a + [x for x in b if not any(x.eq(y) for y in a)]
    return [t]


def interesting(t):
    # type facts (p < nxt, bool ranges) are re-derived on load
    return True


def acc_cand(ex, cands, getter, v0, dl, it, real):
    z = z3.simplify(dl)
    if is_num(z) and not z3.is_app(z):
        pass
    def f(s, k):
        sm = ex.mk_sum(lambda q: subst(z, it, q), k, real)
        return getter(s) == v0 + sm
    cands.append(Cand("accumulator", f))


def ext_loop(ex, node, S0, mods, cond, body, inc, dowhile, start):
    h = getattr(ex, "ext_loop_handler", None)
    if h is None:
        raise Unsupported("loop over extension state")
    return h(node, S0, mods, cond, body, inc, dowhile, start)
