"""Trusted contracts for libc, libm, dSFMT, cJSON (the boundary of the proof)."""
import z3
from .smt import *
from .engine import *
from . import engine

TRUSTED_NOTES = {
    "malloc/calloc/realloc": "never return NULL; return memory disjoint from every live object",
    "free": "no effect on other objects",
    "dsfmt": "dsfmt_gv_genrand_open_open() returns a value in the open interval (0,1)",
    "libm": "exp/log/pow/sqrt/tanh/sin/cos are uninterpreted functions (sqrt, exp >= 0); fmax/fmin/fabs/floor/ceil are exact",
    "stdio": "fread returns, record by record, what fwrite wrote; printf has no effect on the program state",
    "exit": "does not return",
}


def bi(*names):
    def deco(f):
        for n in names:
            engine.BUILTINS[n] = f
        return f
    return deco


def evs(x, st, args):
    return [x.ev(a, st) for a in args]


@bi("printf", "puts", "fprintf", "putchar", "perror", "fflush", "vprintf", "puts", "fputs")
def _printf(x, st, args, n):
    for a in args:
        x.ev(a, st)
    return ival(0)


@bi("exit", "abort", "__assert_fail", "_exit")
def _exit(x, st, args, n):
    for a in args:
        x.ev(a, st)
    raise Dead()


def newobj(x, st, nbytes, pend):
    b = x.alloc(st)
    x.wr(st, ("G", "bytes"), b, nbytes)
    if not hasattr(x, "blocks"):
        x.blocks = {}
    x.blocks[b.get_id()] = b
    if getattr(x, "track_free", False):
        st.fact(sel(x.hmap(st, ("G", "freed")), b) == 0)    # a new block is live
    return Ptr(b, None, pend=pend)


@bi("malloc")
def _malloc(x, st, args, n):
    (sz,) = evs(x, st, args)
    return newobj(x, st, sz, ("malloc",))


@bi("calloc")
def _calloc(x, st, args, n):
    a, b = evs(x, st, args)
    return newobj(x, st, a * b, ("calloc",))


@bi("realloc")
def _realloc(x, st, args, n):
    p, sz = evs(x, st, args)
    x.wr(st, ("G", "freed"), p.base, ival(1))
    return newobj(x, st, sz, ("realloc", p))


@bi("free")
def _free(x, st, args, n):
    (p,) = evs(x, st, args)
    x.on_free(st, p, n)
    m = x.hmap(st, ("G", "freed"))
    x.wr(st, ("G", "freed"), p.base, ival(1))
    return ival(0)


def on_free(self, st, p, n):
    # freeing an object twice is an obligation wherever ghost "freed" is tracked
    if getattr(self, "track_free", False):
        self.oblige(st, z3.Or(p.base == 0, sel(self.hmap(st, ("G", "freed")), p.base) == 0),
                    "no double free", n.get("_line"), "safety")


Executor.on_free = on_free


def divide(t, c):
    """t / c for a byte count t that is a multiple of c"""
    t = z3.simplify(t, som=True)
    if c == 1:
        return t
    if z3.is_int_value(t):
        if t.as_long() % c == 0:
            return ival(t.as_long() // c)
        return None
    terms = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    out = None
    for m in terms:
        if z3.is_int_value(m):
            if m.as_long() % c:
                return None
            r = ival(m.as_long() // c)
        elif z3.is_app(m) and m.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(m.arg(0)):
            k = m.arg(0).as_long()
            if k % c:
                return None
            rest = m.children()[1:]
            p = rest[0]
            for q in rest[1:]:
                p = p * q
            r = p if k // c == 1 else ival(k // c) * p
        elif z3.is_app(m) and m.decl().kind() == z3.Z3_OP_ITE:
            a, b = divide(m.arg(1), c), divide(m.arg(2), c)
            if a is None or b is None:
                return None
            r = z3.If(m.arg(0), a, b)
        else:
            return None
        out = r if out is None else out + r
    return simp(out)


def strip_cast(n):
    while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and n.get("castKind") in (
            None, "BitCast", "NoOp", "LValueToRValue") and n["inner"]:
        if n.get("castKind") == "LValueToRValue":
            break
        n = n["inner"][0]
    return n


def pointee(x, n):
    t = x.ty(strip_cast(n))
    if t.k == "arr":
        return t.to
    return t.to if t.k == "ptr" else t


def room(x, st, d, nbytes, n):
    """a block allocated by the function itself is not written past its end"""
    if d.base.get_id() in getattr(x, "blocks", {}) and d.loc is None:
        x.oblige(st, nbytes <= sel(x.hmap(st, ("G", "bytes")), d.base), "the write stays within the block", n.get("_line"), "safety")


def copy_range(x, st, kind, dst, src_inner, soff, count):
    """dst[doff .. doff+count) := src[soff ..)"""
    old = sel(x.hmap(st, ("A", kind)), dst.base)
    doff = dst.off
    if z3.is_int_value(count) and count.as_long() <= 8:
        inner = old
        for i in range(count.as_long()):
            inner = sto(inner, simp(doff + i), sel(src_inner, simp(soff + i)))
        x.wr_inner(st, kind, dst.base, inner)
        return
    new = fresh("cpy_" + kind.replace(":", "_"), old.sort())
    j = z3.Const("cpy_j", I)
    z0 = z3.is_int_value(doff) and doff.as_long() == 0
    body = new[j] == z3.If(z3.And(doff <= j, j < doff + count),
                           sel(src_inner, simp(j - doff + soff)), sel(old, j))
    st.fact(z3.ForAll([j], body, patterns=[new[j]]))
    x.wr_inner(st, kind, dst.base, new)


def whole_struct_copy(x, st, dst, src, t):
    for f, ft in x.prog.structs[t.name]:
        if ft.k == "struct":
            x.copy_struct(st, ft.name, x.emb(st, dst.base, t.name, f), x.emb(st, src.base, t.name, f))
        elif ft.k == "arr":
            x.copy_arr(st, ft, x.emb(st, dst.base, t.name, f), x.emb(st, src.base, t.name, f))
        else:
            x.store_field(st, dst.base, t.name, f, x.load_field(st, src.base, t.name, f))


@bi("memcpy", "memmove", "__builtin___memcpy_chk", "__builtin_memcpy")
def _memcpy(x, st, args, n):
    d, s, sz = evs(x, st, args[:3])
    t = pointee(x, args[0])
    t2 = pointee(x, args[1])
    if t.k == "void":
        t = t2
    if t.k == "struct":
        whole_struct_copy(x, st, d, s, t)
        return d
    while t.k == "arr":
        t = t.to
    c = x.prog.sizeof(t)
    cnt = divide(sz, c)
    if cnt is None:
        raise Unsupported("memcpy size not a multiple of the element size: %s / %s" % (sz, c))
    k = kind_of(t)
    k2 = kind_of(t2) if t2.k not in ("struct", "arr", "void") else k
    if k2 != k:
        raise Unsupported("memcpy between different element types")
    room(x, st, d, simp(d.off * c + sz), n)
    copy_range(x, st, k, d, sel(x.hmap(st, ("A", k)), s.base), s.off, cnt)
    return d


@bi("memset", "__builtin___memset_chk")
def _memset(x, st, args, n):
    d, v, sz = evs(x, st, args[:3])
    t = pointee(x, args[0])
    if not (z3.is_int_value(v) and v.as_long() == 0):
        while t.k == "arr":
            t = t.to
        if x.prog.sizeof(t) != 1:
            raise Unsupported("memset of non-zero")
        z = v
    else:
        z = None
    if t.k == "struct":
        x.zero_struct(st, d.base, t.name)
        return d
    while t.k == "arr":
        t = t.to
    k = kind_of(t)
    cnt = divide(sz, x.prog.sizeof(t))
    if cnt is None:
        raise Unsupported("memset size")
    zero = z if z is not None else (rval(0) if k == "double" else ival(0))
    room(x, st, d, simp(d.off * x.prog.sizeof(t) + sz), n)
    copy_range(x, st, k, d, z3.K(I, zero), ival(0), cnt)
    return d


# ---------------------------------------------------------------- libm
def math1(name, f):
    engine.BUILTINS[name] = lambda x, st, args, n: f(x, st, toreal(x.ev(args[0], st)))


math1("fabs", lambda x, st, v: z3.If(v < 0, -v, v))


def _sqrt(x, st, v):
    r = ufr("sqrt")(v)
    st.fact(z3.Implies(v >= 0, z3.And(r >= 0, z3.Implies(v > 0, r > 0))))
    return r


math1("sqrt", _sqrt)


def _exp(x, st, v):
    r = ufr("exp")(v)
    st.fact(r > 0)
    return r


math1("exp", _exp)
for _n in ("log", "sin", "cos", "tan", "tanh", "atan", "cosh", "sinh", "asin", "acos", "log2", "log10"):
    math1(_n, lambda x, st, v, _n=_n: ufr(_n)(v))
math1("log1p", lambda x, st, v: ufr("log")(1 + v))
math1("expm1", lambda x, st, v: _exp(x, st, v) - 1)
math1("floor", lambda x, st, v: z3.ToReal(z3.ToInt(v)))
math1("ceil", lambda x, st, v: -z3.ToReal(z3.ToInt(-v)))
math1("round", lambda x, st, v: z3.If(v >= 0, z3.ToReal(z3.ToInt(v + rval("1/2"))), -z3.ToReal(z3.ToInt(-v + rval("1/2")))))


@bi("pow")
def _pow(x, st, args, n):
    a, b = [toreal(v) for v in evs(x, st, args)]
    if z3.is_rational_value(b) and b.as_fraction() == 2:
        return a * a
    r = ufr("pow", 2)(a, b)
    st.fact(z3.Implies(a > 0, r > 0))
    return r


@bi("fmax")
def _fmax(x, st, args, n):
    a, b = [toreal(v) for v in evs(x, st, args)]
    return z3.If(a >= b, a, b)


@bi("fmin")
def _fmin(x, st, args, n):
    a, b = [toreal(v) for v in evs(x, st, args)]
    return z3.If(a <= b, a, b)


@bi("fmod", "atan2")
def _fmod(x, st, args, n):
    a, b = [toreal(v) for v in evs(x, st, args)]
    return ufr("fmod", 2)(a, b)


@bi("abs", "labs")
def _abs(x, st, args, n):
    v = x.ev(args[0], st)
    return z3.If(v < 0, -v, v)


@bi("isnan", "__isnan", "__builtin_isnan", "isinf", "__builtin_isinf_sign", "__builtin_isinf")
def _isnan(x, st, args, n):
    x.ev(args[0], st)
    return ival(0)


@bi("__builtin_huge_val", "__builtin_inf", "__builtin_inff", "__builtin_huge_valf")
def _huge(x, st, args, n):
    return z3.Const("INFINITY_", R)


@bi("time")
def _time(x, st, args, n):
    for a in args:
        x.ev(a, st)
    return fresh("time", I)


# ---------------------------------------------------------------- RNG
@bi("dsfmt_gv_genrand_open_open")
def _dsfmt(x, st, args, n):
    r = fresh("rnd", R)
    st.fact(z3.And(r > 0, r < 1))
    return r


@bi("dsfmt_gv_init_gen_rand")
def _dsfmt_init(x, st, args, n):
    evs(x, st, args)
    return ival(0)


# ---------------------------------------------------------------- strings
STRNCMP = z3.Function("strncmp_", I, I, I, I)
STRLEN = z3.Function("strlen_", I, I)


@bi("strncmp", "strcmp")
def _strncmp(x, st, args, n):
    vs = evs(x, st, args)
    a, b = vs[0], vs[1]
    m = vs[2] if len(vs) > 2 else ival(1 << 30)
    sa, sb = x.str_of(a), x.str_of(b)
    if sa is not None and sb is not None and z3.is_int_value(m):
        k = m.as_long()
        ca, cb = (sa + "\0").split("\0")[0] + "\0", (sb + "\0").split("\0")[0] + "\0"
        ca, cb = ca[:k], cb[:k]
        return ival(0 if ca == cb else (1 if ca > cb else -1))
    lit, p = (sb, a) if sb is not None else (sa, b)
    if lit is not None and z3.is_int_value(m):
        # equal to a literal up to m characters: exactly, character by character
        t = (lit.split("\0")[0] + "\0")[:m.as_long()]
        arr = sel(x.hmap(st, ("A", "i1")), p.base)
        r = fresh("cmp", I)
        st.fact((r == 0) == z3.And(*[sel(arr, simp(p.off + i)) == ord(ch) for i, ch in enumerate(t)]))
        return r
    return STRNCMP(a.base, b.base, m)


@bi("strlen")
def _strlen(x, st, args, n):
    (a,) = evs(x, st, args)
    s = x.str_of(a)
    if s is not None:
        return ival(len(s.split("\0")[0]))
    r = STRLEN(a.base)
    st.fact(r >= 0)
    return r


@bi("strnlen")
def _strnlen(x, st, args, n):
    a, m = evs(x, st, args)
    r = STRLEN(a.base)
    st.fact(r >= 0)
    return z3.If(r < m, r, m)


@bi("strncpy")
def _strncpy(x, st, args, n):
    d, s, m = evs(x, st, args)
    ln = STRLEN(s.base)
    st.fact(ln >= 0)
    room(x, st, d, simp(d.off + m), n)
    src, old, new, j = sel(x.hmap(st, ("A", "i1")), s.base), sel(x.hmap(st, ("A", "i1")), d.base), fresh("str", AI), z3.Const("str_j", I)
    st.fact(z3.ForAll([j], new[j] == z3.If(z3.And(d.off <= j, j < d.off + m), z3.If(j - d.off < ln, sel(src, simp(j - d.off + s.off)), 0), sel(old, j)), patterns=[new[j]]))
    x.wr_inner(st, "i1", d.base, new)
    return d


@bi("snprintf", "strcpy", "strcat", "sprintf", "strncat")
def _strw(x, st, args, n):
    vs = evs(x, st, args)
    x.wr_inner(st, "i1", vs[0].base, fresh("str", AI))
    return fresh("strn", I) if n["type"]["qualType"] == "int" else vs[0]


@bi("omp_set_num_threads", "omp_get_max_threads", "omp_get_thread_num")
def _omp(x, st, args, n):
    evs(x, st, args)
    return ival(0)


# ---------------------------------------------------------------- text streams: anything may be read
@bi("fopen")
def _fopen(x, st, args, n):
    evs(x, st, args)
    b = x.alloc(st)
    r = fresh("fopen", I)
    st.fact(z3.Or(r == 0, r == b))
    return Ptr(r)


@bi("fgetc", "getc")
def _fgetc(x, st, args, n):
    evs(x, st, args)
    r = fresh("getc", I)
    st.fact(z3.And(r >= -1, r <= 255))
    return r


@bi("ferror", "fclose", "feof")
def _ferror(x, st, args, n):
    evs(x, st, args)
    return fresh("io", I)


@bi("strerror")
def _strerror(x, st, args, n):
    evs(x, st, args)
    return Ptr(x.alloc(st))


@bi("__errno_location")
def _errno(x, st, args, n):
    return Ptr(x.alloc(st))


# ------------------------------------------------------------------ records in a file
# The stream is a sequence of values: position -> value, and the kind (type and width)
# it was written with. Reading a value as another kind is an obligation that fails.
engine.GHOST_SORTS["fsr"] = z3.ArraySort(I, R)


def stream(x, st, name):
    return x.hmap(st, ("G", name))


def rec_code(x, t):
    return ival(x.prog.sizeof(t) + (0 if t.k == "double" else 100))


def stream_put(x, st, name, pos, cnt, src, soff):
    old = stream(x, st, name)
    new = fresh("wr_" + name, old.sort())
    j = z3.Const("wr_j", I)
    v = (lambda p: src) if soff is None else (lambda p: sel(src, simp(p - pos + soff)))
    st.fact(z3.ForAll([j], new[j] == z3.If(z3.And(pos <= j, j < pos + cnt), v(j), old[j]), patterns=[new[j]]))
    st.heap[("G", name)] = new


def rec_args(x, st, args):
    p, sz, cnt, fp = evs(x, st, args)
    t = pointee(x, args[0])
    while t.k == "arr":
        t = t.to
    if t.k not in ("int", "double"):
        raise Unsupported("record of type " + t.k)
    return p, sz, simp(cnt), t, sel(stream(x, st, "fpos"), ival(0))


@bi("fwrite")
def _fwrite(x, st, args, n):
    p, sz, cnt, t, pos = rec_args(x, st, args)
    x.oblige(st, sz == x.prog.sizeof(t), "the width written is the width of the value", n.get("_line"))
    nm = "fsr" if t.k == "double" else "fsi"
    code = rec_code(x, t)
    if z3.is_int_value(cnt) and cnt.as_long() <= 4:
        for i in range(cnt.as_long()):
            v = x.load_field(st, p.base, p.loc[0], p.loc[1]) if p.loc is not None else x.load(("el", t, p.base, simp(p.off + i)), st)
            st.heap[("G", nm)] = z3.Store(stream(x, st, nm), simp(pos + i), v)
            st.heap[("G", "fsz")] = z3.Store(stream(x, st, "fsz"), simp(pos + i), code)
    else:
        if p.loc is not None:
            raise Unsupported("several records from one field")
        stream_put(x, st, nm, pos, cnt, sel(x.hmap(st, ("A", kind_of(t))), p.base), p.off)
        stream_put(x, st, "fsz", pos, cnt, code, None)
    st.heap[("G", "fpos")] = z3.Store(stream(x, st, "fpos"), ival(0), simp(pos + cnt))
    return cnt


@bi("fread")
def _fread(x, st, args, n):
    p, sz, cnt, t, pos = rec_args(x, st, args)
    ln = n.get("_line")
    x.oblige(st, sz == x.prog.sizeof(t), "the width read is the width of the variable", ln)
    nm = "fsr" if t.k == "double" else "fsi"
    code = rec_code(x, t)
    room(x, st, p, simp(p.off * x.prog.sizeof(t) + sz * cnt), n)
    if z3.is_int_value(cnt) and cnt.as_long() <= 4:
        for i in range(cnt.as_long()):
            x.oblige(st, sel(stream(x, st, "fsz"), simp(pos + i)) == code, "a value is read as the kind it was written", ln)
            v = sel(stream(x, st, nm), simp(pos + i))
            x.num_fact(st, v, t)
            if p.loc is not None:
                x.store_field(st, p.base, p.loc[0], p.loc[1], v)
            else:
                x.store(("el", t, p.base, simp(p.off + i)), v, st)
    else:
        if p.loc is not None:
            raise Unsupported("several records into one field")
        fz = stream(x, st, "fsz")
        x.oblige(st, Forall(pos, pos + cnt, lambda j: sel(fz, j) == code, pats=lambda j: fz[j]), "values are read as the kind they were written", ln)
        copy_range(x, st, kind_of(t), p, stream(x, st, nm), pos, cnt)
    st.heap[("G", "fpos")] = z3.Store(stream(x, st, "fpos"), ival(0), simp(pos + cnt))
    return cnt
