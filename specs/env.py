"""Built-in reinforcement-learning environments: multiplexer and maze."""
from .cond import *

POW2 = ufr("pow", 2)


def mux(c, st):
    return c.obj(c.o.xcsf.env._b, "EnvMux", st)


def bit_on(s, i):
    return s[i] > z3.RealVal("1/2")


def addr(c, n):
    """value of the first n address bits (most significant first) within the pos_bits-bit address"""
    e = mux(c, c.old)
    return c.sum(n, lambda i: z3.If(bit_on(e.state, i), trunc(POW2(rval(2), toreal(e.pos_bits - 1 - i))), 0), real=False)


def mux_exec_ens(c):
    e = mux(c, c.old)
    v = z3.Select(e.state.arr, e.state._o + e.pos_bits + addr(c, e.pos_bits))
    ans = z3.If(v > z3.RealVal("1/2"), 1, 0)
    return [("payoff for naming the addressed bit", c.ret == z3.If(c.o.action == ans, rval(1), rval(0)))]


add("env_mux_execute", "xcsf action", requires=lambda c: [nonnull(mux(c, c.old), mux(c, c.old).state), ("address bits", mux(c, c.old).pos_bits >= 0)],
    ensures=mux_exec_ens,
    roles=lambda c, s, S0, k: [lambda t: t == mux(c, c.old).pos_bits + addr(c, k) if t.sort() == I else z3.BoolVal(False),
                               lambda t: t == addr(c, k) if t.sort() == I else z3.BoolVal(False)])
add("env_mux_get_state", "xcsf", requires=lambda c: [nonnull(mux(c, c.old), mux(c, c.old).state), ("dimension", c.o.xcsf.x_dim >= 0)],
    modifies=lambda c: [AAt("double", mux(c, c.old).state._b)],
    ensures=lambda c: [("the state array", z3.And(c.ret._b == mux(c, c.old).state._b, c.ret._o == 0) if hasattr(c.ret, "_o") else c.ret._b == mux(c, c.old).state._b),
                       ("values in the unit interval", Forall(0, c.o.xcsf.x_dim, lambda i: z3.And(0 < z3.Select(mux(c, c.new).state.arr, i), z3.Select(mux(c, c.new).state.arr, i) < 1),
                                                              pats=lambda i: z3.Select(mux(c, c.new).state.arr, i)))])
add("param_init", "xcsf x_dim y_dim n_actions", trusted=True, note="stores the dimensions; the rest of the defaults is not used by the environments",
    modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("x_dim", "y_dim", "n_actions")],
    ensures=lambda c: [c.n.xcsf.x_dim == c.o.x_dim, c.n.xcsf.y_dim == c.o.y_dim, c.n.xcsf.n_actions == c.o.n_actions])


def mux_len(k):
    return toreal(k) + POW2(rval(2), toreal(k))


def mux_init_ens(c):
    e = c.obj(c.n.xcsf.env._b, "EnvMux", c.new)
    n = e.pos_bits + trunc(POW2(rval(2), toreal(e.pos_bits)))
    return [("own storage", z3.And(e._b >= c.old.nxt, e.state._b >= c.old.nxt)),
            ("as many address bits as fit", z3.And(mux_len(e.pos_bits + 1) > toreal(c.o.bits), z3.Implies(c.o.bits >= 3, mux_len(e.pos_bits) <= toreal(c.o.bits)))),
            ("at least one address bit", z3.Implies(c.o.bits >= 3, e.pos_bits >= 1)),
            ("inputs: address and data bits", z3.And(c.n.xcsf.x_dim == n, z3.Select(c.g("bytes"), e.state._b) >= 8 * n)),
            ("one output, two actions", z3.And(c.n.xcsf.y_dim == 1, c.n.xcsf.n_actions == 2))]


def mux_setup(c, st):
    st.fact(POW2(rval(2), rval(1)) == 2)
    st.fact(POW2(rval(2), rval(0)) == 1)


def mi_cands(c, s, S0, k):
    try:
        e = c.ex.hmap(s, ("F", "EnvMux", "pos_bits"))
    except Exception:
        return []
    b = c.old.nxt
    p = z3.Select(e, b)
    return [p >= 1, z3.Or(p == 1, mux_len(p - 1) <= toreal(c.o.bits)), z3.Implies(c.o.bits < 3, p == 1)]


add("env_mux_init", "xcsf bits", setup=mux_setup, ensures=mux_init_ens, cands=mi_cands,
    roles=lambda c, s, S0, k: [lambda t: z3.And(t >= 1, z3.Or(t == 1, mux_len(t - 1) <= toreal(c.o.bits)), z3.Implies(c.o.bits < 3, t == 1)) if t.sort() == I else z3.BoolVal(False)],
    modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("env", "x_dim", "y_dim", "n_actions")])
for f, v in (("env_mux_is_done", 1), ("env_mux_multistep", 0), ("env_maze_multistep", 1)):
    add(f, "xcsf", ensures=lambda c, v=v: [("constant", c.ret == v)])
for f in ("env_mux_maxpayoff", "env_maze_maxpayoff"):
    add(f, "xcsf", ensures=lambda c: [("maximum payoff is one", c.ret == 1)])


# ---------------------------------------------------------------- maze
def mz(c, st):
    return c.obj(c.o.xcsf.env._b, "EnvMaze", st)


def wrap(v, n):
    """v reduced to [0, n) for v in [-1, n]"""
    return z3.If(v < 0, v + n, z3.If(v >= n, v - n, v))


def cell(c, e, y, x):
    return z3.Select(e.maze.arr, e.maze._o + y * macro("MAX_SIZE") + x)


def maze_req(c):
    e = mz(c, c.old)
    M = macro("MAX_SIZE")
    return [nonnull(e, e.state), ("inside the maze", z3.And(0 <= e.xpos, e.xpos < e.xsize, 0 <= e.ypos, e.ypos < e.ysize, e.xsize <= M, e.ysize <= M, e.xsize >= 1, e.ysize >= 1))]


DX = (0, 1, 1, 1, 0, -1, -1, -1)
DY = (-1, -1, 0, 1, 1, 1, 0, -1)


def pick(a, tab):
    r = ival(tab[-1])
    for i in range(len(tab) - 2, -1, -1):
        r = z3.If(a == i, ival(tab[i]), r)
    return r


def maze_ens(c):
    e, n = mz(c, c.old), mz(c, c.new)
    nx, ny = wrap(e.xpos + pick(c.o.action, DX), e.xsize), wrap(e.ypos + pick(c.o.action, DY), e.ysize)
    ch = cell(c, e, ny, nx)
    food = z3.Or(ch == ord("F"), ch == ord("G"))
    free = z3.Or(food, ch == ord("*"))
    return [("only the eight moves are accepted", z3.And(0 <= c.o.action, c.o.action <= 7)),
            ("moves to the neighbouring cell unless it is an obstacle", z3.And(n.xpos == z3.If(free, nx, e.xpos), n.ypos == z3.If(free, ny, e.ypos))),
            ("stays inside the maze", z3.And(0 <= n.xpos, n.xpos < e.xsize, 0 <= n.ypos, n.ypos < e.ysize)),
            ("payoff exactly at the goal", c.ret == z3.If(food, rval(1), rval(0))),
            ("finished exactly when the goal is reached", n.done == z3.If(food, 1, e.done))]


add("env_maze_execute", "xcsf action", requires=maze_req, ensures=maze_ens,
    modifies=lambda c: [FAt("EnvMaze", f, c.o.xcsf.env._b) for f in ("xpos", "ypos", "done")])

SENS = {"*": "1/10", "O": "3/10", "G": "5/10", "F": "7/10", "Q": "9/10"}


def sensor(ch):
    r = rval(0)
    for k, v in SENS.items():
        r = z3.If(ch == ord(k), z3.RealVal(v), r)
    return r


add("env_maze_sensor", "xcsf s", ensures=lambda c: [("code of the object", c.ret == sensor(c.o.s)), ("a known object", z3.Or(*[c.o.s == ord(k) for k in SENS]))])


def maze_state_ens(c):
    e, n = mz(c, c.old), mz(c, c.new)
    out = [("the state array", c.ret._b == e.state._b)]
    i = 0
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            if dx == 0 and dy == 0:
                continue
            out.append(("sensor %d shows the cell at (%d,%d)" % (i, dx, dy), z3.Select(n.state.arr, n.state._o + i) ==
                        sensor(cell(c, e, wrap(e.ypos + dy, e.ysize), wrap(e.xpos + dx, e.xsize)))))
            i += 1
    return out


add("env_maze_get_state", "xcsf", requires=maze_req, ensures=maze_state_ens, modifies=lambda c: [AAt("double", mz(c, c.old).state._b)], opts={"small_loops": 3})


def maze_reset_ens(c):
    e, n = mz(c, c.old), mz(c, c.new)
    return [("starts on an empty cell", cell(c, n, n.ypos, n.xpos) == ord("*")), ("inside the maze", z3.And(0 <= n.xpos, n.xpos < e.xsize, 0 <= n.ypos, n.ypos < e.ysize)),
            ("not finished", n.done == 0)]


add("env_maze_reset", "xcsf", requires=lambda c: [nonnull(mz(c, c.old)), ("size", z3.And(mz(c, c.old).xsize >= 1, mz(c, c.old).ysize >= 1))], ensures=maze_reset_ens,
    modifies=lambda c: [FAt("EnvMaze", f, c.o.xcsf.env._b) for f in ("xpos", "ypos", "done")])
add("env_maze_is_done", "xcsf", ensures=lambda c: [("the flag", c.ret == mz(c, c.old).done)])


def maze_init_ens(c):
    e = c.obj(c.n.xcsf.env._b, "EnvMaze", c.new)
    M = macro("MAX_SIZE")
    return [("own storage", z3.And(e._b >= c.old.nxt, e.state._b >= c.old.nxt, z3.Select(c.g("bytes"), e.state._b) >= 64)),
            ("size within the maximum", z3.And(e.ysize <= M, e.ysize >= 0)),
            ("eight sensors, one output, eight actions", z3.And(c.n.xcsf.x_dim == 8, c.n.xcsf.y_dim == 1, c.n.xcsf.n_actions == 8))]


add("env_maze_init", "xcsf filename", ensures=maze_init_ens,
    modifies=lambda c: [FAt("XCSF", f, c.o.xcsf._b) for f in ("env", "x_dim", "y_dim", "n_actions")] + [AAll("i1")], opts={"bounds": True},
    roles=lambda c, s, S0, k: [lambda t: z3.And(t >= 0, t <= macro("MAX_SIZE")) if t.sort() == I else z3.BoolVal(False)])
