"""Shared vocabulary of the contracts."""
import glob
import os
import re
import z3
from dv import cast
from dv.smt import *
from dv.engine import *
from dv import engine
from dv.loops import Role2, RoleAny

C = {}            # contract registry
FILES = {}        # function -> source file holding it (for reporting)


def add(*a, **k):
    c = Contract(*a, **k)
    C[c.name] = c
    return c


_macros = {}


def macro(name):
    """numeric value of an object-like macro of the tree under check"""
    if not _macros:
        for f in sorted(glob.glob(os.path.join(cast.SRC, "*.h"))):
            for m in re.finditer(r"^\s*#define\s+(\w+)\s+\(?(-?[0-9.eE+-]+)\)?", open(f).read(), re.M):
                _macros.setdefault(m.group(1), m.group(2))
    return int(_macros[name])


def has_macro(name):
    try:
        macro(name)
        return True
    except Exception:
        return False


def distinct(*xs):
    bs = [x._b if hasattr(x, "_b") else x for x in xs]
    return z3.Distinct(*bs)


def nonnull(*xs):
    return z3.And(*[(x._b if hasattr(x, "_b") else x) > 0 for x in xs])


def absr(v):
    return z3.If(v < 0, -v, v)


def maxr(a, b):
    return z3.If(a >= b, a, b)


def minr(a, b):
    return z3.If(a <= b, a, b)


def clampf(v, lo, hi):
    return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


def iff(ret, cond):
    return z3.And(z3.Or(ret == 0, ret == 1), (ret == 1) == cond)


EPS = z3.RealVal("1/4503599627370496")   # DBL_EPSILON


def same_arr(c, a0, a1, n, lab):
    return (lab, Forall(0, n, lambda j: a1[j] == a0[j]))


class IffAll:
    """ret <-> forall j in [0,n): f(j)   (ret is a C bool)"""
    def __init__(self, ret, n, f, pats=None):
        self.ret, self.n, self.f, self.pats = ret, n, f, pats

    def as_fact(self):
        w = fresh("wit", I)
        return z3.And(z3.Or(self.ret == 0, self.ret == 1),
                      z3.Implies(self.ret == 1, Forall(0, self.n, self.f, self.pats).as_fact()),
                      z3.Implies(self.ret == 0, z3.And(0 <= w, w < self.n, z3.Not(conj(self.f(w))))))

    def as_goal(self):
        # refuting "ret == 0 and all hold": assume all hold, show ret != 0
        return z3.And(z3.Or(self.ret == 0, self.ret == 1),
                      z3.Implies(self.ret == 1, Forall(0, self.n, self.f, self.pats).as_goal()),
                      z3.Implies(Forall(0, self.n, self.f, self.pats).as_fact(), self.ret == 1))


MARK = z3.Function("MARK", I, z3.BoolSort())     # names a possible witness (true of everything)
