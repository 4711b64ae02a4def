"""SMT back end: linear/nonlinear arithmetic side conditions and rational identities."""
import time
from fractions import Fraction

import z3

from . import terms as t
from .terms import Unsupported

STATS = {"queries": 0, "seconds": 0.0}
TIMEOUT = 15000


def check(solver):
    solver.set("timeout", TIMEOUT)
    t0 = time.time()
    r = solver.check()
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t0
    return r


def prove(goal, hyps=(), vacuity=True):
    """Prove hyps => goal.  Returns (True, None), (False, model) or raises Unsupported."""
    if vacuity and hyps:
        s = z3.Solver()
        s.add(*hyps)
        if check(s) == z3.unsat:
            raise Unsupported("contradictory hypotheses (vacuous obligation)")
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = check(s)
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        return False, s.model()
    raise Unsupported(f"solver answered unknown ({s.reason_unknown()})")


class Enc:
    """Encode scalar expressions; atoms become real (or integer) variables."""

    def __init__(self, ints=False):
        self.vars = {}
        self.defs = []
        self.sort = z3.Int if ints else z3.Real
        self.ints = ints

    def atom(self, a):
        if a not in self.vars:
            v = self.sort(t.show_atom(a))
            self.vars[a] = v
            if a[0] == "p":
                self.defs.append(v == self.expr(a[1]))
            if t.atom_positive(a):
                self.defs.append(v > 0)
            if a[0] == "s" and a[1].startswith("dim:"):
                self.defs.append(v >= 1)
        return self.vars[a]

    def expr(self, e):
        r = z3.IntVal(0) if self.ints else z3.RealVal(0)
        for m, c in e.terms.items():
            if m[1]:
                raise Unsupported("sum in an SMT term")
            if self.ints and c.denominator != 1:
                raise Unsupported("fraction in an integer term")
            x = z3.IntVal(int(c)) if self.ints else z3.RealVal(str(c))
            for a, p in m[0]:
                if p.denominator != 1:
                    raise Unsupported("root in an SMT term")
                v = self.atom(a)
                for _ in range(abs(int(p))):
                    if p > 0:
                        x = x * v
                    else:
                        if self.ints:
                            raise Unsupported("integer division")
                        self.defs.append(v != 0)
                        x = x / v
            r = r + x
        return r


def dim_le(a, b, hyps=()):
    """Prove a <= b for affine integer forms over dims (each >= 1)."""
    enc = Enc(ints=True)
    goal = enc.expr(a) <= enc.expr(b)
    return prove(goal, enc.defs + list(hyps), vacuity=False)


def equal(a, b):
    """Decide a == b.  Returns the back end that accepted; False if not shown equal."""
    d = a - b
    if d.is_zero():
        return "normal-form"
    d = t.reduce_inverses(d)
    if d.is_zero():
        return "normal-form+inverse-elimination"
    num, _ = t.together(d)
    if num.is_zero():
        return "normal-form+common-denominator"
    try:
        enc = Enc()
        g = enc.expr(d) == 0
        ok, _ = prove(g, enc.defs, vacuity=False)
        if ok:
            return "z3"
    except Unsupported:
        pass
    return False
