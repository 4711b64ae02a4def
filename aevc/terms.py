"""Normal forms for index-notation expressions over the reals.

An expression (`Expr`) is a finite sum of monomials with rational coefficients.  A
monomial is a product of atoms raised to rational powers, summed over a set of bound
indices (each with a symbolic range).  Atoms are

  ("s", name, idxs)            entry of the tensor `name`
  ("f", fname, (Expr, ...))    opaque scalar function of expressions
  ("p", Expr)                  a sum used as the base of a power
  ("d", i, j)                  Kronecker delta (i < j)
  ("inv", key, i, j)           entry of the inverse of the matrix `key`
  ("chol", key, i, j)          entry of the Cholesky factor of `key`
  ("cli", key, i, j)           entry of the inverse of the Cholesky factor of `key`

An index is a tuple ("ix", ((symbol, coef), ...), const): an affine integer form.  A
matrix key is (Expr in the free indices ROW and COL, dim).

Everything is immutable and hashable; two expressions that are equal as normal forms
are equal as real-valued functions wherever the positivity declarations (`positive`)
and the domain conditions of the code hold.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import count, permutations

F1 = Fraction(1)
_fresh = count()


class Unsupported(Exception):
    """The construct is outside the supported subset (undecided, never a violation)."""


# --------------------------------------------------------------------------- indices
def ix(sym=None, const=0):
    if sym is None:
        return ("ix", (), const)
    return ("ix", ((sym, 1),), const)


def ix_add(a, b):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + c
    return ("ix", tuple(sorted((s, c) for s, c in d.items() if c)), a[2] + b[2])


def ix_scale(a, k):
    return ("ix", tuple((s, c * k) for s, c in a[1] if c * k), a[2] * k)


def ix_sub(a, b):
    return ix_add(a, ix_scale(b, -1))


def ix_subst(a, m):
    if not any(s in m for s, _ in a[1]):
        return a
    res = ("ix", (), a[2])
    for s, c in a[1]:
        res = ix_add(res, ix_scale(m[s], c) if s in m else ("ix", ((s, c),), 0))
    return res


def fresh_ix():
    return f"_b{next(_fresh)}"


# --------------------------------------------------------------------------- Expr
class Expr:
    __slots__ = ("terms", "_h", "_free")

    def __init__(self, terms):
        # terms: dict mono -> Fraction; mono = (tuple sorted ((atom, exp)), tuple sorted ((bound, dim)))
        self.terms = {m: c for m, c in terms.items() if c != 0}
        self._h = None
        self._free = None

    def key(self):
        return tuple(sorted(self.terms.items(), key=lambda t: _okey(t)))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Expr) and self.terms == o.terms

    def __repr__(self):
        return show(self)

    def is_zero(self):
        return not self.terms

    def const(self):
        """The rational value of the expression, or None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if m == ONE_M:
                return c
        return None

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        r = dict(self.terms)
        for m, c in o.terms.items():
            r[m] = r.get(m, 0) + c
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        r = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in mono_mul(m1, m2):
                    r[m] = r.get(m, 0) + c * c1 * c2
        return Expr(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(lift(o), Fraction(-1))

    def __rtruediv__(self, o):
        return lift(o) * power(self, Fraction(-1))

    def __pow__(self, e):
        return power(self, Fraction(e))


ONE_M = ((), ())


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        x = int(x)
    return Expr({ONE_M: Fraction(x)}) if x != 0 else Expr({})


ZERO = Expr({})
ONE = Expr({ONE_M: F1})


@lru_cache(maxsize=None)
def _akey(a):
    """A total order on atoms that does not depend on hashing."""
    return show_atom(a)


def _okey(t):
    m, c = t
    return (tuple((_akey(a), e) for a, e in m[0]), m[1], c)


def atom(a, e=1):
    return mk_mono([(a, Fraction(e))], ())


_symmetric = set()  # names of matrices declared symmetric positive definite


def declare_spd(*names):
    _symmetric.update(names)


def _sym_slots(name, idx):
    return tuple(sorted(idx)) if name in _symmetric and len(idx) == 2 else idx


def sym(name, *idxs):
    return atom(("s", name, _sym_slots(name, tuple(i if isinstance(i, tuple) else ix(i) for i in idxs))))


# positivity: names of tensors whose entries are declared (or are by their law) > 0
_positive = set()


def declare_positive(*names):
    _positive.update(names)


def reset_positive():
    _positive.clear()
    expr_positive.cache_clear()


def atom_positive(a):
    if a[0] == "s":
        return a[1] in _positive
    if a[0] == "f":
        return a[1] in ("exp",)
    if a[0] == "p":
        return expr_positive(a[1])
    if a[0] == "d":
        return False
    return False


@lru_cache(maxsize=None)
def _expr_pos(e, stamp):
    return bool(e.terms) and all(
        c > 0 and all(atom_positive(a) or (x.denominator == 1 and x % 2 == 0 and False) for a, x in m[0])
        for m, c in e.terms.items()
    )


def expr_positive(e):
    """All monomials are products of positive atoms (sums over non-empty ranges)."""
    return bool(e.terms) and any(
        all(atom_positive(a) for a, _ in m[0]) for m in e.terms
    ) and all(
        c > 0 and all(atom_positive(a) or (x.denominator == 1 and x.numerator % 2 == 0) for a, x in m[0])
        for m, c in e.terms.items()
    ) or _known_positive(e)


expr_positive.cache_clear = lambda: None

_known = set()


def declare_positive_expr(e):
    _known.add(e)


def _known_positive(e):
    return e in _known


def free_ix(e):
    if isinstance(e, Expr):
        if e._free is None:
            s = set()
            for m in e.terms:
                s |= mono_free(m)
            e._free = frozenset(s)
        return e._free
    raise TypeError


def ix_syms(i):
    return {s for s, _ in i[1]}


def atom_ix(a):
    k = a[0]
    if k == "s":
        r = set()
        for i in a[2]:
            r |= ix_syms(i)
        return r
    if k == "f":
        r = set()
        for x in a[2]:
            r |= free_ix(x)
        return r
    if k == "p":
        return set(free_ix(a[1]))
    if k == "d":
        return ix_syms(a[1]) | ix_syms(a[2])
    if k in ("inv", "chol", "cli"):
        return ix_syms(a[2]) | ix_syms(a[3])
    raise AssertionError(a)


@lru_cache(maxsize=None)
def atom_height(a):
    """The number of canonical bound names used inside of an atom."""
    xs = a[2] if a[0] == "f" else (a[1],) if a[0] == "p" else ()
    return max([mono_height(m) for x in xs for m in x.terms], default=0)


def mono_height(m):
    return len(m[1]) + max([atom_height(a) for a, _ in m[0]], default=0)


def mono_free(m):
    b = {s for s, _ in m[1]}
    r = set()
    for a, _ in m[0]:
        r |= atom_ix(a)
    return r - b


def atom_subst(a, mp):
    k = a[0]
    if k == "s":
        return ("s", a[1], _sym_slots(a[1], tuple(ix_subst(i, mp) for i in a[2])))
    if k == "f":
        return ("f", a[1], tuple(subst_ix(x, mp) for x in a[2]))
    if k == "p":
        return ("p", subst_ix(a[1], mp))
    if k == "d":
        return _delta_atom(ix_subst(a[1], mp), ix_subst(a[2], mp))
    if k in ("inv", "chol", "cli"):
        i, j = ix_subst(a[2], mp), ix_subst(a[3], mp)
        if k == "inv" and mat_symmetric(a[1]) and j < i:
            i, j = j, i
        return (k, a[1], i, j)
    raise AssertionError(a)


def _delta_atom(i, j):
    if j < i:
        i, j = j, i
    return ("d", i, j)


def subst_ix(e, mp):
    """Substitute free indices (symbol -> index form)."""
    mp = {k: v for k, v in mp.items() if v != ix(k)}
    if not mp or not (free_ix(e) & set(mp)):
        return e
    r = ZERO
    hit = set()
    for v in mp.values():
        hit |= ix_syms(v)
    acc = {}
    for m, c in e.terms.items():
        mm = rename_bound_apart(m, hit | set(mp))
        fs = [(atom_subst(a, mp), x) for a, x in mm[0]]
        for m2, c2 in mk_mono(fs, mm[1]).terms.items():
            acc[m2] = acc.get(m2, 0) + c * c2
    return Expr(acc)


def rename_bound_apart(m, avoid):
    clash = [s for s, _ in m[1] if s in avoid]
    if not clash:
        return m
    mp = {s: fresh_ix() for s in clash}
    mpi = {s: ix(t) for s, t in mp.items()}
    return (
        tuple((atom_subst(a, mpi), x) for a, x in m[0]),
        tuple((mp.get(s, s), d) for s, d in m[1]),
    )


def mono_mul(m1, m2):
    """Product of two monomials: list of (mono, coef)."""
    if m1 == ONE_M:
        return [(m2, F1)]
    if m2 == ONE_M:
        return [(m1, F1)]
    b1 = {s for s, _ in m1[1]}
    if b1 or m2[1]:
        m2 = rename_bound_apart(m2, b1 | mono_free(m1))
        m1 = rename_bound_apart(m1, {s for s, _ in m2[1]} | mono_free(m2))
    e = mk_mono(list(m1[0]) + list(m2[0]), tuple(m1[1]) + tuple(m2[1]))
    return list(e.terms.items())


def mk_mono(factors, bounds):
    """Build the normal form of  sum_{bounds} prod factors  (an Expr)."""
    bounds = dict(bounds)
    coef = F1
    while True:
        acc = {}
        for a, e in factors:
            if e == 0:
                continue
            acc[a] = acc.get(a, Fraction(0)) + Fraction(e)
        factors = [(a, e) for a, e in acc.items() if e != 0]
        # deltas
        changed = False
        for n, (a, e) in enumerate(factors):
            if a[0] != "d":
                continue
            i, j = a[1], a[2]
            if e != 1:
                factors[n] = (a, F1)  # delta^k = delta
            if i == j:
                del factors[n]
                changed = True
                break
            d = ix_sub(i, j)
            if not d[1]:
                return ZERO  # different constants
            # eliminate a bound index with coefficient +-1
            for s, c in d[1]:
                if s in bounds and abs(c) == 1:
                    rest = ix_scale(("ix", tuple(t for t in d[1] if t[0] != s), d[2]), -c)
                    dim = bounds[s]
                    # the eliminated index must range over the same interval
                    if len(rest[1]) == 1 and rest[2] == 0 and rest[1][0][1] == 1:
                        pass
                    elif True:
                        # an affine image: range is an obligation of the caller
                        raise Unsupported("delta with affine index")
                    del bounds[s]
                    del factors[n]
                    factors = [(atom_subst(b, {s: rest}), x) for b, x in factors]
                    changed = True
                    break
            if changed:
                break
            # two free indices: use only the smaller one elsewhere
            if len(d[1]) == 2 and d[2] == 0 and {c for _, c in d[1]} == {1, -1}:
                lo, hi = sorted(t for t, _ in d[1])
                for q, (b, x) in enumerate(factors):
                    if b != ("d", i, j) and hi in atom_ix(b):
                        factors = [
                            (b2, x2) if b2 == ("d", i, j) else (atom_subst(b2, {hi: ix(lo)}), x2)
                            for b2, x2 in factors
                        ]
                        changed = True
                        break
            if changed:
                break
        if changed:
            continue
        # expand integer powers of sums and unwrap single monomials
        for n, (a, e) in enumerate(factors):
            if a[0] == "p":
                p = a[1]
                c = p.const()
                if c is not None and (e.denominator == 1):
                    if c == 0 and e < 0:
                        raise Unsupported("division by zero")
                    coef *= c ** int(e)
                    del factors[n]
                    changed = True
                    break
                if (e.denominator == 1 and 0 < e <= 6) or len(p.terms) == 1 and not next(iter(p.terms))[1]:
                    rest = mk_mono(factors[:n] + factors[n + 1:], ())
                    q = power(p, e)
                    if not (len(q.terms) == 1 and next(iter(q.terms))[0] == ((a, e),)):
                        r = rest * q
                        for s, d in bounds.items():
                            r = sum_over(r, s, d)
                        return r * coef if coef != 1 else r
        if changed:
            continue
        # Cholesky: sum_k cli[k,i] cli[k,j] = inv[i,j];  sum_k chol[i,k] chol[j,k] = M[i,j]
        done = False
        for s in list(bounds):
            users = [(a, e) for a, e in factors if s in atom_ix(a)]
            if len(users) == 2 and all(e == 1 for _, e in users):
                (a1, _), (a2, _) = users
                if a1[0] == a2[0] == "cli" and a1[1] == a2[1] and a1[2] == a2[2] == ix(s) and s not in ix_syms(a1[3]) | ix_syms(a2[3]):
                    new = ("inv", a1[1], *sorted((a1[3], a2[3])))
                    factors = [f for f in factors if f not in users] + [(new, F1)]
                    del bounds[s]
                    done = True
                    break
                kinds = {a1[0], a2[0]}
                if kinds == {"chol", "cli"} and a1[1] == a2[1]:
                    ch, cl = (a1, a2) if a1[0] == "chol" else (a2, a1)
                    if ch[3] == ix(s) and cl[2] == ix(s):  # L L^-1
                        new = _delta_atom(ch[2], cl[3])
                    elif ch[2] == ix(s) and cl[3] == ix(s):  # L^-1 L
                        new = _delta_atom(cl[2], ch[3])
                    else:
                        continue
                    factors = [f for f in factors if f not in users] + [(new, F1)]
                    del bounds[s]
                    done = True
                    break
            if len(users) == 1 and users[0][1] == 2:
                a1 = users[0][0]
                if a1[0] == "cli" and a1[2] == ix(s):
                    new = ("inv", a1[1], a1[3], a1[3])
                    factors = [f for f in factors if f not in users] + [(new, F1)]
                    del bounds[s]
                    done = True
                    break
        if done:
            continue
        break
    # sums over indices that do not occur: multiply by the dimension
    for s in list(bounds):
        if not any(s in atom_ix(a) for a, _ in factors):
            d = bounds.pop(s)
            if isinstance(d, int):
                coef *= d
            else:
                dn = [(("s", "dim:" + str(d), ()), F1)]
                r = mk_mono(factors + dn, tuple(bounds.items()))
                return r * coef if coef != 1 else r
    return Expr({canon_mono(factors, bounds): coef})


def canon_mono(factors, bounds):
    factors = [(a, Fraction(e)) for a, e in factors]
    if not bounds:
        return (tuple(sorted(factors, key=lambda t: (_akey(t[0]), t[1]))), ())
    free = {q for a, _ in factors for q in atom_ix(a)} - set(bounds)
    names = list(bounds)
    # canonical names of nested sums are numbered from the inside out, so that the index
    # of an enclosing sum can never be captured
    base = max([atom_height(a) for a, _ in factors], default=0)
    while any(f"%{base + n}" in free for n in range(len(names))):
        base += len(names)
    # signature refinement, then brute force within classes
    sig = {}
    for s in names:
        occ = []
        for a, e in factors:
            if s in atom_ix(a):
                occ.append((_atom_sig(a, s, set(names)), e))
        sig[s] = (str(bounds[s]), tuple(sorted(occ)))
    for _ in range(2):
        nsig = {}
        order = {s: repr(sig[s]) for s in names}
        for s in names:
            nb = []
            for a, e in factors:
                ai = atom_ix(a)
                if s in ai:
                    nb.append((_atom_sig(a, s, set(names)), str(e), tuple(sorted(order[t] for t in ai if t in bounds and t != s))))
            nsig[s] = (sig[s], tuple(sorted(nb)))
        sig = nsig
    groups = {}
    for s in names:
        groups.setdefault(repr(sig[s]), []).append(s)
    gs = [groups[k] for k in sorted(groups)]
    total = 1
    for g in gs:
        for n in range(2, len(g) + 1):
            total *= n
    if total > 5040:
        raise Unsupported("too many symmetric bound indices")
    best = None

    def rec(k, order):
        nonlocal best
        if k == len(gs):
            mp = {s: ix(f"%{base + n}") for n, s in enumerate(order)}
            fs = tuple(sorted(((atom_subst(a, mp), e) for a, e in factors), key=lambda t: (_akey(t[0]), t[1])))
            kk = tuple((_akey(a), e) for a, e in fs)
            if best is None or kk < best[0]:
                best = (kk, fs, tuple((f"%{base + n}", bounds[s]) for n, s in enumerate(order)))
            return
        for perm in permutations(gs[k]):
            rec(k + 1, order + list(perm))

    # protect against capture: bound names "%n" are only ever bound
    tmp = {s: ix(fresh_ix()) for s in names}
    factors = [(atom_subst(a, tmp), e) for a, e in factors]
    bounds = {tmp[s][1][0][0]: d for s, d in bounds.items()}
    gs = [[tmp[s][1][0][0] for s in g] for g in gs]
    rec(0, [])
    return (best[1], best[2])


def _atom_sig(a, s, bound):
    """A description of atom `a` with `s` marked and the other bound indices anonymised."""
    mp = {t: ix("*") for t in atom_ix(a) if t in bound and t != s}
    mp[s] = ix("!")
    try:
        return show_atom(atom_subst(a, mp))
    except Unsupported:
        return a[0]


def sum_over(e, s, dim):
    """Sum over the free index `s` in range(dim)."""
    r = ZERO
    for m, c in e.terms.items():
        m = rename_bound_apart(m, {s})
        r = r + mk_mono(list(m[0]), tuple(m[1]) + ((s, dim),)) * c
    return r


def power(e, x):
    x = Fraction(x)
    if x == 0:
        return ONE
    if x == 1:
        return e
    if not e.terms:
        if x > 0:
            return ZERO
        raise Unsupported("division by zero")
    if len(e.terms) == 1:
        (m, c), = e.terms.items()
        if not m[1]:
            integral = x.denominator == 1
            ok = integral or all(atom_positive(a) for a, _ in m[0]) and c > 0
            if ok:
                cc = rat_pow(c, x)
                return mk_mono([(a, y * x) for a, y in m[0]], ()) * cc
    if x.denominator == 1 and 0 < x <= 6:
        r = ONE
        for _ in range(int(x)):
            r = r * e
        return r
    num, den = together(e)
    if den != ONE:
        if x.denominator == 1 or (expr_positive(den)):
            return power(num, x) * power(den, -x)
    c, mono, rest = content(num, x.denominator == 1)
    if len(rest.terms) == 1 and not next(iter(rest.terms))[1]:
        return power(rest, x) * mk_mono([(a, y * x) for a, y in mono], ()) * rat_pow(c, x)
    return mk_mono([(a, y * x) for a, y in mono] + [(("p", rest), x)], ()) * rat_pow(c, x)


def rat_pow(c, x):
    if x.denominator == 1:
        return Expr({ONE_M: Fraction(c) ** int(x)})
    if c == 1:
        return ONE
    if c < 0:
        raise Unsupported("root of a negative constant")
    from math import isqrt

    if x.denominator == 2:
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Expr({ONE_M: Fraction(n, d) ** x.numerator})
    return mk_mono([(("f", "const", (Expr({ONE_M: Fraction(c)}),)), x)], ())


def content(e, integral):
    """Factor e = c * mono * rest with a canonical rest."""
    items = sorted(e.terms.items(), key=_okey)
    expo = None
    for m, _ in items:
        d = {}
        if not m[1]:
            d = {a: x for a, x in m[0]}
        else:
            bs = {s for s, _ in m[1]}
            d = {a: x for a, x in m[0] if not (atom_ix(a) & bs)}
        if expo is None:
            expo = d
        else:
            expo = {a: min(x, d.get(a, Fraction(0))) for a, x in {**{k: Fraction(0) for k in d}, **expo}.items()}
            # atoms missing in one have exponent 0 there
            for a in list(expo):
                lo = min(expo[a], d.get(a, Fraction(0)))
                expo[a] = lo
    # recompute exactly
    atoms = set()
    per = []
    for m, _ in items:
        bs = {s for s, _ in m[1]}
        d = {a: x for a, x in m[0] if not (atom_ix(a) & bs)}
        per.append(d)
        atoms |= set(d)
    mono = []
    for a in sorted(atoms, key=_akey):
        lo = min(d.get(a, Fraction(0)) for d in per)
        if lo != 0 and (integral or atom_positive(a)):
            mono.append((a, lo))
    rest = e
    if mono:
        rest = e * mk_mono([(a, -x) for a, x in mono], ())
    lead = sorted(rest.terms.items(), key=_okey)[0]
    c = lead[1]
    if c < 0 and not integral:
        c = -c
    rest = rest * (1 / c)
    return c, mono, rest


def together(e):
    """e = num / den, where negative integer powers of sums are moved to den."""
    lows = {}
    for m in e.terms:
        for a, x in m[0]:
            if a[0] == "p" and x < 0 and x.denominator == 1:
                if m[1] and atom_ix(a) & {s for s, _ in m[1]}:
                    continue
                lows[a] = min(lows.get(a, 0), x)
    if not lows:
        return e, ONE
    # only worthwhile when it mixes terms
    num = ZERO
    for m, c in e.terms.items():
        d = dict(m[0])
        rest = list(m[0])
        mult = ONE
        keep = []
        have = {a: x for a, x in rest}
        for a, lo in lows.items():
            x = have.pop(a, Fraction(0))
            k = x - lo
            if k.denominator != 1:
                return e, ONE
            if k:
                mult = mult * power(a[1], k)
        t = mk_mono(list(have.items()), m[1]) * c
        num = num + t * mult
    den = ONE
    for a, lo in lows.items():
        den = den * mk_mono([(a, -lo)], ()) if -lo > 6 else den * _rawpow(a, -lo)
    return num, den


class _Raw:
    pass


def _rawpow(a, x):
    # a positive power of a sum kept as an atom (used only as a denominator)
    return Expr({((((a, x),)), ()): F1})


def log(e):
    c = e.const()
    if c is not None:
        if c == 1:
            return ZERO
        if c <= 0:
            raise Unsupported("log of a non-positive constant")
        return _logint(c.numerator) - _logint(c.denominator)
    num, den = together(e)
    if den != ONE:
        dm = next(iter(den.terms)) if len(den.terms) == 1 else None
        if dm is None and expr_positive(den):
            return log(num) - log(den)
        if dm is not None and all(atom_positive(a) for a, _ in dm[0]):
            r = log(num)
            for a, x in dm[0]:
                r = r - log(a[1]) * x
            return r
    if len(e.terms) == 1:
        (m, c), = e.terms.items()
        if not m[1] and c > 0:
            pos = [(a, x) for a, x in m[0] if atom_positive(a)]
            neg = [(a, x) for a, x in m[0] if not atom_positive(a)]
            if len(neg) <= 1:
                # with one remaining factor, its sign is that of the whole (positive on the domain)
                r = log(lift(c)) if c != 1 else ZERO
                for a, x in pos:
                    r = r + _logatom(a) * x
                for a, x in neg:
                    r = r + (_logatom(a) * x if x == 1 else atom(("f", "log", (mk_mono([(a, x)], ()),))))
                return r
    elif len(e.terms) > 1:
        c, mono, rest = content(e, False)
        if (c != 1 or mono) and c > 0:
            r = log(lift(c)) if c != 1 else ZERO
            for a, x in mono:
                r = r + _logatom(a) * x
            return r + log(rest)
    return atom(("f", "log", (e,)))


@lru_cache(maxsize=None)
def _logint(n):
    """log of a positive integer, through its prime factors if it is small."""
    r, k = ZERO, 2
    while n > 1:
        if n >= 10**6 or k * k > n:
            return r + atom(("f", "log", (lift(n),)))
        while n % k == 0:
            r, n = r + atom(("f", "log", (lift(k),))), n // k
        k += 1
    return r


def _logatom(a):
    if a[0] == "f" and a[1] == "exp":
        return a[2][0]
    if a[0] == "p":
        return atom(("f", "log", (a[1],)))
    return atom(("f", "log", (Expr({((((a, F1)),), ()): F1}),)))


def exp(e):
    r = ONE
    for m, c in e.terms.items():
        if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
            a = m[0][0][0]
            if a[0] == "f" and a[1] == "log":
                r = r * power(a[2][0], c)
                continue
        base = Expr({m: F1})
        r = r * mk_mono([(("f", "exp", (base,)), c)], ())
    return r


def fn(name, *args):
    if name == "abs" and len(args) == 1 and args[0].terms:
        # positive factors and the sign of the leading term are taken out
        c, mono, rest = content(args[0], False)
        if sorted(rest.terms.items(), key=_okey)[0][1] < 0:
            rest = -rest
        return atom(("f", name, (rest,))) * mk_mono(mono, ()) * c
    return atom(("f", name, tuple(args)))


@lru_cache(maxsize=None)
def mat_symmetric(key):
    e, dim = key
    return subst_ix(subst_ix(subst_ix(e, {"ROW": ix("@t")}), {"COL": ix("ROW")}), {"@t": ix("COL")}) == e


def mat_atom(kind, key, i, j):
    i = i if isinstance(i, tuple) else ix(i)
    j = j if isinstance(j, tuple) else ix(j)
    if kind == "inv" and mat_symmetric(key) and j < i:
        i, j = j, i
    return atom((kind, key, i, j))


def delta(i, j):
    i = i if isinstance(i, tuple) else ix(i)
    j = j if isinstance(j, tuple) else ix(j)
    if i == j:
        return ONE
    return mk_mono([(_delta_atom(i, j), F1)], ())


# ------------------------------------------------------------------ inverse elimination
def reduce_inverses(e, limit=400):
    """Rewrite with  M inv(M) = I  until no rule applies."""
    for _ in range(limit):
        out = {}
        changed = False
        acc = ZERO
        for m, c in e.terms.items():
            r = _reduce_mono(m)
            if r is None:
                acc = acc + Expr({m: c})
            else:
                changed = True
                acc = acc + r * c
        e = acc
        if not changed:
            return e
    raise Unsupported("inverse elimination did not terminate")


def _edges(atoms):
    return [(a, x) for a, x in atoms if a[0] in ("s", "inv", "chol", "cli") and len(_slots(a)) == 2]


def _slots(a):
    if a[0] == "s":
        return list(a[2])
    return [a[2], a[3]]


def _reduce_mono(m):
    bound = {s for s, _ in m[1]}
    for a, x in m[0]:
        if a[0] != "inv" or x != 1:
            continue
        key = a[1]
        for side in (2, 3):
            end = a[side]
            other = a[5 - side]
            if not (len(end[1]) == 1 and end[2] == 0 and end[1][0][0] in bound):
                continue
            s = end[1][0][0]
            r = _try_match(m, a, key, s, other)
            if r is not None:
                return r
    return None


def _lead(key):
    """The monomial of M with the most edges (None if M is diagonal)."""
    e, dim = key
    best = None
    for mm, c in sorted(e.terms.items(), key=_okey):
        n = len(_edges(mm[0]))
        if n and (best is None or n > best[2]):
            best = (mm, c, n)
    return best


def _try_match(m, inv, key, s, other):
    lead = _lead(key)
    if lead is None:
        return None
    mm, c0, _ = lead
    sym_ = mat_symmetric(key)
    # M[row, col] * inv[col, other]  (M symmetric or inv with its first slot = s)
    if not sym_ and inv[2] != ix(s):
        return None
    tatoms = list(m[0])
    tatoms.remove((inv, F1))
    tb = {t for t, _ in m[1]}
    pat_b = {t for t, _ in mm[1]}

    def match(k, used, mp):
        edges = pe
        if k == len(edges):
            yield dict(mp), list(used)
            return
        (pa, px) = edges[k]
        for n, (ta, tx) in enumerate(tatoms):
            if n in used or ta[0] != pa[0] or ta[1] != pa[1] or tx != px:
                continue
            ps, ts = _slots(pa), _slots(ta)
            orders = [(0, 1)]
            if pa[0] == "inv" and mat_symmetric(pa[1]) or pa[0] == "s" and pa[1] in _symmetric:
                orders.append((1, 0))
            for o in orders:
                mp2 = dict(mp)
                ok = True
                for q in range(2):
                    p_, t_ = ps[q], ts[o[q]]
                    if len(p_[1]) != 1 or p_[2] != 0 or len(t_[1]) != 1 or t_[2] != 0:
                        ok = False
                        break
                    pn, tn = p_[1][0][0], t_[1][0][0]
                    if pn in mp2:
                        if mp2[pn] != tn:
                            ok = False
                            break
                    else:
                        if pn != "ROW" and (tn not in tb or tn in mp2.values()):
                            ok = False
                            break
                        if pn == "ROW" and tn in [v for kk, v in mp2.items()]:
                            ok = False
                            break
                        mp2[pn] = tn
                if ok:
                    yield from match(k + 1, used + [n], mp2)

    # order the edges starting from COL
    pe = _edges(mm[0])
    rest_p = [(a, x) for a, x in mm[0] if (a, x) not in pe]
    for mp, used in match(0, [], {"COL": s}):
        if "ROW" not in mp:
            continue
        row = mp["ROW"]
        pmap = {k: ix(v) for k, v in mp.items()}
        matched = [tatoms[n] for n in used]
        remaining = [f for n, f in enumerate(tatoms) if n not in used]
        # divide by the remaining pattern factors
        rem = {}
        for a, x in remaining:
            rem[a] = rem.get(a, Fraction(0)) + x
        for a, x in rest_p:
            a2 = atom_subst(a, pmap)
            rem[a2] = rem.get(a2, Fraction(0)) - x
        rem = {a: x for a, x in rem.items() if x != 0}
        # interior indices must have disappeared
        interior = {mp[p] for p in mp if p != "ROW"}
        if any(atom_ix(a) & interior for a in rem):
            continue
        if any(a[0] == "s" and False for a in rem):
            continue
        outer_b = tuple((t, d) for t, d in m[1] if t not in interior)
        base = list(rem.items())
        # delta(row, other)/c0
        r = mk_mono(base + [(_delta_atom(ix(row), other), F1)], outer_b) * (1 / c0)
        for m2, c2 in key[0].terms.items():
            if m2 == mm:
                continue
            colv = fresh_ix()
            m2 = rename_bound_apart(m2, {t for t, _ in m[1]} | mono_free(m) | {"ROW", "COL"})
            fs = [(atom_subst(a, {"ROW": ix(row), "COL": ix(colv)}), x) for a, x in m2[0]]
            inv2 = mat_atom("inv", key, ix(colv), other)
            (im, _), = inv2.terms.items()
            r = r - mk_mono(base + fs + list(im[0]), outer_b + tuple(m2[1]) + ((colv, key[1]),)) * (c2 / c0)
        return r
    return None


# ------------------------------------------------------------------ printing
def show_ix(i):
    parts = []
    for s, c in i[1]:
        parts.append(s if c == 1 else f"{c}*{s}")
    if i[2] or not parts:
        parts.append(str(i[2]))
    return "+".join(parts)


@lru_cache(maxsize=None)
def show_atom(a):
    k = a[0]
    if k == "s":
        return a[1] + ("[" + ",".join(show_ix(i) for i in a[2]) + "]" if a[2] else "")
    if k == "f":
        return a[1] + "(" + ", ".join(show(x) for x in a[2]) + ")"
    if k == "p":
        return "(" + show(a[1]) + ")"
    if k == "d":
        return f"delta({show_ix(a[1])},{show_ix(a[2])})"
    return f"{k}<{show(a[1][0])}>[{show_ix(a[2])},{show_ix(a[3])}]"


def show_mono(m):
    s = "*".join(show_atom(a) + ("" if e == 1 else f"^({e})") for a, e in m[0]) or "1"
    if m[1]:
        s = "sum{" + ",".join(f"{b}<{d}" for b, d in m[1]) + "}(" + s + ")"
    return s


def show(e):
    if not e.terms:
        return "0"
    out = []
    for m, c in sorted(e.terms.items(), key=_okey):
        out.append((f"{c}*" if c != 1 else "") + show_mono(m))
    return " + ".join(out)


# ------------------------------------------------------------------ numeric evaluation
def neval(e, env, dims, idx=None, cache=None):
    """Evaluate numerically.  env: name -> array (or callable), dims: name -> int."""
    import numpy as np

    idx = idx or {}

    def dim(d):
        if isinstance(d, int):
            return d
        if isinstance(d, tuple):
            return evix(d, {})
        return int(dims[d])

    def evix(i, idx):
        v = i[2]
        for s, c in i[1]:
            v += c * (idx[s] if s in idx else dims[s])
        return int(v)

    mats = {} if cache is None else cache

    def mat(key):
        if key not in mats:
            n = dim(key[1])
            M = np.array([[ev(key[0], {"ROW": r, "COL": c}) for c in range(n)] for r in range(n)])
            mats[key] = M
        return mats[key]

    def eva(a, idx):
        k = a[0]
        if k == "s":
            if a[1] == "#":
                return float(evix(a[2][0], idx))
            if a[1].startswith("dim:"):
                return float(dim(a[1][4:]))
            v = env[a[1]]
            ii = tuple(evix(i, idx) for i in a[2])
            return float(v[ii]) if ii or getattr(v, "ndim", 0) == 0 and hasattr(v, "ndim") else float(v)
        if k == "p":
            return ev(a[1], idx)
        if k == "d":
            return 1.0 if evix(a[1], idx) == evix(a[2], idx) else 0.0
        if k == "f":
            xs = [ev(x, idx) for x in a[2]]
            return float(FUNS[a[1]](*xs))
        M = mat(a[1])
        kk = (k, a[1])
        if kk not in mats:
            if k == "inv":
                mats[kk] = np.linalg.inv(M)
            else:
                L = np.linalg.cholesky(M)
                mats[kk] = L if k == "chol" else np.linalg.inv(L)
        return float(mats[kk][evix(a[2], idx), evix(a[3], idx)])

    def ev(e, idx):
        tot = 0.0
        for m, c in e.terms.items():
            tot += float(c) * evm(list(m[0]), list(m[1]), idx)
        return tot

    def evm(fs, bs, idx):
        if bs:
            s, d = bs[0]
            return sum(evm(fs, bs[1:], {**idx, s: v}) for v in range(dim(d)))
        p = 1.0
        for a, x in fs:
            v = eva(a, idx)
            p *= v ** float(x) if x != 1 else v
        return p

    return ev(e, idx)


import math as _m

FUNS = {
    "exp": _m.exp, "log": _m.log, "const": lambda x: x, "abs": abs,
    "gt": lambda a, b: float(a > b), "lt": lambda a, b: float(a < b), "ge": lambda a, b: float(a >= b),
    "le": lambda a, b: float(a <= b), "eq": lambda a, b: float(a == b), "neq": lambda a, b: float(a != b),
    "switch": lambda c, a, b: a if c else b, "gammaln": _m.lgamma, "tanh": _m.tanh, "sin": _m.sin, "cos": _m.cos,
    "max": max, "min": min, "sgn": lambda x: float((x > 0) - (x < 0)), "arctan": _m.atan, "floor": _m.floor,
    "and": lambda a, b: float(bool(a) and bool(b)), "or": lambda a, b: float(bool(a) or bool(b)),
    "not": lambda a: float(not a), "psi": None, "logaddexp": lambda a, b: _m.log(_m.exp(a) + _m.exp(b)),
    "log1p": _m.log1p,
}
