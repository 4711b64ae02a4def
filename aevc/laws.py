"""Contracts of the random variables (log-densities up to additive constants in `x`).

These are the parameterisations the Aesara `RandomVariable`s use inside graphs
(e.g. the gamma's last argument is a scale).  `logp(kind, params, x)` keeps every term
that depends on `x` or on a parameter.
"""
from fractions import Fraction

from . import terms as t
from .terms import Unsupported


def lg(x):
    return t.fn("gammaln", x)


def logp(kind, p, x, logbinom=lambda n, k: t.fn("logbinom", n, k)):
    log = t.log
    if kind == "gamma":
        a, s = p
        return (a - 1) * log(x) - x / s - a * log(s) - lg(a)
    if kind == "invgamma":
        a, c = p
        return -(a + 1) * log(x) - c / x + a * log(c) - lg(a)
    if kind == "beta":
        a, b = p
        return (a - 1) * log(x) + (b - 1) * log(1 - x) - lg(a) - lg(b) + lg(a + b)
    if kind == "exponential":
        (s,) = p
        return -x / s - log(s)
    if kind == "normal":
        m, s = p
        return -(x - m) * (x - m) * t.power(s, -2) * Fraction(1, 2) - log(s) - t.log(t.sym("2pi")) * Fraction(1, 2)
    if kind == "poisson":
        (m,) = p
        return x * log(m) - m - lg(x + 1)
    if kind == "binomial":
        n, q = p
        return x * log(q) + (n - x) * log(1 - q) + logbinom(n, x)
    if kind == "nbinom":
        n, q = p
        return n * log(q) + x * log(1 - q) + logbinom(n + x - 1, x)
    if kind == "bernoulli":
        (q,) = p
        return x * log(q) + (1 - x) * log(1 - q)
    if kind in ("cauchy", "logistic", "laplace", "gumbel"):
        m, s = p
        z = (x - m) / s
        if kind == "cauchy":
            return -log(z * z + 1) - log(s) - log(t.sym("pi"))
        if kind == "logistic":
            return -z - 2 * log(t.exp(-z) + 1) - log(s)
        if kind == "laplace":
            return -t.fn("abs", z) - log(s) - log(t.lift(2))
        return -z - t.exp(-z) - log(s)
    if kind == "halfnormal":
        m, s = p
        return -(x - m) * (x - m) * t.power(s, -2) * Fraction(1, 2) - log(s) - log(t.sym("2pi")) * Fraction(1, 2) + log(t.lift(2))
    if kind == "halfcauchy":
        m, s = p
        z = (x - m) / s
        return -log(z * z + 1) - log(s) - log(t.sym("pi")) + log(t.lift(2))
    if kind == "lognormal":
        m, s = p
        return -(log(x) - m) * (log(x) - m) * t.power(s, -2) * Fraction(1, 2) - log(x) - log(s) - log(t.sym("2pi")) * Fraction(1, 2)
    if kind == "uniform":
        a, b = p
        return -log(b - a)
    raise Unsupported(f"no density contract for {kind}")


def depends_on(e, names):
    """Monomials of `e` in which one of the symbols `names` occurs."""
    def atom_has(a):
        if a[0] == "s":
            return a[1] in names
        if a[0] == "f":
            return any(expr_has(x) for x in a[2])
        if a[0] == "p":
            return expr_has(a[1])
        if a[0] in ("inv", "chol", "cli"):
            return expr_has(a[1][0])
        return False

    def expr_has(x):
        return any(atom_has(a) for m in x.terms for a, _ in m[0])

    return t.Expr({m: c for m, c in e.terms.items() if any(atom_has(a) for a, _ in m[0])})
