"""C04: Gaussian regression coefficients have the exact posterior law."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH, REPO  # noqa: F401
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from aevc import graph as g, terms as t
from aevc.gauss import GaussianContract
from aevc.subject import Leaf, Subject

import aemcmc.dists as AD
import aemcmc.gibbs as AG

check = Check("C04", "proof")
check.assumptions += [
    "machine floating point is treated as real arithmetic in the obligations (the bounded replays run in float64)",
    "lemma (not machine-checked): an affine image m + J Z of independent standard normals is N(m, JJ'), and Lambda m = b, Lambda JJ' = I characterise N(Lambda^-1 b, Lambda^-1)",
    "sizes n, p >= 1",
]
check.trusted += [
    "contracts of the Aesara ops (dot, elementwise, subtensor, cholesky, triangular and dense solve, ifelse) as written in aevc/denote.py; cross-checked at random points in every run",
    "Aesara's standard_normal draws independent N(0, 1) variates",
    "aevc/terms.py normal-form engine; z3 4.x",
]

w, l, X, z = at.vector("omega"), at.vector("lmbdatau_inv"), at.matrix("X"), at.vector("z")
n_, p_ = "n", "p"


def regression(fn, name):
    srng = RandomStream(0)
    return Subject(name, [fn(srng, w, l, X, z)], [
        Leaf(w, "omega", ["n"], "pos"), Leaf(l, "lam", ["p"], "pos"), Leaf(X, "X", ["n", "p"]), Leaf(z, "z", ["n"])])


def Lam(i, j):
    return t.sum_over(t.sym("X", "q0", i) * t.sym("omega", "q0") * t.sym("X", "q0", j), "q0", "n") + t.delta(i, j) * t.sym("lam", i) ** 2


def b(i):
    return t.sum_over(t.sym("X", "q0", i) * t.sym("omega", "q0") * t.sym("z", "q0"), "q0", "n")


def num(env, forced, dims):
    Xv, wv = env["X"], env["omega"]
    return Xv.T @ (wv[:, None] * Xv) + np.diag(env["lam"] ** 2), Xv.T @ (wv * env["z"])


SIZES = [dict(n=3, p=2), dict(n=2, p=3), dict(n=2, p=2), dict(n=1, p=1), dict(n=1, p=4), dict(n=4, p=1), dict(n=3, p=4), dict(n=2, p=4)]
BIG = [dict(n=7, p=5), dict(n=5, p=8), dict(n=6, p=6), dict(n=30, p=3), dict(n=3, p=30)]
if THOROUGH:
    BIG += [dict(n=a, p=c) for a in (1, 2, 5, 12, 40) for c in (1, 2, 6, 13, 40)]

subj = regression(AG.normal_regression_posterior, "normal_regression_posterior")
G = GaussianContract(check, subj, "aemcmc.gibbs.normal_regression_posterior", Lam, b, "p", SIZES, num)
G.obligations()
check.replay("regression step: forced normals", "aemcmc.gibbs.normal_regression_posterior", lambda: G.concrete(SIZES + BIG, 2))
for nm in ("normal_regression_overdetermined_posterior", "normal_regression_underdetermined_posterior"):
    fn = getattr(AG, nm, None)
    if fn is None:
        continue  # reached through normal_regression_posterior only
    s = regression(fn, nm)
    Gn = GaussianContract(check, s, "aemcmc.gibbs." + nm, Lam, b, "p", SIZES, num)
    Gn.obligations()
    check.replay(nm + ": forced normals", "aemcmc.gibbs." + nm, lambda: Gn.concrete(SIZES + BIG[:3], 1))


# branch selection: both branches have the law, so any selection is right; each branch is
# nevertheless exercised
def both():
    seen = set()
    for k, dims in enumerate(SIZES):
        rng = np.random.default_rng(SEED + k)
        env = subj.inputs(rng, dims)
        fs = [np.zeros(s) for s in subj.draw_shapes(env)]
        seen.add(tuple(bool(c) for c in subj.run(env, fs)[2]))
    if len(subj.ifelse) == 1 and len(seen) != 2:
        check.counts["branches_exercised"] = len(seen)
    return len(SIZES), len(SIZES)


check.replay("both algorithms are exercised", "aemcmc.gibbs.normal_regression_posterior", both)

# --- the two samplers on their own -------------------------------------------------------
bb, Q = at.vector("b"), at.matrix("Q")


def gen_spd(rng, shape):
    A = rng.normal(size=shape)
    return A @ A.T + 0.3 * np.eye(shape[0])


t.declare_spd("Q")
RS = [dict(p=1), dict(p=2), dict(p=3), dict(p=4)]
rue = Subject("multivariate_normal_rue2005", [AD.multivariate_normal_rue2005(RandomStream(1), bb, Q)],
              [Leaf(bb, "b", ["p"]), Leaf(Q, "Q", ["p", "p"], gen_spd)])
GR = GaussianContract(check, rue, "aemcmc.dists.multivariate_normal_rue2005", lambda i, j: t.sym("Q", i, j), lambda i: t.sym("b", i), "p", RS,
                      lambda env, forced, dims: (env["Q"], env["b"]))
GR.obligations()
check.replay("rue2005: forced normals", "aemcmc.dists.multivariate_normal_rue2005", lambda: GR.concrete(RS + [dict(p=9)], 3))

A, om, phi, tt = at.vector("A"), at.vector("omega"), at.matrix("phi"), at.vector("t")
CS = [dict(n=2, p=3), dict(n=1, p=1), dict(n=3, p=2), dict(n=2, p=2), dict(n=1, p=4)]
cong = Subject("multivariate_normal_cong2017", [AD.multivariate_normal_cong2017(RandomStream(2), A, om, phi, tt)],
               [Leaf(A, "A", ["p"], "pos"), Leaf(om, "omega", ["n"], "pos"), Leaf(phi, "phi", ["n", "p"]), Leaf(tt, "t", ["n"])])
GC = GaussianContract(
    check, cong, "aemcmc.dists.multivariate_normal_cong2017",
    lambda i, j: t.delta(i, j) * t.sym("A", i) + t.sum_over(t.sym("phi", "q0", i) * t.sym("omega", "q0") * t.sym("phi", "q0", j), "q0", "n"),
    lambda i: t.sum_over(t.sym("phi", "q0", i) * t.sym("omega", "q0") * t.sym("t", "q0"), "q0", "n"), "p", CS,
    lambda env, forced, dims: (np.diag(env["A"]) + env["phi"].T @ (env["omega"][:, None] * env["phi"]), env["phi"].T @ (env["omega"] * env["t"])))
GC.obligations()
check.replay("cong2017: forced normals", "aemcmc.dists.multivariate_normal_cong2017", lambda: GC.concrete(CS + [dict(n=5, p=11)], 3))


# --- sparse precision matrices are accepted by rue2005 ------------------------------------
def sparse_q():
    import aesara.sparse as asp
    import scipy.sparse as sp

    Qs = asp.csc_matrix("Qs")
    draw = AD.multivariate_normal_rue2005(RandomStream(3), bb, Qs)
    flat = g.flatten([draw])
    (node,) = g.draws(flat)
    f = node.outputs[1].type()
    from aesara.graph.basic import clone_replace

    fn = aesara.function([bb, Qs, f], clone_replace(flat, {node.outputs[1]: f}))
    rng = np.random.default_rng(SEED)
    k = 0
    for p in (1, 3, 5):
        Qv = gen_spd(rng, (p, p))
        bv = rng.normal(size=p)
        m = fn(bv, sp.csc_matrix(Qv), np.zeros(p))[0]
        J = np.array([fn(bv, sp.csc_matrix(Qv), e)[0] - m for e in np.eye(p)]).T
        if not (np.allclose(m, np.linalg.solve(Qv, bv)) and np.allclose(J @ J.T, np.linalg.inv(Qv))):
            raise Refuted("rue2005 with a sparse Q has another law", {"Q": Qv, "b": bv})
        k += 1
    return k, k


check.replay("rue2005: sparse precision", "aemcmc.dists.multivariate_normal_rue2005", sparse_q)


# --- draws are really standard normal and independent across elements and calls ------------
def mc():
    from scipy import stats

    srng = RandomStream(SEED)
    N = 4000 if not THOROUGH else 40000
    tot = 0
    for dims in (dict(n=4, p=2), dict(n=2, p=4)):
        out = AG.normal_regression_posterior(srng, w, l, X, z)
        fn = aesara.function([w, l, X, z], out, updates=srng.updates())
        rng = np.random.default_rng(SEED + 5)
        env = subj.inputs(rng, dims)
        xs = np.array([fn(env["omega"], env["lam"], env["X"], env["z"]) for _ in range(N)])
        L_, b_ = num(env, None, dims)
        C = np.linalg.inv(L_)
        r = (xs - C @ b_) @ np.linalg.cholesky(L_)
        for j in range(r.shape[1]):
            pv = stats.kstest(r[:, j], "norm").pvalue
            if pv < 1e-7:
                raise Refuted(f"whitened draws are not standard normal (p={pv})", {"env": env})
        c = np.corrcoef(np.hstack([r[1:], r[:-1]]).T) - np.eye(2 * r.shape[1])
        if np.abs(c).max() > 6.5 / np.sqrt(N):
            raise Refuted(f"whitened draws are correlated ({np.abs(c).max()})", {"env": env})
        tot += N
    return tot, 2


check.replay("Monte-Carlo law of repeated draws", "aemcmc.gibbs.normal_regression_posterior", mc)
sys.exit(check.finish())
