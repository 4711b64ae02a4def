"""C20: updates keep the shape and type of the variable they update."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random import RandomStream

from aevc import graph as g
from aevc import models as M
from aevc import oracle as O
from aevc import sampler as S
from aevc.denote import Denoter, leaf
from aevc.sweeps import Sweep, build_all, variants
from aevc.terms import Unsupported

check = Check("C20", "proof")
check.assumptions += [
    "observed values and data have the shapes of the variables they stand for",
    "supports are checked up to rounding to their closure (e.g. a sigmoid that rounds to 1)",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position of the same shape as its argument",
    "support and run-time shape of the gradient-based step and of models with fixed sizes: bounded replays",
]
check.trusted += ["op contracts of aevc/denote.py (shapes), compared with the compiled graphs in C01 and C03-C08"]
F = "aemcmc.basic.construct_sampler"


# ------------------------------------------------------------------ types
def types(sw):
    m, b = sw.m, sw.b
    for rv, st in b.steps.items():
        w = {"model": sw.tag, "variable": m.label(rv), "type": str(rv.type), "update": str(st.type)}
        if st.type.dtype != rv.type.dtype or st.type.ndim != rv.type.ndim:
            raise Refuted(f"{sw.tag}: the update of {m.label(rv)} has type {st.type} instead of {rv.type}", w, replayed="structural")
        for a, c in zip(st.type.shape, rv.type.shape):
            if a is not None and c is not None and a != c:
                raise Refuted(f"{sw.tag}: the update of {m.label(rv)} has type {st.type} instead of {rv.type}", w, replayed="structural")
        p = b.init[rv]
        if p.type.dtype != rv.type.dtype or p.type.ndim != rv.type.ndim:
            raise Refuted(f"{sw.tag}: the placeholder of {m.label(rv)} has type {p.type} instead of {rv.type}", w, replayed="structural")
    for k, u in (b.sampler.updates or {}).items():
        if k.type != u.type:
            raise Refuted(f"{sw.tag}: a generator's update has type {u.type}", {"model": sw.tag}, replayed="structural")
    return "types of the graph"


# ------------------------------------------------------------------ symbolic sizes
class Sized:
    def __init__(self, name, m, dims, sizes):
        self.name, self.m, self.dims, self.sizes = name, m, dims, sizes


def sized():
    """Models whose sizes are free: {variable: symbolic dimensions} and concrete sizes to try."""
    def mk(name, f):
        s = RandomStream(2)
        rvs, dims, obs, gen = f(s)
        m = M.Model(name, s, obs, {v: None for v in dims if v.owner is None})
        m.gen = gen
        res.append((name, m, dims))

    res = []

    def gp1(s):
        a = at.dvector("a")
        lam = s.gamma(a, 1.5, name="lam")
        y = s.poisson(lam, name="y")
        return [lam], {a: ["n"], lam: ["n"], y: ["n"]}, y, {a: "pos"}
    mk("gamma_poisson, vector shape", gp1)

    def gp2(s):
        r = at.dmatrix("r")
        lam = s.gamma(2.0, r, name="lam")
        y = s.poisson(lam, name="y")
        return [lam], {r: ["n", "p"], lam: ["n", "p"], y: ["n", "p"]}, y, {r: "pos"}
    mk("gamma_poisson, matrix rate", gp2)

    def gp3(s):
        a, r = at.dvector("a"), at.dcol("r")
        lam = s.gamma(a, r, name="lam")
        y = s.poisson(lam, name="y")
        return [lam], {a: ["p"], r: ["n", 1], lam: ["n", "p"], y: ["n", "p"]}, y, {a: "pos", r: "pos"}
    mk("gamma_poisson, broadcasted parameters", gp3)

    def gp4(s):
        x = at.dvector("x")
        lam = s.gamma(2.0, 1.5, size=x.shape, name="lam")
        y = s.poisson(lam, name="y")
        return [lam], {x: ["n"], lam: ["n"], y: ["n"]}, y, {x: "pos"}
    mk("gamma_poisson, size from data", gp4)

    def bb1(s):
        n = at.lvector("n")
        p = s.beta(1.5, 2.0, size=n.shape, name="p")
        y = s.binomial(n, p, name="y")
        return [p], {n: ["n"], p: ["n"], y: ["n"]}, y, {n: "count5"}
    mk("beta_binomial, size from data", bb1)

    def bb2(s):
        n, a = at.lvector("n"), at.dcol("a")
        p = s.beta(a, 2.0 + at.zeros_like(n, dtype="float64"), name="p")
        y = s.binomial(n, p, name="y")
        return [p], {n: ["p"], a: ["n", 1], p: ["n", "p"], y: ["n", "p"]}, y, {n: "count5", a: "pos"}
    mk("beta_binomial, broadcasted", bb2)

    def bn1(s):
        n = at.dvector("n")
        p = s.beta(1.5, 2.0, size=n.shape, name="p")
        y = s.nbinom(n, p, name="y")
        return [p], {n: ["n"], p: ["n"], y: ["n"]}, y, {n: "pos"}
    mk("beta_nbinom, size from data", bn1)

    def hs(size1, link):
        def f(s):
            X = at.dmatrix("X")
            kw = {"size": 1} if size1 else {}
            tau = s.halfcauchy(0, 1, name="tau", **kw)
            lam = s.halfcauchy(0, 1, size=X.shape[1], name="lam")
            beta = s.normal(0, lam * tau, size=X.shape[1], name="beta")
            d = {X: ["n", "p"], tau: [1] if size1 else [], lam: ["p"], beta: ["p"]}
            if link == "normal":
                y = s.normal(X.dot(beta), 0.7, name="y")
            elif link == "bernoulli":
                y = s.bernoulli(at.sigmoid(-X.dot(beta)), name="y")
            else:
                h = s.gamma(4.0, 2.0, name="h")
                d[h] = []
                y = s.nbinom(h, at.sigmoid(-X.dot(beta)), name="y")
            d[y] = ["n"]
            return [tau, lam, beta], d, y, {X: "normal"}
        return f
    for size1 in (False, True):
        for link in ("normal", "bernoulli", "nbinom"):
            mk(f"horseshoe, {link}, tau {'of size one' if size1 else 'scalar'}", hs(size1, link))

    def reg(s):
        X, sd = at.dmatrix("X"), at.dvector("sd")
        beta = s.normal(0, sd, name="beta")
        y = s.bernoulli(at.sigmoid(-X.dot(beta)), name="y")
        return [beta], {X: ["n", "p"], sd: ["p"], beta: ["p"], y: ["n"]}, y, {X: "normal", sd: "pos"}
    mk("bernoulli regression, vector scale", reg)

    def nb(s):
        X, h = at.dmatrix("X"), at.dscalar("h")
        beta = s.normal(0, 1.5, size=X.shape[1], name="beta")
        y = s.nbinom(h, at.sigmoid(-X.dot(beta)), name="y")
        return [beta], {X: ["n", "p"], h: [], beta: ["p"], y: ["n"]}, y, {X: "normal", h: "pos"}
    mk("negative-binomial regression", nb)

    # gradient-based (bounded replays only)
    def nu(s):
        X = at.dmatrix("X")
        m_ = s.normal(0.0, 1.0, name="m_")
        w = s.laplace(m_, 1.0, size=X.shape[1], name="w")
        sc = s.gamma(2.0, 1.0, size=1, name="sc")
        u = s.uniform(-1.0, 2.0, size=(2, X.shape[1]), name="u")
        y = s.normal(X.dot(w + u.sum(axis=0)), sc, name="y")
        return [m_, w, sc, u], {X: ["n", "p"], m_: [], w: ["p"], sc: [1], u: [2, "p"], y: ["n"]}, y, {X: "normal"}
    mk("gradient-based, symbolic sizes", nu)
    return res


def conc(d, sz):
    return d if isinstance(d, int) else sz[d]


def symbolic_shape(name, m, dims, b, v, rv):
    """Shape of the step as a function of the sizes, for every size."""
    if b.kernel(rv) == "NUTSKernel":
        raise Unsupported("the shape of the gradient-based step is decided by bounded replays")
    k = v.order[rv]
    gr = v.groups[k]
    (o,), ph = v.cut(gr, [v.step[rv]])
    L = {}
    for r, p in ph.items():
        L[p] = leaf(f"new_{m.label(r)}", dims[r])
    for r, p in b.init.items():
        L[p] = leaf(f"cur_{m.label(r)}", dims[r])
    for x in m.data:
        L[x] = leaf(x.name, dims[x])
    for r, x in m.obs.items():
        L[x] = leaf(f"obs_{m.label(r)}", dims[r])
    from aesara.ifelse import IfElse
    from aesara.graph.basic import io_toposort
    import itertools
    from aevc import smt
    from aevc.denote import dim_expr

    ife = [n for n in io_toposort([], [o]) if isinstance(n.op, IfElse)]
    n = 0
    for br in itertools.product((0, 1), repeat=len(ife)):
        D = Denoter(L, dict(zip(ife, br)))
        try:
            T = D.tensor(o)
        except Unsupported:
            D = Denoter(L, dict(zip(ife, br)))
            D.opaque_scalars = True  # a variable of rank zero has no dimensions whatever its value
            T = D.tensor(o)
        if len(T.dims) != len(dims[rv]):
            raise Refuted(f"{name}: the update of {m.label(rv)} has {len(T.dims)} dimensions", {"model": name}, replayed="types")
        for a, c in zip(T.dims, dims[rv]):
            if a == c:
                continue
            if not smt.equal(dim_expr(a), dim_expr(c)):
                raise Unsupported(f"the update of {m.label(rv)} has shape {T.dims} instead of {dims[rv]}")
        n += 1
    return "normal-form (shape contracts)"


def support_of(m, joint, rv, vals, x):
    ps = joint.params(vals)[rv]
    return O.in_support(rv.owner.op.name, ps, x)


def feedback(tag, m, b, vals, sweeps, scale=0.5, steps=1e-3):
    """Outputs are fed back as the next current values."""
    ins = b.inputs() + b.stub_inputs()
    f = aesara.function(ins, list(b.steps.values()), updates=b.sampler.updates, on_unused_input="ignore")
    for i, sh in enumerate(f.get_shared()):
        if isinstance(sh.get_value(), np.random.Generator):
            sh.set_value(np.random.default_rng([SEED, i]))
    joint = O.Joint(m)
    rng = np.random.default_rng(SEED)
    shapes = {rv: np.shape(vals[rv]) for rv in b.steps}
    dt = {rv: np.dtype(rv.type.dtype) for rv in b.steps}
    cnt = 0
    for s in range(sweeps):
        e = b.env(vals, steps)
        q = scale * rng.normal(size=b.q_size(vals)) if b.stub_inputs() else None
        e.update({x: q for x in b.stub_inputs()})
        out = f(*[e[i] for i in ins])
        new = dict(vals)
        new.update(zip(b.steps, out))
        for rv, x in zip(b.steps, out):
            w = {"model": tag, "sweep": s, "values": {m.label(z): np.asarray(v).tolist() for z, v in vals.items()}}
            if np.shape(x) != shapes[rv]:
                raise Refuted(f"{tag}: the update of {m.label(rv)} has shape {np.shape(x)} instead of {shapes[rv]}", w)
            if np.asarray(x).dtype != dt[rv]:
                raise Refuted(f"{tag}: the update of {m.label(rv)} has type {np.asarray(x).dtype} instead of {dt[rv]}", w)
            if not support_of(m, joint, rv, new, x):
                raise Refuted(f"{tag}: the update {np.asarray(x).tolist()} of {m.label(rv)} is outside of its support", w)
            cnt += 1
        # stay away from values that make later draws degenerate
        if all(np.all(np.abs(x) < 1e3) and np.all(np.abs(x) > 1e-3) for x in out):
            vals = new
    return cnt, cnt


def sized_values(m, dims, sz, seed):
    rng = np.random.default_rng([SEED, seed])
    for x in m.data:
        shape = tuple(conc(d, sz) for d in dims[x])
        k = m.gen[x]
        m.data[x] = (rng.gamma(2.0, 0.8, shape) + 0.1 if k == "pos" else rng.normal(size=shape) if k == "normal" else rng.integers(1, 6, size=shape)).astype(x.type.dtype)
    if hasattr(m, "_prior"):
        del m._prior
    vals = m.prior_values(seed)
    for rv in m.rvs:
        want = tuple(conc(d, sz) for d in dims[rv])
        assert np.shape(vals[rv]) == want, (rv, np.shape(vals[rv]), want)
    return vals


SIZES = [dict(n=4, p=2), dict(n=1, p=1), dict(n=2, p=5), dict(n=6, p=1)]

for name, m, dims in sized():
    try:
        b = S.Built(m)
        v = b.view()
    except Exception as exc:
        check.skip(name, F, f"not built: {type(exc).__name__}: {exc}")
        continue
    for rv in b.steps:
        if b.kernel(rv) != "NUTSKernel":
            check.ob(f"{name}: shape of the update of {m.label(rv)} for all sizes", F, lambda: symbolic_shape(name, m, dims, b, v, rv))
    for sz in SIZES:
        check.replay(f"{name}: feedback with sizes {sz}", F,
                     lambda: feedback(f"{name} {sz}", m, b, sized_values(m, dims, sz, 3), 12 if THOROUGH else 4))

for sw in build_all(check, F):
    check.ob(f"{sw.tag}: types of updates and placeholders", F, lambda: types(sw))
    if not sw.observe or THOROUGH:
        check.replay(f"{sw.tag}: feedback", F, lambda: feedback(sw.tag, sw.m, sw.b, sw.m.prior_values(SEED), 20 if THOROUGH else 5))
        if sw.b.calls:
            check.replay(f"{sw.tag}: support at far positions", "aemcmc.nuts.step", lambda: feedback(sw.tag, sw.m, sw.b, sw.m.prior_values(SEED), 6 if THOROUGH else 3, scale=6.0))
with aesara.config.change_flags(floatX="float32"):
    for name in M.MODELS:
        if name in ("dirichlet_latent", "observed_constant"):
            continue  # AePPL's simplex transform needs float64; the constants are float64
        try:
            sw = Sweep(name, ())
        except Exception as exc:
            check.skip(f"{name}, float32", F, f"not built: {type(exc).__name__}: {exc}")
            continue
        sw.tag += ", float32"
        check.ob(f"{sw.tag}: types of updates and placeholders", F, lambda: types(sw))

sys.exit(check.finish())
