"""The Gaussian-law contract: an affine image of independent standard normals with
precision Lambda and Lambda * mean = b."""
import numpy as np

from . import smt, terms as t
from .core import Refuted, SEED
from .denote import dim_expr
from .subject import Subject, identity, NORMALS, _dim
from .terms import Unsupported, ix


def linear_blocks(e, draws, free_dims):
    """Split `e` into a constant part and blocks {(draw, offset): (J(.., 'k'), dim)}."""
    names = {d.name for d in draws}
    const = t.ZERO
    blocks = {}
    for m, c in e.terms.items():
        hits = [(a, x) for a, x in m[0] if a[0] == "s" and a[1] in names]
        rest = [(a, x) for a, x in m[0] if not (a[0] == "s" and a[1] in names)]
        for a, x in rest:
            if _mentions(a, names):
                raise Unsupported("a draw occurs non-linearly")
        if not hits:
            const = const + t.Expr({m: c})
            continue
        if len(hits) != 1 or hits[0][1] != 1:
            raise Unsupported("a draw occurs non-linearly")
        a = hits[0][0]
        if len(a[2]) != 1:
            raise Unsupported("matrix-valued normal draw")
        i = a[2][0]
        if len(i[1]) >= 1:
            syms = [s for s, k in i[1] if k == 1]
            bound = dict(m[1])
            cand = [s for s in syms if s in bound or s in free_dims]
            if len(cand) != 1:
                raise Unsupported("draw index")
            s = cand[0]
            off = t.ix_sub(i, ix(s))
            if s in bound:
                d = bound[s]
                rest_k = [(t.atom_subst(q, {s: ix("%k")}), x) for q, x in rest]
                J = t.mk_mono(rest_k, tuple((q, dd) for q, dd in m[1] if q != s)) * c
            else:
                d = free_dims[s]
                J = t.mk_mono(rest, m[1]) * c * t.delta(s, "%k")
        else:
            off, d = i, 1
            J = t.mk_mono(rest, m[1]) * c
        key = (a[1], off)
        if key in blocks:
            J0, d0 = blocks[key]
            if d0 != d:
                raise Unsupported("overlapping blocks")
            blocks[key] = (J0 + J, d)
        else:
            blocks[key] = (J, d)
    return const, blocks


def _mentions(a, names):
    from .laws import depends_on

    return bool(depends_on(t.Expr({((((a), t.F1),), ()): t.F1}), names).terms)


def ix_expr(i):
    r = t.lift(i[2])
    for s, c in i[1]:
        r = r + t.sym("dim:" + s) * c
    return r


def blocks_disjoint(blocks, draws):
    """z3: blocks of the same draw lie in range and do not overlap."""
    import z3

    bydraw = {}
    for (nm, off), (_, d) in blocks.items():
        bydraw.setdefault(nm, []).append((ix_expr(off), dim_expr(d)))
    dimof = {d.name: dim_expr(d.dims[0]) if d.dims else t.lift(1) for d in draws}
    for nm, bl in bydraw.items():
        for k, (o, d) in enumerate(bl):
            enc = smt.Enc(ints=True)
            goal = z3.And(enc.expr(o) >= 0, enc.expr(o + d) <= enc.expr(dimof[nm]))
            ok, model = smt.prove(goal, enc.defs, vacuity=False)
            if not ok:
                raise Unsupported(f"block of {nm} out of range: {model}")
            for o2, d2 in bl[k + 1:]:
                enc = smt.Enc(ints=True)
                goal = z3.Or(enc.expr(o + d) <= enc.expr(o2), enc.expr(o2 + d2) <= enc.expr(o))
                ok, model = smt.prove(goal, enc.defs, vacuity=False)
                if not ok:
                    raise Unsupported(f"blocks of {nm} overlap: {model}")
    return "z3"


def spd(key):
    """The matrix of an inverse/Cholesky atom is symmetric positive definite."""
    e, dim = key
    pd = False
    for m, c in e.terms.items():
        if c <= 0:
            raise Unsupported(f"matrix not shown positive definite: {t.show(e)}")
        left = []
        diag = False
        for a, x in m[0]:
            if a[0] == "d" and t.atom_ix(a) == {"ROW", "COL"}:
                diag = True
        for a, x in m[0]:
            if a[0] == "d" and t.atom_ix(a) == {"ROW", "COL"}:
                continue
            r, cc = "ROW" in t.atom_ix(a), "COL" in t.atom_ix(a)
            if diag or not (r or cc):
                if not (t.atom_positive(a) or (x.denominator == 1 and x % 2 == 0)):
                    raise Unsupported(f"matrix not shown positive definite: {t.show(e)}")
            elif r and cc and a[0] == "s" and a[1] in t._symmetric and x == 1 and len(m[0]) == 1 and not m[1]:
                pd = True
            elif r and cc:
                raise Unsupported(f"matrix not shown positive definite: {t.show(e)}")
            else:
                left.append((a, x))
        if diag:
            pd = True
            continue
        rows = sorted((t.atom_subst(a, {"ROW": ix("@")}), x) for a, x in left if "ROW" in t.atom_ix(a))
        cols = sorted((t.atom_subst(a, {"COL": ix("@")}), x) for a, x in left if "COL" in t.atom_ix(a))
        if [str(r) for r in rows] != [str(c_) for c_ in cols]:
            raise Unsupported(f"matrix not shown positive definite: {t.show(e)}")
    if not pd:
        raise Unsupported(f"matrix only semi-definite: {t.show(e)}")
    return "sum-of-squares form"


def mat_keys(e, acc=None):
    acc = set() if acc is None else acc
    for m in e.terms:
        for a, _ in m[0]:
            if a[0] in ("inv", "chol", "cli"):
                if a[1] not in acc:
                    acc.add(a[1])
                    mat_keys(a[1][0], acc)
            elif a[0] == "p":
                mat_keys(a[1], acc)
            elif a[0] == "f":
                for x in a[2]:
                    mat_keys(x, acc)
    return acc


class GaussianContract:
    """outs[0] ~ N(Lambda^-1 b, Lambda^-1) given the leaves (and the non-normal draws).

    Lambda(i, j), b(i): functions building expressions;  p: the output dimension;
    nd: numpy version (env, draws) -> (Lambda, b);  sizes: dims for concrete runs.
    """

    def __init__(self, chk, subj, func, Lam, b, p, sizes, numeric, given=(), cond=None):
        self.chk, self.subj, self.func = chk, subj, func
        self.Lam, self.b, self.p = Lam, b, p
        self.sizes, self.numeric = sizes, numeric
        self.given = given

    def obligations(self):
        chk, s, f = self.chk, self.subj, self.func
        sc = {}

        def selfcheck():
            n = 0
            for k, dims in enumerate(self.sizes[:4]):
                n += s.selfcheck(dims, k)
            chk.counts["denotation_self_checks"] = chk.counts.get("denotation_self_checks", 0) + n
            return "concrete evaluation"

        ok = chk.ob(f"{s.name}: denotation agrees with the graph", f, selfcheck) == "discharged"
        for br in s.branches():
            tag = f"{s.name}" + (f" branch {''.join(map(str, br))}" if br else "")
            try:
                D, (o,), _ = s.denote(br, standardise=True)
                e = o("i")
                normals = [d for d in D.draws if d.kind in NORMALS]
                const, blocks = linear_blocks(e, normals, {"i": o.dims[0]})
                err = None
            except Exception as ex:
                err = ex
            if err is not None or not ok:
                def fail(err=err):
                    raise err if isinstance(err, Unsupported) else Unsupported(f"{type(err).__name__}: {err}" if err else "denotation self-check failed")

                for nm in ("result is affine in the normals", "normals used once", "mean", "covariance", "factorised matrices are positive definite", "shape", "index ranges"):
                    chk.ob(f"{tag}: {nm}", f, fail)
                continue

            def affine():
                if not blocks:
                    raise Unsupported("no normal draw reaches the result")
                return "normal-form"

            def mean():
                lhs = t.sum_over(self.Lam("i", "j") * t.subst_ix(const, {"i": ix("j")}), "j", o.dims[0])
                return identity(lhs, self.b("i"), self.point(D), "Lambda*mean = b")

            def cov():
                tot = t.ZERO
                for (nm, off), (J, d) in blocks.items():
                    Jm = t.subst_ix(J, {"i": ix("m")})
                    tot = tot + t.sum_over(J * Jm, "%k", d)
                lhs = t.sum_over(self.Lam("q", "i") * tot, "i", o.dims[0])
                return identity(lhs, t.delta("q", "m"), self.point(D, ("q", "m")), "Lambda*Cov = I")

            def pd():
                keys = mat_keys(e)
                for k in keys:
                    spd(k)
                return "sum-of-squares form"

            def shape():
                if [dim_expr(x) for x in o.dims] != [dim_expr(self.p)]:
                    raise Unsupported(f"dims {o.dims}")
                if D.assumed_equal_dims:
                    raise Unsupported(f"sizes not shown equal: {D.assumed_equal_dims}")
                return "normal-form"

            def ranges():
                for what, kind, data in D.side:
                    if kind == "range":
                        a, b_, d = data
                        for lo, hi in ((t.ZERO, a), (a, b_), (b_, d)):
                            okk, model = smt.dim_le(lo, hi)
                            if not okk:
                                raise Unsupported(f"{what}: {model}")
                    else:
                        a, d = data
                        for lo, hi in ((t.ZERO, a), (a + 1, d)):
                            okk, model = smt.dim_le(lo, hi)
                            if not okk:
                                raise Unsupported(f"{what}: {model}")
                return "z3"

            chk.ob(f"{tag}: result is affine in the normals", f, affine)
            chk.ob(f"{tag}: normals used once", f, lambda: blocks_disjoint(blocks, normals))
            chk.ob(f"{tag}: mean", f, mean)
            chk.ob(f"{tag}: covariance", f, cov)
            chk.ob(f"{tag}: factorised matrices are positive definite", f, pd)
            chk.ob(f"{tag}: shape", f, shape)
            chk.ob(f"{tag}: index ranges", f, ranges)

    def point(self, D, idx=("i",)):
        def mk(k):
            rng = np.random.default_rng(SEED * 31 + k)
            dims = self.sizes[k % len(self.sizes)]
            env = self.subj.inputs(rng, dims)
            from .subject import gen_draw

            for d in D.draws:
                env[d.name] = gen_draw(d.kind, rng, tuple(_dim(x, dims) for x in d.dims))
            P = _dim(self.p, dims)
            return env, dims, {s: int(rng.integers(P)) for s in idx}

        return mk

    # ------------------------------------------------------------ concrete
    def concrete(self, sizes=None, reps=2, tol=1e-6, wild=(4, 3, 2)):
        """Force the normals to 0 and to unit vectors: exact mean and covariance of the real code.

        With the entries of `wild`, also at values that spread over that many orders of magnitude (the
        comparison is in units of the exact standard deviations; badly conditioned cases are left out)."""
        from .subject import gen_draw, magnify

        s = self.subj
        n = 0
        for q, dims in enumerate(sizes or self.sizes):
            for r, far in enumerate([0] * reps + list(wild)):
                rng = np.random.default_rng(SEED * 101 + 13 * q + r)
                env = s.inputs(rng, dims, far)
                shapes = s.draw_shapes(env)
                base = [np.zeros(sh) if nd.op.name in NORMALS else gen_draw(nd.op.name, rng, sh) for nd, sh in zip(s.nodes, shapes)]
                if far:
                    base = [v if nd.op.name in NORMALS else magnify("pos" if nd.op.name == "polyagamma" else "", v, rng, 1.5 * far) for nd, v in zip(s.nodes, base)]
                outs0, params, _ = s.run(env, base)
                # standardise: a normal with (loc, scale) is forced to loc + scale * Z; loc may depend on nothing drawn before
                def force(Z):
                    fs = list(base)
                    for k, nd in enumerate(s.nodes):
                        if nd.op.name in NORMALS:
                            loc, sc = params[nd]
                            fs[k] = np.broadcast_to(loc, shapes[k]) + np.broadcast_to(sc, shapes[k]) * Z.get(k, np.zeros(shapes[k]))
                    return s.run(env, fs)[0][0]

                m = np.asarray(force({}))
                cols = []
                for k, nd in enumerate(s.nodes):
                    if nd.op.name not in NORMALS:
                        continue
                    for idx in np.ndindex(*shapes[k]):
                        Z = np.zeros(shapes[k])
                        Z[idx] = 1.0
                        cols.append(np.asarray(force({k: Z})) - m)
                Lam, b = self.numeric(env, {nd: f for nd, f in zip(s.nodes, base)}, dims)
                P = Lam.shape[0]
                wit = {"inputs": env, "dims": dims, "forced_non_normal": [x for x, nd in zip(base, s.nodes) if nd.op.name not in NORMALS]}
                if m.shape != (P,):
                    raise Refuted(f"{s.name}: result has shape {m.shape} instead of {(P,)}", wit)
                D = 1 / np.sqrt(np.diag(Lam))
                if far and not np.linalg.cond(D[:, None] * Lam * D) < 1e6:
                    continue
                eps = 1e-3 if far else tol
                C = D[:, None] * np.linalg.inv(D[:, None] * Lam * D) * D
                mu = D * np.linalg.solve(D[:, None] * Lam * D, D * b)
                J = np.array(cols).T if cols else np.zeros((P, 0))
                # affinity: a random combination
                rz = {k: rng.normal(size=shapes[k]) for k, nd in enumerate(s.nodes) if nd.op.name in NORMALS}
                comb = np.asarray(force(rz))
                lin = m + (J @ np.concatenate([z.ravel() for z in rz.values()]) if rz else 0)
                sc = np.sqrt(np.diag(C))
                if not np.allclose((comb - lin) / (sc + np.abs(mu)), 0, atol=max(eps, 1e-6)):
                    raise Refuted(f"{s.name}: result not affine in the normals", wit)
                if not np.allclose((m - mu) / (sc + np.abs(mu)), 0, atol=eps):
                    raise Refuted(f"{s.name}: mean {m} instead of {mu}", wit)
                if not np.allclose((J @ J.T - C) / np.outer(sc, sc), 0, atol=eps):
                    raise Refuted(f"{s.name}: covariance {(J @ J.T).tolist()} instead of {C.tolist()}", wit)
                n += 1 + len(cols)
        return n, n
