"""Denotation of Aesara graphs as index-notation expressions.

`Denoter.tensor(var)` gives a `T` (symbolic dims + element function).  Random draws
become fresh symbols; their law (kind and parameters) is recorded in `draws`.
Anything outside the supported subset raises `Unsupported`.
"""
from fractions import Fraction

import numpy as np
from aesara.graph.basic import Constant
from aesara.ifelse import IfElse
from importlib import import_module

tb, nlinalg, tshape, slinalg, tsub = (
    import_module("aesara.tensor." + m) for m in ("basic", "nlinalg", "shape", "slinalg", "subtensor")
)
from aesara.tensor.elemwise import CAReduce, DimShuffle, Elemwise
from aesara.tensor.math import Dot
from aesara.tensor.random.op import RandomVariable
from aesara.scalar import ScalarType
from aesara.tensor.type import TensorType

from . import terms as t
from .terms import Unsupported, ix

POSITIVE_KINDS = {"gamma", "beta", "exponential", "polyagamma", "invgamma", "halfcauchy", "halfnormal", "lognormal", "weibull", "chisquare"}


class T:
    """A tensor: `dims` (ints, symbols or affine forms) and `el(*indices) -> Expr`."""

    def __init__(self, dims, el):
        self.dims = list(dims)
        self._el = el
        self._cache = {}

    @property
    def ndim(self):
        return len(self.dims)

    def __call__(self, *idx):
        idx = tuple(i if isinstance(i, tuple) else ix(i) if isinstance(i, str) else ix(None, i) for i in idx)
        assert len(idx) == len(self.dims), (idx, self.dims)
        if idx not in self._cache:
            self._cache[idx] = t.lift(self._el(*idx))
        return self._cache[idx]


def dim_expr(d):
    """A dimension as a scalar expression."""
    if isinstance(d, int):
        return t.lift(d)
    if isinstance(d, str):
        return t.sym("dim:" + d)
    r = t.lift(d[2])
    for s, c in d[1]:
        r = r + t.sym("dim:" + s) * c
    return r


def expr_dim(e):
    """The inverse of `dim_expr` for affine expressions."""
    const, parts = 0, {}
    for m, c in e.terms.items():
        if c.denominator != 1:
            raise Unsupported(f"non-integer size {e}")
        if m == t.ONE_M:
            const += int(c)
            continue
        if m[1] or len(m[0]) != 1 or m[0][0][1] != 1:
            raise Unsupported(f"size {t.show(e)}")
        a = m[0][0][0]
        if a[0] != "s":
            raise Unsupported(f"size {t.show(e)}")
        if a[1].startswith("dim:"):
            parts[a[1][4:]] = parts.get(a[1][4:], 0) + int(c)
        elif a[1] == "#":
            raise Unsupported("index-valued size")
        elif not a[2]:
            parts["val:" + a[1]] = parts.get("val:" + a[1], 0) + int(c)
        else:
            raise Unsupported(f"size {t.show(e)}")
    if not parts:
        return const
    if const == 0 and len(parts) == 1 and list(parts.values()) == [1]:
        return list(parts)[0]
    return ("ix", tuple(sorted(parts.items())), const)


def dim_ix(d):
    """A dimension as an index form."""
    if isinstance(d, int):
        return ix(None, d)
    if isinstance(d, str):
        return ix(d)
    return d


class Draw:
    def __init__(self, name, kind, params, dims, node, size_given):
        self.name, self.kind, self.params, self.dims, self.node = name, kind, params, dims, node
        self.size_given = size_given

    def __repr__(self):
        return f"{self.name}~{self.kind}"


class Denoter:
    def __init__(self, leaves, branches=None, facts=None, draw_prefix="z", stop=None):
        """leaves: var -> T;  branches: IfElse node -> 0/1 (then/else)."""
        self.memo = dict(leaves)
        self.draws = []
        self.branches = branches if branches is not None else {}
        self.ifelse = []
        self.side = []  # (description, kind, data): side obligations for the integers
        self.assumed_equal_dims = set()
        self.prefix = draw_prefix
        self.facts = facts or (lambda cond: None)
        self.ops = set()
        self.scan_handler = None
        self.ravels = {}
        self.standardise = False  # express normal draws through standard ones
        self.opaque_scalars = False  # values without a contract become names if their rank is zero

    # ---------------------------------------------------------------- basics
    def const(self, data):
        a = np.asarray(data)
        if a.ndim == 0:
            return T([], lambda: _num(a.item()))
        if a.size and np.all(a == a.flat[0]):
            v = _num(a.flat[0].item())
            return T(list(a.shape), lambda *i: v)

        def el(*idx):
            if all(not i[1] for i in idx):
                return _num(a[tuple(i[2] for i in idx)].item())
            nm = f"const{a.tolist()}"
            return t.sym(nm, *idx)

        return T(list(a.shape), el)

    def tensor(self, var):
        # iterative to keep the recursion depth small
        stack = [var]
        while stack:
            v = stack[-1]
            if v in self.memo:
                stack.pop()
                continue
            if isinstance(v, Constant):
                self.memo[v] = self.const(v.data) if isinstance(v.type, (TensorType, ScalarType)) else None
                stack.pop()
                continue
            if v.owner is None:
                if not isinstance(v.type, TensorType):
                    self.memo[v] = None
                    stack.pop()
                    continue
                raise Unsupported(f"unbound input {v}")
            if self.opaque_scalars and isinstance(v.type, TensorType) and v.type.ndim == 0:
                nm = f"opaque{len(self.memo)}"
                self.memo[v] = T([], lambda nm=nm: t.sym(nm))
                stack.pop()
                continue
            need = self.deps(v.owner)
            todo = [i for i in need if i not in self.memo]
            if todo:
                stack.extend(reversed(todo))
                continue
            outs = self.apply(v.owner)
            for o, r in zip(v.owner.outputs, outs):
                self.memo[o] = r
            if v not in self.memo:
                raise Unsupported(f"no denotation for {v.owner.op}")
            stack.pop()
        return self.memo[var]

    def deps(self, node):
        op = node.op
        if isinstance(op, IfElse):
            if node not in self.branches:
                self.branches[node] = None
            if node not in self.ifelse:
                self.ifelse.append(node)
            b = self.branches[node]
            if b is None:
                raise Unsupported("ifelse without a chosen branch")
            n = op.n_outs
            vals = node.inputs[1:]
            return vals[:n] if b == 0 else vals[n:]
        if isinstance(op, RandomVariable):
            return list(node.inputs[1:])
        if isinstance(op, tshape.Shape_i) or isinstance(op, tshape.Shape):
            return list(node.inputs)
        return list(node.inputs)

    # ---------------------------------------------------------------- apply
    def apply(self, node):
        op = node.op
        self.ops.add(type(op).__name__ + (":" + type(op.scalar_op).__name__ if isinstance(op, Elemwise) else ""))
        M = self.memo
        ins = [M.get(i) for i in node.inputs]
        if isinstance(op, IfElse):
            n = op.n_outs
            b = self.branches[node]
            vals = node.inputs[1:]
            return [M[v] for v in (vals[:n] if b == 0 else vals[n:])]
        if isinstance(op, RandomVariable):
            return self.rv(node, ins)
        if isinstance(op, Elemwise):
            return [self.elemwise(node, op.scalar_op, ins)]
        if isinstance(op, DimShuffle):
            return [self.dimshuffle(op, ins[0])]
        if isinstance(op, CAReduce):
            return [self.careduce(node, op, ins[0])]
        if isinstance(op, Dot):
            return [self.dot(*ins)]
        if isinstance(op, tshape.Shape_i):
            d = dim_expr(ins[0].dims[op.i])
            return [T([], lambda: d)]
        if isinstance(op, tshape.Shape):
            ds = [dim_expr(d) for d in ins[0].dims]
            return [T([len(ds)], lambda i: _pick(ds, i))]
        if isinstance(op, tb.MakeVector):
            es = [x() for x in ins]
            return [T([len(es)], lambda i: _pick(es, i))]
        if isinstance(op, (tb.TensorFromScalar, tb.ScalarFromTensor)):
            return [ins[0]]
        if isinstance(op, tshape.SpecifyShape):
            return [ins[0]]
        if type(op).__name__ in ("CheckParameterValue", "CheckAndRaise", "Assert"):
            return [ins[0]]
        if isinstance(op, tb.ARange):
            start, stop, step = (x() for x in ins)
            if step.const() != 1:
                raise Unsupported("arange step")
            n = expr_dim(stop - start)
            return [T([n], lambda i: t.sym("#", i) + start if start.const() != 0 else t.sym("#", i))]
        if isinstance(op, tb.Alloc):
            return [self.broadcast(ins[0], [expr_dim(x()) for x in ins[1:]])]
        if type(op).__name__ == "DenseFromSparse":
            return [ins[0]]
        if type(op).__name__ == "BroadcastTo":
            return [self.broadcast(ins[0], [expr_dim(x()) for x in ins[1:]])]
        if isinstance(op, tsub.Subtensor):
            return [self.subtensor(node, op, ins)]
        if isinstance(op, tsub.AdvancedIncSubtensor):
            return [self.advinc(op, ins, node)]
        if isinstance(op, tsub.AdvancedSubtensor):
            return [self.advsub(ins)]
        if isinstance(op, tb.ExtractDiag):
            x = ins[0]
            if x.ndim != 2 or op.offset != 0:
                raise Unsupported("diag")
            self.same_dim(x.dims[0], x.dims[1])
            return [T([x.dims[0]], lambda i: x(i, i))]
        if isinstance(op, tb.AllocDiag):
            x = ins[0]
            if x.ndim != 1 or op.offset != 0:
                raise Unsupported("diag")
            return [T([x.dims[0]] * 2, lambda i, j: t.delta(i, j) * x(i))]
        if isinstance(op, tb.Eye):
            n, m, k = (x() for x in ins)
            if n != m or not k.is_zero():
                raise Unsupported("eye")
            return [T([expr_dim(n)] * 2, lambda i, j: t.delta(i, j))]
        if isinstance(op, slinalg.Cholesky):
            key = self.matkey(ins[0])
            if not op.lower:
                return [T(ins[0].dims, lambda i, j: t.mat_atom("chol", key, j, i))]
            return [T(ins[0].dims, lambda i, j: t.mat_atom("chol", key, i, j))]
        if isinstance(op, slinalg.SolveTriangular):
            return [self.solve_triangular(op, *ins)]
        if isinstance(op, slinalg.Solve):
            return [self.solve(ins[0], ins[1])]
        if isinstance(op, slinalg.CholeskySolve):
            raise Unsupported("cho_solve")
        if isinstance(op, nlinalg.MatrixInverse):
            key = self.matkey(ins[0])
            return [T(ins[0].dims, lambda i, j: t.mat_atom("inv", key, i, j))]
        if type(op).__name__ in ("DeepCopyOp", "Unbroadcast"):
            return [ins[0]]
        if type(op).__name__ == "Reshape":
            return [self.reshape(node, op, ins)]
        if type(op).__name__ == "Scan" and self.scan_handler:
            return self.scan_handler(self, node, ins)
        raise Unsupported(f"op {op}")

    def same_dim(self, a, b):
        if a != b:
            self.assumed_equal_dims.add((str(a), str(b)))

    # ---------------------------------------------------------------- elementwise
    def broadcast(self, x, dims):
        off = len(dims) - x.ndim
        if off < 0:
            raise Unsupported("broadcast to fewer dimensions")
        keep = []
        for k, d in enumerate(x.dims):
            if d == 1 and dims[off + k] != 1:
                keep.append(False)
            else:
                self.same_dim(d, dims[off + k])
                keep.append(True)
        return T(dims, lambda *i: x(*[i[off + k] if kp else ix(None, 0) for k, kp in enumerate(keep)]))

    def bdims(self, xs):
        nd = max((x.ndim for x in xs), default=0)
        dims = []
        for k in range(nd):
            d = 1
            for x in xs:
                kk = k - (nd - x.ndim)
                if kk < 0:
                    continue
                if x.dims[kk] != 1:
                    if d == 1:
                        d = x.dims[kk]
                    else:
                        self.same_dim(d, x.dims[kk])
            dims.append(d)
        return dims

    def elemwise(self, node, sop, ins):
        dims = self.bdims(ins)
        bs = [self.broadcast(x, dims) for x in ins]
        return T(dims, lambda *i: self.scalar(sop, [b(*i) for b in bs], node))

    def scalar(self, sop, a, node=None):
        n = type(sop).__name__
        if n == "Add":
            r = a[0]
            for x in a[1:]:
                r = r + x
            return r
        if n == "Mul":
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if n == "Sub":
            return a[0] - a[1]
        if n in ("TrueDiv", "TrueDivide"):
            return a[0] * t.power(a[1], -1)
        if n in ("Reciprocal", "Inv"):
            return t.power(a[0], -1)
        if n == "Neg":
            return -a[0]
        if n == "Sqr":
            return a[0] * a[0]
        if n == "Sqrt":
            return t.power(a[0], Fraction(1, 2))
        if n == "Pow":
            c = a[1].const()
            if c is None:
                b = t.log(a[0])
                return t.exp(a[1] * b)
            return t.power(a[0], c)
        if n == "Exp":
            return t.exp(a[0])
        if n == "Expm1":
            return t.exp(a[0]) - 1
        if n == "Log":
            return t.log(a[0])
        if n == "Log1p":
            return t.log(a[0] + 1)
        if n == "Log2":
            return t.log(a[0]) / t.log(t.lift(2))
        if n == "Sigmoid":
            return t.exp(a[0]) * t.power(t.exp(a[0]) + 1, -1)
        if n == "Softplus":
            return t.log(t.exp(a[0]) + 1)
        if n == "Log1mexp":
            return t.log(1 - t.exp(a[0]))
        if n in ("Identity", "Cast") or n.startswith("Convert"):
            return a[0]
        if n == "Second":
            return a[1]
        if n == "Abs":
            c = a[0].const()
            if c is not None:
                return t.lift(abs(c))
            if t.expr_positive(a[0]):
                return a[0]
            return t.fn("abs", a[0])
        if n == "GammaLn":
            return t.fn("gammaln", a[0])
        if n == "Switch":
            c = self.truth(a[0])
            if c is not None:
                return a[1] if c else a[2]
            if a[1] == a[2]:
                return a[1]
            return t.fn("switch", *a)
        if n in ("LT", "LE", "GT", "GE", "EQ", "NEQ"):
            r = t.fn(n.lower(), *a)
            c = self.truth(r)
            return t.lift(int(c)) if c is not None else r
        if n in ("AND", "OR"):
            cs = [self.truth(x) for x in a]
            if n == "AND":
                if False in cs:
                    return t.lift(0)
                if all(cs):
                    return t.lift(1)
            else:
                if True in cs:
                    return t.lift(1)
                if all(c is False for c in cs):
                    return t.lift(0)
            return t.fn(n.lower(), *a)
        if n == "Invert":
            c = self.truth(a[0])
            return t.fn("not", a[0]) if c is None else t.lift(int(not c))
        if n in ("ScalarMaximum", "Maximum"):
            return t.fn("max", *a) if len(a) > 1 else a[0]
        if n in ("ScalarMinimum", "Minimum"):
            return t.fn("min", *a) if len(a) > 1 else a[0]
        if n == "Composite":
            fg = getattr(sop, "fgraph", None)
            env = dict(zip(sop.inputs, a))

            def ev(v):
                if v in env:
                    return env[v]
                if isinstance(v, Constant):
                    return _num(np.asarray(v.data).item())
                r = self.scalar(v.owner.op, [ev(i) for i in v.owner.inputs])
                env[v] = r
                return r

            return ev(sop.outputs[0])
        if n in ("Tanh", "Sin", "Cos", "ArcTan", "Floor", "Sgn", "Psi", "Erf"):
            return t.fn(n.lower(), *a)
        raise Unsupported(f"scalar op {n}")

    def truth(self, c):
        v = c.const()
        if v is not None:
            return bool(v)
        return self.facts(c)

    def dimshuffle(self, op, x):
        order = op.new_order
        dims = [1 if o == "x" else x.dims[o] for o in order]
        pos = {o: k for k, o in enumerate(order) if o != "x"}

        def el(*i):
            return x(*[i[pos[d]] if d in pos else ix(None, 0) for d in range(x.ndim)])

        return T(dims, el)

    def careduce(self, node, op, x):
        n = type(op.scalar_op).__name__
        axis = op.axis
        axes = tuple(range(x.ndim)) if axis is None else tuple(sorted(a % x.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))))
        dims = [d for k, d in enumerate(x.dims) if k not in axes]

        def el(*i):
            it = iter(i)
            names = {}
            idx = []
            for k in range(x.ndim):
                if k in axes:
                    names[k] = t.fresh_ix()
                    idx.append(ix(names[k]))
                else:
                    idx.append(next(it))
            e = x(*idx)
            if n == "Add":
                for k, s in names.items():
                    d = x.dims[k]
                    e = _sum(e, s, d)
                return e
            if n in ("AND", "All", "Mul", "ScalarMaximum", "Maximum", "ScalarMinimum", "Minimum", "OR"):
                if n == "AND":
                    c = self.truth(e)
                    if c is not None:
                        return t.lift(int(c))
                if all(x.dims[k] == 1 for k in names):
                    return x(*[ix(None, 0) if k in axes else q for k, q in enumerate(idx)])
                # opaque, keyed by the canonical expression
                key = t.show(t.subst_ix(e, {s: ix(f"%m{k}") for k, s in names.items()}))
                fr = sorted(t.free_ix(e) - set(names.values()))
                return t.sym(f"{n}<{key}>", *[ix(f) for f in fr])
            raise Unsupported(f"reduction {n}")

        return T(dims, el)

    def dot(self, x, y):
        if x.ndim == 0 or y.ndim == 0:
            raise Unsupported("dot of scalars")
        self.same_dim(x.dims[-1], y.dims[0] if y.ndim == 1 else y.dims[-2])
        d = x.dims[-1]
        if x.ndim > 2 or y.ndim > 2:
            raise Unsupported("batched dot")

        def el(*i):
            s = t.fresh_ix()
            xi = list(i[: x.ndim - 1]) + [ix(s)]
            yi = [ix(s)] + list(i[x.ndim - 1:])
            return _sum(x(*xi) * y(*yi), s, d)

        return T(x.dims[:-1] + y.dims[1:], el)

    # ---------------------------------------------------------------- indexing
    def scalar_int(self, e):
        return expr_dim(e)

    def subtensor(self, node, op, ins):
        x = ins[0]
        idx_vars = list(ins[1:])
        spec = []
        k = 0

        def get(v):
            if isinstance(v, (int, np.integer)):
                return t.lift(int(v))
            return None

        it = iter(idx_vars)

        def resolve(entry):
            if entry is None:
                return None
            if isinstance(entry, (int, np.integer)):
                return t.lift(int(entry))
            # a type placeholder: takes the next input
            return next(it)()

        dims, maps = [], []
        for ax, entry in enumerate(list(op.idx_list) + [slice(None)] * (x.ndim - len(op.idx_list))):
            d = dim_expr(x.dims[ax])
            if isinstance(entry, slice):
                a, b, c = resolve(entry.start), resolve(entry.stop), resolve(entry.step)
                if c is not None and c.const() == -1 and a is None and b is None:
                    dims.append(x.dims[ax])
                    last = ix_add1(dim_ix(x.dims[ax]), -1)
                    maps.append(("r", last))
                    continue
                if c is not None and c.const() != 1:
                    raise Unsupported("subtensor step")
                a = t.lift(0) if a is None else a
                b = d if b is None else b
                if a.const() is not None and a.const() < 0:
                    a = d + a
                if b.const() is not None and b.const() < 0:
                    b = d + b
                self.side.append(("slice in range", "range", (a, b, d)))
                dims.append(expr_dim(b - a))
                maps.append(("s", dim_ix(expr_dim(a))))
            else:
                a = resolve(entry)
                if a.const() is not None and a.const() < 0:
                    a = d + a
                try:
                    maps.append(("i", dim_ix(expr_dim(a))))
                except Unsupported:
                    raise Unsupported("symbolic index")
                self.side.append(("index in range", "index", (a, d)))

        if x.ndim == 1 and hasattr(x, "ravel_of") and dims == x.dims and maps == [("s", ix(None, 0))]:
            return x

        def el(*i):
            q = iter(i)
            return x(*[
                m[1] if m[0] == "i" else t.ix_sub(m[1], next(q)) if m[0] == "r" else t.ix_add(next(q), m[1])
                for m in maps
            ])

        return T(dims, el)

    def advinc(self, op, ins, node):
        x, y, *idx = ins
        if x.ndim != 2 or len(idx) != 2 or any(i is None or i.ndim != 1 for i in idx):
            raise Unsupported("advanced inc_subtensor")
        s = t.fresh_ix()
        for k, i in enumerate(idx):
            if i(s) != t.sym("#", s):
                raise Unsupported("advanced inc_subtensor indices")
            self.same_dim(i.dims[0], x.dims[k])
        y = self.broadcast(y, [idx[0].dims[0]])
        if op.set_instead_of_inc:
            return T(x.dims, lambda i, j: x(i, j) + t.delta(i, j) * (y(i) - x(i, i)))
        return T(x.dims, lambda i, j: x(i, j) + t.delta(i, j) * y(i))

    def advsub(self, ins):
        x, *idx = ins
        s = t.fresh_ix()
        if x.ndim != 2 or len(idx) != 2 or any(i is None or i.ndim != 1 or i(s) != t.sym("#", s) for i in idx):
            raise Unsupported("advanced subtensor")
        return T([x.dims[0]], lambda i: x(i, i))

    def reshape(self, node, op, ins):
        x, shp = ins
        if op.ndim == 1 and x.ndim > 1 and shp(0).const() == -1:
            # row-major flattening: an index of the result stands for a position of `x`
            for r in self.ravels.values():
                if r.ravel_of is x:
                    return r
            nm = f"flat{len(self.ravels)}"
            r = T(["|" + nm + "|"], lambda i: t.sym(nm, i))
            r.ravel_of = x
            self.ravels[nm] = r
            return r
        out = [expr_dim(shp(k)) for k in range(op.ndim)]
        src = getattr(x, "ravel_of", None)
        if src is not None and out == src.dims:
            return x.unravel() if hasattr(x, "unravel") else src
        if out == x.dims:
            return x
        if len(out) == 1 and out[0] == -1 and x.ndim == 1:
            return x
        if x.ndim == 0 and out in ([1], [-1]):
            return T([1], lambda i: x())
        if op.ndim == 0:  # only defined for one element
            return T([], lambda: x(*[ix(None, 0)] * x.ndim))
        raise Unsupported("reshape")

    # ---------------------------------------------------------------- linear algebra
    def matkey(self, x):
        self.same_dim(x.dims[0], x.dims[1])
        return (x("ROW", "COL"), x.dims[0])

    def rhs(self, b):
        if b.ndim not in (1, 2):
            raise Unsupported("rhs")
        return b

    def solve(self, A, b):
        key = self.matkey(A)
        return self._apply_mat(lambda i, s: t.mat_atom("inv", key, i, s), key[1], b)

    def _apply_mat(self, m, n, b):
        def el(i, *rest):
            s = t.fresh_ix()
            return _sum(m(i, ix(s)) * b(ix(s), *rest), s, n)

        return T([n] + b.dims[1:], el)

    def solve_triangular(self, op, A, b):
        r, c = t.fresh_ix(), t.fresh_ix()
        e = A(r, c)
        if len(e.terms) != 1:
            raise Unsupported("triangular solve of a sum")
        (m, co), = e.terms.items()
        if co != 1 or m[1] or len(m[0]) != 1 or m[0][0][0][0] != "chol" or m[0][0][1] != 1:
            raise Unsupported("triangular solve of a non-Cholesky factor")
        a = m[0][0][0]
        key = a[1]
        lower = a[2] == ix(r)  # L itself
        trans = op.trans not in (0, "N")
        if bool(op.lower) != lower or getattr(op, "unit_diagonal", False):
            raise Unsupported("triangular solve with the other triangle")
        eff_lower = lower != trans
        n = key[1]
        if eff_lower:
            return self._apply_mat(lambda i, s: t.mat_atom("cli", key, i, s), n, b)
        return self._apply_mat(lambda i, s: t.mat_atom("cli", key, s, i), n, b)

    # ---------------------------------------------------------------- randomness
    def rv(self, node, ins):
        op = node.op
        params = ins[3:]
        size = ins[1]
        name = f"{self.prefix}{len(self.draws)}"
        nd = list(op.ndims_params)
        if op.ndim_supp != 0 or any(nd):
            raise Unsupported(f"vector-parameter distribution {op}")
        bd = self.bdims(params)
        if size is not None and size.dims[0] != 0:
            dims = [expr_dim(size(k)) for k in range(size.dims[0])]
            given = True
        else:
            dims, given = bd, False
        ps = [self.broadcast(p, dims) for p in params]
        kind = op.name
        if kind in POSITIVE_KINDS:
            t.declare_positive(name)
        d = Draw(name, kind, ps, dims, node, given)
        self.draws.append(d)
        if self.standardise and kind in ("normal", "standard_normal"):
            return [None, T(dims, lambda *i: ps[0](*i) + ps[1](*i) * t.sym(name, *i))]
        return [None, T(dims, lambda *i: t.sym(name, *i))]


def ix_add1(i, k):
    return ("ix", i[1], i[2] + k)


def _sum(e, s, d):
    if d == 1:
        return t.subst_ix(e, {s: ix(None, 0)})
    if isinstance(d, int) and False:
        pass
    return t.sum_over(e, s, d)


def _pick(es, i):
    if i[1]:
        raise Unsupported("symbolic position in a shape vector")
    return es[i[2]]


def _num(v):
    if isinstance(v, (bool, np.bool_)):
        return t.lift(int(v))
    if isinstance(v, float):
        if v != v:
            return t.sym("NaN")
        if v in (float("inf"), float("-inf")):
            return t.sym("INF") * (1 if v > 0 else -1)
        f = Fraction(v)
        if f.denominator > 2**20:
            g = Fraction(v).limit_denominator(10**6)
            if float(g) == v:
                f = g
        return t.lift(f)
    return t.lift(Fraction(v))


def leaf(name, dims):
    return T(dims, lambda *i: t.sym(name, *i))
