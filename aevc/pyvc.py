"""Verification conditions for the Python source of the repository's bookkeeping functions.

The source of a function is read from the imported module on every run (`inspect`), parsed, and
executed symbolically: every path, every input, every number of iterations.  Nothing of the source
is dropped but docstrings and type annotations.  Values:

* objects are elements of an uninterpreted sort `U` (Python's `==` is equality of `U`: Aesara's
  variables compare by identity); attributes, `isinstance` and truth values are uninterpreted;
* lists/tuples, sets and insertion-ordered dicts are given by their lengths and elements,
  memberships, values and positions, as logical functions;
* a comprehension or a `for` loop is described without unrolling: its body is executed once for an
  arbitrary element; what it appends/stores becomes a definition quantified over all elements.
  Containers the loop changes are unknown (but for their keys, if no key is ever removed) when the
  body reads them.

Obligations are discharged by z3 (quantified formulas, refutation).  Whatever the executor does not
know raises `Unsupported`.
"""
import ast
import inspect
import itertools
import textwrap

import z3

from .terms import Unsupported

U = z3.DeclareSort("U")
NONE = z3.Const("None", U)
_fresh = itertools.count()


# ---------------------------------------------------------------- values
class V:
    pass


class Obj(V):
    def __init__(self, t):
        self.t = t


class B(V):
    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t


class I(V):  # noqa: E742
    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t


class Str(V):
    def __init__(self, s):
        self.s = s


class NoneV(V):
    pass


class TupleV(V):
    def __init__(self, items):
        self.items = list(items)


class Seq(V):
    """Length and elements."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class Set(V):
    def __init__(self, mem, card=None):
        self.mem, self.card = mem, card


class Map(V):
    def __init__(self, mem, get, pos, top, card=None, default=None):
        self.mem, self.get, self.pos, self.top, self.card, self.default = mem, get, pos, top, card, default


class Ref(V):
    def __init__(self, i):
        self.i = i


class Inst(V):
    """An instance whose fields the function reads and writes."""

    def __init__(self, i, cls=None):
        self.i, self.cls = i, cls


class Fun(V):
    """A Python function under inlining, or a built-in handler."""

    def __init__(self, node=None, env=None, glob=None, handler=None, name="?"):
        self.node, self.env, self.glob, self.handler, self.name = node, env, glob, handler, name


class Py(V):
    """A global Python object (module, class, function) that is known by name only."""

    def __init__(self, o, name):
        self.o, self.name = o, name


class Src(V):
    """What is iterated: bound variables, guard, element, order."""

    def __init__(self, sorts, guard, elem, order=None, card=None, root=None):
        self.root = root  # the dict or set that is enumerated
        self.sorts, self.guard, self.elem, self.order, self.card = sorts, guard, elem, order, card


def subst(v, pairs):
    """Replace constants in a value."""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, (Obj, B, I)):
        return type(v)(z3.substitute(v.t, *pairs))
    if isinstance(v, (Str, NoneV, Ref, Inst, Fun, Py)):
        return v
    if isinstance(v, TupleV):
        return TupleV([subst(x, pairs) for x in v.items])
    if isinstance(v, Seq):
        return Seq(z3.substitute(v.n, *pairs), lambda j: subst(v.at(j), pairs))
    if isinstance(v, Set):
        return Set(lambda u: z3.substitute(v.mem(u), *pairs), v.card if v.card is None else z3.substitute(v.card, *pairs))
    if isinstance(v, Map):
        return Map(lambda u: z3.substitute(v.mem(u), *pairs), lambda u: subst(v.get(u), pairs), lambda u: z3.substitute(v.pos(u), *pairs),
                   z3.substitute(v.top, *pairs), v.card if v.card is None else z3.substitute(v.card, *pairs), v.default)
    raise Unsupported(f"substitution in {type(v).__name__}")


def obj(v):
    if isinstance(v, Obj):
        return v.t
    if isinstance(v, NoneV):
        return NONE
    if isinstance(v, Str):
        return z3.Const("str:" + v.s, U)
    if isinstance(v, Py):
        return z3.Const("global:" + v.name, U)
    if isinstance(v, Inst):
        return z3.Const(f"instance:{v.i}", U)
    if isinstance(v, TupleV):
        f = z3.Function(f"tuple{len(v.items)}", *[U] * len(v.items), U) if v.items else None
        return f(*[obj(x) for x in v.items]) if f is not None else z3.Const("()", U)
    if isinstance(v, I):
        return z3.Function("int", z3.IntSort(), U)(v.t)
    if isinstance(v, B) and (z3.is_true(v.t) or z3.is_false(v.t)):
        return z3.Const(f"bool:{z3.is_true(v.t)}", U)
    raise Unsupported(f"a {type(v).__name__} as an object")


def ite(c, a, b):
    if isinstance(a, B) and isinstance(b, B):
        return B(z3.If(c, a.t, b.t))
    if isinstance(a, I) and isinstance(b, I):
        return I(z3.If(c, a.t, b.t))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(z3.If(c, a.n, b.n), lambda j: ite(c, a.at(j), b.at(j)))
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
        return TupleV([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if a is b:
        return a
    # a container as one of several values is only known by its identity
    a, b = (Obj(z3.Const(f"container:{x.i}", U)) if isinstance(x, Ref) else x for x in (a, b))
    return Obj(z3.If(c, obj(a), obj(b)))


class State:
    def __init__(self):
        self.env, self.heap, self.fields, self.pc = {}, {}, {}, []
        self.attr_version = {}
        self.effects = None  # [(ref, kind, args, pc)] while a loop body is executed
        self.recording = frozenset()  # containers that exist outside of the loop
        self.havoc = frozenset()

    def copy(self):
        s = State()
        s.env, s.heap, s.fields, s.pc = dict(self.env), dict(self.heap), dict(self.fields), list(self.pc)
        s.attr_version = dict(self.attr_version)
        s.effects = None if self.effects is None else list(self.effects)
        s.recording, s.havoc = self.recording, self.havoc
        return s


class Outcome:
    def __init__(self, kind, value, state):
        self.kind, self.value, self.state = kind, value, state


class VC:
    def __init__(self, contracts=None, inline=("aemcmc",), timeout=20000):
        self.pure = set()
        self.axioms = []
        self.about = {}
        self.scope = []
        self.contracts = dict(contracts or {})
        self.inline = inline
        self.timeout = timeout
        self.raises = []  # (condition, exception)
        self.attr_writes = []  # assignments to attributes of unknown objects
        self.cards = []  # (card, mem) of the collections whose length was asked for
        self.depth = 0
        self.calls = set()
        self.queries = 0
        self.drafts = 0  # loop bodies that are executed only to find what they change
        self.numbers = False
        self.strict = True  # is every inlined function within reach
        self.loops = {}  # {id of the AST node of a loop: its invariant}
        self.goals = []  # [(name, hypotheses, goal)]: obligations of the loops with invariants
        self.reads = None  # [(container, its unknown value, number of bound variables)] inside of a loop
        tr = self.fun("truthy", U, z3.BoolSort())
        self.assume(z3.Not(tr(NONE)))
        size = self.fun("seqlen", U, z3.IntSort())
        self.assume(self.forall([U], lambda u: size(u) >= 0))
        self.assume(size(z3.Const("()", U)) == 0)

    @property
    def second(self):
        """Is this the deciding execution of the enclosing loop bodies?"""
        return self.drafts == 0

    # ------------------------------------------------------------ logic helpers
    def fun(self, name, *sorts):
        return z3.Function(name, *sorts)

    def fresh(self, name, sort):
        name = f"{name}!{next(_fresh)}"
        if self.scope:
            return z3.Function(name, *[b.sort() for b in self.scope], sort)(*self.scope)
        return z3.Const(name, sort)

    def fresh_fun(self, name, *sorts):
        """A function of the given arguments and the bound variables of the scope."""
        f = z3.Function(f"{name}!{next(_fresh)}", *[b.sort() for b in self.scope], *sorts)
        sc = list(self.scope)
        return lambda *a: f(*sc, *a)

    def axiom(self, f, about=None):
        """A definition (of its newest symbol, or of the symbols `about`)."""
        self._flat(list(self.scope), [], f, about)

    def assume(self, f):
        """A precondition, or a fact about a callee's result."""
        self._flat(list(self.scope), [], f, ())

    def _flat(self, bound, guards, f, about):
        if z3.is_and(f):
            for x in f.children():
                self._flat(bound, guards, x, about)
        elif z3.is_implies(f):
            self._flat(bound, guards + [f.arg(0)], f.arg(1), about)
        elif z3.is_quantifier(f) and f.is_forall():
            vs = [z3.Const(f"q!{next(_fresh)}", f.var_sort(k)) for k in range(f.num_vars())]
            self._flat(bound + vs, guards, z3.substitute_vars(f.body(), *reversed(vs)), about)
        elif not z3.is_true(f):
            if guards:
                f = z3.Implies(z3.And(*guards) if len(guards) > 1 else guards[0], f)
            if bound:
                f = z3.ForAll(bound, f)
            self.axioms.append(f)
            syms = symbols(f)
            if about is None:
                about = {max(syms, key=lambda n: int(n.rsplit("!", 1)[1]))} if syms else ()
            self.about[f.get_id()] = (syms, set(about))

    def relevant(self, fs):
        """The axioms that define the symbols of the formulas (transitively), and all preconditions."""
        need = set()
        for f in fs:
            need |= symbols(f)
        left = list(self.axioms)
        for a in left:
            if not self.about.get(a.get_id(), (0, ()))[1]:
                need |= self.about.get(a.get_id(), (set(), ()))[0]
        res = []
        while True:
            rest = []
            n = len(res)
            for a in left:
                syms, about = self.about.get(a.get_id(), (set(), ()))
                if not about or about & need:
                    res.append(a)
                    need |= syms
                else:
                    rest.append(a)
            left = rest
            if len(res) == n:
                return res

    def atom(self, c):
        """A name for a condition with quantifiers, so that paths share it."""
        if not _quantified(c):
            return c
        b = self.fresh("cond", z3.BoolSort())
        self.axiom(b == c)
        return b

    def forall(self, sorts, f):
        bs = [z3.Const(f"q!{next(_fresh)}", s) for s in sorts]
        body = f(*bs)
        return z3.ForAll(bs, body)

    def exists(self, sorts, f):
        bs = [z3.Const(f"q!{next(_fresh)}", s) for s in sorts]
        return z3.Exists(bs, f(*bs))

    def truth(self, v, st=None):
        v = self.deref(v, st)
        if isinstance(v, B):
            return v.t
        if isinstance(v, I):
            return v.t != 0
        if isinstance(v, Str):
            return z3.BoolVal(bool(v.s))
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, TupleV):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, (Set, Map)):
            return self.exists([U], v.mem)
        if isinstance(v, Obj):
            return self.fun("truthy", U, z3.BoolSort())(v.t)
        if isinstance(v, (Fun, Py, Inst)):
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {type(v).__name__}")

    # ------------------------------------------------------------ containers
    def deref(self, v, st):
        if isinstance(v, Ref):
            if st is None:
                raise Unsupported("container without a state")
            if v.i in st.havoc:
                u = self.unknown_like(st.heap[v.i])
                if self.reads is not None and not any(e[0] == v.i for e in st.effects or ()):
                    self.reads.append((v.i, u, list(self.scope)))
                return u
            return st.heap[v.i]
        return v

    def unknown_like(self, v):
        """The container at an unknown iteration of a loop that changes it (keys are never removed)."""
        if isinstance(v, Seq):
            n = self.fresh("len", z3.IntSort())
            at = self.fresh_fun("at", z3.IntSort(), U)
            self.axiom(n >= v.n)
            return Seq(n, lambda j: Obj(at(j)))
        if isinstance(v, Set):
            m = self.fresh_fun("mem", U, z3.BoolSort())
            self.axiom(self.forall([U], lambda u: z3.Implies(v.mem(u), m(u))))
            return Set(m)
        if isinstance(v, Map):
            m, gt, ps = self.fresh_fun("mem", U, z3.BoolSort()), self.fresh_fun("get", U, U), self.fresh_fun("pos", U, z3.IntSort())
            self.axiom(self.forall([U], lambda u: z3.Implies(v.mem(u), m(u))))
            return Map(m, lambda u: Obj(gt(u)), ps, self.fresh("top", z3.IntSort()), None, v.default)
        raise Unsupported("unknown container")

    def new(self, st, v):
        r = Ref(next(_fresh))
        st.heap[r.i] = v
        return r

    def fresh_map(self, name, value=None, distinct=True):
        m, gt, ps = self.fresh_fun(name + ".mem", U, z3.BoolSort()), self.fresh_fun(name + ".get", U, U), self.fresh_fun(name + ".pos", U, z3.IntSort())
        about = {f(NONE).decl().name() for f in (m, gt, ps)}
        top = self.fresh(name + ".top", z3.IntSort())
        self.axiom(self.forall([U], lambda u: z3.Implies(m(u), z3.And(0 <= ps(u), ps(u) < top))), about)
        key = self.fresh_fun(name + ".key", z3.IntSort(), U)
        self.axiom(self.forall([U], lambda u: z3.Implies(m(u), key(ps(u)) == u)), about)
        self.axiom(top >= 0)
        return Map(m, value or (lambda u: Obj(gt(u))), ps, top, self.fresh(name + ".card", z3.IntSort()))

    def fresh_seq(self, name):
        n = self.fresh(name + ".len", z3.IntSort())
        at = self.fresh_fun(name + ".at", z3.IntSort(), U)
        self.axiom(n >= 0)
        return Seq(n, lambda j: Obj(at(j)))

    def source(self, v, st):
        v = self.deref(v, st)
        if isinstance(v, Src):
            return v
        if isinstance(v, Seq):
            return Src([z3.IntSort()], lambda j: z3.And(0 <= j, j < v.n), v.at, lambda j: j, v.n)
        if isinstance(v, Set):
            return Src([U], v.mem, lambda u: Obj(u), None, self.card(v), v)
        if isinstance(v, Map):
            return Src([U], v.mem, lambda u: Obj(u), v.pos, self.card(v), root(v))
        if isinstance(v, Obj):
            n, at = self.fun("seqlen", U, z3.IntSort()), self.fun("seqat", U, z3.IntSort(), U)
            t = v.t
            return Src([z3.IntSort()], lambda j: z3.And(0 <= j, j < n(t)), lambda j: Obj(at(t, j)), lambda j: j, n(t))
        if isinstance(v, TupleV):
            its = v.items

            def el(j):
                r = its[-1]
                for k in range(len(its) - 2, -1, -1):
                    r = ite(j == k, its[k], r)
                return r

            if not its:
                return Src([z3.IntSort()], lambda j: z3.BoolVal(False), lambda j: NoneV(), lambda j: j, z3.IntVal(0))
            return Src([z3.IntSort()], lambda j: z3.And(0 <= j, j < len(its)), el, lambda j: j, z3.IntVal(len(its)))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def card(self, v):
        if v.card is None:
            v.card = self.fresh("card", z3.IntSort())
        return v.card

    def length(self, v):
        """len() of a set or dict: what is known about the sizes of finite sets is added on demand."""
        c = self.card(v)
        if not any(c is x for x, _ in self.cards) and not self.scope:
            self.axioms.append(c >= 0)
            self.axioms.append((c == 0) == z3.Not(self.exists([U], v.mem)))
            for d, mem in self.cards:
                le = self.forall([U], lambda u: z3.Implies(v.mem(u), mem(u)))
                ge = self.forall([U], lambda u: z3.Implies(mem(u), v.mem(u)))
                self.axioms.append(z3.Implies(le, c <= d))
                self.axioms.append(z3.Implies(ge, c >= d))
                self.axioms.append(z3.Implies(z3.And(le, c == d), ge))
                self.axioms.append(z3.Implies(z3.And(ge, c == d), le))
            self.cards.append((c, v.mem))
            if getattr(v, "size", None):
                v.size()
        return c

    def member(self, x, v, st):
        v = self.deref(v, st)
        if isinstance(v, (Set, Map)):
            return v.mem(obj(x))
        s = self.source(v, st)
        return self.exists(s.sorts, lambda *b: z3.And(s.guard(*b), self.equal(s.elem(*b), x, st)))

    def equal(self, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return z3.And(a.n == b.n, self.forall([z3.IntSort()], lambda j: z3.Implies(z3.And(0 <= j, j < a.n), self.equal(a.at(j), b.at(j), st))))
        if isinstance(a, I) and isinstance(b, I) or isinstance(a, B) and isinstance(b, B):
            return a.t == b.t
        if isinstance(a, Str) and isinstance(b, Str):
            return z3.BoolVal(a.s == b.s)
        if isinstance(a, (Set, Map)) and isinstance(b, (Set, Map)):
            return self.forall([U], lambda u: a.mem(u) == b.mem(u))
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.equal(x, y, st) for x, y in zip(a.items, b.items)])
        return obj(a) == obj(b)

    # comprehension results.  `P`, `K`, `E` are functions of the bound variables of the source.
    def filtered(self, src, P, E):
        """The sequence of E(b) for the elements b of the source with P(b)."""
        if len(src.sorts) == 1 and src.sorts[0] == z3.IntSort() and isinstance(P, bool) and src.card is not None:
            return Seq(src.card, E)
        p = (lambda *b: z3.BoolVal(True)) if isinstance(P, bool) else P
        whole = isinstance(P, bool) and src.root is not None
        if whole and getattr(src.root, "enum", None):
            n, w = src.root.enum
            return Seq(n, lambda j: E(*w(j)))
        n = self.fresh("len", z3.IntSort())
        ws = [self.fresh_fun("nth", z3.IntSort(), s) for s in src.sorts]
        idx = self.fresh_fun("idx", *src.sorts, z3.IntSort())
        w = lambda j: [f(j) for f in ws]  # noqa: E731
        self.axiom(n >= 0)
        self.axiom(self.forall([z3.IntSort()], lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(src.guard(*w(j)), p(*w(j)), idx(*w(j)) == j))))
        self.axiom(self.forall(src.sorts, lambda *b: z3.Implies(z3.And(src.guard(*b), p(*b)), z3.And(0 <= idx(*b), idx(*b) < n, *[x == y for x, y in zip(w(idx(*b)), b)]))))
        if src.order is not None:
            self.axiom(self.forall([z3.IntSort()] * 2, lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < n), src.order(*w(j)) < src.order(*w(k)))))
        if src.card is not None and len(src.sorts) == 1:
            self.axiom(n == src.card if isinstance(P, bool) else n <= src.card)
        if whole and not self.scope:
            src.root.enum = (n, w)
        q = Seq(n, lambda j: E(*w(j)))
        if src.sorts == [z3.IntSort()]:
            q.origin = ws[0]  # positions in the source
        return q

    def hits(self, src, P, K):
        """(hit(k), last(k)): is k some K(b) with P(b), and a witness (the last one, if there is an order)."""
        p = (lambda *b: z3.BoolVal(True)) if isinstance(P, bool) else P
        ws = [self.fresh_fun("last", U, s) for s in src.sorts]
        w = lambda k: [f(k) for f in ws]  # noqa: E731
        hit = lambda k: z3.And(src.guard(*w(k)), p(*w(k)), K(*w(k)) == k)  # noqa: E731
        later = (lambda b: [src.order(*b) <= src.order(*w(K(*b)))]) if src.order is not None else (lambda b: [])
        self.axiom(self.forall(src.sorts, lambda *b: z3.Implies(z3.And(src.guard(*b), p(*b)), z3.And(hit(K(*b)), *later(b)))))
        return hit, w

    def mapped(self, src, P, K, E, base=None, reinsert=False):
        """The dict with E(b) at K(b) for the elements b with P(b), on top of `base`."""
        if base is None and isinstance(P, bool) and src.sorts == [U] and src.order is not None:
            b = z3.Const(f"q!{next(_fresh)}", U)
            if K(b).eq(b):
                # the same keys in the same order
                m = Map(src.guard, E, src.order, self.fresh("top", z3.IntSort()), src.card)
                m.same_order = src.root
                self.axiom(self.forall([U], lambda u: z3.Implies(m.mem(u), m.pos(u) < m.top)))
                return m
        hit, w = self.hits(src, P, K)
        p = (lambda *b: z3.BoolVal(True)) if isinstance(P, bool) else P
        if src.order is not None:
            if reinsert:
                order = lambda k: src.order(*w(k))  # noqa: E731
            else:
                fs = [self.fresh_fun("first", U, s) for s in src.sorts]
                f = lambda k: [x(k) for x in fs]  # noqa: E731
                self.axiom(self.forall([U], lambda k: z3.Implies(hit(k), z3.And(src.guard(*f(k)), p(*f(k)), K(*f(k)) == k))))
                self.axiom(self.forall(src.sorts, lambda *b: z3.Implies(z3.And(src.guard(*b), p(*b)), src.order(*f(K(*b))) <= src.order(*b))))
                order = lambda k: src.order(*f(k))  # noqa: E731
        else:
            order = self.fresh_fun("order", U, z3.IntSort())
        if base is None:
            card = None
            if isinstance(P, bool) and src.card is not None:
                card = self.fresh("card", z3.IntSort())
                inj = self.forall(src.sorts * 2, lambda *b: z3.Implies(
                    z3.And(src.guard(*b[: len(b) // 2]), src.guard(*b[len(b) // 2:]), K(*b[: len(b) // 2]) == K(*b[len(b) // 2:])),
                    z3.And(*[x == y for x, y in zip(b[: len(b) // 2], b[len(b) // 2:])])))

                def size(card=card):
                    # lemma: the image of a finite set is as large as the set iff the map is injective on it
                    self.axiom(z3.And(card >= 0, card <= src.card))
                    self.axiom((card == src.card) == inj)

            top = self.fresh("top", z3.IntSort())
            m = Map(hit, lambda k: E(*w(k)), order, top, card)
            m.size = size if card is not None else None
            return m
        mem = lambda k: z3.Or(hit(k), base.mem(k))  # noqa: E731
        # ordinals after the base's: the source's order is shifted
        off = base.top
        if reinsert:
            pos = lambda k: z3.If(hit(k), off + order(k), base.pos(k))  # noqa: E731
        else:
            pos = lambda k: z3.If(base.mem(k), base.pos(k), off + order(k))  # noqa: E731
        top = self.fresh("top", z3.IntSort())
        self.axiom(top >= off)
        if src.order is not None:
            self.axiom(self.forall(src.sorts, lambda *b: z3.Implies(src.guard(*b), src.order(*b) >= 0)) if src.sorts == [U] else z3.BoolVal(True))
        self.axiom(self.forall([U], lambda k: z3.Implies(mem(k), pos(k) < top)))
        return Map(mem, lambda k: ite(hit(k), E(*w(k)), base.get(k)), pos, top, None, base.default)

    def multimapped(self, src, P, K, E):
        """The dict of lists with E(b) appended to the list at K(b)."""
        p = (lambda *b: z3.BoolVal(True)) if isinstance(P, bool) else P
        m = self.mapped(src, P, K, lambda *b: NoneV())
        n = self.fresh_fun("len", U, z3.IntSort())
        ws = [self.fresh_fun("nth", U, z3.IntSort(), s) for s in src.sorts]
        idx = self.fresh_fun("idx", *src.sorts, z3.IntSort())
        w = lambda k, j: [f(k, j) for f in ws]  # noqa: E731
        INT = z3.IntSort()
        self.axiom(self.forall([U], lambda k: n(k) >= 0))
        self.axiom(self.forall([U, INT], lambda k, j: z3.Implies(z3.And(0 <= j, j < n(k)), z3.And(src.guard(*w(k, j)), p(*w(k, j)), K(*w(k, j)) == k, idx(*w(k, j)) == j))))
        self.axiom(self.forall(src.sorts, lambda *b: z3.Implies(z3.And(src.guard(*b), p(*b)), z3.And(
            0 <= idx(*b), idx(*b) < n(K(*b)), *[x == y for x, y in zip(w(K(*b), idx(*b)), b)]))))
        if src.order is not None:
            self.axiom(self.forall([U, INT, INT], lambda k, i, j: z3.Implies(z3.And(0 <= i, i < j, j < n(k)), src.order(*w(k, i)) < src.order(*w(k, j)))))
        return Map(m.mem, lambda k: Seq(n(k), lambda j: E(*w(k, j))), m.pos, m.top, None)

    # ------------------------------------------------------------ functions
    def function(self, f):
        f = inspect.unwrap(f)
        src = textwrap.dedent(inspect.getsource(f))
        node = ast.parse(src).body[0]
        return Fun(node, {}, f.__globals__, name=f.__qualname__)

    def run(self, fun, args, kwargs=None, st=None):
        """All outcomes of calling the function with the given values."""
        st = st or State()
        outs = self.call_fun(fun, args, kwargs or {}, st)
        return outs

    def call_fun(self, fun, args, kwargs, st):
        a = fun.node.args
        st = st.copy()
        saved = st.env
        env = dict(fun.env or {})
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for nm in names:
            if args:
                env[nm] = args.pop(0)
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
        for nm, d in zip(names[::-1], a.defaults[::-1]):
            if nm not in env:
                env[nm] = self.eval(d, st, fun.glob)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.eval(d, st, fun.glob)
        if a.vararg is not None:
            env[a.vararg.arg] = args[0].v if len(args) == 1 and isinstance(args[0], Star) else TupleV(args)
            args = []
        if args or kwargs or any(nm not in env for nm in names):
            raise Unsupported(f"arguments of {fun.name}")
        st.env = env
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("recursion")
        try:
            if isinstance(fun.node, ast.Lambda):
                outs = [Outcome("return", self.eval(fun.node.body, st, fun.glob), st)]
            else:
                outs = self.block(fun.node.body, st, fun.glob)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            if o.kind == "fall":
                o = Outcome("return", NoneV(), o.state)
            o.state.env = dict(saved)
            res.append(o)
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, glob):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for cur in live:
                for o in self.stmt(s, cur, glob):
                    (nxt if o.kind == "fall" else done).append(o)
            live = [o.state for o in nxt]
            if len(live) + len(done) > 200:
                raise Unsupported("too many paths")
            if not live:
                break
        return done + [Outcome("fall", None, x) for x in live]

    def stmt(self, s, st, glob):
        fall = lambda x: [Outcome("fall", None, x)]  # noqa: E731
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return fall(st)
            return self.expr_stmt(s.value, st, glob, lambda v, x: None)
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return fall(st)
        if isinstance(s, ast.Assign):
            def put(v, x):
                for t in s.targets:
                    self.assign(t, v, x, glob)
            return self.expr_stmt(s.value, st, glob, put)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return fall(st)
            return self.expr_stmt(s.value, st, glob, lambda v, x: self.assign(s.target, v, x, glob))
        if isinstance(s, ast.AugAssign):
            cur = self.eval(_load(s.target), st, glob)
            v = self.eval(s.value, st, glob)
            if isinstance(cur, Ref):
                if isinstance(s.op, ast.BitOr):
                    self.method(cur, "update", [v], {}, st)
                    return fall(st)
                if isinstance(s.op, ast.Add):
                    self.method(cur, "extend", [v], {}, st)
                    return fall(st)
            self.assign(s.target, self.binop(s.op, cur, v, st), st, glob)
            return fall(st)
        if isinstance(s, ast.Return):
            if s.value is None:
                return [Outcome("return", NoneV(), st)]
            res = []
            for v, x in self.eval_paths(s.value, st, glob):
                res.append(v if isinstance(v, Outcome) else Outcome("return", v, x))
            return res
        if isinstance(s, ast.Raise):
            nm = "Exception"
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                nm = e.id
            return [Outcome("raise", nm, st)]
        if isinstance(s, ast.Assert):
            c = self.truth(self.eval(s.test, st, glob), st)
            self.side_raise(z3.Not(c), "AssertionError", st)
            return fall(st)
        if isinstance(s, ast.If):
            c = self.atom(z3.simplify(self.truth(self.eval(s.test, st, glob), st)))
            res = []
            if not z3.is_false(c):
                x = st.copy()
                x.pc.append(c)
                res += self.block(s.body, x, glob)
            if not z3.is_true(c):
                x = st.copy()
                x.pc.append(z3.Not(c))
                res += self.block(s.orelse, x, glob)
            return res
        if isinstance(s, ast.Continue):
            return [Outcome("continue", None, st)]
        if isinstance(s, ast.For):
            if id(s) in self.loops:
                return self.inv_loop(s, st, glob)
            return self.for_loop(s, st, glob)
        if isinstance(s, ast.While):
            return self.inv_loop(s, st, glob)
        if isinstance(s, ast.Try):
            return self.try_(s, st, glob)
        if isinstance(s, ast.Break):
            return [Outcome("break", None, st)]
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = Fun(s, st.env, glob, name=s.name)
            return fall(st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Subscript):
                    raise Unsupported("del")
                d, k = self.eval(t.value, st, glob), self.eval(t.slice, st, glob)
                m = self.deref(d, st)
                if not (isinstance(d, Ref) and isinstance(m, Map)):
                    raise Unsupported("del of an item of something else")
                ku = obj(k)
                self.side_raise(z3.Not(m.mem(ku)), "KeyError", st)
                if d.i in st.recording:
                    st.effects.append((d.i, "del", (ku,), list(st.pc)))
                else:
                    st.heap[d.i] = Map(lambda u: z3.And(m.mem(u), u != ku), m.get, m.pos, m.top, None, m.default)
            return fall(st)
        raise Unsupported(f"statement {type(s).__name__}")

    def try_(self, s, st, glob):
        """The handlers are reached from the raising paths, and from the state before if something opaque is called."""
        if s.finalbody or s.orelse or self.scope:
            raise Unsupported("try with else or finally")
        heap, fields = dict(st.heap), dict(st.fields)
        n = len(self.raises)
        outs = self.block(s.body, st.copy(), glob)
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        res, caught = [], []

        def catches(exc):
            for h in s.handlers:
                if h.type is None or any(isinstance(x, ast.Name) and x.id in (exc, "Exception") for x in ast.walk(h.type)):
                    return True
            return False

        for o in outs:
            if o.kind == "raise" and catches(o.value):
                caught.append(o.state)
            else:
                res.append(o)
        # exceptions of expressions and of callees without a contract
        for o in outs:
            if any(o.state.heap.get(r) is not v for r, v in heap.items()) or o.state.fields != fields:
                raise Unsupported("try with effects")
        self.raises[n:] = [(c, e) for c, e in self.raises[n:] if not catches(e)]
        before = st.copy()
        for x in names:
            before.env.pop(x, None)
        caught = [before]  # the raising paths of the body start here as well
        for h in s.handlers:
            for x in caught:
                res += self.block(h.body, x.copy(), glob)
        return res

    def inlined(self, f, args, kw, st):
        """Outcomes of the inlined call; None if it is out of reach but only given objects (an unknown result)."""
        saved = list(self.axioms), list(self.raises), list(self.cards), list(self.goals), self.scope, getattr(self, "scope_raises", None)
        n = list(self.scope_raises) if saved[-1] is not None else None
        depth, drafts = self.depth, self.drafts
        try:
            return self.call_fun(f, args, dict(kw), st)
        except Unsupported:
            if self.strict or not all(isinstance(a, (Obj, I, B, Str, NoneV, Py)) for a in [*args, *kw.values()]):
                raise
            self.axioms, self.raises, self.cards, self.goals, self.scope, self.scope_raises = saved
            if n is not None:
                self.scope_raises[:] = n
            self.depth, self.drafts = depth, drafts
            return None

    def expr_stmt(self, e, st, glob, k):
        res = []
        for v, x in self.eval_paths(e, st, glob):
            if isinstance(v, Outcome):
                res.append(v)
                continue
            k(v, x)
            res.append(Outcome("fall", None, x))
        return res

    def eval_paths(self, e, st, glob):
        """[(value or raising Outcome, state)]: calls of inlined functions may have several outcomes."""
        if isinstance(e, ast.Call):
            f = self.callee(e, st, glob)
            if isinstance(f, Fun) and f.node is not None:
                args, kw = self.arguments(e, st, glob)
                res = []
                outs = self.inlined(f, args, kw, st)
                if outs is None:
                    return [(self.opaque(f.name, args, kw, st), st)]
                for o in outs:
                    if o.kind == "raise":
                        res.append((o, o.state))
                    else:
                        res.append((o.value, o.state))
                return res
        return [(self.eval(e, st, glob), st)]

    def side_raise(self, cond, exc, st):
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return
        cond = self.atom(cond)
        c = z3.And(*st.pc, cond)
        if self.scope:
            self.scope_raises.append((c, exc))
        else:
            self.raises.append((c, exc))
        st.pc.append(z3.Not(cond))

    def assign(self, t, v, st, glob):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            d = self.deref(v, st)
            if isinstance(d, Src) and getattr(d, "star", None):
                d = d.star
            if isinstance(d, TupleV):
                if len(d.items) != len(t.elts):
                    raise Unsupported("unpacking")
                for x, y in zip(t.elts, d.items):
                    self.assign(x, y, st, glob)
            elif isinstance(d, (Obj, Seq)):
                for k, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        if k != len(t.elts) - 1:
                            raise Unsupported("unpacking")
                        self.assign(x.value, Obj(self.fresh("rest", U)), st, glob)
                        continue
                    self.assign(x, self.item(d, k, st), st, glob)
            else:
                raise Unsupported(f"unpacking of {type(d).__name__}")
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, glob)
            if isinstance(o, Inst):
                st.fields[(o.i, t.attr)] = v
            elif isinstance(o, Obj):
                # the attribute of one object changes: later reads see another function
                st.attr_version[t.attr] = f"@{next(_fresh)}"
                self.attr_writes.append(f"{ast.unparse(t)} (line {getattr(t, 'lineno', '?')})")
            else:
                raise Unsupported("attribute assignment")
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value, st, glob), self.eval(t.slice, st, glob)
            self.setitem(o, k, v, st)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, k, v, st):
        m = self.deref(o, st)
        if not (isinstance(o, Ref) and isinstance(m, Map)):
            raise Unsupported("item assignment")
        ku = obj(k)
        v = self.deref(v, st) if isinstance(v, Ref) else v
        if o.i in st.recording:
            st.effects.append((o.i, "set", (ku, v), list(st.pc)))
            return
        top = self.fresh("top", z3.IntSort())
        self.axiom(top == z3.If(m.mem(ku), m.top, m.top + 1))
        st.heap[o.i] = Map(lambda u: z3.Or(u == ku, m.mem(u)), lambda u: ite(u == ku, v, m.get(u)),
                           lambda u: z3.If(m.mem(u), m.pos(u), m.top), top, None, m.default)

    def item(self, d, k, st):
        if isinstance(d, TupleV):
            return d.items[k]
        if isinstance(d, Seq):
            n = z3.IntVal(k) if k >= 0 else d.n + k
            self.side_raise(z3.Not(z3.And(0 <= n, n < d.n)), "IndexError", st)
            return d.at(n)
        return Obj(self.seqat(d.t, k))

    def seqat(self, t, k):
        """Element of an object that is known to be a sequence."""
        n, at = self.fun("seqlen", U, z3.IntSort()), self.fun("seqat", U, z3.IntSort(), U)
        if isinstance(k, int):
            return at(t, z3.IntVal(k)) if k >= 0 else at(t, n(t) + k)
        return at(t, z3.If(k >= 0, k, k + n(t)))

    # ------------------------------------------------------------ loops
    def for_loop(self, s, st, glob):
        if s.orelse:
            raise Unsupported("for-else")
        it = self.eval(s.iter, st, glob)
        d = self.deref(it, st) if not isinstance(it, Src) else it
        if isinstance(d, TupleV):
            live, done = [st], []
            for x in d.items:
                nxt = []
                for cur in live:
                    self.assign(s.target, x, cur, glob)
                    for o in self.block(s.body, cur, glob):
                        if o.kind in ("fall", "continue"):
                            nxt.append(o.state)
                        else:
                            done.append(o)
                live = nxt
            return done + [Outcome("fall", None, x) for x in live]
        src = self.source(it, st)
        bs = [z3.Const(f"it!{next(_fresh)}", x) for x in src.sorts]
        assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        assigned |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        carried = [n for n in assigned if n in st.env]
        outer = frozenset(st.heap)

        def body(havoc):
            b = st.copy()
            b.pc = []
            b.recording = outer
            b.havoc = st.havoc | havoc
            b.effects = []
            for n in carried:
                b.env[n] = Obj(self.fresh("carried", U))
            saved = self.scope, getattr(self, "scope_raises", None)
            self.scope = self.scope + bs
            self.scope_raises = []
            try:
                b.pc.append(src.guard(*bs))
                for n in carried:
                    b.env[n] = Obj(self.fresh("carried", U))
                self.assign(s.target, src.elem(*bs), b, glob)
                outs = self.block(s.body, b, glob)
                rs = self.scope_raises
            finally:
                self.scope, self.scope_raises = saved
            return outs, rs

        n_axioms = len(self.axioms)
        self.drafts += 1
        try:
            outs, _ = body(frozenset())
        finally:
            self.drafts -= 1
        changed = frozenset(e[0] for o in outs for e in o.state.effects or [])
        # a second execution in which the containers the loop changes are unknown
        saved_reads, self.reads = self.reads, []
        del self.axioms[n_axioms:]
        try:
            outs, rs = body(changed)
            reads = self.reads
        finally:
            self.reads = saved_reads
        if saved_reads is not None:
            saved_reads += [x for x in reads if x[0] not in changed]
            reads = [x for x in reads if x[0] in changed]
        if frozenset(e[0] for o in outs for e in o.state.effects or []) - changed:
            raise Unsupported("a loop changes another container depending on its state")
        res = []
        st = st.copy()
        ok = []
        for o in outs:
            if o.kind in ("raise", "return"):
                c = z3.And(*o.state.pc)
                if o.kind == "return":
                    raise Unsupported("return inside a loop")
                x = st.copy()
                x.pc.append(z3.Exists(bs, c))
                res.append(Outcome("raise", o.value, x))
                ok.append(self.atom(z3.ForAll(bs, z3.Not(c))))
        for c, exc in rs:
            (self.scope_raises if self.scope else self.raises).append((z3.And(*st.pc, z3.Exists(bs, c)), exc))
            ok.append(self.atom(z3.ForAll(bs, z3.Not(c))))
        outs = [o for o in outs if o.kind in ("fall", "continue")]
        for o in outs:
            self.name_effects(o, src, bs)
        for o in outs:
            for a, ver in o.state.attr_version.items():
                if st.attr_version.get(a) != ver:
                    st.attr_version[a] = f"@{next(_fresh)}"
        st.pc += ok
        if src.order is not None:
            self.before_iteration(st, src, bs, outs, reads)
        for r in sorted(changed):
            if r in st.recording:
                # the enclosing loop takes the container as unknown
                if any("del" == k for o in outs for rr, k, _, _ in o.state.effects or () if rr == r):
                    raise Unsupported("nested loops that remove keys")
                st.effects.append((r, "update", (), list(st.pc)))
                continue
            st.heap[r] = self.after_loop(st, r, src, bs, outs)
        for n in carried:
            st.env[n] = Obj(self.fresh("carried", U))
        for n in assigned - set(carried):
            st.env.pop(n, None)
        return res + [Outcome("fall", None, st)]

    def inv_loop(self, s, st, glob):
        """A loop with a contract: its invariant is established, preserved, and all that is known afterwards."""
        if id(s) not in self.loops or s.orelse or self.scope:
            raise Unsupported("a loop without an invariant")
        inv = self.loops[id(s)]
        name = f"{'while' if isinstance(s, ast.While) else 'for'} loop"
        src = None
        if isinstance(s, ast.For):
            src = self.source(self.eval(s.iter, st, glob), st)
            if src.sorts != [z3.IntSort()] or src.card is None:
                raise Unsupported("an invariant for a loop over something without an order")
        assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if src is not None:
            assigned |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        outer = set(st.heap)
        fields = dict(st.fields)
        names = set(st.env)

        def arbitrary(changed):
            x = st.copy()
            for r in changed:
                v = st.heap[r]
                if isinstance(v, Seq):
                    x.heap[r] = self.fresh_seq("loop")
                elif isinstance(v, Set):
                    x.heap[r] = Set(self.fresh_fun("loop.mem", U, z3.BoolSort()))
                elif isinstance(v, Map):
                    x.heap[r] = self.fresh_map("loop")
                else:
                    raise Unsupported("a loop changes an unknown container")
            for n in assigned:
                if n in x.env:
                    if isinstance(x.env[n], Ref) or not isinstance(x.env[n], Obj):
                        raise Unsupported("a loop assigns a container")
                    x.env[n] = Obj(self.fresh("loop", U))
            return x

        def one(x, j):
            """Outcomes of the test and the body from a state of the invariant, and the state of the exit."""
            end = x.copy()
            x = x.copy()
            if src is None:
                c = self.atom(z3.simplify(self.truth(self.eval(s.test, x, glob), x)))
                x.pc.append(c)
                end.pc.append(z3.Not(c))
            else:
                x.pc.append(z3.And(0 <= j, j < src.card))
                self.assign(s.target, src.elem(j), x, glob)
            return self.block(s.body, x, glob), end

        changed = set()
        saved_goals, saved_raises = list(self.goals), list(self.raises)
        j = self.fresh("index", z3.IntSort()) if src is not None else None
        for _ in range(8):
            self.goals, self.raises = list(saved_goals), list(saved_raises)
            x = arbitrary(changed)
            first = inv(Loop(self, st, glob, src, z3.IntVal(0)))
            hyps = inv(Loop(self, x, glob, src, j))
            x.pc += hyps
            outs, end = one(x, j)
            new = {r for o in outs for r in outer if o.state.heap.get(r) is not x.heap.get(r)}
            if any(o.state.fields != fields for o in outs):
                raise Unsupported("a loop assigns fields")
            if new <= changed:
                break
            changed |= new
        else:
            raise Unsupported("the changes of a loop")
        for k, g in enumerate(first):
            self.goals.append((f"{name}: invariant {k + 1} holds at first", list(st.pc), g))
        res = []
        for o in outs:
            if o.kind in ("fall", "continue"):
                pc = list(o.state.pc)
                for k, g in enumerate(inv(Loop(self, o.state, glob, src, None if j is None else j + 1, names))):
                    self.goals.append((f"{name}: invariant {k + 1} is preserved", pc, g))
            elif o.kind == "break":
                raise Unsupported("break")
            else:
                res.append(o)
        if src is not None:
            end = arbitrary(changed)
            end.pc += inv(Loop(self, end, glob, src, src.card))
        return res + [Outcome("fall", None, end)]

    def name_effects(self, o, src, bs):
        """Definitions for the condition and the stored values of a path through the body."""
        if len(o.state.pc) == 1:
            return
        q = self.fresh_fun("path", *src.sorts, z3.BoolSort())
        self.axiom(z3.ForAll(bs, q(*bs) == z3.And(*o.state.pc)))
        o.state.pc = [q(*bs), z3.BoolVal(True)]

        def named(v):
            if isinstance(v, Obj) and v.t.num_args() > 0 and _size(v.t) > 6:
                e = self.fresh_fun("val", *src.sorts, U)
                self.axiom(z3.ForAll(bs, e(*bs) == v.t))
                return Obj(e(*bs))
            return v

        o.state.effects = [(r, k, tuple(named(x) if isinstance(x, V) else x for x in a), pc) for r, k, a, pc in o.state.effects or []]

    def before_iteration(self, st, src, bs, outs, reads):
        """What the body read is the effect of the earlier iterations (induction over the iterations)."""
        for r, u, scope in reads:
            if len(scope) < len(self.scope) + len(bs):
                continue
            inner = scope[len(self.scope) + len(bs):]
            b2 = [z3.Const(f"at!{next(_fresh)}", b.sort()) for b in bs]
            earlier = Src(src.sorts, lambda *b: z3.And(src.guard(*b), src.order(*b) < src.order(*b2)), src.elem, src.order, None)
            saved = self.scope
            n0 = len(self.axioms)
            self.scope = self.scope + b2
            try:
                m = self.after_loop(st, r, earlier, bs, outs, exact=False)
                v = subst(u, list(zip(bs, b2)))
                INT = z3.IntSort()
                if isinstance(m, Map):
                    f = z3.And(self.forall([U], lambda k: v.mem(k) == m.mem(k)),
                               self.forall([U], lambda k: z3.Implies(m.mem(k), z3.And(obj(v.get(k)) == obj(m.get(k)), v.pos(k) == m.pos(k)))))
                elif isinstance(m, Seq):
                    f = z3.And(v.n == m.n, self.forall([INT], lambda j: z3.Implies(z3.And(0 <= j, j < m.n), obj(v.at(j)) == obj(m.at(j)))))
                else:
                    f = self.forall([U], lambda k: v.mem(k) == m.mem(k))
                self.axiom(z3.ForAll(inner, z3.Implies(src.guard(*b2), f)) if inner else z3.Implies(src.guard(*b2), f), symbols_of(u))
            except Unsupported:
                del self.axioms[n0:]
            finally:
                self.scope = saved

    def after_loop(self, st, r, src, bs, outs, exact=True):
        old = st.heap[r]
        per = []  # (condition, [effects]) of one iteration
        for o in outs:
            es = [(k, a) for rr, k, a, _ in o.state.effects if rr == r]
            per.append((z3.And(*o.state.pc), es))
        kinds = {k for _, es in per for k, _ in es}

        def close(v):
            return lambda *b: subst(v, list(zip(bs, b)))

        def merged(kind, arg):
            """(condition, argument) over the paths with an effect of this kind."""
            conds, val = [], None
            for c, es in per:
                xs = [a for k, a in es if k == kind]
                if not xs:
                    continue
                if len(xs) > 1:
                    raise Unsupported("several changes of a container in one iteration")
                conds.append(c)
                x = xs[0][arg] if len(xs[0]) > arg else NoneV()
                x = Obj(x) if isinstance(x, z3.ExprRef) else x
                val = x if val is None else ite(c, x, val)
            return z3.Or(*conds), val

        if kinds <= {"append"}:
            c, v = merged("append", 0)
            every = exact and len(outs) == 1 and len(per[0][1]) == 1 and len(outs[0].state.pc) == 1
            new = self.filtered(src, True if every else close(c), close(v))
            if isinstance(old, Seq):
                return self.concat(old, new)
            raise Unsupported("append")
        if kinds <= {"add"} and isinstance(old, Set):
            c, v = merged("add", 0)
            K = close(obj(v))
            hit, _ = self.hits(src, close(c), K)
            return Set(lambda u: z3.Or(hit(u), old.mem(u)))
        if isinstance(old, Map) and kinds <= {"set", "del"}:
            # a deleted key is stored again in the same iteration
            for c, es in per:
                dels = [a[0] for k, a in es if k == "del"]
                if dels:
                    if [k for k, _ in es] != ["del", "set"] or not dels[0].eq(es[1][1][0]):
                        raise Unsupported("a loop that removes keys")
            c, kv = merged("set", 0)
            _, v = merged("set", 1)
            re = "del" in kinds
            if re and not all([k for k, _ in es] in ([], ["del", "set"]) for _, es in per):
                raise Unsupported("moved and stored keys in one loop")
            every = exact and len(outs) == 1 and len(outs[0].state.pc) == 1 and kinds
            return self.mapped(src, True if every else close(c), close(obj(kv)), close(v), None if self.is_empty(old) else old, re)
        if isinstance(old, Map) and kinds <= {"append-at"}:
            c, kv = merged("append-at", 0)
            _, v = merged("append-at", 1)
            every = exact and len(outs) == 1 and len(outs[0].state.pc) == 1
            m = self.multimapped(src, True if every else close(c), close(obj(kv)), close(v))
            m.default = old.default
            if self.is_empty(old):
                return m

            def longer(k):
                a, b = old.get(k), m.get(k)
                if not isinstance(a, Seq):
                    raise Unsupported("a dict whose values are not known as lists")
                n = z3.If(old.mem(k), a.n, 0)
                return Seq(n + z3.If(m.mem(k), b.n, 0), lambda j: ite(j < n, a.at(j), b.at(j - n)))

            top = self.fresh("top", z3.IntSort())
            return Map(lambda k: z3.Or(old.mem(k), m.mem(k)), longer, lambda k: z3.If(old.mem(k), old.pos(k), old.top + m.pos(k)), top, None, old.default)
        if isinstance(old, Map) and kinds <= {"update"}:
            return self.unknown_like(old)
        raise Unsupported(f"a loop with the changes {sorted(kinds)} of a {type(old).__name__}")

    def is_empty(self, m):
        return getattr(m, "empty", False)

    def concat(self, a, b):
        if z3.is_int_value(z3.simplify(a.n)) and z3.simplify(a.n).as_long() == 0:
            return b
        return Seq(a.n + b.n, lambda j: ite(j < a.n, a.at(j), b.at(j - a.n)))

    # ------------------------------------------------------------ expressions
    def empty_map(self):
        m = Map(lambda u: z3.BoolVal(False), lambda u: Obj(NONE), lambda u: z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        m.empty = True
        return m

    def lookup(self, name, st, glob):
        if name in st.env:
            return st.env[name]
        if name in self.contracts:
            return Fun(handler=self.contracts[name], name=name)
        if name in glob:
            o = glob[name]
            return self.wrap(o, name)
        import builtins

        if hasattr(builtins, name):
            return Py(getattr(builtins, name), name)
        raise Unsupported(f"name {name}")

    def wrap(self, o, name):
        if isinstance(o, bool):
            return B(o)
        if isinstance(o, int):
            return I(o)
        if isinstance(o, str):
            return Str(o)
        if o is None:
            return NoneV()
        if inspect.isfunction(o) and (o.__module__ or "").split(".")[0] in self.inline:
            return self.function(o)
        return Py(o, name)

    def callee(self, e, st, glob):
        if isinstance(e.func, ast.Name):
            if e.func.id in self.contracts and e.func.id not in st.env:
                return Fun(handler=self.contracts[e.func.id], name=e.func.id)
            return self.lookup(e.func.id, st, glob)
        if isinstance(e.func, ast.Attribute):
            path = dotted(e.func)
            for p in (path, path.split(".", 1)[-1] if path else None, e.func.attr):
                if p and p in self.contracts:
                    return Fun(handler=self.contracts[p], name=p)
            if isinstance(e.func.value, ast.Name) and e.func.value.id not in st.env and e.func.value.id in glob:
                m = glob[e.func.value.id]
                if inspect.ismodule(m) and hasattr(m, e.func.attr):
                    return self.wrap(getattr(m, e.func.attr), e.func.attr)
            if isinstance(e.func.value, ast.Name) and e.func.value.id in st.env:
                o = st.env[e.func.value.id]
                if isinstance(o, Inst) and o.cls is not None and inspect.isfunction(getattr(o.cls, e.func.attr, None)):
                    f = self.function(getattr(o.cls, e.func.attr))
                    f.bound = o
                    return f
        return None

    def arguments(self, e, st, glob):
        args = []
        f = self.callee(e, st, glob)
        if getattr(f, "bound", None) is not None:
            args.append(f.bound)
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, glob)
                d = self.deref(v, st)
                if isinstance(d, TupleV):
                    args += d.items
                else:
                    args.append(Star(v))
            else:
                args.append(self.eval(x, st, glob))
        return args, {k.arg: self.eval(k.value, st, glob) for k in e.keywords if k.arg}

    def eval(self, e, st, glob):
        if isinstance(e, ast.Constant):
            return self.wrap(e.value, "constant") if not isinstance(e.value, float) else Py(e.value, repr(e.value))
        if isinstance(e, ast.JoinedStr):
            return Str("<formatted>")
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st, glob)
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.star_seq(e, st, glob)
            return TupleV([self.eval(x, st, glob) for x in e.elts])
        if isinstance(e, ast.List):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.new(st, self.star_seq(e, st, glob))
            its = [self.eval(x, st, glob) for x in e.elts]
            s = self.source(TupleV(its), st)
            return self.new(st, Seq(z3.IntVal(len(its)), s.elem))
        if isinstance(e, ast.Set) and any(isinstance(x, ast.Starred) for x in e.elts):
            sets = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    sets.append(self.to_set(self.eval(x.value, st, glob), st))
                else:
                    y = obj(self.eval(x, st, glob))
                    sets.append(Set(lambda u, y=y: u == y))
            return self.new(st, Set(lambda u: z3.Or(*[x.mem(u) for x in sets])))
        if isinstance(e, ast.Set):
            its = [obj(self.eval(x, st, glob)) for x in e.elts]
            return self.new(st, Set(lambda u: z3.Or(*[u == x for x in its])))
        if isinstance(e, ast.Dict):
            m = self.empty_map()
            r = self.new(st, m)
            for k, v in zip(e.keys, e.values):
                if k is None:
                    self.method(r, "update", [self.eval(v, st, glob)], {}, st)
                else:
                    self.setitem(r, self.eval(k, st, glob), self.eval(v, st, glob), st)
            return r
        if isinstance(e, ast.BoolOp):
            vals = []
            x = st
            n0 = len(st.pc)
            for k, sub in enumerate(e.values):
                c = self.eval(sub, x, glob)
                t = self.truth(c, x)
                vals.append((c, t))
                x.pc.append(t if isinstance(e.op, ast.And) else z3.Not(t))
            del st.pc[n0:]
            if isinstance(e.op, ast.Or) and len(vals) == 2:
                a, b = (self.deref(c, st) for c, _ in vals)
                if isinstance(b, Map) and self.is_empty(b):
                    # `d or {}`: a dict with the entries of d (its identity is not known)
                    if isinstance(a, NoneV):
                        return vals[1][0]
                    if isinstance(a, Map):
                        return a
            ts = [t for _, t in vals]
            return B(z3.And(*ts) if isinstance(e.op, ast.And) else z3.Or(*ts))
        if isinstance(e, ast.UnaryOp):
            v = self.eval(e.operand, st, glob)
            if isinstance(e.op, ast.Not):
                return B(z3.Not(self.truth(v, st)))
            if isinstance(e.op, ast.USub) and isinstance(v, I):
                return I(-v.t)
            if isinstance(e.op, ast.USub) and isinstance(v, Obj):
                return Obj(self.fun("neg", U, U)(v.t))
            raise Unsupported("unary operator")
        if isinstance(e, ast.Compare):
            l = self.eval(e.left, st, glob)
            cs = []
            for op, r in zip(e.ops, e.comparators):
                r = self.eval(r, st, glob)
                cs.append(self.compare(op, l, r, st))
                l = r
            return B(z3.And(*cs) if len(cs) > 1 else cs[0])
        if isinstance(e, ast.IfExp):
            c = self.truth(self.eval(e.test, st, glob), st)
            n0 = len(st.pc)
            st.pc.append(c)
            a = self.eval(e.body, st, glob)
            del st.pc[n0:]
            st.pc.append(z3.Not(c))
            b = self.eval(e.orelse, st, glob)
            del st.pc[n0:]
            return ite(c, self.deref(a, st), self.deref(b, st))
        if isinstance(e, ast.Attribute):
            return self.attribute(e, st, glob)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, st, glob)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.eval(e.left, st, glob), self.eval(e.right, st, glob), st)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.comprehension(e, st, glob)
        if isinstance(e, ast.Lambda):
            return Fun(e, st.env, glob, name="lambda")
        if isinstance(e, ast.Call):
            return self.call(e, st, glob)
        raise Unsupported(f"expression {type(e).__name__}")

    def star_seq(self, e, st, glob):
        acc = Seq(z3.IntVal(0), lambda j: Obj(NONE))
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, glob)
                s = self.source(v, st)
                acc = self.concat(acc, self.filtered(s, True, s.elem))
            else:
                y = self.eval(x, st, glob)
                acc = self.concat(acc, Seq(z3.IntVal(1), lambda j, y=y: y))
        return acc

    def compare(self, op, l, r, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.member(l, r, st)
            return c if isinstance(op, ast.In) else z3.Not(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.deref(l, st), self.deref(r, st)
            if isinstance(a, NoneV) or isinstance(b, NoneV):
                x = b if isinstance(a, NoneV) else a
                c = z3.BoolVal(True) if isinstance(x, NoneV) else (x.t == NONE if isinstance(x, Obj) else z3.BoolVal(False))
            else:
                c = obj(a) == obj(b)
            return c if isinstance(op, ast.Is) else z3.Not(c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.equal(l, r, st)
            return c if isinstance(op, ast.Eq) else z3.Not(c)
        a, b = self.deref(l, st), self.deref(r, st)
        if isinstance(a, (I, Obj)) and isinstance(b, (I, Obj)):
            num, of = self.fun("num", U, z3.IntSort()), self.fun("int", z3.IntSort(), U)
            if not self.numbers and not (isinstance(a, I) and isinstance(b, I)):
                self.numbers = True
                self.axioms.append(self.forall([z3.IntSort()], lambda k: num(of(k)) == k))
            a, b = (I(num(x.t)) if isinstance(x, Obj) else x for x in (a, b))
        if isinstance(a, I) and isinstance(b, I):
            return {ast.Lt: lambda: a.t < b.t, ast.LtE: lambda: a.t <= b.t, ast.Gt: lambda: a.t > b.t, ast.GtE: lambda: a.t >= b.t}[type(op)]()
        raise Unsupported("comparison")

    def binop(self, op, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(a, I) and isinstance(b, I):
            if isinstance(op, ast.Add):
                return I(a.t + b.t)
            if isinstance(op, ast.Sub):
                return I(a.t - b.t)
            if isinstance(op, ast.Mult):
                return I(a.t * b.t)
        if isinstance(a, Set) and isinstance(b, (Set, Map)):
            if isinstance(op, ast.BitOr):
                return self.new(st, Set(lambda u: z3.Or(a.mem(u), b.mem(u))))
            if isinstance(op, ast.BitAnd):
                return self.new(st, Set(lambda u: z3.And(a.mem(u), b.mem(u))))
            if isinstance(op, ast.Sub):
                return self.new(st, Set(lambda u: z3.And(a.mem(u), z3.Not(b.mem(u)))))
        if isinstance(op, ast.Add):
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            if isinstance(a, (Seq, TupleV, Obj)) and isinstance(b, (Seq, TupleV, Obj)) and not (isinstance(a, Obj) and isinstance(b, Obj)):
                x, y = (self.filtered(s, True, s.elem) for s in (self.source(a, st), self.source(b, st)))
                return self.concat(x, y)
        if isinstance(a, Map) and isinstance(b, Map) and isinstance(op, ast.BitOr):
            r = self.new(st, a)
            self.method(r, "update", [b], {}, st)
            return r
        if isinstance(a, (Obj, Py, I, Str)) or isinstance(b, (Obj, Py)):
            return Obj(self.fresh("binop", U))
        raise Unsupported("binary operator")

    def attribute(self, e, st, glob):
        if isinstance(e.value, ast.Name) and e.value.id not in st.env and e.value.id in glob:
            m = glob[e.value.id]
            if inspect.ismodule(m) or inspect.isclass(m):
                return self.wrap(getattr(m, e.attr), f"{e.value.id}.{e.attr}")
        o = self.deref(self.eval(e.value, st, glob), st)
        return self.attr(o, e.attr, st)

    def attr(self, o, name, st):
        if isinstance(o, Inst):
            if (o.i, name) in st.fields:
                return st.fields[(o.i, name)]
            raise Unsupported(f"field {name} is read before it is written")
        if isinstance(o, Fun) and name == "__name__":
            return Obj(z3.Const(f"name of {o.name}", U))
        if isinstance(o, Py):
            return self.wrap(getattr(o.o, name), f"{o.name}.{name}")
        if isinstance(o, Obj):
            v = self.kinds.get(name)
            f = self.fun("attr:" + name + st.attr_version.get(name, ""), U, U)
            return v(self, f(o.t)) if v else Obj(f(o.t))
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    kinds = {}

    def subscript(self, e, st, glob):
        o = self.deref(self.eval(e.value, st, glob), st)
        if isinstance(e.slice, ast.Slice):
            if isinstance(o, TupleV):
                def c(x):
                    return None if x is None else ast.literal_eval(x)
                try:
                    return TupleV(o.items[c(e.slice.lower):c(e.slice.upper):c(e.slice.step)])
                except ValueError:
                    raise Unsupported("slice")
            if isinstance(o, (Seq, Obj)):
                s = self.source(o, st)
                lo = self.eval(e.slice.lower, st, glob) if e.slice.lower else I(0)
                hi = self.eval(e.slice.upper, st, glob) if e.slice.upper else I(s.card)
                if e.slice.step is not None or not isinstance(lo, I) or not isinstance(hi, I):
                    raise Unsupported("slice")
                # only non-negative bounds inside the sequence are described
                l, h = lo.t, hi.t
                n = self.fresh("len", z3.IntSort())
                self.axiom(z3.Implies(z3.And(0 <= l, l <= h, h <= s.card), n == h - l))
                self.axiom(n >= 0)
                return Seq(n, lambda j: s.elem(j + l))
            raise Unsupported("slice")
        k = self.eval(e.slice, st, glob)
        if isinstance(o, Map):
            ku = obj(k)
            if o.default is not None:
                raise Unsupported("reading a defaultdict")
            self.side_raise(z3.Not(o.mem(ku)), "KeyError", st)
            return o.get(ku)
        kk = z3.simplify(k.t) if isinstance(k, I) else None
        if kk is not None and z3.is_int_value(kk):
            return self.item(o, kk.as_long(), st)
        if isinstance(o, Seq) and isinstance(k, I):
            self.side_raise(z3.Not(z3.And(-o.n <= k.t, k.t < o.n)), "IndexError", st)
            return o.at(z3.If(k.t >= 0, k.t, k.t + o.n))
        if isinstance(o, Obj) and isinstance(k, I):
            return Obj(self.seqat(o.t, k.t))
        if isinstance(o, Obj):
            return Obj(self.fun("getitem", U, U, U)(o.t, obj(k)))
        raise Unsupported("subscript")

    def comprehension(self, e, st, glob):
        """A Src for generator expressions; the collection for the others."""
        saved = self.scope, getattr(self, "scope_raises", None)
        rs = []
        bs, guards, first = [], [], None
        x = st.copy()
        x.pc = []
        x.effects = []
        x.recording = frozenset(st.heap)
        self.scope_raises = rs
        always = True
        try:
            for gnr in e.generators:
                src = self.source(self.eval(gnr.iter, x, glob), x)
                b = [z3.Const(f"it!{next(_fresh)}", s) for s in src.sorts]
                bs += b
                self.scope = self.scope + b
                guards.append(src.guard(*b))
                x.pc.append(src.guard(*b))
                if first is None:
                    first = src
                else:
                    always = False
                self.assign(gnr.target, src.elem(*b), x, glob)
                for c in gnr.ifs:
                    t = self.truth(self.eval(c, x, glob), x)
                    x.pc.append(t)
                    always = False
            n0 = len(x.pc)
            if isinstance(e, ast.DictComp):
                K, E = self.eval(e.key, x, glob), self.eval(e.value, x, glob)
                K = obj(K)
            else:
                K, E = None, self.eval(e.elt, x, glob)
            E = self.deref(E, x)
            P = z3.And(*x.pc[:n0]) if n0 else z3.BoolVal(True)
        finally:
            self.scope, self.scope_raises = saved
        if x.effects:
            raise Unsupported("a comprehension with effects")
        for c, exc in rs:
            (self.scope_raises if self.scope else self.raises).append((z3.And(*st.pc, z3.Exists(bs, c)), exc))
            st.pc.append(self.atom(z3.ForAll(bs, z3.Not(c))))

        def close(v):
            return lambda *b: subst(v, list(zip(bs, b)))

        sorts = [b.sort() for b in bs]
        single = len(e.generators) == 1
        s2 = Src(sorts, close(z3.And(*guards)) if len(guards) > 1 else (first.guard if single else close(guards[0])),
                 close(E), first.order if single else None, first.card if single else None, first.root if single else None)
        p = True if always else close(P)
        if isinstance(e, ast.GeneratorExp):
            s2.filter = p
            return s2
        if isinstance(e, ast.ListComp):
            return self.new(st, self.filtered(s2, p, s2.elem))
        if isinstance(e, ast.SetComp):
            hit, _ = self.hits(s2, p, lambda *b: obj(s2.elem(*b)))
            return self.new(st, Set(hit))
        return self.new(st, self.mapped(s2, p, close(K), s2.elem))

    def gen(self, v, st):
        """(source, filter) of an iterable."""
        if isinstance(v, Src):
            return v, getattr(v, "filter", True)
        return self.source(v, st), True

    # ------------------------------------------------------------ calls
    def call(self, e, st, glob):
        # super().__setattr__ / object.__setattr__
        if isinstance(e.func, ast.Attribute) and e.func.attr == "__setattr__":
            args = [self.eval(a, st, glob) for a in e.args]
            if isinstance(e.func.value, ast.Call):
                me, args = st.env.get("self"), args
            else:
                me, args = args[0], args[1:]
            if not isinstance(me, Inst) or not isinstance(args[0], Str):
                raise Unsupported("__setattr__")
            st.fields[(me.i, args[0].s)] = args[1]
            return NoneV()
        f = self.callee(e, st, glob)
        if f is None and not isinstance(e.func, (ast.Name, ast.Attribute)):
            f = self.eval(e.func, st, glob)
            if not isinstance(f, (Obj, Fun)):
                raise Unsupported("call of a computed value")
        if isinstance(f, Fun) and f.node is not None:
            args, kw = self.arguments(e, st, glob)
            outs = self.inlined(f, args, kw, st)
            if outs is None:
                return self.opaque(f.name, args, kw, st)
            # inside of an expression: one normal outcome, or a joined value
            normal = [o for o in outs if o.kind == "return"]
            for o in outs:
                if o.kind == "raise":
                    c = z3.And(*o.state.pc)
                    (self.scope_raises if self.scope else self.raises).append((c, o.value))
            if len(normal) == 1:
                o = normal[0]
                st.heap, st.fields, st.pc, st.effects = o.state.heap, o.state.fields, o.state.pc, o.state.effects
                return o.value
            base = len(st.pc)
            if normal and all(o.state.heap == st.heap and (o.state.effects or []) == (st.effects or []) for o in normal):
                v = self.deref(normal[-1].value, st)
                for o in normal[-2::-1]:
                    v = ite(z3.And(*o.state.pc[base:]), self.deref(o.value, st), v)
                st.pc.append(z3.Or(*[z3.And(*o.state.pc[base:]) for o in normal]))
                return v
            raise Unsupported(f"several outcomes of {f.name} in an expression")
        if isinstance(f, Obj):
            args, kw = self.arguments(e, st, glob)
            if "apply" in self.contracts:
                return self.contracts["apply"](self, st, f, *args, **kw)
            return self.opaque("apply", [f] + args, kw, st)
        if isinstance(f, Fun) and f.handler is not None:
            self.calls.add(f.name)
            args, kw = self.arguments(e, st, glob)
            if isinstance(e.func, ast.Attribute) and "." not in f.name and f.name == e.func.attr and getattr(f.handler, "method", False):
                args = [self.eval(e.func.value, st, glob)] + args
            return f.handler(self, st, *args, **kw)
        if isinstance(e.func, ast.Attribute) and not (isinstance(f, Py)):
            o = self.eval(e.func.value, st, glob)
            args, kw = self.arguments(e, st, glob)
            if isinstance(e.func.value, ast.Subscript) and e.func.attr == "append":
                pass
            return self.method(o, e.func.attr, args, kw, st)
        args, kw = self.arguments(e, st, glob)
        name = f.name if isinstance(f, Py) else None
        return self.builtin(name, f, args, kw, st)

    def method(self, o, name, args, kw, st):
        d = self.deref(o, st)
        if isinstance(d, AppendAt):
            if name != "append":
                raise Unsupported(f"{name} on an entry of a defaultdict")
            v = self.deref(args[0], st)
            if d.ref.i in st.recording:
                st.effects.append((d.ref.i, "append-at", (d.key, v), list(st.pc)))
                return NoneV()
            m = st.heap[d.ref.i]
            k, old = d.key, m.get
            def get(u):
                prev = old(u)
                prev = prev if isinstance(prev, Seq) else Seq(z3.IntVal(0), lambda j: Obj(NONE))
                prev0 = Seq(z3.If(m.mem(u), prev.n, 0), prev.at)
                return ite(u == k, self.concat(prev0, Seq(z3.IntVal(1), lambda j: v)), prev0)
            st.heap[d.ref.i] = Map(lambda u: z3.Or(u == k, m.mem(u)), get, lambda u: z3.If(m.mem(u), m.pos(u), m.top), m.top + 1, None, m.default)
            return NoneV()
        if isinstance(d, Map):
            if name == "keys":
                return self.source(d, st)
            if name == "items":
                return Src([U], d.mem, lambda u: TupleV([Obj(u), d.get(u)]), d.pos, self.card(d), root(d))
            if name == "values":
                return Src([U], d.mem, lambda u: d.get(u), d.pos, self.card(d), root(d))
            if name == "get":
                ku = obj(args[0])
                return ite(d.mem(ku), d.get(ku), self.deref(args[1], st) if len(args) > 1 else NoneV())
            if name == "copy":
                m = Map(d.mem, d.get, d.pos, d.top, d.card, d.default)
                m.same_order = root(d)
                return self.new(st, m)
            if name == "update" and isinstance(o, Ref):
                x = self.deref(args[0], st)
                if o.i in st.recording:
                    st.effects.append((o.i, "update", (), list(st.pc)))
                    return NoneV()
                if isinstance(x, Obj):
                    st.heap[o.i] = self.unknown_like(d)
                    return NoneV()
                if not isinstance(x, Map):
                    raise Unsupported("update from something else")
                if self.is_empty(d):
                    st.heap[o.i] = Map(x.mem, x.get, x.pos, x.top, x.card, d.default)
                    return NoneV()
                top = self.fresh("top", z3.IntSort())
                self.axiom(top == d.top + x.top)
                st.heap[o.i] = Map(lambda u: z3.Or(d.mem(u), x.mem(u)), lambda u: ite(x.mem(u), x.get(u), d.get(u)),
                                   lambda u: z3.If(d.mem(u), d.pos(u), d.top + x.pos(u)), top, None, d.default)
                return NoneV()
            if name == "setdefault" and isinstance(o, Ref):
                v = self.deref(args[1], st) if len(args) > 1 else NoneV()
                if isinstance(v, Seq) and z3.is_int_value(z3.simplify(v.n)) and z3.simplify(v.n).as_long() == 0:
                    return AppendAt(o, obj(args[0]))
                raise Unsupported("setdefault")
            if name == "isdisjoint":
                pass
        if isinstance(d, Seq) and isinstance(o, Ref):
            if name == "append":
                v = self.deref(args[0], st)
                if o.i in st.recording:
                    st.effects.append((o.i, "append", (v,), list(st.pc)))
                else:
                    st.heap[o.i] = Seq(d.n + 1, lambda j: ite(j == d.n, v, d.at(j)) if not (z3.is_int_value(z3.simplify(d.n)) and z3.simplify(d.n).as_long() == 0) else v)
                return NoneV()
            if name == "extend":
                s = self.source(args[0], st)
                if o.i in st.recording:
                    raise Unsupported("extend in a loop")
                st.heap[o.i] = self.concat(d, self.filtered(s, getattr(s, "filter", True), s.elem))
                return NoneV()
            if name == "pop" and not args:
                self.side_raise(d.n <= 0, "IndexError", st)
                if o.i in st.recording:
                    raise Unsupported("pop in a loop")
                st.heap[o.i] = Seq(d.n - 1, d.at)
                return d.at(d.n - 1)
        if isinstance(d, Set):
            if name == "add" and isinstance(o, Ref):
                v = obj(args[0])
                if o.i in st.recording:
                    st.effects.append((o.i, "add", (Obj(v),), list(st.pc)))
                else:
                    st.heap[o.i] = Set(lambda u: z3.Or(u == v, d.mem(u)))
                return NoneV()
            if name in ("update", "union") and isinstance(o, Ref):
                sets = [d] + [self.to_set(a, st) for a in args]
                new = Set(lambda u: z3.Or(*[x.mem(u) for x in sets]))
                if name == "union":
                    return self.new(st, new)
                if o.i in st.recording:
                    raise Unsupported("update in a loop")
                st.heap[o.i] = new
                return NoneV()
            if name == "difference":
                sets = [self.to_set(a, st) for a in args]
                return self.new(st, Set(lambda u: z3.And(d.mem(u), *[z3.Not(x.mem(u)) for x in sets])))
            if name == "issubset":
                x = self.to_set(args[0], st)
                return B(self.forall([U], lambda u: z3.Implies(d.mem(u), x.mem(u))))
            if name == "copy":
                return self.new(st, Set(d.mem, d.card))
        if isinstance(d, (Obj, Py, Inst)):
            return self.opaque(name, [d] + args, kw, st)
        raise Unsupported(f"method {name} of {type(d).__name__}")

    def opaque(self, name, args, kw, st):
        if name in self.pure:
            self.calls.add(name + " (does not change its arguments)")
            return Obj(self.fresh("call:" + name, U))
        for a in list(args) + list(kw.values()):
            if isinstance(a, Ref):
                # read-only use is not known
                raise Unsupported(f"a container is given to {name}, which has no contract")
        self.calls.add(name + " (uninterpreted)")
        if name == "get" and not kw:
            # a lookup is a function of the table and the key
            return Obj(self.fun(f"get{len(args)}", *[U] * len(args), U)(*[obj(self.deref(a, st)) for a in args]))
        return Obj(self.fresh("call:" + name, U))

    def to_set(self, v, st):
        d = self.deref(v, st) if not isinstance(v, Src) else v
        if isinstance(d, Set):
            return d
        if isinstance(d, Map):
            return Set(d.mem, d.card)
        s, p = self.gen(v, st)
        hit, _ = self.hits(s, p, lambda *b: obj(s.elem(*b)))
        return Set(hit)

    def builtin(self, name, f, args, kw, st):
        a0 = args[0] if args else None
        if name == "len":
            d = self.deref(a0, st)
            if isinstance(d, TupleV):
                return I(len(d.items))
            if isinstance(d, Seq):
                return I(d.n)
            if isinstance(d, (Set, Map)):
                return I(self.length(d))
            if isinstance(d, Obj):
                return I(self.source(d, st).card)
        if name in ("tuple", "list", "sorted", "reversed"):
            if name in ("sorted", "reversed"):
                raise Unsupported(name)
            if a0 is None:
                v = Seq(z3.IntVal(0), lambda j: Obj(NONE))
            else:
                d = self.deref(a0, st) if not isinstance(a0, Src) else a0
                if isinstance(d, TupleV) and name == "tuple":
                    return d
                s, p = self.gen(a0, st)
                v = self.filtered(s, p, s.elem)
            return v if name == "tuple" else self.new(st, v)
        if name in ("set", "frozenset"):
            return self.new(st, self.to_set(a0, st) if a0 is not None else Set(lambda u: z3.BoolVal(False)))
        if name == "dict":
            if kw:
                raise Unsupported("dict with keywords")
            if a0 is None:
                return self.new(st, self.empty_map())
            d = self.deref(a0, st) if not isinstance(a0, Src) else a0
            if isinstance(d, Map):
                m = Map(d.mem, d.get, d.pos, d.top, d.card)
                m.same_order = root(d)
                return self.new(st, m)
            s, p = self.gen(a0, st)
            pair = lambda *b: self.pair(s.elem(*b))  # noqa: E731
            return self.new(st, self.mapped(s, p, lambda *b: obj(pair(*b)[0]), lambda *b: pair(*b)[1]))
        if name == "defaultdict":
            m = self.empty_map()
            m.default = "list"
            if not (isinstance(a0, Py) and a0.o is list):
                raise Unsupported("defaultdict of something else")
            return self.new(st, m)
        if name in ("any", "all"):
            s, p = self.gen(a0, st)
            pp = (lambda *b: z3.BoolVal(True)) if isinstance(p, bool) else p
            if name == "any":
                return B(self.exists(s.sorts, lambda *b: z3.And(s.guard(*b), pp(*b), self.truth(s.elem(*b), st))))
            return B(self.forall(s.sorts, lambda *b: z3.Implies(z3.And(s.guard(*b), pp(*b)), self.truth(s.elem(*b), st))))
        if name == "isinstance":
            c = args[1]
            cs = c.items if isinstance(c, TupleV) else [c]
            d = self.deref(a0, st)
            if isinstance(d, (Seq, Map, Set)):
                raise Unsupported("isinstance of a container")
            return B(z3.Or(*[self.fun("isinstance:" + x.name.split(".")[-1], U, z3.BoolSort())(obj(d)) for x in cs]))
        if name == "zip":
            ss = []
            for a in args:
                if isinstance(a, Star):
                    return self.unzip(a, st)
                s = self.source(a, st)
                if s.sorts != [z3.IntSort()]:
                    # the enumeration of a dict
                    q = self.filtered(s, True, s.elem)
                    s = self.source(q, st)
                ss.append(s)
            n = ss[0].card
            for s in ss[1:]:
                n = z3.If(s.card < n, s.card, n)
            return Src([z3.IntSort()], lambda j: z3.And(0 <= j, j < n), lambda j: TupleV([s.elem(j) for s in ss]), lambda j: j, n)
        if name == "enumerate":
            s = self.source(a0, st)
            if s.sorts != [z3.IntSort()]:
                s = self.source(self.filtered(s, True, s.elem), st)
            return Src(s.sorts, s.guard, lambda j: TupleV([I(j), s.elem(j)]), s.order, s.card)
        if name == "range" and len(args) == 1 and isinstance(a0, I):
            n = z3.If(a0.t > 0, a0.t, 0)
            return Src([z3.IntSort()], lambda j: z3.And(0 <= j, j < n), lambda j: I(j), lambda j: j, n)
        if name == "getattr" and isinstance(args[1], Str):
            return self.attr(self.deref(a0, st), args[1].s, st)
        if name == "type" and isinstance(a0, Py) and len(args) == 1:
            return Py(type(a0.o), type(a0.o).__name__)
        if name == "hasattr":
            return B(self.fresh("hasattr", z3.BoolSort()))
        if name == "bool":
            return B(self.truth(a0, st))
        if name == "iter":
            return a0
        if isinstance(f, (Py, Obj)) or f is None:
            if isinstance(f, Py):
                return self.opaque(name or "?", args, kw, st)
        raise Unsupported(f"call of {name}")

    def unzip(self, star, st):
        """zip(*d.items()): the keys and the values, in order."""
        s = self.source(star.v, st)
        q = self.filtered(s, True, lambda *b: s.elem(*b))
        t = TupleV([Seq(q.n, lambda j: self.pair(q.at(j))[0]), Seq(q.n, lambda j: self.pair(q.at(j))[1])])
        return t

    def pair(self, v):
        if isinstance(v, TupleV) and len(v.items) == 2:
            return v.items
        if isinstance(v, Obj):
            return [Obj(self.seqat(v.t, 0)), Obj(self.seqat(v.t, 1))]
        raise Unsupported("a pair is expected")

    # ------------------------------------------------------------ proving
    def prove(self, hyps, goal, what=""):
        self.queries += 1
        # a definition that the goal does not refer to is not needed
        few = self.relevant([goal, *hyps])
        full = self.axioms
        plans = [(full, {}, 5), (few, {}, 5), (full, {"smt.mbqi": False}, 5), (few, {"smt.mbqi": False}, 5), (full, {}, 2), (few, {}, 2)]
        for axioms, cfg, part in plans:
            s = z3.Solver()
            s.set("timeout", self.timeout // part)
            for k, v in cfg.items():
                s.set(k, v)
            s.add(*axioms)
            s.add(*hyps)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat and axioms is self.axioms:
                return False
        return None

    def consistent(self, hyps, ms=3000):
        """False only if the hypotheses are contradictory (an obligation would hold vacuously)."""
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.axioms)
        s.add(*hyps)
        return s.check() != z3.unsat


class Loop:
    """A state at the head of a loop, for its invariant; `j` is the number of finished iterations."""

    def __init__(self, vc, st, glob, src, j, names=None):
        self.vc, self.st, self.glob, self.src, self.j = vc, st, glob, src, j
        self.names = set(st.env) if names is None else names

    def local(self, name):
        if name not in self.st.env:
            raise Unsupported(f"no local variable {name}")
        return self.vc.deref(self.st.env[name], self.st)

    def containers(self, cls):
        """{name: value} of the local variables that are containers of a kind."""
        res = {}
        for n, v in self.st.env.items():
            if n in self.names and isinstance(v, Ref) and isinstance(self.st.heap.get(v.i), cls):
                res[n] = self.st.heap[v.i]
        return res


class Star(V):
    def __init__(self, v):
        self.v = v


class AppendAt(V):
    """`d[k]` of a defaultdict(list), or `d.setdefault(k, [])`."""

    def __init__(self, ref, key):
        self.ref, self.key = ref, key


_sub = VC.subscript


def _subscript(self, e, st, glob):
    o = self.eval(e.value, st, glob)
    if isinstance(o, Ref) and isinstance(st.heap.get(o.i), Map) and st.heap[o.i].default == "list" and not isinstance(e.slice, ast.Slice):
        return AppendAt(o, obj(self.eval(e.slice, st, glob)))
    return _sub(self, e, st, glob)


VC.subscript = _subscript


def _size(t):
    n, todo = 0, [t]
    while todo and n < 20:
        x = todo.pop()
        n += 1
        todo += x.children()
    return n


def root(m):
    """The dict that gives the order of the keys."""
    return getattr(m, "same_order", None) or m


def symbols_of(v):
    if isinstance(v, Map):
        return symbols(v.mem(NONE)) | symbols(obj(v.get(NONE))) | symbols(v.pos(NONE))
    if isinstance(v, Seq):
        return symbols(v.n) | symbols(obj(v.at(z3.IntVal(0))))
    return symbols(v.mem(NONE))


def symbols(f):
    """Names of the symbols introduced by the executor."""
    res, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                res.add(x.decl().name())
            todo += x.children()
    return res


def _quantified(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def _load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None
