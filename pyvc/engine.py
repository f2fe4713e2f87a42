"""Symbolic execution core of the verifier.

The functions under contract are executed by CPython itself; only the values
are symbolic.  Taking the truth value of a symbolic condition forks the path,
all feasible paths are explored by re-execution.  Loops and comprehensions over
sequences of symbolic length are summarised for a generic iteration (see loop).
Numbers are mathematical (Int/Real) with an explicit NaN flag; infinities are
excluded.  What cannot be handled raises Unsupported, which makes the
obligations of that contract undecided - never proved and never refuted.
"""
from __future__ import annotations

import time
from fractions import Fraction

import traceback
import types

import z3

from poly import _ATOMS, ONE, ZERO, Poly, add_rat, atom_key, make_rat, mul_rat

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The construct is outside what the verifier supports."""


class PathEnd(BaseException):
    """This path is infeasible or ends here by construction."""


Val = z3.DeclareSort("Val")
T, F = z3.BoolVal(True), z3.BoolVal(False)


def is_t(c):
    return z3.is_true(c)


def is_f(c):
    return z3.is_false(c)


def And(*a):
    a = [x for x in _flat(a) if not is_t(x)]
    if any(is_f(x) for x in a):
        return F
    return T if not a else a[0] if len(a) == 1 else z3.And(a)


def Or(*a):
    a = [x for x in _flat(a) if not is_f(x)]
    if any(is_t(x) for x in a):
        return T
    return F if not a else a[0] if len(a) == 1 else z3.Or(a)


def Not(a):
    if is_t(a):
        return F
    if is_f(a):
        return T
    if z3.is_not(a):
        return a.children()[0]
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def mentions(t, names):
    """Does the term mention one of the constants/functions (by decl id)?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().get_id() in names:
                return True
            todo.extend(x.children())
    return False


class Frame:
    def __init__(self, prefix, pending):
        self.prefix, self.pending, self.pos = prefix, pending, 0


class Outcome:
    def __init__(self, branches, facts, kind, value, extra=None):
        self.cond = And(branches)
        self.facts, self.kind, self.value, self.extra = facts, kind, value, extra


ENGINE_MODULES = {"engine", "seq", "symnp", "poly", "symbolic", "seqlib", "matrix", "symdict"}


# methods of containers, which raise what the builtin ones raise
NATIVE = {"__getitem__", "__setitem__", "__delitem__", "pop", "remove", "index", "__next__", "popleft", "insert", "_replace", "<lambda>", "make", "__call__", "__truediv__", "__floordiv__", "__mod__", "__pow__"}


def not_ours(e):
    """An exception the program would not raise, but that shows a limit of the engine, is no result."""
    if isinstance(e, (z3.Z3Exception, RecursionError, NotImplementedError, MemoryError)):
        raise Unsupported(f"{type(e).__name__}: {e}") from e
    tb, deep = traceback.extract_tb(e.__traceback__), None
    if not isinstance(e, (TypeError, AttributeError)):
        # a slip in the engine or in a contract
        if tb and tb[-1].name not in NATIVE and any(d in tb[-1].filename for d in ("/pyvc/", "/contracts/")) and not (tb[-1].line or "").lstrip().startswith("raise"):
            raise Unsupported(f"{type(e).__name__}: {e} at {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno}") from e
        return
    if tb:
        deep = tb[-1]
        if (deep.line or "").lstrip().startswith(("raise ", "raise\n")) or deep.line == "raise":
            return
    if isinstance(e, AttributeError):
        o = e.obj
        mod = getattr(o if isinstance(o, type) else type(o), "__module__", "")
        ours = mod in ENGINE_MODULES or isinstance(o, types.ModuleType) or any(d in (deep.filename if deep else "") for d in ("/pyvc/", "/contracts/"))
        if not ours:
            return
    raise Unsupported(f"{type(e).__name__}: {e} at {deep.filename.rsplit('/', 1)[-1]}:{deep.lineno}" if deep else str(e)) from e


class Engine:
    def __init__(self):
        self.reset()
        self.n_paths = 0
        self.solver_s = 0.0
        self.uid = 0
        self.trusted = set()
        self.max_paths = 3000
        self.deadline = None

    def reset(self):
        self.splitting = False  # array reads fork instead of building case distinctions
        self.invariants = {}
        self.somewhere = {}  # functions with an index where they take a value
        self.distinct = {}  # functions with distinct values: their inverses
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.solver.set("smt.mbqi", False)  # an undecided branch is explored
        self.facts = []  # (kind, formula): kind "branch" or "fact"
        self.frame = Frame([], [])
        self.journal = []
        self.idx = []  # generic indices in scope
        self.axioms = {}
        self.signs = {}

    # ---------------------------------------------------------------- facts
    def add(self, c, kind="fact"):
        if is_t(c):
            return
        self.facts.append((kind, c))
        self.solver.add(c)

    def assume(self, c):
        c = z3.simplify(c)
        self.add(c)
        if is_f(c) or not self.feasible(T):
            raise PathEnd

    def trust(self, name):
        self.trusted.add(name)

    def all_facts(self):
        return [c for _, c in self.facts]

    def feasible(self, c):
        if is_f(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract used up")
        t0 = time.time()
        r = self.solver.check(c) if not is_t(c) else self.solver.check()
        self.solver_s += time.time() - t0
        return r != z3.unsat

    def proves(self, c):
        """Quick proof attempt on the current path."""
        c = z3.simplify(c)
        if is_t(c):
            return True
        return not self.feasible(Not(c))

    # ---------------------------------------------------------------- forks
    def fork(self, c):
        c = z3.simplify(c)
        if is_t(c):
            return True
        if is_f(c):
            return False
        fr = self.frame
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(Not(c)) if t else True
            if t and f:
                fr.pending.append(fr.prefix[: fr.pos] + [False])
                d = True
            else:
                d = t
            fr.prefix.append(d)
        fr.pos += 1
        if fr.pos > 400:
            raise Unsupported("too many decisions on one path")
        self.add(c if d else Not(c), "branch")
        return d

    def choose(self):  # only at top level: the symbol is fresh on every execution
        """A decision that is not determined by the inputs."""
        return self.fork(self.fresh("choice", z3.BoolSort()))

    def choose_n(self, n):
        for i in range(n - 1):
            if self.choose():
                return i
        return n - 1

    # ---------------------------------------------------------------- fresh symbols
    def fresh(self, name, sort):
        self.uid += 1
        name = f"{name}!{self.uid}"
        if not self.idx:
            return z3.Const(name, sort)
        return z3.Function(name, *[z3.IntSort()] * len(self.idx), sort)(*self.idx)

    def fresh_fn(self, name, *sorts):
        """A fresh function, also depending on the generic indices in scope."""
        self.uid += 1
        f = z3.Function(f"{name}!{self.uid}", *[z3.IntSort()] * len(self.idx), *sorts)
        idx = list(self.idx)
        return lambda *a: f(*idx, *a)

    # ---------------------------------------------------------------- nested exploration
    def explore(self, fn, extra=None):
        """Run fn on all feasible paths; list of Outcome. State is restored."""
        outs = []
        pending = [[]]
        outer = self.frame
        while pending:
            self.n_paths += 1
            if self.n_paths > self.max_paths:
                raise Unsupported("too many paths")
            self.frame = Frame(pending.pop(), pending)
            mark, jmark, signs = len(self.facts), len(self.journal), self.signs
            self.signs = dict(signs)
            self.solver.push()
            try:
                try:
                    kind, value = "ret", fn()
                except PathEnd:
                    continue
                except Exception as e:  # noqa: BLE001  an exception of the program
                    not_ours(e)
                    kind, value = "exc", e
                new = self.facts[mark:]
                ex = extra() if extra else None
                outs.append(Outcome([c for k, c in new if k == "branch"], [c for k, c in new if k == "fact"], kind, value, ex))
            finally:
                del self.facts[mark:]
                self.solver.pop()
                self.undo(jmark)
                self.frame = outer
                self.signs = signs
        return outs

    def undo(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def generic(self, n, fn, extra=None):
        """Outcomes of fn(k) for a generic 0 <= k < n, as formulas in k."""
        self.uid += 1
        k = z3.Int(f"k!{self.uid}")
        mark = len(self.facts)
        self.solver.push()
        signs = self.signs
        self.signs = dict(signs)
        old = self.idx
        self.idx = [*old, k]
        try:
            self.add(And(k >= 0, k < zint(n)))
            outs = self.explore(lambda: fn(SNum.of_term(k)), extra) if self.feasible(T) else []
        finally:
            self.idx = old
            del self.facts[mark:]
            self.solver.pop()
            self.signs = signs
        rng = And(k >= 0, k < zint(n))
        for o in outs:
            for f in o.facts:
                self.add(self.forall(k, And(rng, o.cond), f))
        return k, outs

    def under(self, k, guard, fn):
        """fn() for a generic k with the guard; what is learnt is kept for all such k."""
        mark, signs, old = len(self.facts), self.signs, self.idx
        self.solver.push()
        self.signs = dict(signs)
        self.idx = [*old, k]
        try:
            self.add(guard)
            start = len(self.facts)
            r = fn()
            new = self.facts[start:]
        finally:
            self.idx = old
            del self.facts[mark:]
            self.solver.pop()
            self.signs = signs
        for _, f in new:
            self.add(self.forall(k, guard, f))
        return r

    def forall(self, k, guard, body):
        ids = {k.decl().get_id()}
        guard, body = z3.simplify(guard), z3.simplify(body)
        if is_t(body) or is_f(guard):
            return T
        f = Implies(guard, body)
        if not mentions(f, ids):
            return f
        if not mentions(body, ids):
            # only the range depends on k: it is empty or the rest holds
            lo, hi, rest = [], [], []
            for g in guard.children() if z3.is_and(guard) else [guard]:
                (lo if g.eq(z3.simplify(k >= 0)) else hi if mentions(g, ids) else rest).append(g)
            if lo and all(_bounds(g, k, ids) for g in hi):
                at0 = [z3.substitute(g, (k, z3.IntVal(0))) for g in hi]
                return Implies(And(at0 + rest), body)
        return z3.ForAll([k], f)

    # ---------------------------------------------------------------- sign knowledge
    def positive(self, q):
        """Is the polynomial known to be positive on this path?"""
        if q.is_const():
            return q.const_value() > 0
        if q not in self.signs:
            self.signs[q] = self.proves(q.to_z3(True) > 0)
        return self.signs[q]


def _bounds(g, k, ids):
    """Whether the simplified formula says that k is below something."""
    def linear(t):
        args = t.children() if z3.is_add(t) else [t]
        return [x for x in args if mentions(x, ids)] and \
            all(x.eq(k) for x in args if mentions(x, ids))
    if z3.is_not(g) and z3.is_le(g.children()[0]):
        a, b = g.children()[0].children()
    elif z3.is_le(g):
        b, a = g.children()
    else:
        return False
    return bool(not mentions(a, ids) and linear(b))


E = Engine()


# ====================================================================== numbers
def frac(x):
    return Fraction(x)


def zint(x):
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SNum):
        return x.term
    return x


class Sym:
    """Base of the symbolic scalars."""

    __slots__ = ()
    ndim = 0
    shape = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.fork(self.t)

    def __and__(self, o):
        if hasattr(o, "__pyvc_array__"):
            return NotImplemented
        return SBool(And(self.t, bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "__pyvc_array__"):
            return NotImplemented
        return SBool(Or(self.t, bt(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if hasattr(o, "__pyvc_array__"):
            return NotImplemented
        return SBool(z3.Xor(self.t, bt(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == bt(o))
        return num(self) == o

    def __ne__(self, o):
        r = self == o
        return SBool(Not(bt(r))) if r is not NotImplemented else r

    __hash__ = Sym.__hash__

    def all(self):
        return self

    any = all

    def __mul__(self, o):
        return num(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return num(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return num(self) - o

    def __lt__(self, o):
        return num(self) < o

    def __le__(self, o):
        return num(self) <= o

    def __gt__(self, o):
        return num(self) > o

    def __ge__(self, o):
        return num(self) >= o

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def astype(self, dtype, **kw):
        return num(self) if dtype is not None else self


def bt(x):
    """z3 Bool of a truth value."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return T if x else F
    if isinstance(x, SNum):
        return (x != 0).t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, int):
        return T if x else F
    raise Unsupported(f"truth value of {type(x)}")


class SNum(Sym):
    """P/Q with a NaN flag. isint: a (mathematical) integer type."""

    __slots__ = ("r", "isint", "nan", "_t")

    def __init__(self, r, isint, nan=F):
        self.r, self.isint, self.nan, self._t = r, isint, nan, None

    # -- construction
    @staticmethod
    def of_term(t, nan=F):
        isint = t.sort() == z3.IntSort()
        if z3.is_int_value(t):
            return SNum((Poly.const(t.as_long()), ONE), True, nan)
        if z3.is_rational_value(t):
            return SNum((Poly.const(t.as_fraction()), ONE), False, nan)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            r = SNum.of_term(t.children()[0], nan)
            return SNum(r.r, False, nan)
        return SNum((Poly.atom(t), ONE), isint, nan)

    @staticmethod
    def const(x):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float):
            if x != x:
                return SNum((ZERO, ONE), False, T)
            if x in (float("inf"), float("-inf")):
                raise Unsupported("infinite number")
        return SNum((Poly.const(frac(x)), ONE), isinstance(x, int), F)

    @property
    def term(self):
        if self._t is None:
            p, q = self.r
            if self.isint:
                self._t = p.to_z3(False)
            elif q == ONE:
                self._t = p.to_z3(True)
            else:
                self._t = p.to_z3(True) / q.to_z3(True)
        return self._t

    @property
    def rterm(self):
        return z3.ToReal(self.term) if self.isint else self.term

    def is_const(self):
        return self.r[1] == ONE and self.r[0].is_const() and is_f(self.nan)

    def value(self):
        v = self.r[0].const_value()
        return int(v) if v.denominator == 1 and self.isint else v

    def integral(self):
        """Integer-valued whatever the inputs."""
        return self.isint or (self.r[1] == ONE and self.r[0].integral())

    # -- arithmetic
    def _bin(self, o, f, isint=None):
        b = num(o)
        if b is None:
            return NotImplemented
        r = f(self.r, b.r)
        return SNum(r, (self.isint and b.isint) if isint is None else isint, Or(self.nan, b.nan))

    def __add__(self, o):
        return self._bin(o, add_rat)

    __radd__ = __add__

    def __neg__(self):
        return SNum((-self.r[0], self.r[1]), self.isint, self.nan)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self._bin(o, lambda a, b: add_rat(a, (-b[0], b[1])))

    def __rsub__(self, o):
        b = num(o)
        return NotImplemented if b is None else b - self

    def __mul__(self, o):
        return self._bin(o, mul_rat)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = num(o)
        if b is None:
            return NotImplemented
        zero = z3.simplify(And(Not(b.nan), b.rterm == 0))
        if not is_f(zero) and not E.positive(b.r[0]) and E.fork(zero):
            if b.isint or True:
                raise Unsupported("division by zero is possible")
        return SNum(mul_rat(self.r, (b.r[1], b.r[0])), False, Or(self.nan, b.nan))

    def __rtruediv__(self, o):
        b = num(o)
        return NotImplemented if b is None else b / self

    def __floordiv__(self, o):
        b = num(o)
        if b is None:
            return NotImplemented
        if E.fork(b.rterm == 0):
            raise ZeroDivisionError
        if self.isint and b.isint:
            if not E.proves(b.term > 0):
                raise Unsupported("floor division by a possibly negative number")
            if not b.is_const():
                return fdiv(self.r[0], b.r[0])
            return SNum.of_term(self.term / b.term)
        return floor(self / b)

    def __rfloordiv__(self, o):
        b = num(o)
        return NotImplemented if b is None else b // self

    def __mod__(self, o):
        b = num(o)
        if b is None or not (self.isint and b.isint):
            return NotImplemented
        if not E.proves(b.term > 0):
            raise Unsupported("modulo by a possibly non-positive number")
        if not b.is_const():
            return self - b * fdiv(self.r[0], b.r[0])
        return SNum.of_term(self.term % b.term)

    def __pow__(self, o):
        if isinstance(o, SNum) and o.is_const():
            o = o.value()
        if not isinstance(o, int) or not 0 <= o <= 4:
            raise Unsupported("power")
        r = SNum.const(1)
        for _ in range(o):
            r = r * self
        return r

    def __abs__(self):
        return ite(self >= 0, self, -self) if not self.is_const() else SNum.const_frac(abs(self.r[0].const_value()), self.isint)

    @staticmethod
    def const_frac(v, isint):
        return SNum((Poly.const(v), ONE), isint, F)

    # -- comparison
    def _cmp(self, o, op):
        b = num(o)
        if b is None:
            return None
        d = add_rat(self.r, (-b.r[0], b.r[1]))
        ok = And(Not(self.nan), Not(b.nan))
        if d[1] == ONE and d[0].is_const():
            return SBool(ok if op(d[0].const_value(), 0) else F)
        if self.isint and b.isint:
            return SBool(And(ok, op(self.term, b.term)))
        if d[1] == ONE:
            return SBool(And(ok, op(self.rterm, b.rterm)))
        if E.positive(d[1]):
            return SBool(And(ok, op(d[0].to_z3(True), z3.RealVal(0))))
        return SBool(And(ok, op(self.rterm, b.rterm)))

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        if isinstance(o, SVal):
            return o == self
        r = self._cmp(o, lambda a, b: a == b)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(Not(r.t))

    def __hash__(self):
        if self.is_const():
            return hash(self.r[0].const_value())
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return to_pyint(self)

    def __index__(self):
        if not self.integral():
            raise TypeError("float as an index")
        return to_pyint(self)

    def __float__(self):
        if self.is_const():
            return float(self.r[0].const_value())
        raise Unsupported("float() of a symbolic number outside the verified code")

    def __round__(self, n=None):
        return rint(self) if n is None else round_places(self, n)

    def is_integer(self):
        return SBool(And(Not(self.nan), z3.IsInt(self.rterm)))

    # numpy scalar interface
    def astype(self, dtype, copy=True):
        import symnp

        return symnp.cast(self, dtype)

    def round(self, n=0):
        return rint(self, keep=True) if n == 0 else round_places(self, n)

    def clip(self, lo=None, hi=None):
        import symnp

        return symnp.clip(self, lo, hi)

    @property
    def dtype(self):
        import symnp

        return symnp.dtype("i8" if self.isint else "f8")


def to_pyint(x):
    if x.is_const() and x.r[0].const_value().denominator == 1:
        return int(x.r[0].const_value())
    raise Unsupported("a concrete integer is needed")


def num(x):
    """SNum of a number, None for anything else."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return SNum.const(x)
    if isinstance(x, SBool):
        t = z3.simplify(x.t)
        if is_t(t) or is_f(t):
            return SNum.const(1 if is_t(t) else 0)
        return SNum.of_term(z3.If(t, z3.IntVal(1), z3.IntVal(0)))
    return None


def real(x):
    x = num(x)
    return SNum(x.r, False, x.nan)


# ====================================================================== opaque values
_CONSTS: dict = {}
_num2val = z3.Function("num2val", z3.RealSort(), Val)


class SVal(Sym):
    """An opaque hashable value (a choice, a sequence element)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        v = val_term(o)
        return NotImplemented if v is None else SBool(z3.simplify(And(self.alike(o), self.t == v)))

    def __ne__(self, o):
        v = val_term(o)
        return NotImplemented if v is None else SBool(z3.simplify(Not(And(self.alike(o), self.t == v))))

    __hash__ = Sym.__hash__

    def alike(self, o):
        """Could the values be equal at all? Strings, tuples, numbers and None never are."""
        a, b = ty_of(self), ty_of(o)
        if a is None or b is None or a == b != "mix":
            return T
        if "mix" in (a, b):
            m, x, y = (self, o, b) if a == "mix" else (o, self, a)
            return {"mix": T, "str": is_str(m.t), "number": Not(is_str(m.t))}.get(y, F)
        return F

    def at_type(self, t):
        return type(self)(t)


class SStr(SVal):
    """A string of unknown content."""

    __slots__ = ()


class STup(SVal):
    """A tuple of unknown content."""

    __slots__ = ()


class SMix(SVal):
    """A string or a number."""

    __slots__ = ()

    def is_str(self):
        return is_str(self.t)


is_str = z3.Function("is_str", Val, z3.BoolSort())
str_of = z3.Function("str_of", Val, Val)
VALS = {"any": SVal, "str": SStr, "tuple": STup, "mix": SMix}


def ty_of(o):
    for c, n in ((SStr, "str"), (STup, "tuple"), (SMix, "mix"), ((str, bytes), "str"), (tuple, "tuple"), (type(None), "none")):
        if isinstance(o, c):
            return n
    return None if isinstance(o, SVal) or num(o) is None else "number"


def val_class(a, b):
    ca, cb = (SStr if isinstance(x, str) else type(x) if isinstance(x, SVal) else SVal for x in (a, b))
    return ca if ca is cb else SVal


def val_term(o):
    if isinstance(o, SVal):
        return o.t
    n = num(o)
    if n is not None:
        return _num2val(n.rterm)
    if isinstance(o, (str, bytes, type(None))):
        if o not in _CONSTS:
            _CONSTS[o] = z3.Const(f"val:{o!r}", Val)
        return _CONSTS[o]
    return None


# ====================================================================== uninterpreted mathematics
_rint = z3.Function("rint", z3.RealSort(), z3.IntSort())
_log = z3.Function("log", z3.RealSort(), z3.RealSort())
_exp = z3.Function("exp", z3.RealSort(), z3.RealSort())
_rnd = {}


def _once(key, facts):
    """Instantiate the axioms of a term once per path."""
    for f in facts:
        E.add(f)


def ite(c, a, b):
    c = bt(c)
    c = z3.simplify(c)
    if is_t(c):
        return a
    if is_f(c):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(c, bt(a), bt(b)))
    x, y = num(a), num(b)
    if x is not None and y is not None:
        nan = F if is_f(x.nan) and is_f(y.nan) else z3.simplify(z3.If(c, x.nan, y.nan))
        if x.r == y.r:
            return SNum(x.r, x.isint and y.isint, nan)
        if x.isint and y.isint:
            return SNum.of_term(z3.If(c, x.term, y.term), nan)
        if x.r[1] == y.r[1] and x.r[1] != ONE:
            top = ite(SBool(c), SNum((x.r[0], ONE), False), SNum((y.r[0], ONE), False))
            return SNum(mul_rat(top.r, (ONE, x.r[1])), False, nan)
        if x.integral() and y.integral():
            r = SNum.of_term(z3.If(c, SNum(x.r, True).term, SNum(y.r, True).term))
            return SNum(r.r, False, nan)
        return SNum.of_term(z3.If(c, x.rterm, y.rterm), nan)
    u, v = val_term(a), val_term(b)
    if u is not None and v is not None:
        if u.eq(v) and type(a) is type(b):
            return a
        for o in (a, b):
            if hasattr(type(o), "__pyvc_wide__"):
                return o.at_type(z3.If(c, u, v))
        return val_class(a, b)(z3.If(c, u, v))
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, p, q) for p, q in zip(a, b))
    if hasattr(a, "__pyvc_ite__"):
        return a.__pyvc_ite__(c, b)
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def floor(x):
    if x.integral():
        return SNum(x.r, True, x.nan)
    if x.is_const():
        v = x.r[0].const_value()
        return SNum.const(v.numerator // v.denominator)
    p, q = x.r
    if not q.is_const() and E.positive(q):
        return fdiv(p, q, x.nan)
    return SNum.of_term(z3.ToInt(x.term), x.nan)


_fdiv_i = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
_fdiv_r = z3.Function("fdiv_r", z3.RealSort(), z3.RealSort(), z3.IntSort())


def fdiv(p, q, nan=F):
    """Floor of the quotient of two polynomials, q > 0."""
    d = p.divide(q)
    if d is not None and d.integral():
        return SNum((d, ONE), True, nan)
    if p.integral() and q.integral():
        a, b = p.to_z3(False), q.to_z3(False)
        t = _fdiv_i(a, b)
        facts = [b * t <= a, a < b * t + b]
    else:
        a, b = p.to_z3(True), q.to_z3(True)
        t = _fdiv_r(a, b)
        r = z3.ToReal(t)
        facts = [b * r <= a, a < b * r + b]
    if not is_f(nan):
        facts = [Or(nan, And(facts))]
    _once(("fdiv", t), facts)
    return SNum.of_term(t, nan)


def ceil(x):
    return -floor(-x)


def trunc(x):
    if x.integral():
        return SNum(x.r, True, x.nan)
    return ite(x >= 0, floor(x), ceil(x))


def rint(x, keep=False):
    """Nearest integer (ties: either neighbour, which one is left open)."""
    if x.integral():
        r = SNum(x.r, True, x.nan)
    elif x.is_const():
        r = SNum.const(round(x.r[0].const_value()))
    else:
        t = _rint(x.term)
        tr = z3.ToReal(t)
        _once(("rint", t), [Or(x.nan, And(2 * tr <= 2 * x.term + 1, 2 * tr >= 2 * x.term - 1))])
        r = SNum.of_term(t, x.nan)
    return SNum(r.r, False, r.nan) if keep else r


def log(x):
    x = num(x)
    if x.is_const() and x.r[0].const_value() == 1:
        return SNum.const(0.0)
    pos = z3.simplify(Or(x.nan, x.rterm > 0))
    if not is_t(pos) and not E.fork(pos):
        raise Unsupported("logarithm of a possibly non-positive number")
    # log(exp(y)) = y
    t = z3.simplify(x.rterm)
    if z3.is_app(t) and t.decl().name() == "exp":
        return SNum.of_term(t.children()[0], x.nan)
    a = _log(x.rterm)
    E.trust("numpy.log/exp: inverse, strictly increasing, exp > 0, log 1 = 0")
    _once(("log", a), [Or(x.nan, _exp(a) == x.rterm), a <= x.rterm - 1, (a > 0) == (x.rterm > 1), (a < 0) == (x.rterm < 1)])
    if x.integral():
        E.add(a != 1)  # e is not an integer
    _pairs(a, x, "log")
    return SNum.of_term(a, x.nan)


def exp(x):
    x = num(x)
    if x.is_const() and x.r[0].const_value() == 0:
        return SNum.const(1.0)
    # exp(log(y)) = y
    if x.r[1] == ONE and len(x.r[0].m) == 1:
        (k, c), = x.r[0].m.items()
        if c == 1 and len(k) == 1 and k[0][1] == 1:
            t = _ATOMS[k[0][0]]
            if z3.is_app(t) and t.decl().name() == "log":
                return SNum.of_term(t.children()[0], x.nan)
    a = _exp(x.rterm)
    E.trust("numpy.log/exp: inverse, strictly increasing, exp > 0, log 1 = 0")
    _once(("exp", a), [a > 0, _log(a) == x.rterm, a >= x.rterm + 1])
    _pairs(a, x, "exp")
    return SNum.of_term(a, x.nan)


def _pairs(a, x, which):
    """Monotonicity, instantiated for the pairs of arguments of log (exp)."""
    if which == "log":
        args, img = x.rterm, a
    else:
        args, img = a, x.rterm  # exp(x) = a: pair (a, x) for log
    lst = E.axioms.setdefault("log", [])
    key = atom_key(args)
    if any(k == key and fi == len(E.idx) for k, _, _, fi in lst):
        pass
    # forget pairs of abandoned paths: facts are re-added, harmless
    for _, u, v, _ in lst[-12:]:
        E.add(Implies(And(u > 0, args > 0), And((u < args) == (v < img), (u == args) == (v == img))))
    lst.append((key, args, img, len(E.idx)))
    E.journal.append(lst.pop)


def round_places(x, n):
    """Rounding to n decimals: |error| <= 10^-n / 2, idempotent, monotone, keeps integers."""
    x = num(x)
    if x.integral():
        return x
    if x.is_const():
        return SNum.const_frac(Fraction(round(x.r[0].const_value(), int(n))), False)
    n = int(n)
    if n not in _rnd:
        _rnd[n] = z3.Function(f"round{n}", z3.RealSort(), z3.RealSort())
    f = _rnd[n]
    t = z3.simplify(x.term)
    if z3.is_app(t) and t.decl().eq(f):
        return x
    a = f(x.term)
    half = z3.RealVal(str(Fraction(1, 2 * 10**n)))
    E.trust("numpy.round(x, n): within half a unit of the last place, idempotent, monotone")
    facts = [Or(x.nan, And(a - x.term <= half, x.term - a <= half)), f(a) == a]
    for w in (0, 1):  # integers are fixed points
        facts += [Implies(x.term >= w, a >= w), Implies(x.term <= w, a <= w)]
    lst = E.axioms.setdefault(("round", n), [])
    for u, v in lst[-8:]:
        for w in (u, v):  # also the fixed points
            facts.append(Implies(w <= x.term, v <= a))
            facts.append(Implies(x.term <= w, a <= v))
    lst.append((x.term, a))
    E.journal.append(lst.pop)
    _once(("round", a), facts)
    return SNum.of_term(a, x.nan)


# ====================================================================== substitution
def parse(t, quotients=False):
    """SNum of a z3 arithmetic term, with sums and products (and quotients) opened up."""
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return SNum.of_term(t)
    if z3.is_app(t):
        kind = t.decl().kind()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            xs = [parse(c, quotients) for c in t.children()]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if kind == z3.Z3_OP_ADD else r * x if kind == z3.Z3_OP_MUL else r - x
            return r
        if kind == z3.Z3_OP_DIV and quotients:
            x, y = (parse(c, True) for c in t.children())
            return SNum(mul_rat(x.r, (y.r[1], y.r[0])), False)
        if kind == z3.Z3_OP_UMINUS:
            return -parse(t.children()[0], quotients)
        if kind == z3.Z3_OP_TO_REAL:
            r = parse(t.children()[0], quotients)
            return SNum(r.r, False, r.nan)
    return SNum.of_term(t)


def subst(v, k, i):
    """Value v with the generic index k replaced by the index i."""
    i = zint(i)
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, (k, i)))
    if isinstance(v, SNum):
        return _subst_rat(v, k, i)
    if isinstance(v, SVal):
        return v.at_type(z3.substitute(v.t, (k, i)))
    if v is None or isinstance(v, (bool, int, float, str, Fraction)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if hasattr(v, "__pyvc_subst__"):
        return v.__pyvc_subst__(k, i)
    raise Unsupported(f"a {type(v).__name__} built in a summarised loop")


def _subst_rat(v, k, i):
    def sp(p):
        r = ZERO
        for m, c in p.m.items():
            t = Poly.const(c)
            for a, e in m:
                old = _ATOMS[a]
                s = parse(z3.substitute(old, (k, i)))
                for _ in range(e):
                    t = t * s.r[0]
            r = r + t
        return r

    q = make_rat(sp(v.r[0]), sp(v.r[1]))
    return SNum(q, v.isint, z3.substitute(v.nan, (k, i)))


def replace_atom(x, a, r):
    """The number x with the atom a replaced by the number r."""
    def sp(p):
        out = (ZERO, ONE)
        for m, c in p.m.items():
            t = (Poly.const(c), ONE)
            for b, e in m:
                f = r.r if b == a else (Poly({((b, 1),): Fraction(1)}), ONE)
                for _ in range(e):
                    t = mul_rat(t, f)
            out = add_rat(out, t)
        return out

    p, q = sp(x.r[0]), sp(x.r[1])
    return SNum(mul_rat(p, (q[1], q[0])), x.isint, x.nan)
