"""Symbolic interpretation of the contracts (theorems)."""
from __future__ import annotations

import inspect
import os
import subprocess
import sys
import tempfile
import time
import traceback

import z3

import engine as en
import seq as sq
import symnp
from engine import And, E, F, Implies, Not, Or, PathEnd, SBool, SNum, SVal, T, Unsupported, Val, bt, is_f, is_t, ite, num, real, zint
from seq import SList


class Check:
    def __init__(self, label):
        self.label = label
        self.status = "proved"
        self.detail = ""
        self.models = []
        self.backends = {}
        self.instances = 0
        self.live = False  # some instance is not vacuous


ORDER = {"proved": 0, "unknown": 1, "unsupported": 2, "refuted": 3}


class SymV:
    """The verifier's view of a contract: symbolic inputs, obligations."""

    symbolic = True

    def __init__(self, cs, small=None, timeout=8000):
        self.picked = {}
        self.cs = cs
        self.np = sys.modules["numpy"]
        self.small = small  # None, or the concrete value of every length
        self.timeout = timeout
        self.retries = 0
        self.checks = {}
        self.covers = 0
        self.stubs = []
        self.inputs = []
        self.solver_s = 0.0
        self.cover_sat = 0
        self.exact = True  # counterexamples determine the concrete run
        self.backends = {}
        self.exc_label = "no unexpected exception"

    # ---------------------------------------------------------------- inputs
    def begin_path(self):
        self.inputs = []
        self.stubs = []

    def _decl(self, name, kind, obj):
        self.inputs.append((name, kind, obj))
        return obj

    def int(self, name, lo=None, hi=None, draw=None):
        v = SNum.of_term(z3.Int(name))
        self._range(v, lo, hi)
        return self._decl(name, "int", v)

    def real(self, name, lo=None, hi=None, nan=False, draw=None):
        v = SNum.of_term(z3.Real(name), z3.Bool(name + "?nan") if nan else F)
        self._range(v, lo, hi)
        return self._decl(name, "real", v)

    def float_int(self, name, lo=None, hi=None, draw=None):
        """An integer stored as a float."""
        v = SNum.of_term(z3.Int(name))
        self._range(v, lo, hi)
        self._decl(name, "fint", v)
        return SNum(v.r, False, F)

    def _range(self, v, lo, hi):
        if lo is not None:
            E.add(Or(v.nan, (SNum(v.r, v.isint) >= lo).t))
        if hi is not None:
            E.add(Or(v.nan, (SNum(v.r, v.isint) <= hi).t))

    def boolean(self, name):
        return self._decl(name, "bool", SBool(z3.Bool(name)))

    def choice(self, name, options):
        """One of the options; every one is examined."""
        options = list(options)
        t = z3.Int(name)
        E.add(And(t >= 0, t < len(options)))
        self._decl(name, "choice", SNum.of_term(t))
        for i in range(len(options) - 1):
            if E.fork(t == i):
                break
        else:
            i = len(options) - 1
        self.picked[name] = options[i]
        return options[i]

    def chosen(self, name):
        """The option taken by an earlier choice."""
        return self.picked[name]

    def as_floats(self, a):
        return a.astype("f8")

    def length(self, name, lo=0, hi=None):
        if self.small is not None:
            n = max(lo, self.small)
            if hi is not None:
                n = min(n, hi)
            self._decl(name, "const", n)
            return n
        return self.int(name, lo, hi)

    def array(self, name, n, kind="f8", nan=False, lo=None, hi=None, draw=None):
        sort = {"f8": z3.RealSort(), "i8": z3.IntSort(), "bool": z3.BoolSort(), "O": Val}[kind]
        g = z3.Function(name, z3.IntSort(), sort)
        gn = z3.Function(name + "?nan", z3.IntSort(), z3.BoolSort())

        def f(i):
            i = zint(num(i).term)
            if kind == "bool":
                return SBool(g(i))
            if kind == "O":
                return SVal(g(i))
            v = SNum.of_term(g(i), gn(i) if nan else F)
            self._range(v, lo, hi)
            return v

        a = symnp.ndarray(n, f, kind)
        self._decl(name, "array", (g, gn if nan else None, n, kind))
        return a

    def build(self, n, f, kind="f8"):
        """The array of f(0), ..., f(n-1)."""
        return symnp.ndarray(sq.norm_n(n), lambda i: symnp.conv(f(i), kind), kind)

    def table(self, rows, cols, f, kind="f8"):
        """The matrix of f(i, j)."""
        from matrix import Mat

        return Mat(sq.norm_n(rows), sq.norm_n(cols), lambda i, j: symnp.conv(f(i, j), kind), kind)

    def unless(self, missing, x):
        """x, or NaN if missing."""
        x = num(x)
        return SNum(x.r, False, en.z3.simplify(en.Or(x.nan, bt(missing))))

    def val(self, name, kind="any"):
        if kind == "int":
            return self.int(name)
        v = en.VALS[kind](z3.Const(name, Val))
        self._decl(name, "val", (v, kind))
        return v

    def vals(self, name, n, distinct=True, kind="any", draw=None):
        """A list of n (distinct) hashable values: any/str/tuple/mix (opaque) or int."""
        cls = en.VALS.get(kind)
        sort = z3.IntSort() if cls is None else Val
        g = z3.Function(name, z3.IntSort(), sort)
        inv = z3.Function(name + "?inv", sort, z3.IntSort())
        n_ = sq.norm_n(n)
        wrap = SNum.of_term if cls is None else cls

        def f(i):
            i = num(i)
            if distinct and isinstance(n_, int):
                E.add(Implies(And((i >= 0).t, (i < num(n_)).t), inv(g(i.term)) == i.term))
            return wrap(g(i.term))

        self._decl(name, "vals", (g, n, kind))
        if isinstance(n_, int):
            items = [f(i) for i in range(n_)]
            if distinct and n_ > 1:
                E.add(z3.Distinct([sq.sym_term(x) for x in items]))
            return sq.TList(items)
        if distinct:
            i = z3.Int("i!vals")
            E.add(z3.ForAll([i], Implies(And(i >= 0, i < num(n_).term), inv(g(i)) == i), patterns=[g(i)]))

        def position(v):
            # the position of an element that is given by its position
            return v.arg(0) if z3.is_app(v) and v.decl().eq(g) and E.proves(And(v.arg(0) >= 0, v.arg(0) < num(n_).term)) else inv(v)

        if distinct:
            E.distinct[g.get_id()] = position
        return SList(n_, f, position if distinct else None)

    def function(self, name, *sorts, out="bool", lo=None, hi=None):
        """An arbitrary function of integers/reals (an abstract callee)."""
        ss = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "val": Val}
        g = z3.Function(name, *[ss[s] for s in sorts], ss[out])
        self._decl(name, "function", None)
        self.exact = False

        def call(*a):
            ts = []
            for s, x in zip(sorts, a):
                ts.append(x.t if s == "val" else num(x).rterm if s == "real" else num(x).term if s == "int" else bt(x))
            t = g(*ts)
            if out == "bool":
                return SBool(t)
            if out == "val":
                return SVal(t)
            v = SNum.of_term(t)
            self._range(v, lo, hi)
            return v

        return call

    def ghost_int(self, name, spec, value):
        """The integer characterised by spec."""
        v = SNum.of_term(z3.Int(name))
        E.assume(bt(spec(v)))
        return v

    def rng(self, name="seed"):
        self.exact = False
        return symnp.RandomState(0)

    def seeded(self):
        """All randomness so far came from the generators given."""
        return symnp.UNSEEDED[0] == 0

    # ---------------------------------------------------------------- logic
    def bool(self, x):
        """Truth value without forking."""
        if hasattr(x, "__pyvc_array__"):
            x = x.truth()
        return SBool(bt(x))

    def and_(self, *a):
        return SBool(And([bt(x) for x in a]))

    def or_(self, *a):
        return SBool(Or([bt(x) for x in a]))

    def not_(self, a):
        return SBool(Not(bt(a)))

    def implies(self, a, b):
        return SBool(Implies(bt(a), bt(b)))

    def iff(self, a, b):
        return SBool(bt(a) == bt(b))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        return SBool(bt(sq.eq(a, b)))

    def le(self, a, b):
        return SBool(bt(a <= b))

    def lt(self, a, b):
        return SBool(bt(a < b))

    def same(self, a, b):
        """Identical including NaN."""
        a, b = num(a), num(b)
        return SBool(And(a.nan == b.nan, Or(a.nan, (SNum(a.r, a.isint) == SNum(b.r, b.isint)).t)))

    def isnan(self, a):
        return SBool(num(a).nan)

    def forall(self, n, fn):
        return SBool(sq.forall(n, fn))

    def exists(self, n, fn):
        return SBool(sq.exists(n, fn))

    def len(self, x):
        return sq.b_len(x)

    def cases(self, x):
        """The number with its case distinctions decided (one path per case)."""
        if callable(x):
            was, E.splitting = E.splitting, True
            try:
                x = x()
            finally:
                E.splitting = was
        if isinstance(x, (bool, SBool)):
            return x
        x = num(x)
        for _ in range(50):
            for a in sorted(x.r[0].atoms() | x.r[1].atoms()):
                t = en._ATOMS[a]
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    c, p, q = t.children()
                    r = en.parse(p if E.fork(c) else q, True)
                    x = en.replace_atom(x, a, r)
                    break
            else:
                return x
        raise Unsupported("too many cases")

    def list(self, x):
        return sq.b_list(x)

    def at(self, x, i):
        s = sq.symseq(x)
        if s is not None:
            return s.at(i)
        return sq.pick(list(x), num(i) if not isinstance(i, int) else i)

    def sum(self, x):
        return symnp.np_sum(x)

    def reals(self, name, n, lo=None, hi=None, draw=None):
        """A list of numbers."""
        return sq.TList(self.array(name, n, lo=lo, hi=hi, draw=draw))

    def is_int(self, x):
        """Integer-valued (mathematically)."""
        x = num(x)
        if x.integral():
            return SBool(T)
        return SBool(And(Not(x.nan), z3.IsInt(x.rterm)))

    def near_int(self, x):
        return self.is_int(x)

    def log(self, x):
        return en.log(real(x))

    def exp(self, x):
        return en.exp(real(x))

    def rint(self, x):
        return en.rint(num(x))

    def floor(self, x):
        return en.floor(num(x))

    def seq(self, n, f):
        """A list built from a formula."""
        n = sq.norm_n(n)
        return sq.TList([f(i) for i in range(n)]) if isinstance(n, int) else SList(n, f)

    # ---------------------------------------------------------------- proof steps
    def assume(self, c):
        if not isinstance(c, (bool, SBool)):
            c = self.bool(c)
        c = bt(c)
        if is_f(c):
            raise PathEnd
        E.assume(c)

    def proved(self, cond):
        """Is the condition known on this path? (for contracts of callees: chooses how a fact is presented)"""
        return E.proves(bt(cond))

    def know(self, cond):
        """A fact that a contract guarantees (not a precondition)."""
        E.add(bt(cond))

    def cover(self):
        """Reachability: the preconditions so far can be met."""
        self.covers += 1

    def raises(self, fn, *types):
        """Does the call raise (one of types)? Other exceptions propagate."""
        try:
            fn()
        except types or (Exception,) as e:
            en.not_ours(e)
            return True
        return False

    def call(self, fn):
        """(exception or None, value)"""
        try:
            return None, fn()
        except Exception as e:  # noqa: BLE001
            en.not_ours(e)
            return e, None

    def _check(self, label):
        return self.checks.setdefault(label, Check(label))

    def check(self, cond, label):
        c = self._check(label)
        c.instances += 1
        if hasattr(cond, "__pyvc_array__"):
            cond = cond.all()
        goal = z3.simplify(bt(cond))
        if not c.live:
            c.live = self.satisfiable()
        if is_t(goal):
            c.backends["simplifier"] = c.backends.get("simplifier", 0) + 1
            return
        st, model, who, detail = self.solve(goal)
        c.backends[who] = c.backends.get(who, 0) + 1
        if ORDER[st] > ORDER[c.status]:
            c.status, c.detail = st, detail
        if st == "refuted":
            c.models.append(self.extract(model))
        if st == "proved":
            E.add(goal)

    def check_forall(self, n, fn, label):
        """fn(k) for every 0 <= k < n; fn may itself contain checks."""
        n = sq.norm_n(n)
        if isinstance(n, int):
            for i in range(n):
                self._nested(lambda i=i: fn(i), label)
            return
        k = SNum.of_term(E.fresh("k", z3.IntSort()))

        def body():
            E.assume(And((k >= 0).t, (k < num(n)).t))
            return fn(k)

        self._nested(body, label)

    def _nested(self, body, label):
        self._check(label)

        def go():
            r = body()
            if r is not None:
                self.check(r, label)

        for o in E.explore(go):
            if o.kind == "exc":
                self.exception(o.value, label)

    def per_path(self, fn):
        """Run fn on all its paths in a nested exploration."""
        for o in E.explore(fn):
            if o.kind == "exc":
                self.exception(o.value, self.exc_label)

    def exception(self, e, label):
        """An exception of the program that the contract does not allow."""
        c = self._check(self.exc_label)
        c.instances += 1
        st, model, who, detail = self.solve(F)
        c.backends[who] = c.backends.get(who, 0) + 1
        if st == "proved":
            return
        at = [f"{f.filename.rsplit('/ConfigSpace/', 1)[-1]}:{f.lineno} {f.line}" for f in traceback.extract_tb(e.__traceback__)]
        tb = "\n".join(at[-5:])
        if ORDER[st] > ORDER[c.status]:
            c.status, c.detail = st, f"{type(e).__name__}: {str(e)[:200]}\n{tb}"
        if st == "refuted":
            c.models.append(self.extract(model))

    # ---------------------------------------------------------------- solver
    def satisfiable(self, timeout=1000):
        """Vacuity guard: the facts of this path are not contradictory."""
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(E.all_facts())
        r = s.check()
        if r == z3.sat:
            self.cover_sat += 1
        return r != z3.unsat

    def solve(self, goal):
        """(status, model, back end, detail) of: facts imply goal."""
        t0 = time.time()
        facts = E.all_facts()
        q = Not(goal)
        try:
            s = z3.SimpleSolver()
            s.set("timeout", 1000)
            s.set("mbqi", False)
            s.add(facts)
            s.add(q)
            if s.check() == z3.unsat:
                return "proved", None, "z3", ""
            s = z3.Solver()
            s.set("timeout", min(self.timeout, 3000))
            s.add(facts)
            s.add(q)
            r = s.check()
            if r == z3.unsat:
                return "proved", None, "z3", ""
            if r == z3.sat:
                return "refuted", s.model(), "z3", self._show(s.model())
            # other strategies
            for setup in (self._z3_nl, self._z3_auto):
                s = setup()
                s.set("timeout", self.timeout)
                s.add(facts)
                s.add(q)
                r = s.check()
                if r == z3.unsat:
                    return "proved", None, "z3", ""
                if r == z3.sat:
                    return "refuted", s.model(), "z3", self._show(s.model())
            if self._cvc5(facts, q):
                return "proved", None, "cvc5", ""
            # the order of case splits may matter: a few obligations are tried again with others
            self.retries += 1
            if self.small is None and self.retries <= 3:
                for seed in range(2, 8):
                    s = self._z3_nl() if seed % 3 == 0 else z3.SimpleSolver()
                    s.set("timeout", self.timeout // 2)
                    s.set("mbqi", False)
                    s.set("random_seed", seed)
                    s.add(facts)
                    s.add(q)
                    if s.check() == z3.unsat:
                        return "proved", None, "z3", ""
            return "unknown", None, "none", "no back end decided the obligation"
        finally:
            self.solver_s += time.time() - t0

    @staticmethod
    def _z3_nl():
        s = z3.Solver()
        s.set("arith.solver", 2)
        s.set("mbqi", False)
        return s

    @staticmethod
    def _z3_auto():
        return z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()

    def _cvc5(self, facts, q):
        s = z3.Solver()
        s.add(facts)
        s.add(q)
        text = s.to_smt2()
        try:
            import cvc5
        except ImportError:
            return False
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(self.timeout))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out = c.invoke(slv, sm)
                if "unsat" in str(out):
                    return True
        except Exception:  # noqa: BLE001
            return False
        return False

    def _show(self, m):
        return " ".join(f"{k}={v}" for k, v in self.extract(m).items())[:600]

    def extract(self, m):
        """Concrete values of the declared inputs in a model."""
        out = {}
        names = {}

        def ev(t):
            return m.eval(t, model_completion=True)

        def number(t):
            v = ev(t)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                f = v.as_fraction()
                return [f.numerator, f.denominator]
            if z3.is_algebraic_value(v):
                f = v.approx(20).as_fraction()
                return [f.numerator, f.denominator]
            return 0

        def value(t, kind="any"):
            if kind == "int":
                return number(t)
            v = "v" + str(names.setdefault(str(ev(t)), len(names)))
            if kind == "mix" and not is_t(ev(en.is_str(t))):
                v = int(v[1:])
            return v

        for name, kind, o in self.inputs:
            if kind in ("int", "fint", "choice"):
                out[name] = number(o.term)
            elif kind == "real":
                out[name] = None if is_t(ev(o.nan)) else number(o.term)
            elif kind == "bool":
                out[name] = is_t(ev(o.t))
            elif kind == "const":
                out[name] = o
            elif kind == "val":
                out[name] = value(o[0].t, o[1])
            elif kind in ("array", "vals"):
                g, n = o[0], o[2] if kind == "array" else o[1]
                n = n if isinstance(n, int) else number(n.term)
                if n > 60 or n < 0:
                    out[name] = None
                    continue
                items = []
                for i in range(n):
                    t = g(z3.IntVal(i))
                    if kind == "vals":
                        items.append(value(t, o[2]))
                    elif o[3] == "O":
                        items.append(value(t))
                    elif o[3] == "bool":
                        items.append(is_t(ev(t)))
                    elif o[1] is not None and is_t(ev(o[1](z3.IntVal(i)))):
                        items.append(None)
                    else:
                        items.append(number(t))
                out[name] = items
        return out

    # ---------------------------------------------------------------- stubs
    def stub(self, owner, name, fn):
        """Replace a callee by its contract on this path."""
        self.exact = False
        old = owner.__dict__[name] if name in getattr(owner, "__dict__", {}) else getattr(owner, name)
        setattr(owner, name, fn)
        self.stubs.append((owner, name, old))

    def contract(self, owner, name, fn, text):
        """The callee obeys its contract (checked elsewhere, or assumed: the text says which); its body is not run."""
        if not hasattr(owner, name):
            raise Unsupported(f"no {name} in {getattr(owner, '__name__', owner)}: the contracts are out of step")
        E.trust(f"contract of {name}: {text}")
        self.stub(owner, name, by_name(getattr(owner, name), fn, name))

    def invariant(self, key, holds, numbers=(), arrays=(), bags=(), start=None):
        """Invariant of a loop; key is "function:number of the for loop" or "function:while<number>"."""
        E.invariants[key] = sq.Invariant(key, self, holds, numbers, [sq.Levels(**a) for a in arrays], bags, start)

    def unstub(self):
        E.invariants.clear()
        E.distinct.clear()
        E.somewhere.clear()
        for owner, name, old in reversed(self.stubs):
            setattr(owner, name, old)
        self.stubs = []


def by_name(real, fn, name):
    """Calls with the parameters of the real function, handed on by name."""
    try:
        sig, own = inspect.signature(real), inspect.signature(fn)
    except (TypeError, ValueError):
        return fn
    rest = any(p.kind is p.VAR_KEYWORD for p in own.parameters.values())
    names = {p.name for p in own.parameters.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    if any(p.kind in (p.VAR_POSITIONAL, p.POSITIONAL_ONLY) for p in [*sig.parameters.values(), *own.parameters.values()]):
        return fn
    needed = {p.name for p in own.parameters.values() if p.default is p.empty and p.name in names}
    if not needed <= set(sig.parameters) or not (rest or set(sig.parameters) <= names):
        raise Unsupported(f"the parameters of {name} are not those of its contract")

    def call(*a, **k):
        try:
            b = sig.bind(*a, **k)
        except TypeError as e:
            raise Unsupported(f"call of {name}: {e}") from e
        b.apply_defaults()
        return fn(**b.arguments)

    return call


FULLERR = None  # for debugging: called with the exception that stopped a theorem


def out_of_step(e):
    """Raised by the contract itself, because a private name or signature changed."""
    tb = traceback.extract_tb(e.__traceback__)
    return isinstance(e, (AttributeError, ImportError, NameError, TypeError)) and bool(tb) and "/contracts/" in tb[-1].filename


def run_theorem(th, cs, small=None, timeout=8000, budget=100):
    """Explore all paths of the contract; result dict."""
    E.reset()
    E.n_paths = 0
    E.max_paths = 20000
    E.deadline = time.time() + budget
    E.trusted = set()
    E.solver_s = 0.0
    v = SymV(cs, small, timeout)
    problem = None
    completed = [0]
    t0 = time.time()

    def go():
        v.begin_path()
        try:
            th.fn(v)
            completed[0] += 1
        except (PathEnd, Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            en.not_ours(e)
            if out_of_step(e):
                raise Unsupported(f"the contract does not fit the code: {type(e).__name__}: {e}") from e
            completed[0] += 1
            v.exception(e, "")
        finally:
            v.unstub()

    try:
        E.explore(go)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/ConfigSpace/" in f.filename or "/contracts/" in f.filename), "")
        problem = f"{e} at {where}"
        if FULLERR is not None:
            FULLERR(e)
        v.unstub()
    except Exception as e:  # noqa: BLE001  an internal error of the verifier
        problem = "internal: " + "".join(traceback.format_exception(e))[-800:]
        v.unstub()
    for c in v.checks.values():
        if c.instances and not c.live and c.label != v.exc_label and c.status == "proved":
            c.status, c.detail = "unsupported", "vacuous: the assumptions are contradictory on every path"
    if not problem and not completed[0]:
        problem = "vacuous: no path satisfies the preconditions"
    return dict(
        cover=dict(paths_completed=completed[0], reachable_obligations=sum(c.live for c in v.checks.values()), satisfiable=v.cover_sat),
        checks=[
            dict(label=c.label, status=c.status, detail=c.detail, models=c.models[:4], backends=c.backends, instances=c.instances)
            for c in v.checks.values()
        ],
        exact=v.exact and not E.trusted, problem=problem, paths=E.n_paths, completed=completed[0], trusted=sorted(E.trusted),
        solver_s=round(v.solver_s + E.solver_s, 3), wall=round(time.time() - t0, 2),
    )
