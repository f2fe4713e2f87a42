"""Concrete interpretation of the contracts: replays and CPython cross-checks.

Runs under the repository's interpreter with the unmodified code and real numpy.
Inputs come from a counterexample of the verifier or are drawn at random.
"""
from __future__ import annotations

import math
import random

import numpy as np


class Reject(BaseException):
    """A precondition of the contract is not met by the inputs."""


class Violated(BaseException):
    """A postcondition does not hold on the real code."""


class ConcV:
    symbolic = False
    np = np

    def __init__(self, values=None, seed=0, exact=True):
        self.picked = {}
        self.values = values or {}
        self.rnd = random.Random(seed)
        self.seed = seed
        self.used = {}
        self.n_checks = 0
        self.patches = []
        self.size = self.rnd.choice([1, 2, 3, 5, 8])

    # ---------------------------------------------------------------- inputs
    def _get(self, name, draw, conv=lambda x: x):
        if name in self.values and self.values[name] is not None:
            v = conv(self.values[name])
        else:
            v = draw()
        self.used[name] = v
        return v

    @staticmethod
    def _num(x):
        return x[0] / x[1] if isinstance(x, (list, tuple)) else x

    def int(self, name, lo=None, hi=None, draw=None):
        rlo, rhi = (lo, hi) if draw is None else draw

        def draw():
            lo, hi = rlo, rhi
            a = lo if lo is not None else -20
            b = hi if hi is not None else a + self.rnd.choice([0, 1, 2, 3, 5, 12, 40, 1000])
            a, b = int(math.ceil(a)), int(math.floor(b))
            return self.rnd.choice([a, b, self.rnd.randint(a, max(a, b)), self.rnd.randint(a, max(a, b))])

        return self._get(name, draw, lambda x: int(self._num(x)))

    def real(self, name, lo=None, hi=None, nan=False, draw=None):
        if nan and name in self.values and self.values[name] is None:
            return np.float64("nan")

        rlo, rhi = (lo, hi) if draw is None else draw

        def draw():
            lo, hi = rlo, rhi
            if nan and self.rnd.random() < 0.2:
                return np.float64("nan")
            a = float(lo) if lo is not None else -10.0
            b = float(hi) if hi is not None else a + self.rnd.choice([1.0, 2.5, 20.0, 1000.0])
            c = self.rnd.random()
            if c < 0.1:
                return np.float64(a)
            if c < 0.2:
                return np.float64(b)
            if c < 0.4:
                return np.float64(min(max(round(self.rnd.uniform(a, b)), a), b))
            return np.float64(self.rnd.uniform(a, b))

        return self._get(name, draw, lambda x: np.float64(self._num(x)))

    def float_int(self, name, lo=None, hi=None, draw=None):
        return np.float64(self.int(name, lo, hi, draw))

    def boolean(self, name):
        return self._get(name, lambda: self.rnd.random() < 0.5)

    def choice(self, name, options):
        options = list(options)
        self.picked[name] = options[self._get(name, lambda: self.rnd.randrange(len(options)))]
        return self.picked[name]

    def chosen(self, name):
        return self.picked[name]

    def as_floats(self, a):
        return a.astype(float)

    def length(self, name, lo=0, hi=None):
        def draw():
            n = max(lo, self.rnd.choice([0, 1, 2, 3, 4, 7]))
            return n if hi is None else min(n, hi)

        return self._get(name, draw)

    def array(self, name, n, kind="f8", nan=False, lo=None, hi=None, draw=None):
        n = int(n)
        if draw is not None:
            lo, hi = draw

        def one():
            if kind == "bool":
                return self.rnd.random() < 0.5
            if kind == "O":
                return self.rnd.choice(["v0", "v1", "v2", "v3", "v4"])
            if nan and self.rnd.random() < 0.3:
                return None
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + 8
            if kind == "i8":
                return self.rnd.randint(int(a), int(b))
            return self.rnd.choice([float(a), float(b), self.rnd.uniform(a, b), float(min(max(self.rnd.randint(math.floor(a), math.ceil(b)), a), b))])

        def conv(x):
            xs = [float("nan") if v is None else self._num(v) for v in x] if kind != "O" else list(x)
            r = np.empty(len(xs), dtype={"f8": np.float64, "i8": np.int64, "bool": np.bool_, "O": object}[kind])
            for i, v in enumerate(xs):
                r[i] = v
            return r

        r = self._get(name, lambda: conv([one() for _ in range(n)]), conv)
        if len(r) != n:
            raise Reject
        return r

    POOL = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"]

    @staticmethod
    def _of_kind(x, kind):
        if kind == "tuple" and isinstance(x, str):
            return (int(x[1:]), x)
        return x

    def _pool(self, kind, m=10):
        if kind == "int":
            return list(range(-3, m))
        if kind == "mix":
            return [i if i % 2 else f"v{i}" for i in range(m)]
        return [f"v{i}" for i in range(m)]

    def val(self, name, kind="any"):
        return self._get(name, lambda: self._of_kind(self.rnd.choice(self._pool(kind)), kind), lambda x: self._of_kind(x, kind))

    def vals(self, name, n, distinct=True, kind="any", draw=None):
        n = int(n)

        def draw():
            pool = self._pool(kind, max(10, n + 3)) if distinct else self._pool(kind, 4)
            xs = self.rnd.sample(pool, n) if distinct else [self.rnd.choice(pool) for _ in range(n)]
            return [self._of_kind(x, kind) for x in xs]

        r = self._get(name, draw, lambda xs: [self._of_kind(x, kind) for x in xs])
        if len(r) != n:
            raise Reject
        return r

    def build(self, n, f, kind="f8"):
        dtype = {"f8": np.float64, "i8": np.int64, "bool": np.bool_, "O": object}[kind]
        return np.array([f(i) for i in range(int(n))], dtype=dtype)

    def table(self, rows, cols, f, kind="f8"):
        dtype = {"f8": np.float64, "i8": np.int64, "bool": np.bool_, "O": object}[kind]
        return np.array([[f(i, j) for j in range(int(cols))] for i in range(int(rows))], dtype=dtype).reshape(int(rows), int(cols))

    def unless(self, missing, x):
        return np.float64("nan") if missing else x

    def function(self, name, *sorts, out="bool", lo=None, hi=None):
        memo = {}

        def call(*a):
            key = tuple(float(x) if s == "real" else x for s, x in zip(sorts, a))
            if key not in memo:
                if out == "bool":
                    memo[key] = self.rnd.random() < 0.6
                elif out == "int":
                    memo[key] = self.rnd.randint(lo if lo is not None else 0, hi if hi is not None else 5)
                elif out == "val":
                    memo[key] = self.rnd.choice(self.POOL)
                else:
                    memo[key] = np.float64(self.rnd.uniform(lo if lo is not None else 0, hi if hi is not None else 5))
            return memo[key]

        return call

    def ghost_int(self, name, spec, value):
        v = value()
        assert spec(v)
        return v

    def rng(self, name="seed"):
        return np.random.RandomState(self._get(name, lambda: self.rnd.randrange(2**31)))

    # ---------------------------------------------------------------- logic
    def seeded(self):
        return True  # the bounded part compares runs of the same seed

    def bool(self, x):
        return bool(x)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return not bool(a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    @staticmethod
    def _tol(a, b):
        return 1e-9 * max(1.0, abs(float(a)), abs(float(b)))

    def _isfloat(self, *xs):
        return all(isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in xs) and any(isinstance(x, (float, np.floating)) for x in xs)

    def eq(self, a, b):
        if self._isfloat(a, b):
            return abs(float(a) - float(b)) <= self._tol(a, b)
        r = a == b
        return bool(np.all(r)) if isinstance(r, np.ndarray) else bool(r)

    def le(self, a, b):
        return bool(a <= b + self._tol(a, b)) if self._isfloat(a, b) else bool(a <= b)

    def lt(self, a, b):
        return bool(a < b + self._tol(a, b)) if self._isfloat(a, b) else bool(a < b)

    def same(self, a, b):
        if a != a or b != b:
            return bool(a != a and b != b)
        return self.eq(a, b)

    def isnan(self, a):
        return bool(a != a)

    def forall(self, n, fn):
        return all(bool(fn(i)) for i in range(int(n)))

    def exists(self, n, fn):
        return any(bool(fn(i)) for i in range(int(n)))

    def len(self, x):
        return len(x)

    def cases(self, x):
        return x() if callable(x) else x

    def list(self, x):
        return list(x)

    def at(self, x, i):
        return x[int(i)]

    def sum(self, x):
        return np.sum(x)

    def reals(self, name, n, lo=None, hi=None, draw=None):
        return [float(x) for x in self.array(name, n, lo=lo, hi=hi, draw=draw)]

    def is_int(self, x):
        return float(x).is_integer()

    def near_int(self, x):
        return abs(float(x) - round(float(x))) <= 1e-6 * max(1.0, abs(float(x)))

    def log(self, x):
        return np.log(np.float64(x))

    def exp(self, x):
        return np.exp(np.float64(x))

    def rint(self, x):
        return int(np.rint(x))

    def floor(self, x):
        return int(math.floor(x))

    def seq(self, n, f):
        return [f(i) for i in range(int(n))]

    # ---------------------------------------------------------------- checks
    def assume(self, c):
        if not bool(c):
            raise Reject

    def cover(self):
        pass

    def raises(self, fn, *types):
        try:
            fn()
        except types or (Exception,):
            return True
        return False

    def call(self, fn):
        try:
            return None, fn()
        except Exception as e:  # noqa: BLE001
            return e, None

    def check(self, cond, label):
        self.n_checks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not bool(cond):
            raise Violated(label)

    def check_forall(self, n, fn, label):
        for i in range(int(n)):
            r = fn(i)
            if r is not None:
                self.check(r, f"{label} (at {i})")

    def per_path(self, fn):
        fn()

    def stub(self, owner, name, fn):
        raise Reject  # contracts with abstract callees are checked symbolically only

    def invariant(self, key, holds, numbers=(), arrays=(), bags=(), start=None):
        pass

    def contract(self, owner, name, fn, text):
        pass  # the real code runs

    def close(self):
        pass


def run(th, values=None, seed=0):
    """("ok"|"reject"|"violated", message, inputs)"""
    v = ConcV(values, seed)
    try:
        with np.errstate(all="ignore"):
            th.fn(v)
    except Reject:
        return "reject", "", v.used, v.n_checks
    except Violated as e:
        return "violated", str(e), v.used, v.n_checks
    except AssertionError as e:
        return "violated", f"AssertionError: {e}", v.used, v.n_checks
    except Exception as e:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (AttributeError, ImportError, NameError, TypeError)) and "/contracts/" in tb[-1].filename:
            return "harness", f"{type(e).__name__}: {e}", v.used, v.n_checks
        return "violated", f"{type(e).__name__}: {str(e)[:300]}\n{traceback.format_exc()[-700:]}", v.used, v.n_checks
    return "ok", "", v.used, v.n_checks
