"""Canonical rational functions over opaque z3 atoms.

Every number of the verifier is P/Q with P, Q multivariate polynomials with
rational coefficients over atoms (z3 terms of sort Int or Real).  Keeping the
numbers canonical lets algebraically equal expressions become equal terms, so
that the solver rarely has to do nonlinear reasoning.
"""
from __future__ import annotations

from fractions import Fraction

import z3

_ATOMS: dict[int, z3.ExprRef] = {}  # ast id -> term (kept alive)


def atom_key(t):
    i = t.get_id()
    _ATOMS.setdefault(i, t)
    return i


class Poly:
    """dict: monomial (sorted tuple of (atom id, power)) -> Fraction."""

    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(t):
        return Poly({((atom_key(t), 1),): Fraction(1)})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.m.items())
        return self._h

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return all(k == () for k in self.m)

    def const_value(self):
        return self.m.get((), Fraction(0))

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()})

    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mono_mul(k1, k2)
                r[k] = r.get(k, 0) + v1 * v2
        return Poly(r)

    def lead(self):
        k = max(self.m, key=_order)
        return k, self.m[k]

    def divide(self, d):
        """Exact division or None."""
        if d.is_const():
            c = d.const_value()
            return self.scale(1 / c) if c else None
        rest, quot = self, Poly({})
        dk, dc = d.lead()
        steps = 0
        while rest.m:
            rk, rc = rest.lead()
            q = _mono_div(rk, dk)
            if q is None or steps > 200:
                return None
            t = Poly({q: rc / dc})
            quot = quot + t
            rest = rest - t * d
            steps += 1
        return quot

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def integral(self):
        """Is the value an integer whatever the values of the atoms?"""
        return all(v.denominator == 1 and all(_ATOMS[a].sort() == z3.IntSort() for a, _ in k) for k, v in self.m.items())

    def to_z3(self, real):
        if not self.m:
            return z3.RealVal(0) if real else z3.IntVal(0)
        terms = []
        for k in sorted(self.m, key=_order):
            v = self.m[k]
            fs = []
            for a, p in k:
                t = _ATOMS[a]
                if real and t.sort() == z3.IntSort():
                    t = z3.ToReal(t)
                fs.extend([t] * p)
            if v != 1 or not fs:
                c = z3.RealVal(str(v)) if real else z3.IntVal(int(v))
                fs.insert(0, c)
            terms.append(fs[0] if len(fs) == 1 else _product(fs))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)


def _product(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def _mono_mul(a, b):
    r = dict(a)
    for k, p in b:
        r[k] = r.get(k, 0) + p
    return tuple(sorted(r.items()))


def _mono_div(a, b):
    r = dict(a)
    for k, p in b:
        if r.get(k, 0) < p:
            return None
        r[k] -= p
        if not r[k]:
            del r[k]
    return tuple(sorted(r.items()))


def _order(k):
    """lex order on exponent vectors: a monomial order."""
    return tuple((-a, p) for a, p in k)


ZERO, ONE = Poly.const(0), Poly.const(1)


def make_rat(p, q):
    """Canonical P/Q; None when Q is the zero polynomial."""
    if not q.m:
        return None
    if not p.m:
        return ZERO, ONE
    if q.is_const():
        return p.scale(1 / q.const_value()), ONE
    d = p.divide(q)
    if d is not None:
        return d, ONE
    d = q.divide(p)
    if d is not None:
        p, q = ONE, d
    # common monomial factor
    g = None
    for k in list(p.m) + list(q.m):
        g = dict(k) if g is None else {a: min(e, dict(k).get(a, 0)) for a, e in g.items() if dict(k).get(a, 0)}
        if not g:
            break
    if g:
        mono = tuple(sorted(g.items()))
        gp = Poly({mono: Fraction(1)})
        p, q = p.divide(gp), q.divide(gp)
        d = p.divide(q)
        if d is not None:
            return d, ONE
    c = q.lead()[1]
    return p.scale(1 / c), q.scale(1 / c)


def add_rat(a, b):
    if a[1] == b[1]:
        return make_rat(a[0] + b[0], a[1])
    return make_rat(a[0] * b[1] + b[0] * a[1], a[1] * b[1])


def mul_rat(a, b):
    # cancel across first
    p1, q2 = make_rat(a[0], b[1])
    p2, q1 = make_rat(b[0], a[1])
    return make_rat(p1 * p2, q1 * q2)
