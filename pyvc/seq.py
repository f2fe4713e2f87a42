"""Sequences of symbolic length, containers with undo, loops and comprehensions."""
from __future__ import annotations

import builtins
import collections
import collections.abc

import z3

import engine as en
from engine import (
    And, E, F, Implies, Not, Or, PathEnd, SBool, SMix, SNum, SStr, STup, SVal, Sym, T, Unsupported, Val,
    bt, is_f, is_t, ite, mentions, num, subst, zint,
)

blen, brange, blist, btuple, bdict, bset = builtins.len, builtins.range, builtins.list, builtins.tuple, builtins.dict, builtins.set


# ====================================================================== journal
class Undo:
    __slots__ = ("kind", "target", "info", "fn", "index")

    def __init__(self, kind, target, info, fn, index=None):
        self.kind, self.target, self.info, self.fn, self.index = kind, target, info, fn, index

    def __call__(self):
        self.fn()


def note(kind, target, info, fn, index=None):
    E.journal.append(Undo(kind, target, info, fn, index))


_MISSING = object()


def py_setattr(obj, name, value):
    old = obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else _MISSING
    if not isinstance(obj, type) and getattr(obj, "__dict__", None) == {}:
        # its first attribute: the object is being made
        BORN[id(obj)] = (obj, E.uid)
        E.uid += 1
        note("pure", BORN, None, lambda: BORN.pop(id(obj), None))
    setattr(obj, name, value)

    def back():
        if isinstance(obj, type):
            delattr(obj, name) if old is _MISSING else setattr(obj, name, old)
        elif old is _MISSING:
            obj.__dict__.pop(name, None)
        else:
            obj.__dict__[name] = old

    note("attr", obj, (name, value), back)


BORN = {}


def stamp(obj):
    born = BORN.get(id(obj))
    return born[1] if born is not None and born[0] is obj else getattr(obj, "_stamp", 0)


# ====================================================================== index terms
def norm_n(n):
    """Length as a Python int when it is one, else SNum."""
    if isinstance(n, int):
        return n
    n = num(n) if not isinstance(n, z3.ExprRef) else en.parse(n)
    if n.is_const():
        return int(n.value())
    return n


def same_n(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = num(a) == num(b)
    return is_t(z3.simplify(c.t)) or E.proves(c.t)


def merged(fn):
    """Value of fn() as one expression, its forks merged; exceptions are not supported."""
    outs = E.explore(fn)
    if not outs:
        raise PathEnd
    for o in outs:
        for f in o.facts:
            E.add(Implies(o.cond, f))
    for o in outs:
        if o.kind == "exc":
            raise Unsupported(f"exception in an element: {o.value!r}")
    return merge_values(outs)


def merge_values(outs):
    v = outs[-1].value
    for o in reversed(outs[:-1]):
        v = ite(o.cond, o.value, v)
    return v


def forall(n, fn):
    """Formula: fn(k) for all 0 <= k < n."""
    n = norm_n(n)
    if isinstance(n, int):
        return And([bt(merged(lambda i=i: fn(i))) for i in range(n)])
    k, outs = E.generic(n, fn)
    _no_exc(outs)
    body = And([Implies(o.cond, bt(o.value)) for o in outs])
    return E.forall(k, And(k >= 0, k < zint(n)), body)


def exists(n, fn):
    return Not(forall(n, lambda i: SBool(Not(bt(fn(i))))))


def _no_exc(outs):
    for o in outs:
        if o.kind == "exc":
            raise Unsupported(f"exception in an element: {o.value!r}")


# ====================================================================== sequences
class SSeq:
    """Immutable symbolic sequence: length n and the element at an index."""

    def __init__(self, n, f, inverse=None):
        self.n, self.f, self.inverse = norm_n(n), f, inverse
        self._stamp = E.uid

    def at(self, i):
        if isinstance(i, SNum) and i.is_const():
            i = int(i.value())
        return self.f(i)


class SList(SSeq):
    """A Python list or tuple of symbolic length."""

    pytype = "list"

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = slice_bounds(i, self.n)
            f = self.f
            return type(self)(num(hi) - num(lo), lambda j: f(num(lo) + j))
        return self.at(check_index(i, self.n))

    def __contains__(self, v):
        if self.inverse is not None and invertible(v):
            p = SNum.of_term(self.inverse(sym_term(v)))
            return bool(SBool(And((p >= 0).t, (p < num(self.n)).t))) and bool(eq(self.at(p), v))
        return bool(SBool(exists(self.n, lambda i: eq(self.at(i), v))))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in brange(self.n)])
        raise Unsupported("native iteration over a sequence of symbolic length")

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len() of a sequence of symbolic length")

    def __bool__(self):
        return bool(num(self.n) > 0)

    def index(self, v):
        return first_index(self, v, ValueError)

    def __eq__(self, o):
        s = symseq(o)
        if s is None:
            if isinstance(o, (blist, btuple)):
                s = SList(blen(o), lambda i: pick(o, i))
            else:
                return False
        return bool(SBool(And((num(self.n) == num(s.n)).t, forall(self.n, lambda i: eq(self.at(i), s.at(i))))))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __sub__(self, o):
        """Difference of keys."""
        return comp("list", self, lambda x: x, [lambda x: x not in o])

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __pyvc_subst__(self, k, i):
        f = self.f
        return type(self)(subst(num(self.n), k, i) if not isinstance(self.n, int) else self.n, lambda j: subst(f(j), k, i))

    def __repr__(self):
        return "<seq>"


class STuple(SList):
    pytype = "tuple"


collections.abc.Sequence.register(SList)
collections.abc.Sequence.register(SStr)
collections.abc.Sequence.register(STup)


def pick(items, i):
    """Element of a concrete list at a possibly symbolic index."""
    if isinstance(i, int):
        return items[i]
    if i.is_const():
        return items[int(i.value())]
    r = items[-1]
    for j in reversed(brange(blen(items) - 1)):
        r = ite(i == j, items[j], r)
    return r


def eq(a, b):
    """a == b as a truth value without forking where possible."""
    r = a == b
    if r is NotImplemented:
        return False
    return r


def slice_bounds(s, n):
    if s.step not in (None, 1):
        raise Unsupported("slice step")
    n = num(n)

    def clip(x, default):
        if x is None:
            return default
        x = num(x)
        if x is None:
            raise TypeError("slice index")
        x = ite(x < 0, x + n, x) if not E.proves((x >= 0).t) else x
        if not E.proves((x >= 0).t):
            x = ite(x < 0, num(0), x)
        if not E.proves((x <= n).t):
            x = ite(x > n, n, x)
        return x

    lo = clip(s.start, num(0))
    hi = clip(s.stop, n)
    if not E.proves((lo <= hi).t):
        hi = ite(hi < lo, lo, hi)
    return lo, hi


def check_index(i, n):
    """Python's bounds check; may raise IndexError on a fork."""
    j = num(i)
    if j is None:
        raise TypeError("index")
    if not j.integral():
        raise IndexError("only integers are valid indices")
    j = SNum(j.r, True, j.nan)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError
        return i % n
    if (j >= 0) & (j < num(n)):
        return j if not j.is_const() else int(j.value())
    if (j < 0) & (j >= -num(n)):
        return j + num(n)
    raise IndexError("index out of range")


def invertible(v):
    return isinstance(v, SVal) or (isinstance(v, SNum) and v.isint)


def first_index(seq, v, exc):
    inv = getattr(seq, "inverse", None)
    if inv is not None and invertible(v):
        p = SNum.of_term(inv(sym_term(v)))
        if bool(SBool(And((p >= 0).t, (p < num(seq.n)).t, bt(eq(seq.at(p), v))))):
            return p
        raise exc(v)
    if not bool(SBool(exists(seq.n, lambda i: eq(seq.at(i), v)))):
        raise exc(v)
    p = SNum.of_term(E.fresh("first", z3.IntSort()))
    E.add(And((p >= 0).t, (p < num(seq.n)).t, bt(eq(seq.at(p), v))))
    E.add(forall(p, lambda j: SBool(Not(bt(eq(seq.at(j), v))))))
    return p


# ====================================================================== containers with undo
class TList(blist):
    """A list whose changes can be undone; can become symbolic (sym)."""

    def __init__(self, *a):
        self._stamp = E.uid
        self.sym = None
        if a:
            s = symseq(a[0])
            if s is not None and not isinstance(s.n, int):
                super().__init__()
                self.sym = s
                return
            super().__init__(s_iter(a[0]))
        else:
            super().__init__()

    def _c(self):
        if self.sym is not None:
            raise Unsupported("operation on a list of symbolic length")

    def append(self, x):
        if self.sym is not None:
            old = self.sym
            n = num(old.n)
            self.sym = SList(n + 1, lambda i: x if _same(i, n) else ite(num(i) == n, x, old.at(i)))
            note("sym", self, None, lambda: builtins.setattr(self, "sym", old))
            return
        super().append(x)
        note("append", self, x, lambda: blist.pop(self))

    def set_sym(self, s):
        old = self.sym
        self.sym = s
        note("sym", self, None, lambda: builtins.setattr(self, "sym", old))

    def extend(self, xs):
        if isinstance(xs, Added):
            if not isinstance(self.sym, Bag):
                raise Unsupported("sampled elements added to another list")
            return self.set_sym(Bag(num(self.sym.n) + num(xs.n)))
        s = symseq(xs)
        if s is not None and not isinstance(s.n, int):
            raise Unsupported("extend by a symbolic sequence")
        for x in s_iter(xs):
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _replace(self, fn):
        self._c()
        old = blist(blist.__iter__(self))
        r = fn()
        note("list", self, None, lambda: blist.__setitem__(self, slice(None), old))
        return r

    def pop(self, *a):
        return self._replace(lambda: blist.pop(self, *a))

    def remove(self, x):
        return self._replace(lambda: blist.remove(self, x))

    def insert(self, i, x):
        return self._replace(lambda: blist.insert(self, i, x))

    def sort(self, **k):
        return self._replace(lambda: blist.sort(self, **k))

    def reverse(self):
        return self._replace(lambda: blist.reverse(self))

    def clear(self):
        return self._replace(lambda: blist.clear(self))

    def __setitem__(self, i, v):
        return self._replace(lambda: blist.__setitem__(self, i, v))

    def __delitem__(self, i):
        return self._replace(lambda: blist.__delitem__(self, i))

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, SNum) and not i.is_const():
            return pick(blist(self), check_index(i, blen(self)))
        r = blist.__getitem__(self, i)
        return TList(r) if isinstance(i, slice) else r

    def __iter__(self):
        self._c()
        return blist.__iter__(self)

    def __len__(self):
        self._c()
        return blist.__len__(self)

    def __bool__(self):
        return bool(self.sym) if self.sym is not None else blist.__len__(self) > 0

    def __contains__(self, v):
        if self.sym is not None:
            return v in self.sym
        return blist.__contains__(self, v)

    def index(self, v, *a):
        if self.sym is not None:
            return self.sym.index(v)
        return blist.index(self, v, *a)

    def __add__(self, o):
        self._c()
        return TList(blist(self) + blist(o))

    def __mul__(self, n):
        m = num(n)
        if m is not None and not m.is_const():
            self._c()
            if blen(self) != 1:
                raise Unsupported("list repetition")
            x = self[0]
            return SList(m, lambda i: x)
        return TList(blist(self) * int(n))

    __rmul__ = __mul__

    def copy(self):
        return TList(self)

    __hash__ = None

    def __eq__(self, o):
        if self.sym is not None or (isinstance(o, TList) and o.sym is not None) or isinstance(o, SList):
            a = self.sym if self.sym is not None else SList(blen(self), lambda i: pick(blist(self), i))
            return a == (o.sym if isinstance(o, TList) and o.sym is not None else o)
        return blist.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __pyvc_subst__(self, k, i):
        self._c()
        return TList([subst(x, k, i) for x in self])

    def __pyvc_ite__(self, c, o):
        if isinstance(o, blist) and self.sym is None and blen(o) == blen(self):
            return TList([ite(c, a, b) for a, b in zip(self, o)])
        raise Unsupported("merge of lists")


def _same(i, n):
    return isinstance(i, SNum) and i.r == n.r


class TDict(bdict):
    """A dict whose changes can be undone; can become symbolic (sym: an SDict)."""

    def __init__(self, *a, **k):
        self._stamp = E.uid
        self.sym = None
        self.wrapped = False  # some keys are tuples with symbolic parts
        if a and isinstance(a[0], (SDict, TDict)) and getattr(a[0], "sym", a[0]) is not None:
            if k:
                raise Unsupported("dict of a symbolic dict and more")
            super().__init__()
            self.sym = a[0] if isinstance(a[0], SDict) else a[0].sym
            return
        self.wrapped = bool(a) and isinstance(a[0], TDict) and a[0].wrapped
        super().__init__(*([bdict.items(a[0])] if self.wrapped else a), **k)

    def _c(self):
        if self.sym is not None:
            raise Unsupported("operation on a dict of symbolic size")

    def _save(self):
        self._c()
        old = blist(bdict.items(self))

        def back():
            bdict.clear(self)
            bdict.update(self, old)

        return back

    def _stored(self, key):
        """The key as stored: one equal to it, where there is one (decided by forking)."""
        if not self.wrapped and not deep_symbolic(key):
            return key
        for k in blist(bdict.__iter__(self)):
            if deep_equal(bare(k), key):
                return k
        if not deep_symbolic(key):
            return key
        self.wrapped = True
        return Wrapped(key)

    def __setitem__(self, key, v):
        key = plain_key(key)
        if self.sym is not None or symbolic_key(key):
            old = self.sym
            if old is None:
                if blen(self):
                    raise Unsupported("symbolic key in a dict with entries")
                new = SDict(1, lambda i: key, lambda i: v)
            else:
                new = old.with_item(key, v)
            self.sym = new
            note("setitem", self, (key, v), lambda: builtins.setattr(self, "sym", old), index=key)
            return
        key = self._stored(key)
        back = self._save()
        bdict.__setitem__(self, key, v)
        note("dict", self, (key, v), back)

    def __getitem__(self, key):
        if self.sym is not None:
            return self.sym[key]
        key = plain_key(key)
        if symbolic_key(key):
            return among(self, key)[key]
        return bdict.__getitem__(self, self._stored(key))

    def __contains__(self, key):
        if self.sym is not None:
            return key in self.sym
        key = plain_key(key)
        if symbolic_key(key):
            return key in among(self, key)
        return bdict.__contains__(self, self._stored(key))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __delitem__(self, key):
        back = self._save()
        bdict.__delitem__(self, self._stored(plain_key(key)))
        note("dict", self, None, back)

    def pop(self, *a):
        back = self._save()
        r = bdict.pop(self, self._stored(a[0]), *a[1:])
        note("dict", self, None, back)
        return r

    def update(self, *a, **k):
        back = self._save()
        bdict.update(self, *a, **k)
        note("dict", self, None, back)

    def setdefault(self, key, d=None):
        if key not in self:
            self[key] = d
        return self[key]

    def copy(self):
        return TDict(self)

    def __len__(self):
        self._c()
        return bdict.__len__(self)

    def __iter__(self):
        self._c()
        return iter([bare(k) for k in bdict.__iter__(self)]) if self.wrapped else bdict.__iter__(self)

    def __bool__(self):
        return bool(self.sym) if self.sym is not None else bdict.__len__(self) > 0

    def __eq__(self, o):
        if self.sym is not None or isinstance(o, SDict) or (isinstance(o, TDict) and o.sym is not None):
            return (self.sym if self.sym is not None else among(self, None)) == o
        return bdict.__eq__(self, o)

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else not r

    def keys(self):
        return self.sym.keys() if self.sym is not None else blist(self) if self.wrapped else bdict.keys(self)

    def values(self):
        return self.sym.values() if self.sym is not None else bdict.values(self)

    def items(self):
        return self.sym.items() if self.sym is not None else [(bare(k), v) for k, v in bdict.items(self)] if self.wrapped else bdict.items(self)

    __hash__ = None


class Wrapped:
    """A key with symbolic parts: compared only by TDict._stored."""

    def __init__(self, key):
        self.key = key


def bare(k):
    return k.key if isinstance(k, Wrapped) else k


def deep_symbolic(k):
    return isinstance(k, tuple) and any(isinstance(x, Sym) or deep_symbolic(x) for x in k)


def deep_equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return blen(a) == blen(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    return bool(eq(a, b))


def symbolic_key(k):
    return isinstance(k, Sym) and not (isinstance(k, SNum) and k.is_const())


def among(d, key):
    """A dict with plain keys, looked up by a symbolic one."""
    items = blist(bdict.items(d))
    return SDict(blen(items), lambda i: bare(pick(items, i)[0]), lambda i: pick(items, i)[1])


def plain_key(k):
    return int(k.value()) if isinstance(k, SNum) and k.is_const() and k.isint else k


class TSet(bset):
    """A set whose changes can be undone; can become symbolic (sym: an SDict)."""

    def __init__(self, *a):
        self._stamp = E.uid
        self.sym = None
        super().__init__(*a)

    def add(self, x):
        if self.sym is not None or symbolic_key(x):
            old = self.sym
            base = old
            if old is None:
                items = blist(self)
                base = SDict(blen(items), lambda i: pick(items, i), lambda i: True)
            self.sym = base.with_item(x, True)
            note("setitem", self, (x, True), lambda: builtins.setattr(self, "sym", old), index=x)
            return
        if x not in self:
            bset.add(self, x)
            note("setadd", self, x, lambda: bset.discard(self, x))

    def __contains__(self, x):
        if self.sym is not None:
            return x in self.sym
        if symbolic_key(x):
            return any(bool(eq(x, y)) for y in blist(bset.__iter__(self)))
        return bset.__contains__(self, x)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("native iteration over a symbolic set")
        return bset.__iter__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("native len() of a symbolic set")
        return bset.__len__(self)

    def __bool__(self):
        return bool(self.sym) if self.sym is not None else bset.__len__(self) > 0

    __hash__ = None


class SDict:
    """{key(i): val(i) for i in 0..n-1 if has(i)} with symbolic n (later entries win).

    distinct_inverse gives the index of a key, where the keys are known to be distinct.
    """

    def __init__(self, n, key, val, distinct_inverse=None, has=None):
        self.n, self.key, self.val, self.inverse, self.has = norm_n(n), key, val, distinct_inverse, has
        self._stamp = E.uid

    def _hit(self, i, v):
        c = bt(eq(self.key(i), v))
        return And(c, bt(self.has(i))) if self.has is not None else c

    def _find(self, v):
        if self.inverse is not None and invertible(v):
            p = SNum.of_term(self.inverse(sym_term(v)))
            rng = And((p >= 0).t, (p < num(self.n)).t)
            if is_f(z3.simplify(rng)):
                return SBool(F), p
            return SBool(And(rng, self._hit(p, v))), p
        return SBool(exists(self.n, lambda i: SBool(self._hit(i, v)))), None

    def __contains__(self, v):
        if isinstance(v, (blist, bdict, bset, SList)):
            raise TypeError("unhashable type")
        return bool(self._find(v)[0])

    def __getitem__(self, v):
        found, p = self._find(v)
        if not found:
            raise KeyError(v)
        if p is None:
            if isinstance(self.n, int):
                for i in reversed(brange(1, self.n)):
                    if E.fork(self._hit(i, v)):
                        return self.val(i)
                return self.val(0)
            p = SNum.of_term(E.fresh("pos", z3.IntSort()))
            E.add(And((p >= 0).t, (p < num(self.n)).t))
            E.add(self._hit(p, v))
            E.add(forall(self.n, lambda j: SBool(Implies((num(j) > p).t, Not(self._hit(j, v))))))
        return self.val(p)

    def get(self, v, default=None):
        return self[v] if v in self else default

    def with_item(self, key, v):
        if isinstance(self.n, int):
            there = [i for i in brange(self.n) if self.has is None or E.fork(bt(self.has(i)))]
            keys, vals = [self.key(i) for i in there], [self.val(i) for i in there]
            at = next((i for i, o in enumerate(keys) if E.fork(bt(eq(o, key)))), None)
            if at is None:
                keys, vals = [*keys, key], [*vals, v]
            else:
                vals[at] = v
            return SDict(blen(keys), lambda i: pick(keys, i), lambda i: pick(vals, i))
        if self.inverse is None or not invertible(key):
            raise Unsupported("assignment to a symbolic dict")
        p, n = SNum.of_term(self.inverse(sym_term(key))), num(self.n)
        if p.r == n.r or E.proves((p == n).t):
            p, n = n, n + 1
        elif not E.proves(And((p >= 0).t, (p < n).t)):
            raise Unsupported("assignment to a symbolic dict")
        val, has = self.val, self.has
        here = lambda i: SBool(T) if num(i).r == p.r else num(i) == p  # noqa: E731
        new = None if has is None else (lambda i: SBool(Or(bt(here(i)), bt(has(i)))))
        return SDict(n, self.key, lambda i: v if bool(here(i)) else val(i), self.inverse, new)

    def __bool__(self):
        if self.has is not None:
            return bool(SBool(exists(self.n, self.has)))
        return bool(num(self.n) > 0)

    def entries(self, f):
        if self.has is None:
            return SList(self.n, f)
        if isinstance(self.n, int):
            return SList_of([f(i) for i in brange(self.n) if self.has(i)])
        sel = Selection(self.n, lambda i: bt(self.has(i)))
        r = SList(sel.n, lambda j: f(sel.index(j)))
        r.filtered = self.n, f, self.has
        return r

    def values(self):
        return self.entries(self.val)

    def keys(self):
        r = self.entries(self.key)
        if self.has is None and isinstance(r, SList):
            r.inverse = self.inverse
        return r

    def items(self):
        return self.entries(lambda i: (self.key(i), self.val(i)))

    def copy(self):
        return self

    def __eq__(self, o):
        if isinstance(o, TDict):
            o = o.sym if o.sym is not None else among(o, None)
        if not isinstance(o, SDict):
            return False
        if isinstance(self.n, int) and isinstance(o.n, int):
            a, b = ([(d.key(i), d.val(i)) for i in brange(d.n) if d.has is None or E.fork(bt(d.has(i)))] for d in (self, o))
            return blen(a) == blen(b) and all(any(bool(eq(k, q)) and bool(eq(v, u)) for q, u in b) for k, v in a)
        k = z3.Int("k!eq")
        if self.inverse is None or num(self.n).r != num(o.n).r or not eq_terms(self.key(SNum.of_term(k)), o.key(SNum.of_term(k))):
            raise Unsupported("comparison of dicts with unrelated keys")

        def same(i):
            x, y = (True if d.has is None else bool(d.has(i)) for d in (self, o))
            return x == y and (not x or eq(self.val(i), o.val(i)))

        return bool(SBool(forall(self.n, same)))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def eq_terms(a, b):
    a, b = sym_term(a), sym_term(b)
    return a is not None and b is not None and a.eq(b)


def SList_of(items):
    return SList(blen(items), lambda i: pick(items, i))


# ====================================================================== iteration
class SRange(SSeq):
    def __init__(self, lo, hi, step=1):
        lo, hi, step = num(lo), num(hi), num(step)
        for x in (lo, hi, step):
            if x is None or not x.isint:
                raise TypeError("range() argument")
        self.lo, self.hi, self.step = lo, hi, step
        if step.is_const() and step.value() == 1:
            n = hi - lo
        elif bool(step == 0):
            raise ValueError("range() arg 3 must not be zero")
        elif bool(step > 0):
            n = (hi - lo + step - 1) // step
        else:
            n = (lo - hi - step - 1) // -step
        if not E.proves((n >= 0).t):
            n = ite(n < 0, num(0), n)
        super().__init__(n, lambda i: lo + num(i) * step)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in brange(self.n)])
        raise Unsupported("native iteration over a symbolic range")


class SEnumerate(SSeq):
    pass


def symseq(x):
    """SSeq view of an iterable of symbolic length (None: iterate natively)."""
    if isinstance(x, SSeq):
        return x
    if isinstance(x, TList) and x.sym is not None:
        return x.sym
    if isinstance(x, (TDict, TSet)) and x.sym is not None:
        x = x.sym
    if isinstance(x, SDict):
        return symseq(x.keys())
    if isinstance(x, VIEWS):
        return view_seq(x)
    if hasattr(x, "__pyvc_array__"):
        return x.as_seq()
    if hasattr(x, "__pyvc_seq__"):
        return x.__pyvc_seq__()
    if isinstance(x, collections.abc.Mapping) and not isinstance(x, bdict):
        r = type(x).__iter__(x)
        return symseq(r) if isinstance(r, (SSeq, Yielded)) else None
    return None


VIEWS = (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)


def view_seq(x):
    """A view of a mapping that has symbolic size."""
    m = getattr(x, "_mapping", None)
    s = symseq(m) if m is not None else None
    if s is None or isinstance(s.n, int):
        return None
    if isinstance(x, collections.abc.KeysView):
        return s
    pair = isinstance(x, collections.abc.ItemsView)

    def of(k):
        return (k, m[k]) if pair else m[k]

    r = SList(s.n, lambda i: of(s.at(i)))
    f = getattr(s, "filtered", None)
    if f is not None:
        r.filtered = f[0], lambda i: of(f[1](i)), f[2]
    return r


def s_iter(x):
    s = symseq(x)
    if s is None:
        return iter(x)
    if isinstance(s.n, int):
        return iter([s.at(i) for i in brange(s.n)])
    raise Unsupported("native iteration over a sequence of symbolic length")


CONT, BRK = ("cont",), ("brk",)


class Poison:
    """A local variable whose value is not known after or inside a summarised loop."""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def _die(self, *a, **k):
        raise Unsupported(f"use of the loop-carried variable {object.__getattribute__(self, '_name')!r}")

    def __getattribute__(self, n):
        if n in ("__class__",):
            return Poison
        object.__getattribute__(self, "_die")()

    for _n in (
        "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod pow and rand or ror xor neg invert abs "
        "lt le gt ge eq ne bool len iter contains getitem setitem call hash index int float iadd iand ior isub str repr format"
    ).split():
        locals()[f"__{_n}__"] = _die
    del _n


def locals_get(*pairs):
    out = {}
    for name, fn in pairs:
        try:
            out[name] = fn()
        except NameError:
            out[name] = Poison(name)
    return out


def loop(it, body, get=None, put=None, key=None, every=None):
    """for loop: body(x) returns CONT, BRK or ("ret", value)."""
    s = symseq(it)
    if key in E.invariants and not E.invariants[key].unrolled(s, it):
        return E.invariants[key].run(it if s is None else s, body, get, put, every)
    if s is None or isinstance(s.n, int):
        for x in s_iter(it):
            r = body(x)
            if r is not CONT:
                return r
        return CONT
    f = getattr(s, "filtered", None)
    if f is not None:
        n, at, keep = f
        inner, s = body, SList(n, lambda i: i)
        body = lambda i: inner(at(i)) if bool(keep(i)) else CONT  # noqa: E731
    return Summary(s, body, get or (lambda: {}), put or (lambda d: None)).run()


def while_loop(test, body, get=None, put=None, key=None, every=None):
    """while loop: body(None) returns CONT, BRK or ("ret", value)."""
    if key in E.invariants:
        return E.invariants[key].run_while(test, body, get, put, every)
    while bool(test()):
        r = body(None)
        if r is not CONT:
            return r
    return CONT


class Locals:
    """The local variables at a loop head, for invariants."""

    def __init__(self, d):
        self._d = d

    def __getattr__(self, n):
        if n not in self._d or isinstance(self._d[n], Poison):
            raise Unsupported(f"no local variable {n}: the loop invariant is out of step with the code")
        return self._d[n]


class Levels:
    """Elements of an array below a bound, written as elem(g) for numbers g of a sort.

    elem and witness are inverse to each other where the invariant holds (checked
    with the invariant), so that the elements can be replaced by elem(g(i)).
    Alternatively form(k) gives all elements before iteration k, and for a dict
    entries(k) gives its number of entries, its keys and values before iteration k.
    """

    def __init__(self, name, upto=None, sort="real", elem=lambda g: g, witness=lambda x: x, form=None, entries=None, part=None):
        self.entries, self.part = entries, part
        self.name, self.upto, self.sort, self.elem, self.witness, self.form = name, upto, sort, elem, witness, form

    def object(self, L):
        x = builtins.getattr(L, self.name)
        return x if self.part is None else self.part(x)


class Bag(SList):
    """A list of which only the length is known, and that its elements were checked when they were added."""

    class Element:
        def __pyvc_subst__(self, k, i):
            return self

        def __pyvc_ite__(self, c, o):
            if isinstance(o, Bag.Element):
                return self
            raise Unsupported("merge of different objects")

    def __init__(self, n):
        super().__init__(n, lambda i: Bag.Element())

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = slice_bounds(i, self.n)
            return Bag(num(hi) - num(lo))
        return super().__getitem__(i)


class Added:
    """Elements to add to a bag; one of them, standing for all, has been checked."""

    def __init__(self, n):
        self.n = n


class Invariant:
    """A loop invariant: checked at the start, assumed for an arbitrary iteration, checked after it."""

    def __init__(self, key, V, holds, numbers=(), arrays=(), bags=(), start=None):
        self.key, self.V, self.holds, self.numbers, self.arrays = key, V, holds, dict(numbers), list(arrays)
        self.bags, self.start = list(bags), start

    def unrolled(self, s, it):
        """With small lengths a short loop is run as it is, so that only the postconditions decide."""
        if self.V.small is None:
            return False
        try:
            n = s.n if s is not None else blen(it)
        except TypeError:
            return False
        return isinstance(n, int) and n <= 6

    def checked(self, every, what, k):
        V = self.V
        L = Locals(every())
        G = {}
        for a in self.arrays:
            arr = a.object(L)
            if a.entries is not None:
                self.checked_dict(arr, a.entries(k), f"loop invariant of {self.key} {what}: entries of {a.name}")
                continue
            if a.form is not None:
                f = a.form(k)
                V.check_forall(arr.n, lambda i: V.same(V.cases(lambda: arr.at(i)), f(i)), f"loop invariant of {self.key} {what}: elements of {a.name}")
                continue
            V.check_forall(
                a.upto(L), lambda i, a=a, arr=arr: self._form(a, V.cases(lambda: arr.at(i))), f"loop invariant of {self.key} {what}: form of {a.name}"
            )
            G[a.name] = lambda i, a=a, arr=arr: num(a.witness(V.cases(lambda: arr.at(i))))
        for j, h in enumerate(self.holds(L, G)):
            label = f"loop invariant of {self.key} {what} ({j + 1})"
            if not isinstance(h, tuple):
                V.check(h, label)
            elif blen(h) == 2:
                V.check_forall(*h, label)
            else:
                n, _, fn = h
                V.check_forall(n, lambda i, fn=fn: V.check_forall(i, lambda j: fn(i, j), label), label)

    def checked_dict(self, d, want, label):
        V = self.V
        n, key, val, _ = want
        if not isinstance(d, TDict):
            raise Unsupported("the loop invariant is out of step with the code: not a dict")
        d = d.sym if d.sym is not None else among(d, None)
        V.check(And(bt(num(d.n) == num(n)), bt(d.has is None)), label)
        if d.has is not None:
            return

        def same(i):
            x, y = d.val(i), val(i)
            return And(bt(eq(d.key(i), key(i))), bt(x is y or (isinstance(x, Sym) and isinstance(y, Sym) and eq(x, y))))

        V.check_forall(d.n, same, label)

    @staticmethod
    def formula(h):
        if not isinstance(h, tuple):
            return bt(h)
        if blen(h) == 2:
            return forall(*h)
        n, _, fn = h
        return forall(n, lambda i: SBool(forall(i, lambda j: fn(i, j))))

    @staticmethod
    def _form(a, x):
        w = num(a.witness(x))
        c = [bt(eq(a.elem(w), x))]
        if a.sort == "int" and not w.integral():
            c.append(z3.IsInt(w.rterm))
        return SBool(And(c))

    def run_while(self, test, body, get, put, every):
        """A while loop; bags are lists that are only extended, of elements that were checked when they were added."""
        self.checked(every, "at the start", 0)
        lists = [builtins.getattr(Locals(every()), nm) for nm in self.bags]
        for x in lists:
            if not isinstance(x, TList) or x.sym is not None or blist.__len__(x):
                raise Unsupported("the loop invariant is out of step with the code: not an empty list at the start")
        first = E.choose()
        S0 = get()
        put({nm: SNum.of_term(E.fresh(nm, z3.IntSort() if self.numbers[nm] == "int" else z3.RealSort())) if nm in self.numbers else Poison(nm) for nm in S0})
        for x in lists:
            n = SNum.of_term(E.fresh("length", z3.IntSort()))
            E.add((n >= 0).t)
            x.set_sym(Bag(n))
        for c in self.holds(Locals(every()), {}):
            E.assume(self.formula(c))
        if bool(test()) != first:
            raise PathEnd
        if not first:
            return CONT
        mark, stamp0 = blen(E.journal), E.uid
        E.uid += 1
        r = body(None)
        self.unchanged(mark, stamp0, {id(x) for x in lists})
        if r is CONT:
            self.checked(every, "after an iteration", 0)
            raise PathEnd
        return r

    @staticmethod
    def unchanged(mark, stamp0, mine):
        for u in E.journal[mark:]:
            if isinstance(u, Undo) and stamp(u.target) <= stamp0 and id(u.target) not in mine and u.kind not in ("pure",) and not (u.kind == "attr" and u.info[0].startswith("_pyvc")):
                raise Unsupported(f"loop with an invariant changes another object ({u.kind})")

    def run(self, it, body, get, put, every):
        n = num(it.n if isinstance(it, SSeq) or hasattr(it, "__pyvc_array__") else blen(it))
        at = it.at if hasattr(it, "at") else blist(it).__getitem__
        if self.start is not None:
            self.start(Locals(every()))
        self.checked(every, "at the start", 0)
        first = E.choose()
        # ---- forget the state, keep the invariant
        S0 = get()
        for nm in self.numbers:
            builtins.getattr(Locals(every()), nm)
        for a in self.arrays:
            a.object(Locals(every()))
        put({nm: SNum.of_term(E.fresh(nm, z3.IntSort() if self.numbers[nm] == "int" else z3.RealSort())) if nm in self.numbers else Poison(nm) for nm in S0})
        L = Locals(every())
        G = {}
        forms = []
        for a in self.arrays:
            arr = a.object(L)
            if a.form is not None:
                forms.append((arr.set_f, a.form))
                continue
            if a.entries is not None:
                forms.append((lambda e, d=arr: set_entries(d, e), a.entries))
                continue
            up = num(a.upto(L))
            g = E.fresh_fn(f"level:{a.name}", z3.IntSort(), z3.IntSort() if a.sort == "int" else z3.RealSort())
            h = E.fresh_fn(f"rest:{a.name}", z3.IntSort(), z3.RealSort())
            gi = lambda i, g=g: SNum.of_term(g(zint(num(i).term)))
            G[a.name] = gi
            arr.set_f(lambda i, gi=gi, h=h, up=up, a=a: _below(i, up, lambda: real_of(a.elem(gi(i))), lambda: SNum.of_term(h(zint(num(i).term)))))
        for c in self.holds(L, G):
            E.assume(self.formula(c))
        if not E.feasible(T):
            raise PathEnd
        if not first:
            for put_, form in forms:
                put_(form(n))
            return CONT
        k = SNum.of_term(E.fresh("it", z3.IntSort()))
        E.assume(And((k >= 0).t, (k < n).t))
        for put_, form in forms:
            put_(form(k))
        mark, stamp0 = blen(E.journal), E.uid
        E.uid += 1
        mine = {id(a.object(L)) for a in self.arrays}
        r = body(at(k) if hasattr(it, "at") else pick_of(at, n, k))
        self.unchanged(mark, stamp0, mine)
        if r is CONT:
            self.checked(every, "after an iteration", k + 1)
            raise PathEnd
        return r


def set_entries(d, e):
    """Give a dict n entries with the keys and values."""
    n, key, val, inverse = e
    old = d.sym
    if old is None and bdict.__len__(d):
        raise Unsupported("loop invariant of a dict that is not empty at the start")
    d.sym = SDict(n, key, val, inverse)
    note("pure", d, None, lambda: builtins.setattr(d, "sym", old))


def real_of(x):
    x = num(x)
    return SNum(x.r, False, x.nan)


def pick_of(at, n, k):
    xs = [at(i) for i in brange(int(n.value()))]
    r = xs[-1]
    for i in reversed(brange(blen(xs) - 1)):
        r = ite(k == i, xs[i], r)
    return r


def _below(i, up, a, b):
    c = num(i) < up
    if E.proves(c.t):
        return a()
    if E.proves(Not(c.t)):
        return b()
    if E.splitting:
        return a() if E.fork(c if z3.is_expr(c) else c.t) else b()
    return ite(c, a(), b())


class Summary:
    """Summary of a loop over a sequence of symbolic length.

    The body is explored for a generic iteration k.  The variables and objects
    it changes are replaced by symbols; the changes have to follow one of the
    known patterns (nothing is carried, conjunction, disjunction, counting,
    extremum, appending), for which the state before iteration k is known in
    closed form.
    """

    def __init__(self, s, body, get, put):
        self.s, self.body, self.get, self.put = s, body, get, put
        self.n = num(s.n)

    def run(self):
        S0 = self.get()
        stamp0 = E.uid
        sym = {}  # name -> start symbol
        arrs = {}  # id -> (array, start symbol fn, original f)
        entries = {}  # id -> Entries (an array or dict of which iteration k sets the entry of k)
        for _ in range(8):
            jm = {}

            def begin(k):
                jm["m"] = len(E.journal)
                self.put({**S0, **sym})
                for a, f, _f0 in arrs.values():
                    a.f = f
                for e in entries.values():
                    e.begin(k)
                return self.body(self.s.at(k))

            def extra():
                return self.get(), [u for u in E.journal[jm["m"]:] if isinstance(u, Undo)]

            saved = [(a, f0) for a, _f, f0 in arrs.values()]
            try:
                k, outs = E.generic(self.n, begin, extra)
            finally:
                for a, f0 in saved:
                    a.f = f0
                for e in entries.values():
                    e.restore()
                self.put(S0)
            conts = [o for o in outs if o.kind == "ret" and o.value is CONT]
            grew = False
            appends = {}
            for o in conts:
                vals, recs = o.extra
                for name, v in vals.items():
                    if name not in sym and v is not S0[name] and not (type(v) is type(S0[name]) is Poison):
                        sym[name] = start_symbol(name, S0[name])
                        grew = True
                for u in recs:
                    if stamp(u.target) > stamp0:
                        continue
                    if u.kind == "append":
                        appends.setdefault(id(u.target), u.target)
                    elif u.kind in ("arr", "setitem"):
                        a = u.target
                        if id(a) in entries or id(a) in arrs:
                            continue
                        if u.index is not None:
                            entries[id(a)] = Entries(a)
                        else:
                            arrs[id(a)] = (a, fresh_elems(a), a.f)
                        grew = True
                    elif u.kind == "pure":
                        pass
                    elif u.kind == "attr" and u.info[0].startswith("_pyvc"):
                        pass
                    else:
                        raise Unsupported(f"loop over a symbolic sequence changes an object ({u.kind})")
            for e in entries.values():
                grew = e.learn(k, conts) or grew
            if not grew:
                break
        else:
            raise Unsupported("loop state does not stabilise")
        cont = Or([o.cond for o in conts])
        exits = [o for o in outs if not (o.kind == "ret" and o.value is CONT)]
        # ---- closed forms of the carried state before iteration m
        closed = {}
        for name, s0 in sym.items():
            closed[name] = self.close_name(name, S0[name], s0, k, conts)
        aclosed = {}
        for i, (a, f, f0) in arrs.items():
            aclosed[i] = self.close_array(a, f, f0, k, conts)
        lclosed = {i: self.close_list(lst, k, conts) for i, lst in appends.items()}
        for e in entries.values():
            e.close(k, conts, self.n)

        def state_at(m):
            self.put({**S0, **{nm: c(m) for nm, c in closed.items()}})
            for i, (a, _f, _f0) in arrs.items():
                a.set_f(aclosed[i](m))
            for e in entries.values():
                e.finish(m)
            for i, lst in appends.items():
                old = lst.sym
                lst.sym = lclosed[i](m)
                note("sym", lst, None, lambda lst=lst, old=old: builtins.setattr(lst, "sym", old))

        rng = And(k >= 0, k < self.n.term)
        if exits:
            cont_closed = self.close_formula(cont, sym, closed, arrs, k)
            allc = E.forall(k, rng, cont_closed)
            if not E.fork(allc):
                m = SNum.of_term(E.fresh("it", z3.IntSort()))
                E.add(And((m >= 0).t, (m < self.n).t, Not(z3.substitute(cont_closed, (k, m.term)))))
                E.add(E.forall(k, And(rng, k < m.term), cont_closed))
                if not E.feasible(T):
                    raise PathEnd
                state_at(m)
                r = self.body(self.s.at(m))
                if r is CONT:
                    raise PathEnd
                return r
        state_at(self.n)
        return CONT

    # ---- patterns
    def close_formula(self, f, sym, closed, arrs, k):
        if arrs and mentions(f, {a.sym_decl for a, _, _ in [] }):
            pass
        for name, s0 in sym.items():
            t = sym_term(s0)
            if t is not None and mentions(f, {t.decl().get_id()}):
                c = closed[name](SNum.of_term(k))
                f = z3.substitute(f, (t, c.t if isinstance(c, SBool) else c.term))
        return f

    def close_name(self, name, v0, s0, k, conts):
        if isinstance(s0, Poison):
            return lambda m: Poison(name)
        if hasattr(s0, "__pyvc_array__"):
            vals = [o.extra[0][name] for o in conts]
            if any(not hasattr(v, "__pyvc_array__") for v in vals):
                return lambda m: Poison(name)
            f0 = v0.f
            c = self._close_elems(lambda i: s0.f(i), [(o, v.f) for o, v in zip(conts, vals)], f0, k, v0.n)
            return lambda m: v0.like(c(m))
        t = sym_term(s0)
        try:
            new = merge_values([en.Outcome([o.cond], [], "ret", o.extra[0][name]) for o in conts])
        except Unsupported:
            return lambda m: Poison(name)
        nt = sym_term(new)
        if nt is None or not mentions(nt, {t.decl().get_id()}):
            return lambda m: Poison(name)  # a temporary
        if isinstance(s0, SBool):
            c = self._fold(t, bt(new), k)
            v0 = bt(v0)
            return lambda m: SBool(c(v0, m))
        return self._close_num(v0, s0, new, k)

    def _fold(self, t, new, k):
        """and/or fold of a truth value: closed form as a function of (initial, m)."""
        rng = And(k >= 0, k < self.n.term)
        g = z3.simplify(z3.substitute(new, (t, T)))
        h = z3.simplify(z3.substitute(new, (t, F)))
        tid = {t.decl().get_id()}
        if mentions(g, tid) or mentions(h, tid):
            raise Unsupported("loop-carried truth value")
        if is_f(h) or not E.feasible(And(rng, h)):
            return lambda v0, m: And(v0, E.forall(k, And(k >= 0, k < zint(m)), g))
        if is_t(g) or not E.feasible(And(rng, Not(g))):
            return lambda v0, m: Or(v0, Not(E.forall(k, And(k >= 0, k < zint(m)), Not(h))))
        raise Unsupported("loop-carried truth value that is neither a conjunction nor a disjunction")

    def _close_elems(self, s, news, f0, k, n):
        """Element-wise and/or fold of a boolean array."""
        def elem(i):
            for o, f in news[:-1]:
                if E.fork(o.cond):
                    return f(i)
            return news[-1][1](i)

        # as a formula of the index, evaluated for a generic index in a generic iteration
        i, outs = E.under(k, And(k >= 0, k < self.n.term), lambda: E.generic(n, elem))
        _no_exc(outs)
        if not outs:
            return lambda m: f0
        new = merge_values(outs)
        if not isinstance(new, (SBool, bool)):
            raise Unsupported("loop-carried array that is not a mask")
        t = sym_term(s(SNum.of_term(i)))
        c = self._fold(t, bt(new), k)

        def at(m):
            return lambda j: SBool(z3.substitute(c(z3.Bool("v0!"), m), (i, zint(num(j).term)), (z3.Bool("v0!"), bt(f0(j)))))

        return at

    def close_array(self, a, f, f0, k, conts):
        def final(o):
            # f of the array at the end of the outcome: recorded by the last change
            last = [u for u in o.extra[1] if u.kind == "arr" and u.target is a]
            return last[-1].info if last else f

        return self._close_elems(f, [(o, final(o)) for o in conts], f0, k, a.n)

    def close_list(self, lst, k, conts):
        counts, vals = [], []
        for o in conts:
            app = [u.info for u in o.extra[1] if u.kind == "append" and u.target is lst]
            counts.append(blen(app))
            vals.append(app)
        if lst.sym is not None:
            raise Unsupported("appending to a list of symbolic length")
        head = blist(blist.__iter__(lst))
        if all(c == 1 for c in counts):
            v = alternatives([en.Outcome([o.cond], [], "ret", x[0]) for o, x in zip(conts, vals)])

            def at(m):
                if not head:
                    r = SList(m, lambda i: subst(v, k, i))
                    r.generic, r.index = v, k
                    return r
                h = blen(head)
                return SList(num(m) + h, lambda i: _cat(head, h, v, k, i))

            return at
        if all(c in (0, 1) for c in counts) and not head:
            keep = Or([o.cond for o, c in zip(conts, counts) if c])
            v = merge_values([en.Outcome([o.cond], [], "ret", x[0]) for o, x in zip(conts, vals) if x])

            def at2(m):
                at = lambda i: z3.substitute(keep, (k, zint(num(i).term)))  # noqa: E731
                sel = Selection(m, at)
                r = SList(sel.n, lambda i: subst(v, k, sel.index(i)))
                r.filtered = m, lambda i: subst(v, k, zint(num(i).term)), lambda i: SBool(at(i))
                return r

            return at2
        raise Unsupported("appending a varying number of elements")

    def _close_num(self, v0, s0, new, k):
        d = num(new) - s0
        tid = {sym_term(s0).decl().get_id()}
        v0 = num(v0)
        if not mentions(d.term, tid):
            if not mentions(d.term, {k.decl().get_id()}):
                return lambda m: v0 + num(m) * d
            # a sum: its partial sums as a fresh function
            f = E.fresh_fn("sum", z3.IntSort(), z3.IntSort() if (v0.isint and d.isint) else z3.RealSort())
            mk = lambda j: SNum.of_term(f(zint(num(j).term)))
            E.add((mk(0) == v0).t)
            kk = SNum.of_term(k)
            E.add(E.forall(k, And(k >= 0, k < self.n.term), (mk(kk + 1) == mk(kk) + d).t))
            return lambda m: mk(m)
        # extremum: new = max(s0, g) or min(s0, g)
        raise Unsupported("loop-carried number")


class Entries:
    """An array or dict of which iteration k sets at most the entry of k.

    Inside the loop the entries below k are those of functions W (value), P (set
    at all, for dicts) and K (which kind of value); they are defined by what the
    generic iteration writes, by recursion on k.
    """

    def __init__(self, a):
        self.a = a
        self.dict = isinstance(a, (TDict, TSet))
        self.f0 = None if self.dict else a.f
        if self.dict and (type(a).__len__(a) or a.sym is not None):
            raise Unsupported("loop fills a dict that is not empty")
        self.kinds = []  # kinds of values: ("const", object) or ("val", cls), ("num", isint), ("bool",), ("abs", proto)
        self.W = {}
        self.K = self.P = None
        self.key = None

    # ---- inside the loop
    def begin(self, k):
        a = self.a
        if self.dict:
            if self.key is not None:
                a.sym = SDict(k, self.key, self.read, self.inverse, self.has)
        elif self.kinds:
            f0 = self.f0

            def f(j):
                if num(j).r == num(k).r:
                    return f0(j)
                return _below(j, num(k), lambda: self.read(j), lambda: f0(j))

            a.f = f

    def restore(self):
        if self.dict:
            self.a.sym = None
        else:
            self.a.f = self.f0

    def has(self, j):
        return SBool(self.P(zint(num(j).term)))

    def read(self, j):
        t = zint(num(j).term)
        for i, kd in enumerate(self.kinds[:-1]):
            if E.fork(self.K(t) == i):
                return self.value(i, t)
        return self.value(blen(self.kinds) - 1, t)

    def value(self, i, t):
        kd = self.kinds[i]
        if kd[0] == "const":
            return kd[1]
        w = self.W[i]
        if kd[0] == "val":
            return kd[1].at_type(w(t))
        if kd[0] == "num":
            return SNum.of_term(w(t), self.nan(t) if not kd[1] else F)
        if kd[0] == "bool":
            return SBool(w(t))
        return kd[1].at_index(SNum.of_term(w(t)))

    @staticmethod
    def kind_of(v):
        if isinstance(v, SVal):
            return ("val", v)
        if isinstance(v, (bool, SBool)):
            return ("bool",)
        if num(v) is not None:
            return ("num", num(v).isint)
        if hasattr(v, "at_index"):
            return ("abs", v)
        return ("const", v)

    def place(self, v):
        kd = self.kind_of(v)
        for i, o in enumerate(self.kinds):
            if o[0] == kd[0] and (kd[0] in ("val", "bool") or (kd[0] == "num" and o[1] == kd[1]) or (kd[0] == "abs" and type(o[1]) is type(kd[1])) or (kd[0] == "const" and o[1] is kd[1])):
                return i
        if not self.dict and self.kinds and kd[0] == self.kinds[0][0] == "num":
            return 0
        return None

    def written(self, o, k):
        """The value that the outcome leaves in the entry of k (None: unchanged)."""
        us = [u for u in o.extra[1] if u.target is self.a and u.kind in ("arr", "setitem")]
        if not us:
            return None
        for u in us:
            if u.index is None:
                raise Unsupported("loop changes an array in several ways")
            if self.dict:
                t = sym_term(u.index)
                if t is None or not (z3.is_app(t) and t.num_args() == 1 and t.decl().get_id() in E.distinct):
                    raise Unsupported("loop sets entries of a dict by unknown keys")
                t = t.arg(0)
            else:
                t = zint(num(u.index).term)
            if not z3.simplify(t == k).eq(T):
                raise Unsupported("loop sets other entries than that of the iteration")
        if self.dict:
            return us[-1].info[1]
        return us[-1].info(SNum.of_term(k))

    def learn(self, k, conts):
        grew = False
        for o in conts:
            v = self.written(o, k)
            if v is None:
                continue
            if self.place(v) is None:
                self.kinds.append(self.kind_of(v))
                grew = True
        if grew:
            I = z3.IntSort()  # noqa: E741
            self.K, self.P = E.fresh_fn("kind", I, I), E.fresh_fn("set", I, z3.BoolSort())
            self.nan = E.fresh_fn("nan", I, z3.BoolSort())
            sorts = {"val": Val, "bool": z3.BoolSort(), "abs": I}
            self.W = {i: E.fresh_fn("entry", I, sorts[kd[0]] if kd[0] in sorts else I if kd[1] else z3.RealSort()) for i, kd in enumerate(self.kinds) if kd[0] != "const"}
            if self.dict and self.key is None:
                key = next(u.index for o in conts for u in o.extra[1] if u.target is self.a and u.kind == "setitem")
                self.key = lambda j: subst(key, k, zint(num(j).term))
                self.inverse = E.distinct[sym_term(key).decl().get_id()]
        return grew

    def decls(self):
        z = z3.IntVal(0)
        return {f(z).decl().get_id() for f in [self.K, self.P, self.nan, *self.W.values()]}

    # ---- after the loop
    def close(self, k, conts, n):
        rng = And(k >= 0, k < n.term)
        per = [(o, self.written(o, k)) for o in conts]
        ids = self.decls()
        wrote = [(o, v) for o, v in per if v is not None]
        always = blen(wrote) == blen(per)

        def terms(v):
            if isinstance(v, bool):
                return [bt(v)]
            if isinstance(v, (SVal, SBool)):
                return [v.t]
            if num(v) is not None:
                return [num(v).term, num(v).nan]
            return [zint(num(v.i).term)] if hasattr(v, "at_index") else []

        recursive = any(mentions(t, ids) for o, v in per for t in [o.cond, *(terms(v) if v is not None else [])])
        if not recursive:
            recursive = any(mentions(f, ids) for o in conts for f in o.facts)
        self.always = always
        cond = Or([o.cond for o, _ in wrote])
        if not recursive:
            alts = [(o.cond, v) for o, v in wrote]
            groups = {}
            for c, v in alts:
                groups.setdefault(self.place(v), []).append((c, v))

            def at(j):
                t = zint(num(j).term)
                gs = blist(groups.items())
                for i, (g, xs) in enumerate(gs):
                    c = Or([z3.substitute(c, (k, t)) for c, _ in xs])
                    if i == blen(gs) - 1 or E.fork(c):
                        r = subst(xs[-1][1], k, t) if self.kinds[g][0] != "const" else self.kinds[g][1]
                        for c2, v in reversed(xs[:-1]):
                            r = ite(SBool(z3.substitute(c2, (k, t))), subst(v, k, t) if self.kinds[g][0] != "const" else v, r)
                        return r

            self.at = at
            self.set_at = lambda j: SBool(z3.substitute(cond, (k, zint(num(j).term))))
            return
        for o, v in per:
            facts = [self.P(k) == (T if v is not None else F)]
            if v is None and not self.dict:
                v = self.f0(SNum.of_term(k))
            if v is not None:
                i = self.place(v)
                facts.append(self.K(k) == i)
                if self.kinds[i][0] != "const":
                    ts = terms(v)
                    w = self.W[i](k)
                    facts.append(w == (ts[0] if not (z3.is_int(ts[0]) and w.sort() == z3.RealSort()) else z3.ToReal(ts[0])))
                    if blen(ts) == 2 and not self.kinds[i][1]:
                        facts.append(self.nan(k) == ts[1])
            E.add(E.forall(k, And(rng, o.cond), And(facts)))
        self.at, self.set_at = self.read, self.has

    def finish(self, m):
        a = self.a
        if self.dict:
            old = a.sym
            a.sym = SDict(m, self.key, self.at, self.inverse, None if self.always else self.set_at)
            note("setitem", a, None, lambda: builtins.setattr(a, "sym", old))
            return
        f0, at, m = self.f0, self.at, num(m)
        if not self.always and self.at != self.read:
            inner = at
            at = lambda j: _cond_value(self.set_at(j), lambda: inner(j), lambda: f0(j))  # noqa: E731
        if same_n(m, a.n):
            a.set_f(at)
        else:
            a.set_f(lambda j: _below(j, m, lambda: at(j), lambda: f0(j)))


def _cond_value(c, a, b):
    c = z3.simplify(bt(c))
    if is_t(c) or is_f(c):
        return a() if is_t(c) else b()
    if E.splitting:
        return a() if E.fork(c) else b()
    return ite(SBool(c), a(), b())


def _cat(head, h, v, k, i):
    i = num(i)
    if i.is_const() and i.value() < h:
        return head[int(i.value())]
    if E.proves((i >= h).t):
        return subst(v, k, i - h)
    r = subst(v, k, i - h)
    for j in reversed(brange(h)):
        r = ite(i == j, head[j], r)
    return r


class Selection:
    """The increasing enumeration of the indices below n with keep(i)."""

    def __init__(self, n, keep):
        n = num(n)
        self.src_n = n
        f = E.fresh_fn("sel", z3.IntSort(), z3.IntSort())
        g = E.fresh_fn("selinv", z3.IntSort(), z3.IntSort())
        m = SNum.of_term(E.fresh("nsel", z3.IntSort()))
        # the condition as a formula of the index, evaluated for a generic index
        gk, outs = E.generic(n, lambda i: SBool(bt(keep(i))))
        _no_exc(outs)
        formula = Or([And(o.cond, bt(o.value)) for o in outs])
        keep = lambda i: z3.substitute(formula, (gk, zint(num(i).term)))  # noqa: E731
        self._f, self._g, self.keep, self.n = f, g, keep, m
        i, j = z3.Ints(f"i!{E.uid} j!{E.uid}")
        E.uid += 1
        E.add(And(m.term >= 0, m.term <= n.term))
        E.add(z3.ForAll([i], Implies(And(i >= 0, i < m.term), And(f(i) >= 0, f(i) < n.term, keep(SNum.of_term(f(i))), g(f(i)) == i)), patterns=[f(i)]))
        E.add(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < m.term), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
        kj = keep(SNum.of_term(j))
        E.add(z3.ForAll([j], Implies(And(j >= 0, j < n.term, kj), And(g(j) >= 0, g(j) < m.term, f(g(j)) == j)), patterns=[g(j)]))
        # every kept index is enumerated (also without a g-term to trigger on)
        E.add(Implies(m.term == 0, z3.ForAll([j], Implies(And(j >= 0, j < n.term), Not(kj)))))

    def index(self, i):
        return SNum.of_term(self._f(zint(num(i).term)))

    def find(self, j):
        """(is j enumerated, at which position)"""
        j = num(j)
        p = SNum.of_term(self._g(j.term))
        return And((j >= 0).t, (j < self.src_n).t, self.keep(j)), p


def sym_term(v):
    if isinstance(v, (SBool, SVal)):
        return v.t
    if isinstance(v, bool):
        return T if v else F
    n = num(v)
    return None if n is None else n.term


def start_symbol(name, v):
    if type(v) is Poison:
        return v
    if isinstance(v, (bool, SBool)):
        return SBool(z3.Bool(_nm(name)))
    n = num(v)
    if n is not None:
        return SNum.of_term(z3.Int(_nm(name)) if n.isint else z3.Real(_nm(name)))
    if hasattr(v, "__pyvc_array__") and v.kind == "bool":
        return v.like(fresh_elems(v))
    return Poison(name)


def _nm(name):
    E.uid += 1
    return f"carried:{name}!{E.uid}"


def fresh_elems(a):
    if a.kind != "bool":
        raise Unsupported("loop over a symbolic sequence changes an array")
    f = z3.Function(_nm("arr"), z3.IntSort(), z3.BoolSort())
    return lambda i: SBool(f(zint(num(i).term)))


# ====================================================================== comprehensions
def comp(kind, it, elt, conds=()):
    """[elt(x) for x in it if conds] etc."""
    if hasattr(it, "__pyvc_comp__"):
        return it.__pyvc_comp__(kind, elt, conds)
    s = symseq(it)
    if kind == "gen":
        return Gen(it, elt, conds)
    if s is None or isinstance(s.n, int):
        out = [elt(x) for x in s_iter(it) if all_conds(conds, x)]
        if kind == "list":
            return TList(out)
        if kind == "dict":
            if any(isinstance(k, Sym) and not (isinstance(k, SNum) and k.is_const()) for k, _ in out):
                return SDict(blen(out), lambda i: pick(out, i)[0], lambda i: pick(out, i)[1])
            return TDict(out)
        return TSet(out)
    if kind == "set":
        raise Unsupported("set comprehension over a symbolic sequence")
    if kind == "dict":
        if conds:
            raise Unsupported("filtered dict comprehension over a symbolic sequence")
        ks, vs = TList(), TList()

        def entry(x):
            key, v = elt(x)
            ks.append(key)
            vs.append(v)
            return CONT

        loop(s, entry)
        ks, vs = ks.sym, vs.sym
        return SDict(s.n, ks.at, vs.at, comp_inverse(s, ks, vs))
    out = TList()
    loop(s, lambda x: (out.append(elt(x)) if all_conds(conds, x) else None, CONT)[1])
    return out


def comp_inverse(s, ks, vs):
    """The index of a key of {key: value for x in s}, if keys are distinct or repeat their values."""
    k = z3.Int("k!comp")
    at = SNum.of_term(k)
    key = ks.at(at)
    inv = inverse_of(ks.at)
    if inv is not None:
        return inv
    inv = key_inverse(s)
    if inv is not None:
        x = s.at(at)
        return inv if eq_terms(key, x[0] if isinstance(x, tuple) else x) else None
    t = sym_term(key)
    if t is not None and z3.is_app(t) and t.num_args() == 1:
        outer, u = E.distinct.get(t.decl().get_id()), t.arg(0)
        inner = E.somewhere.get(u.decl().get_id()) if z3.is_app(u) else None
        if outer is not None and inner is not None and u.num_args() and u.arg(u.num_args() - 1).eq(k):
            args = [u.arg(i) for i in brange(u.num_args() - 1)]
            y = z3.Int("y!comp")  # equal keys have equal u
            ts = terms_of(vs.generic)
            if ts is not None and not any(mentions(a, {k.decl().get_id()}) for a in args) and not any(
                mentions(z3.substitute(z3.substitute(a, (vs.index, k)), (u, y)), {k.decl().get_id()}) for a in ts
            ):
                return lambda v: inner(*args, outer(v))
    return None


def terms_of(v):
    """The terms a value consists of (None: not known)."""
    if isinstance(v, Alts):
        r = [o.cond for o in v.outs]
        for o in v.outs:
            ts = terms_of(o.value)
            if ts is None:
                return None
            r.extend(ts)
        return r
    if isinstance(v, SNum):
        return [v.nan, v.rterm]
    if isinstance(v, (SBool, SVal)):
        return [v.t]
    return [] if stateless(v) else None


def stateless(v):
    """A sentinel."""
    return v is None or isinstance(v, (bool, str, int, float)) or (type(v).__module__.startswith("ConfigSpace") and not getattr(v, "__dict__", True))


class Alts:
    """One of several values that cannot be written as one expression; reading it forks."""

    def __init__(self, outs):
        self.outs = outs

    def __pyvc_subst__(self, k, i):
        i = zint(num(i).term) if not isinstance(i, z3.ExprRef) else i
        for o in self.outs[:-1]:
            if E.fork(z3.substitute(o.cond, (k, i))):
                break
        else:
            o = self.outs[-1]
        return o.value if stateless(o.value) else subst(o.value, k, i)


def alternatives(outs):
    try:
        return merge_values(outs)
    except Unsupported:
        return Alts(outs)


def key_inverse(s):
    return getattr(s, "inverse", None) or getattr(getattr(s, "inner", None), "inverse", None)


def build(s, elt):
    tmp = TList()
    loop(s, lambda x: (tmp.append(elt(x)), CONT)[1])
    return tmp.sym


def all_conds(conds, x):
    for c in conds:
        if not c(x):
            return False
    return True


class Gen:
    """A generator expression; lazily evaluated when it is consumed."""

    def __init__(self, it, elt, conds):
        self.it, self.elt, self.conds = it, elt, conds
        self.started = None

    def __iter__(self):
        if self.started is None:
            self.started = self.elements()
        return self.started

    def elements(self):
        for x in s_iter(self.it):
            if all_conds(self.conds, x):
                yield self.elt(x)

    def __next__(self):
        return next(iter(self))

    def __pyvc_seq__(self):
        s = symseq(self.it)
        if s is None or isinstance(s.n, int):
            return None
        return comp("list", self.it, self.elt, self.conds).sym

    def search(self, want):
        """Is there an element with truth value want (first one decides)?"""
        hit = []

        def body(x):
            if all_conds(self.conds, x) and bool(self.elt(x)) == want:
                return ("ret", True)
            return CONT

        return loop(self.it, body) is not CONT


class Yielded:
    """What a generator function yields, collected."""

    def __init__(self, items):
        self.items, self.pos = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.items.sym is not None:
            raise Unsupported("native iteration over a generator of symbolic length")
        if self.pos >= blen(self.items):
            raise StopIteration
        self.pos += 1
        note("gen", self, None, lambda p=self.pos - 1: builtins.setattr(self, "pos", p))
        return self.items[self.pos - 1]

    def __pyvc_seq__(self):
        return self.items.sym


# ====================================================================== builtins for the verified code
def b_len(x):
    s = symseq(x)
    if s is not None:
        return s.n
    if isinstance(x, SDict):
        return x.n
    return blen(x)


def b_range(*a):
    a = [int(x.value()) if isinstance(x, SNum) and x.is_const() and x.isint else x for x in a]
    if all(isinstance(x, int) for x in a):
        return brange(*a)
    if blen(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def b_enumerate(x, start=0):
    s = symseq(x)
    if s is None or isinstance(s.n, int):
        return builtins.enumerate(s_iter(x), start)
    r = SEnumerate(s.n, lambda i: (num(i) + start if start else num(i), s.at(i)))
    r.inner = s
    return r


def b_zip(*xs, **k):
    ss = [symseq(x) for x in xs]
    if all(s is None or isinstance(s.n, int) for s in ss):
        return builtins.zip(*[s_iter(x) for x in xs], **k)
    n = None
    for s, x in zip(ss, xs):
        m = s.n if s is not None else blen(x)
        if n is None:
            n = m
        elif not same_n(n, m):
            raise Unsupported("zip of different lengths")
    return SSeq(n, lambda i: tuple(s.at(i) if s is not None else pick(blist(x), i) for s, x in zip(ss, xs)))


def b_all(x):
    if isinstance(x, Gen):
        return not x.search(False)
    return not Gen(x, lambda v: v, ()).search(False)


def b_any(x):
    if isinstance(x, Gen):
        return x.search(True)
    return Gen(x, lambda v: v, ()).search(True)


def b_sorted(x, **k):
    return TList(builtins.sorted(s_iter(x), **k))


def b_reversed(x):
    s = symseq(x)
    if s is None or isinstance(s.n, int):
        return iter(blist(s_iter(x))[::-1])
    return SList(s.n, lambda i: s.at(num(s.n) - 1 - i))


def b_min(*a, **k):
    return _extremum(builtins.min, lambda x, y: x <= y, a, k)


def b_max(*a, **k):
    return _extremum(builtins.max, lambda x, y: x >= y, a, k)


def _extremum(fn, le, a, k):
    xs = blist(a) if blen(a) > 1 else blist(s_iter(a[0]))
    if k or not any(isinstance(x, Sym) for x in xs):
        return fn(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        c = le(r, x)
        r = ite(c, r, x) if num(r) is not None else (r if c else x)
    return r


def b_abs(x):
    return builtins.abs(x) if not hasattr(x, "__pyvc_array__") else x.__abs__()


def b_sum(x, start=0):
    s = symseq(x)
    if s is None or isinstance(s.n, int):
        r = start
        for v in s_iter(x):
            r = r + v
        return r
    raise Unsupported("sum of a symbolic sequence")


def b_round(x, n=None):
    if isinstance(x, SNum):
        return en.rint(x) if n is None else en.round_places(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_iter(x, *a):
    s = symseq(x)
    if s is not None and isinstance(s.n, int):
        return iter([s.at(i) for i in brange(s.n)])
    return x if s is not None else iter(x, *a)


class _TypeStub(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) or cls.check(x)

    def __subclasscheck__(cls, c):
        if isinstance(c, _TypeStub):
            c = c.real
        return issubclass(c, cls.real)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)

    def __or__(cls, o):
        import typing

        return typing.Union[cls.real, o]

    def __ror__(cls, o):
        import typing

        return typing.Union[o, cls.real]

    def __getitem__(cls, item):
        return cls.real[item]


def _int_make(x=0, *a):
    n = num(x)
    if n is not None and not isinstance(x, (int, float)):
        if bool(SBool(n.nan)):
            raise ValueError("cannot convert float NaN to integer")
        return en.trunc(n)
    return builtins.int(x, *a)


def _float_make(x=0.0):
    if hasattr(x, "__pyvc_float__"):
        return x.__pyvc_float__()
    n = num(x)
    if n is not None and not isinstance(x, (int, float)):
        return SNum(n.r, False, n.nan)
    if isinstance(x, SVal):
        raise TypeError("float() argument")
    return builtins.float(x)


def _bool_make(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return x != 0
    if hasattr(x, "__pyvc_array__"):
        return x.truth()
    return builtins.bool(x)


class b_int(metaclass=_TypeStub):
    real = builtins.int
    check = staticmethod(lambda x: isinstance(x, SNum) and x.isint or isinstance(x, SBool))
    make = staticmethod(_int_make)


class b_float(metaclass=_TypeStub):
    real = builtins.float
    check = staticmethod(lambda x: (isinstance(x, SNum) and not x.isint) or hasattr(type(x), "__pyvc_is_float__"))
    make = staticmethod(_float_make)


class b_bool(metaclass=_TypeStub):
    real = builtins.bool
    check = staticmethod(lambda x: isinstance(x, SBool))
    make = staticmethod(_bool_make)


class b_str(metaclass=_TypeStub):
    real = builtins.str
    check = staticmethod(lambda x: isinstance(x, SStr) or (isinstance(x, SMix) and E.fork(x.is_str())))
    make = staticmethod(lambda *a, **k: builtins.str(*a, **k))


class SCounter:
    """Counter of a sequence: an element occurs more than once iff it has an equal one."""

    def __init__(self, s):
        self.s = s

    def items(self):
        s = self.s
        if getattr(s, "inverse", None) is not None:
            return SList(s.n, lambda i: (s.at(i), 1))

        def item(i):
            x = s.at(i)
            c = SNum.of_term(E.fresh("count", z3.IntSort()))
            other = exists(s.n, lambda j: SBool(And(Not((num(j) == i).t), bt(eq(s.at(j), x)))))
            E.add(And(c.term >= 1, (c.term > 1) == other))
            return (x, c)

        return SList(s.n, item)


def b_Counter(x=()):
    s = symseq(x)
    if s is not None and not isinstance(s.n, int):
        return SCounter(s)
    items = blist(s_iter(x))
    if any(isinstance(v, Sym) for v in items):
        return SCounter(SList(blen(items), lambda i: pick(items, i)))
    return collections.Counter(items)


class b_list(metaclass=_TypeStub):
    real = builtins.list
    check = staticmethod(lambda x: isinstance(x, SList) and x.pytype == "list")
    make = staticmethod(lambda *a: TList(*a))


def _tuple_make(*a):
    if not a:
        return ()
    s = symseq(a[0])
    if s is None or isinstance(s.n, int):
        return btuple(s_iter(a[0]))
    r = STuple(s.n, s.f)
    r.inverse = s.inverse
    return r


class b_tuple(metaclass=_TypeStub):
    real = builtins.tuple
    check = staticmethod(lambda x: isinstance(x, STuple))
    make = staticmethod(_tuple_make)


class b_dict(metaclass=_TypeStub):
    real = builtins.dict
    check = staticmethod(lambda x: isinstance(x, SDict))
    make = staticmethod(lambda *a, **k: TDict(*[_dictarg(x) for x in a], **k))


def _dictarg(x):
    if isinstance(x, (SDict, TDict)):
        return x
    s = symseq(x)
    if s is not None and not isinstance(s.n, int):
        if isinstance(x, collections.abc.Mapping):
            return mapping_dict(x, s)
        return SDict(s.n, lambda i: s.at(i)[0], lambda i: s.at(i)[1])
    if isinstance(x, collections.abc.Mapping) and not isinstance(x, bdict):
        x = [(k, x[k]) for k in s_iter(x)]
    if not isinstance(x, bdict):
        x = blist(s_iter(x))
        if any(symbolic_key(k) for k, _ in x):
            r = TDict()
            for k, v in x:
                r[k] = v
            return r
    return x


def mapping_dict(x, s):
    """dict(x) of a mapping whose keys are s."""
    f = getattr(s, "filtered", None)
    if f is None:
        return SDict(s.n, s.at, lambda i: x[s.at(i)], s.inverse or inverse_of(s.at))
    n, at, keep = f
    return SDict(n, at, lambda i: x[at(i)], inverse_of(at), keep)


def inverse_of(at):
    """The inverse of a function of an index, where its values are known to be distinct."""
    k = z3.Int("k!inverse")
    t = sym_term(at(SNum.of_term(k)))
    if t is not None and z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(k):
        return E.distinct.get(t.decl().get_id())
    return None


def _set_make(*a):
    if not a:
        return TSet()
    s = symseq(a[0])
    if s is None or isinstance(s.n, int):
        return TSet(blist(s_iter(a[0])))
    r = TSet()
    f = getattr(s, "filtered", None) or (s.n, s.at, None)
    r.sym = SDict(f[0], f[1], lambda i: True, s.inverse or inverse_of(f[1]), f[2])
    return r


class b_set(metaclass=_TypeStub):
    real = builtins.set
    check = staticmethod(lambda x: False)
    make = staticmethod(_set_make)


class FSet:
    """A frozenset of symbolic elements."""

    def __init__(self, s):
        self.s = s

    __hash__ = None


def b_frozenset(x=()):
    s = symseq(x)
    if s is None:
        items = blist(s_iter(x))
        if not any(_has_sym(v) for v in items):
            return frozenset(items)
        s = SList_of(items)
    return FSet(s)


def _has_sym(v):
    return any(_has_sym(w) for w in v) if isinstance(v, btuple) else isinstance(v, Sym)


_hashes = []
_hash = z3.Function("hash of", Val, z3.IntSort())
_unhashable = z3.Function("not hashable", Val, z3.BoolSort())


def b_hash(x):
    """hash(): equal values have equal hashes, nothing else is known."""
    if isinstance(x, SVal):
        if E.fork(_unhashable(x.t)):
            raise TypeError("unhashable type")
        return SNum.of_term(_hash(x.t))
    if not isinstance(x, FSet):
        return hash(x)
    h = E.fresh("hash", z3.IntSort())
    f = getattr(x.s, "filtered", None) or (x.s.n, x.s.at, lambda i: SBool(T))
    for (n, at, keep), o in blist(_hashes):

        def same(i):
            a, b = bool(keep(i)), bool(f[2](i))
            return a == b and (not a or eq(at(i), f[1](i)))

        E.add(Implies(And((num(n) == num(f[0])).t, forall(n, same)), h == o))
    _hashes.append((f, h))
    note("pure", x, None, lambda: _hashes.pop())
    return SNum.of_term(h)


BUILTINS = dict(
    len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, all=b_all, any=b_any,
    sorted=b_sorted, reversed=b_reversed, min=b_min, max=b_max, abs=b_abs, sum=b_sum, round=b_round,
    int=b_int, float=b_float, bool=b_bool, list=b_list, str=b_str, tuple=b_tuple, dict=b_dict, set=b_set, iter=b_iter, hash=b_hash, frozenset=b_frozenset,
)

# library classes the code imports by name
REPLACED = {id(collections.Counter): b_Counter}
