"""An arbitrary configuration space, given by the contracts of its parts (symbolic only).

Any number of hyperparameters, conditions and forbidden clauses.  What is known
about them is what other theorems prove: a hyperparameter encodes and decodes
(C01, C02), a condition or clause has a truth value on a vector that depends
only on the entries it mentions (C05, C06), and the lists a space keeps
describe the same hyperparameters, conditions and clauses (C06, C12).
Anything else the code may ask for is reported as not supported.
"""
from __future__ import annotations

HP_FACTS = "a hyperparameter obeys C01 and C02: legal values have legal vectors that decode to the value, legal vectors have legal values; the default is legal, and rounded if it is a float"
LAYOUT = "representation invariant of DAG.update: nodes by position, roots and non-roots, condition groups with their children"
LOOKUP = "representation invariant of DAG.update: the conditions to look at after a change of a hyperparameter are those that depend on it, directly or through others, each after the ones it depends on"
SAMPLES = "a sampled vector of a hyperparameter is legal, and the generator that is given is used (C08: sampling of each kind)"
UNCONDITIONAL = "representation invariant of DAG.update: the clauses are divided into those that mention no conditional hyperparameter and the others; a condition is listed after those of its parents"
FAST = "representation invariant of DAG.update: the optimised clauses forbid the same vectors as the clauses that were added"


# group of each hyperparameter of a small space (-1: none)
PARENTS = {
    (): [[]], (-1,): [[]], (-1, -1): [[]], (-1, 0): [[[0]]], (-1, 0, 0): [[[0]]], (-1, 0, 1): [[[0], [1]], [[0], [0, 1]], [[0], [0]]],
    (-1, -1, 0): [[[0]], [[1]], [[0, 1]]],
}
STRUCTURES = {0: [[]], 1: [[-1]], 2: [[-1, -1], [-1, 0]], 3: [[-1, 0, 0], [-1, 0, 1], [-1, -1, 0]]}


def And_(*a):
    from engine import And

    return And(*a)


class Abs:
    """An element of a symbolic family, known by its index."""

    _known = ()

    def __init__(self, world, i):
        object.__setattr__(self, "w", world)
        object.__setattr__(self, "i", i)

    def __getattr__(self, n):
        from engine import Unsupported

        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an arbitrary {type(self).__name__.lower()}")

    def __setattr__(self, n, v):
        from engine import Unsupported

        raise Unsupported(f"change of {n} of an arbitrary {type(self).__name__.lower()}")

    def __pyvc_subst__(self, k, i):
        from engine import num, subst

        return type(self)(self.w, subst(num(self.i), k, i))

    def __pyvc_ite__(self, c, o):
        from engine import SBool, Unsupported, ite, num

        if type(o) is not type(self):
            raise Unsupported("merge of different objects")
        return type(self)(self.w, ite(SBool(c) if not isinstance(c, SBool) else c, num(self.i), num(o.i)))

    def at_index(self, i):
        return type(self)(self.w, i)

    def __eq__(self, o):
        from engine import num

        return type(o) is type(self) and num(self.i) == num(o.i)

    def __ne__(self, o):
        from engine import SBool, Not, bt

        return SBool(Not(bt(self == o)))

    __hash__ = None

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


class Hp(Abs):
    """A hyperparameter."""

    @property
    def __class__(self):
        from ConfigSpace.hyperparameters import CategoricalHyperparameter, FloatHyperparameter

        return FloatHyperparameter if self.w.V.bool(self.w.is_float(self.i)) else CategoricalHyperparameter

    @property
    def name(self):
        return self.w.name(self.i)

    @property
    def default_value(self):
        return self.w.default(self.i)

    @property
    def _normalized_default_value(self):
        return self.w.enc(self.i, self.w.default(self.i))

    def legal_value(self, v):
        return self.w.legal(self.i, v)

    def legal_vector(self, x):
        return self.w.legal_vector(self.i, x)

    legal_vector_single = legal_vector
    legal_value_single = legal_value

    def to_vector(self, v):
        return self.w.enc(self.i, v)

    def to_value(self, x=None, *, vector=None):
        return self.w.dec(self.i, x if vector is None else vector)

    @property
    def _transformer(self):
        return self

    @property
    def _vector_dist(self):
        return self

    def sample_vector(self, n, *, seed=None):
        if not self.w.sampling:
            return self.__getattr__("sample_vector")
        return self.w.samples(self.i, n, seed)


class Node(Abs):
    @property
    def hp(self):
        return Hp(self.w, self.i)

    @property
    def idx(self):
        return self.i

    @property
    def name(self):
        return self.w.name(self.i)

    @property
    def parent_condition(self):
        c = self.w.group(self.i)
        return Condition(self.w, c) if self.w.V.bool(c >= 0) else None


class Condition(Abs):
    """The condition of a group: a comparison or a conjunction of any number of them."""

    @property
    def __class__(self):
        from ConfigSpace.conditions import AndConjunction, EqualsCondition

        if not self.w.leaves:
            return Condition
        return AndConjunction if self.w.V.bool(self.w.compound(self.i)) else EqualsCondition

    def satisfied_by_vector(self, vec):
        return self.w.holds(self.i, vec)

    def satisfied_by_value(self, values):
        return self.w.holds_by_value(self.i, values)

    def satisfied_by_vector_array(self, arr):
        return arr.by_column(self.w.holds(self.i, arr.vec))

    @property
    def dlcs(self):
        w, c = self.w, self.i
        if not isinstance(self, _conjunction()):
            return self.__getattr__("dlcs")
        return w.V.seq(w.n_leaves(c), lambda j: Leaf(w, (c, j)))

    @property
    def parent(self):
        w, c = self.w, self.i
        if isinstance(self, _conjunction()):
            return self.__getattr__("parent")
        return Hp(w, w.leaf(c, 0))


def _conjunction():
    from ConfigSpace.conditions import Conjunction

    return Conjunction


class Leaf(Abs):
    """A comparison within a condition."""

    @property
    def parent(self):
        return Hp(self.w, self.w.leaf(*self.i))

    def __pyvc_subst__(self, k, i):
        from engine import num, subst

        return Leaf(self.w, tuple(subst(num(x), k, i) for x in self.i))


class Group(Abs):
    """A condition with the hyperparameters that depend on it (a ConditionNode)."""

    @property
    def condition(self):
        return Condition(self.w, self.i)

    @property
    def children_indices(self):
        w, c = self.w, self.i
        r = w.V.build(w.n_children(c), lambda j: w.child(c, j), "i8")
        if w.table is None:
            r.inverse = lambda t: w._place(t)
        return r

    @property
    def nan_arr(self):
        return self.w.V.np.full(self.w.n_children(self.i), self.w.V.np.nan)

    @property
    def unique_children(self):
        from seq import SDict

        w, c = self.w, self.i
        return SDict(w.n_children(c), lambda j: w.child(c, j), lambda j: Node(w, w.child(c, j)))


class Clause(Abs):
    def is_forbidden_vector(self, vec):
        return self.w.forbidden(self.i, vec)

    def is_forbidden_vector_array(self, arr):
        return arr.by_column(self.w.forbidden(self.i, arr.vec))


class FastClause(Abs):
    def is_forbidden_vector(self, vec):
        return self.w.fast(self.i, vec)


class Dag(Abs):
    def __init__(self, world):
        super().__init__(world, 0)
        w, V = world, world.V
        from seq import SDict

        d = self.__dict__
        d["nodes"] = SDict(w.n, lambda i: w.name(i), lambda i: Node(w, i), w.names_inverse)
        d["roots"] = SDict(w.n_roots, lambda j: w.name(w.root(j)), lambda j: Node(w, w.root(j)))
        d["index_of"] = SDict(w.n, lambda i: w.name(i), lambda i: i, w.names_inverse)
        d["at"] = w.names
        d["hyperparameters"] = V.seq(w.n, lambda i: Hp(w, i))
        d["minimum_conditions"] = V.seq(w.m, lambda c: Group(w, c))
        d["forbiddens"] = V.seq(w.n_clauses, lambda f: Clause(w, f))
        d["fast_forbidden_checks"] = V.seq(w.n_fast, lambda f: FastClause(w, f))
        if w.lookups:
            d["change_hp_lookup"] = SDict(w.n, lambda i: w.name(i), lambda i: w.lookup(i), w.names_inverse)
        d["normalized_defaults"] = V.build(w.n, lambda i: w.enc(i, w.default(i)))
        if w.sampling:
            u = w.n_uncond
            d["non_roots"] = SDict(w.n - w.n_roots, lambda j: w.name(w.conditional(j)), lambda j: Node(w, w.conditional(j)))
            d["_unconditional"] = V.seq(u, lambda f: Clause(w, f))
            d["_conditional"] = V.seq(w.n_clauses - u, lambda f: Clause(w, u + f))
        d["parent_conditions_of"] = SDict(w.n, lambda i: w.name(i), lambda i: w.conditions_of(i), w.names_inverse)


    @property
    def unconditional_forbiddens(self):
        if not self.w.sampling:
            return self.__getattr__("unconditional_forbiddens")
        self.w.settle()
        return self._unconditional

    @property
    def conditional_forbiddens(self):
        if not self.w.sampling:
            return self.__getattr__("conditional_forbiddens")
        self.w.settle()
        return self._conditional


class World:
    def __init__(self, V, lookups=False, clauses=True, leaves=False, sampling=False):
        import z3
        from engine import E, Val

        self.V, self.z3, self.E = V, z3, E
        self.random = object() if sampling else None
        self.versions = []
        self.sampling, self.matrices, self.calls = sampling, [], 0
        self.lookups, self.clauses, self.leaves, self.targets = lookups, clauses, leaves, []
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()  # noqa: E741
        V.exact = False
        E.trust(HP_FACTS), E.trust(LAYOUT), E.trust(FAST)
        self.n = V.length("number of hyperparameters", 0)
        self.names = V.vals("names", self.n, kind="str")
        self.names_inverse = getattr(self.names, "inverse", None) or getattr(getattr(self.names, "sym", None), "inverse", None)
        F = z3.Function
        self._group, self._child, self._count, self._place = F("group", I, I), F("child", I, I, I), F("children", I, I), F("place", I, I)
        self._root, self._root_place = F("root", I, I), F("root place", I, I)
        self._legal, self._legalvec = F("legal", I, Val, B), F("legal vector", I, R, B)
        self._enc, self._dec = F("encode", I, Val, R), F("decode", I, R, Val)
        self._default, self._is_float, self._round = F("default", I, Val), F("is float", I, B), F("rounded", Val, Val)
        self._holds, self._forb, self._fast = F("holds", I, I, B), F("forbids", I, I, B), F("forbids fast", I, I, B)
        self._parent = F("parent of group", I, I, B)
        self.n_clauses, self.n_fast = V.length("number of clauses", 0), V.length("number of optimised clauses", 0)
        if sampling:
            E.trust(SAMPLES), E.trust(UNCONDITIONAL)
            if isinstance(self.n_clauses, int):
                self.n_uncond = V.choice("number of unconditional clauses", list(range(self.n_clauses + 1)))
            else:
                self.n_uncond = V.length("number of unconditional clauses", 0)
                V.assume(V.le(self.n_uncond, self.n_clauses))
            self._nonroot = F("conditional", I, I)
            self._sample = F("sample", I, I, I, R)
            s, i, j = z3.Ints("s! i! j!")
            E.add(z3.ForAll([s, i, j], self._legalvec(i, self._sample(s, i, j)), patterns=[self._sample(s, i, j)]))
        self.table = None
        if isinstance(self.n, int):
            # small spaces: the structure is enumerated
            self.table = t = V.choice("groups", STRUCTURES[min(self.n, 3)])
            self.m = max([-1, *t]) + 1
            self.kids = [[i for i, g in enumerate(t) if g == c] for c in range(self.m)]
            self.root_list = [i for i, g in enumerate(t) if g < 0]
            self.n_roots = len(self.root_list)
            for c in range(self.m):
                for i in range(self.n):
                    if i >= self.kids[c][0]:
                        E.add(z3.Not(self._parent(c, i)))
            if lookups or leaves:
                ps = V.choice("parents", PARENTS[tuple(t)])
                for c in range(self.m):
                    for i in range(self.n):
                        E.add(self._parent(c, i) if i in ps[c] else z3.Not(self._parent(c, i)))
            if lookups:
                E.trust(LOOKUP)
                self.look_table = [self._closure(ps, i) for i in range(self.n)]
            if leaves:
                self.leaf_table = [[*p, p[0]] if len(p) > 1 else p for p in ps]
                self._compound = F("compound", I, B)
                for c in range(self.m):
                    if len(self.leaf_table[c]) > 1:
                        E.add(self._compound(c))
            return
        self.m = V.length("number of groups", 0)
        self.n_roots = V.length("number of roots", 0)
        n, m, r = (self.term(x) for x in (self.n, self.m, self.n_roots))
        i, j, c = z3.Ints("i! j! c!")
        A, And, Implies = z3.ForAll, z3.And, z3.Implies
        g, ch, nc, pl, ro, rp = self._group, self._child, self._count, self._place, self._root, self._root_place
        node, grp = And(i >= 0, i < n), And(c >= 0, c < m)
        add = E.add
        add(A([i], Implies(node, And(g(i) >= -1, g(i) < m)), patterns=[g(i)]))
        add(A([i], Implies(And(node, g(i) >= 0), And(pl(i) >= 0, pl(i) < nc(g(i)), ch(g(i), pl(i)) == i)), patterns=[g(i)]))
        add(A([c], Implies(grp, nc(c) >= 1), patterns=[nc(c)]))
        kid = ch(c, j)
        add(A([c, j], Implies(And(grp, j >= 0, j < nc(c)), And(kid >= 0, kid < n, g(kid) == c, pl(kid) == j)), patterns=[kid]))
        add(A([i], Implies(And(node, g(i) == -1), And(rp(i) >= 0, rp(i) < r, ro(rp(i)) == i)), patterns=[g(i)]))
        add(A([j], Implies(And(j >= 0, j < r), And(ro(j) >= 0, ro(j) < n, g(ro(j)) == -1, rp(ro(j)) == j)), patterns=[ro(j)]))
        # hyperparameters (added where they are used in small spaces)
        x, v = z3.Real("x!"), z3.Const("v!", Val)
        L, LV, en, de = self._legal, self._legalvec, self._enc, self._dec
        add(A([i, v], Implies(And(node, L(i, v)), LV(i, en(i, v))), patterns=[en(i, v)]))
        add(A([i, v], Implies(And(node, L(i, v), z3.Not(self._is_float(i))), de(i, en(i, v)) == v), patterns=[en(i, v)]))
        add(A([i, x], Implies(And(node, LV(i, x)), L(i, de(i, x))), patterns=[de(i, x)]))
        add(A([i], Implies(node, L(i, self._default(i))), patterns=[self._default(i)]))
        rd = self._round
        add(A([i, v], Implies(And(node, self._is_float(i), L(i, v)), L(i, rd(v))), patterns=[z3.MultiPattern(L(i, v), rd(v))]))
        add(A([v], rd(rd(v)) == rd(v), patterns=[rd(v)]))
        add(A([i], Implies(And(node, self._is_float(i)), rd(self._default(i)) == self._default(i)), patterns=[self._default(i)]))
        # a parent comes before the children
        add(A([c, i, j], Implies(And(grp, node, self._parent(c, i), j >= 0, j < nc(c)), i < ch(c, j)), patterns=[z3.MultiPattern(self._parent(c, i), ch(c, j))]))

        if sampling:
            nr = self._nonroot
            add(A([j], Implies(And(j >= 0, j < n - r), And(nr(j) >= 0, nr(j) < n, g(nr(j)) >= 0)), patterns=[nr(j)]))
            add(A([c, i], Implies(And(grp, node, self._parent(c, i), g(i) >= 0), g(i) < c), patterns=[z3.MultiPattern(self._parent(c, i), g(i))]))
        if leaves:
            self._compound, self._leaf, self._nleaf, self._leaf_of = F("compound", I, B), F("leaf", I, I, I), F("leaves", I, I), F("leaf of", I, I, I)
            lf, nl, lo, par = self._leaf, self._nleaf, self._leaf_of, self._parent
            add(A([c], Implies(grp, And(nl(c) >= 1, z3.Or(nl(c) == 1, self._compound(c)))), patterns=[nl(c)]))
            add(A([c, j], Implies(And(grp, j >= 0, j < nl(c)), And(lf(c, j) >= 0, lf(c, j) < n, par(c, lf(c, j)))), patterns=[lf(c, j)]))
            add(A([c, i], Implies(And(grp, node, par(c, i)), And(lo(c, i) >= 0, lo(c, i) < nl(c), lf(c, lo(c, i)) == i)), patterns=[par(c, i)]))
            E.somewhere[lf.get_id()] = lambda c, i: lo(c, i)
        if not lookups:
            return
        E.trust(LOOKUP)
        self._look, self._nlook, self._in, self._first = F("look at", I, I, I), F("looks", I, I), F("affects", I, I, B), F("first look", I, I, I)
        look, nl, af, first, par = self._look, self._nlook, self._in, self._first, self._parent
        p, q, d = z3.Ints("p! q! d!")
        hp = And(p >= 0, p < n)
        add(A([p], nl(p) >= 0, patterns=[nl(p)]))
        entry = look(p, q)
        add(A([p, q], Implies(And(hp, q >= 0, q < nl(p)), And(entry >= 0, entry < m, af(p, entry), first(p, entry) >= 0, first(p, entry) <= q)), patterns=[entry]))
        add(A([p, c], Implies(And(hp, grp, af(p, c)), And(first(p, c) >= 0, first(p, c) < nl(p), look(p, first(p, c)) == c, c != g(p))), patterns=[af(p, c)]))
        add(A([p, c], Implies(And(hp, grp, par(c, p)), af(p, c)), patterns=[z3.MultiPattern(par(c, p), g(p))]))
        # conditions on the children of a condition that is looked at are looked at later
        add(A([p, d, i], Implies(And(hp, d >= 0, d < m, node, par(d, i), g(i) >= 0, af(p, g(i))), af(p, d)), patterns=[z3.MultiPattern(par(d, i), af(p, g(i)))]))
        add(A([p, q, i], Implies(And(hp, q >= 0, q < nl(p), node, par(look(p, q), i), g(i) >= 0, af(p, g(i))), first(p, g(i)) < q), patterns=[z3.MultiPattern(look(p, q), par(look(p, q), i))]))

    def _closure(self, ps, p):
        """The conditions that depend on p, those with smaller depth first."""
        depth = {}
        for i in range(self.n):
            c = self.table[i]
            depth[i] = 1 if c < 0 else 1 + max(depth[y] for y in ps[c])
        found, todo = [], [p]
        while todo:
            y = todo.pop()
            for c in range(self.m):
                if y in ps[c] and c not in found:
                    found.append(c)
                    todo.extend(self.kids[c])
        return sorted(found, key=lambda c: max(depth[y] for y in ps[c]))

    def compound(self, c):
        return self._b(self._compound, self.term(c))

    def n_leaves(self, c):
        return self._i(self._nleaf, c) if self.table is None else self._pick([len(x) for x in self.leaf_table], c)

    def leaf(self, c, j):
        """The parent in the comparison j of condition c."""
        if self.table is None:
            return self._i(self._leaf, c, j)
        from engine import num
        from seq import pick

        if isinstance(c, int):
            return self._pick(self.leaf_table[c], j)
        return pick([self._pick(x, j) for x in self.leaf_table], num(c))

    def holds_by_value(self, c, values):
        """The truth value on values of the parents (C05): that on a vector with these values."""
        from ConfigSpace.types import NotSet

        V, z = self.V, self.z3
        names = lambda j: self.name(self.leaf(c, j))  # noqa: E731
        if not V.bool(V.forall(self.n_leaves(c), lambda j: names(j) in values)):
            raise KeyError("parent")
        r = self.E.fresh("by value", z.BoolSort())

        def agrees(vec, j):
            i = self.leaf(c, j)
            v = values[self.name(i)]
            return V.isnan(vec.at(i)) if v is NotSet else V.same(vec.at(i), self.enc(i, v))

        for vec in self.targets:
            same = V.forall(self.n_leaves(c), lambda j: agrees(vec, j))
            self.E.add(z.Implies(self.bool_term(same), r == self.bool_term(self.holds(c, vec))))
        from engine import SBool

        return SBool(r)

    def affects(self, p, c):
        """Does condition c depend on hyperparameter p, directly or through others?"""
        if self.table is None:
            return self._b(self._in, self.term(p), self.term(c))
        from engine import num
        from seq import pick

        rows = [pick([c2 in cs for c2 in range(self.m)], num(c)) if self.m else False for cs in self.look_table]
        return pick(rows, num(p))

    def looked_at(self, p, c, k):
        """Is condition c among the first k that are looked at?"""
        if self.table is None:
            return self._i(self._first, p, c) < k
        from engine import num
        from seq import pick

        rows = [pick([cs.index(c2) if c2 in cs else -1 for c2 in range(self.m)], num(c)) if self.m else 0 for cs in self.look_table]
        return num(pick(rows, num(p))) < k

    def lookup(self, p):
        if self.table is None:
            return self.V.seq(self._i(self._nlook, p), lambda q: Group(self, self._i(self._look, p, q)))
        from seq import TList

        for i in range(self.n - 1):
            if self.V.bool(self.V.eq(p, i)):
                return TList([Group(self, c) for c in self.look_table[i]])
        return TList([Group(self, c) for c in self.look_table[self.n - 1]])

    # ---------------------------------------------------------------- parts
    @staticmethod
    def term(x):
        from engine import num, zint

        import z3

        return x if isinstance(x, (int, z3.ExprRef)) else zint(num(x).term)

    def _i(self, f, *a):
        from engine import SNum

        return SNum.of_term(f(*[self.term(x) for x in a]))

    def _b(self, f, *a):
        from engine import SBool

        return SBool(f(*a))

    def group(self, i):
        return self._i(self._group, i) if self.table is None else self._pick(self.table, i)

    @staticmethod
    def _pick(xs, i):
        from engine import num
        from seq import pick

        return pick(xs, i if isinstance(i, int) else num(i))

    def name(self, i):
        return self.V.at(self.names, i)

    def position(self, key):
        """The index of a name."""
        from engine import SNum, Unsupported
        from seq import sym_term

        if self.table is not None:
            for i in range(self.n - 1):
                if self.V.bool(self.V.eq(key, self.name(i))):
                    return i
            if self.n and self.V.bool(self.V.eq(key, self.name(self.n - 1))):
                return self.n - 1
        t = sym_term(key)
        if self.names_inverse is None or t is None:
            raise Unsupported("lookup by an arbitrary name")
        i = SNum.of_term(self.names_inverse(t))
        if not self.V.proved(self.V.and_(i >= 0, i < self.n, self.V.eq(self.name(i), key))):
            raise Unsupported("lookup by an arbitrary name")
        return i

    def known(self, key):
        """Is it the name of a hyperparameter?"""
        return key in self.names

    @staticmethod
    def dict(m):
        from seq import b_dict

        return b_dict(m)

    @staticmethod
    def hash(x):
        return type(x).__hash__(x)

    def n_children(self, c):
        return self._i(self._count, c) if self.table is None else self._pick([len(k) for k in self.kids], c)

    def child(self, c, j):
        if self.table is None:
            return self._i(self._child, c, j)
        if not isinstance(c, int):
            from engine import num
            from seq import pick

            return pick([self._pick(k, j) for k in self.kids], num(c))
        return self._pick(self.kids[c], j)

    def root(self, j):
        return self._i(self._root, j) if self.table is None else self._pick(self.root_list, j)

    def conditional(self, j):
        if self.table is None:
            return self._i(self._nonroot, j)
        return self._pick([i for i in range(self.n) if i not in self.root_list], j)

    def inside(self, i):
        return And_(self.term(i) >= 0, self.term(i) < self.term(self.n))

    def fact(self, f):
        if self.table is not None:
            self.E.add(f)

    def is_float(self, i):
        return self._b(self._is_float, self.term(i))

    def default(self, i):
        t = self._default(self.term(i))
        self.fact(self.z3.Implies(self.inside(i), self._legal(self.term(i), t)))
        self.fact(self.z3.Implies(And_(self.inside(i), self._is_float(self.term(i))), self._round(t) == t))
        return self.value(t)

    def given(self, name):
        """Any value at all."""
        from engine import Val

        return self.value(self.z3.Const(name, Val))

    def value(self, t):
        return AnyValue(self, t)

    def legal(self, i, v):
        return self._b(self._legal, self.term(i), self.val(v))

    def legal_vector(self, i, x):
        from engine import And, Not, SBool, num

        x = num(x)
        return SBool(And(Not(x.nan), self._legalvec(self.term(i), x.rterm)))

    def rounded(self, i, v):
        """The value as a configuration shows it."""
        t = self.val(v)
        r = self._round(t)
        self.fact(self._round(r) == r)
        j = self.term(i)
        self.fact(self.z3.Implies(And_(self.inside(i), self._is_float(j), self._legal(j, t)), self._legal(j, r)))
        return self.value(self.z3.If(self._is_float(j), r, t))

    def enc(self, i, v):
        from engine import SNum

        i, v, z = self.term(i), self.val(v), self.z3
        x = self._enc(i, v)
        ok = And_(self.inside(i), self._legal(i, v))
        self.fact(z.Implies(ok, self._legalvec(i, x)))
        self.fact(z.Implies(And_(ok, z.Not(self._is_float(i))), self._dec(i, x) == v))
        return SNum.of_term(x)

    def dec(self, i, x):
        from engine import num

        i, x = self.term(i), num(x).rterm
        v = self._dec(i, x)
        self.fact(self.z3.Implies(And_(self.inside(i), self._legalvec(i, x)), self._legal(i, v)))
        return self.value(v)

    @staticmethod
    def val(v):
        from engine import Unsupported, val_term

        t = val_term(v)
        if t is None:
            raise Unsupported(f"a {type(v).__name__} as value of an arbitrary hyperparameter")
        return t

    def conditions_of(self, i):
        from seq import TList

        c = self.group(i)
        return TList([Condition(self, c)]) if self.V.bool(c >= 0) else TList([])

    # ---------------------------------------------------------------- truth on a vector
    def version(self, vec):
        """A name for the contents of a vector."""
        if not hasattr(vec, "__pyvc_array__"):
            from engine import Unsupported

            raise Unsupported("vector of an unknown kind")
        old = getattr(vec, "_pyvc_version", None)
        f = vec._f if vec.base is None else None
        if old is not None and old[0] is f and f is not None:
            return old[1]
        from seq import note

        v = self.E.fresh("version", self.z3.IntSort())
        vec._pyvc_version = (f, v)
        note("pure", vec, None, lambda: setattr(vec, "_pyvc_version", old))
        copy = type(vec)(vec.n, vec.f, vec.kind)
        for other, o in list(self.versions):
            if self.clauses:
                same = self.V.forall(self.n, lambda i: self.V.same(copy[i], other[i]))
                self.E.add(self.z3.Implies(self.bool_term(same), v == o))
            if self.lookups or self.sampling:
                self.frame(copy, v, other, o)
            if self.sampling:
                self.clause_frame(copy, v, other, o)
        if not self.E.idx:
            self.versions.append((copy, v))
            note("pure", self.versions, None, lambda: self.versions.pop())
        if self.clauses:
            self.linked(v)
        return v

    def frame(self, a, v, b, o):
        """A condition has the same value on vectors that agree on its parents."""
        z = self.z3
        if self.table is not None:
            for c in range(self.m):
                agree = [z.Implies(self._parent(c, i), self.bool_term(self.V.same(a[i], b[i]))) for i in range(self.n)]
                self.E.add(z.Implies(And_(*agree), self._holds(c, v) == self._holds(c, o)))
            return
        from engine import SBool, zint

        c, m = z.Int("c!frame"), self.term(self.m)
        w = z.Function(f"parent where {v} and {o} differ", z.IntSort(), z.IntSort())
        y = self._i(w, c)
        differ = And_(self._parent(c, y.term), y.term >= 0, y.term < self.term(self.n), z.Not(self.bool_term(self.V.same(a.at(y), b.at(y)))))
        self.E.add(z.ForAll([c], z.Implies(And_(c >= 0, c < m), z.Or(differ, self._holds(c, v) == self._holds(c, o))), patterns=[self._holds(c, v), self._holds(c, o)]))

    def clause_frame(self, a, v, b, o):
        """An unconditional clause has the same value on vectors that agree where there is no condition."""
        from seq import forall

        same = self.V.forall(self.n_roots, lambda j: self.V.same(a.at(self.root(j)), b.at(self.root(j))))
        self.E.add(self.z3.Implies(self.bool_term(same), forall(self.n_uncond, lambda f: self.V.eq(self._b(self._forb, self.term(f), v), self._b(self._forb, self.term(f), o)))))

    # ---------------------------------------------------------------- sampling
    def follow(self, accept):
        """Matrices are followed by one column; accept is called with what is made of it."""
        import matrix

        self.V.stub(matrix, "FOLLOW", accept)
        self.V.stub(matrix, "BORN", lambda m: self.matrices.append(m))

    def settle(self):
        """Name the contents of the columns that are followed (before a loop over clauses)."""
        for m in self.matrices:
            self.version(m.vec)

    def samples(self, i, n, seed):
        from engine import SNum

        if seed is not self.random:
            raise AssertionError("not sampled with the generator of the space")
        self.calls += 1
        s = self.calls
        return self.V.build(n, lambda j: SNum.of_term(self._sample(s, self.term(i), self.term(j))))

    def bool_term(self, x):
        from engine import bt

        return bt(x)

    def linked(self, v):
        """The optimised clauses forbid this vector exactly if the clauses do."""
        from seq import exists

        e = exists(self.n_fast, lambda q: self._b(self._fast, self.term(q), v))
        f = exists(self.n_clauses, lambda q: self._b(self._forb, self.term(q), v))
        self.E.add(e == f)

    def holds(self, c, vec):
        return self._b(self._holds, self.term(c), self.version(vec))

    def forbidden(self, f, vec):
        return self._b(self._forb, self.term(f), self.version(vec))

    def fast(self, f, vec):
        return self._b(self._fast, self.term(f), self.version(vec))

    # ---------------------------------------------------------------- the space
    def space(self):
        from ConfigSpace import ConfigurationSpace

        s = ConfigurationSpace.__new__(ConfigurationSpace)
        s.__dict__.update(name=None, meta=None, _dag=Dag(self), _len=self.n, random=self.random)
        return s

    def active(self, i, vec):
        V, c = self.V, self.group(i)
        return V.or_(c < 0, self.holds(c, vec))

    def check_by_contract(self):
        """check_configuration by its contract (C07)."""
        import ConfigSpace.util as util
        from ConfigSpace.exceptions import ForbiddenValueError

        def check_configuration(space, vector, allow_inactive_with_values=False):
            if not self.V.bool(self.valid(vector, allow_inactive_with_values)):
                raise ForbiddenValueError("not valid")

        self.V.contract(util, "check_configuration", check_configuration, "raises a ValueError exactly if the vector is not valid (check_configuration_decides_validity)")

    def some_forbidden(self, vec):
        return self.V.exists(self.n_clauses, lambda f: self.forbidden(f, vec))

    def valid(self, vec, allow=False):
        """Exactly the active ones are set, set ones are legal, nothing is forbidden."""
        V = self.V

        def ok(i):
            a, x = self.active(i, vec), vec[i]
            unset = V.isnan(x)
            return V.ite(a, self.legal_vector(i, x), True if allow else unset)

        return V.and_(V.forall(self.n, ok), V.not_(self.some_forbidden(vec)))


def _any_value():
    import engine
    from ConfigSpace.hyperparameters.hp_components import ROUND_PLACES

    class AnyValue(engine.SVal):
        """A value of an arbitrary hyperparameter; rounding it gives another one."""

        __slots__ = ("w",)
        __pyvc_wide__ = True

        def __init__(self, w, t):
            self.t, self.w = t, w

        __hash__ = engine.Sym.__hash__

        def at_type(self, t):
            return AnyValue(self.w, t)

        def __pyvc_round__(self, places):
            from engine import Unsupported

            if places != ROUND_PLACES:
                raise Unsupported("rounding to another number of places")
            return AnyValue(self.w, self.w._round(self.t))

        def __pyvc_float__(self):
            return self

    class AnyFloat(AnyValue):
        """A float that may or may not be a value of a hyperparameter."""

        __slots__ = ()
        __hash__ = engine.Sym.__hash__
        __pyvc_is_float__ = True

    return AnyValue, AnyFloat


_cls = []


def AnyValue(w, t):
    if not _cls:
        _cls.extend(_any_value())
    return _cls[0](w, t)


def AnyFloat(w, name):
    import z3
    from engine import Val

    AnyValue(w, None)
    return _cls[1](w, z3.Const(name, Val))
