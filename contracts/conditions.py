"""Conditions: evaluation on values, on one vector and on a matrix of vectors (C05)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem

MOD = "ConfigSpace/conditions.py:"
BINARY = [MOD + "BinaryOpCondition." + m for m in ("__init__", "satisfied_by_value", "satisfied_by_vector", "satisfied_by_vector_array")]
ALL = [MOD + "Condition.__init__", MOD + "Condition.set_vector_idx"]


class Domain:
    """A hyperparameter, its legal values, and their order."""

    def __init__(self, V, kinds):
        self.V = V
        kind = V.choice("type of parent", kinds)
        self.kind = kind
        if kind in ("int", "float"):
            self.hp = mk.uniform_int(V, default=False) if kind == "int" else mk.uniform_float(V, default=False)
        elif kind == "constant":
            self.hp, self.x, _ = mk.constant(V, ["str", "int"])
        else:
            make = mk.categorical if kind == "categorical" else mk.ordinal
            self.hp, self.xs = make(V, ["str", "int"], default=False, **({"weighted": False} if kind == "categorical" else {}))

    def one(self, name):
        """A legal value and its place in the order."""
        V, hp = self.V, self.hp
        if self.kind == "constant":
            return self.x, 0
        if self.kind in ("int", "float"):
            v = (V.int if self.kind == "int" else V.real)(name, draw=(hp.lower, hp.upper))
            V.assume(V.and_(hp.lower <= v, v <= hp.upper))
            return v, v
        p = V.int(name, 0, V.len(self.xs) - 1)
        return self.xs[p], p

    def many(self, name, m):
        """Legal values, as functions: value, place in the order."""
        V, hp = self.V, self.hp
        if self.kind == "constant":
            return (lambda j: self.x), (lambda j: 0)
        if self.kind in ("int", "float"):
            a = V.array(name, m, "i8" if self.kind == "int" else "f8", draw=(hp.lower, hp.upper))
            V.assume(V.forall(m, lambda j: V.and_(hp.lower <= a[j], a[j] <= hp.upper)))
            return (lambda j: V.at(a, j)), (lambda j: V.at(a, j))
        a = V.array(name, m, "i8", lo=0, hi=V.len(self.xs) - 1, draw=(0, V.len(self.xs) - 1) if not V.symbolic else None)
        return (lambda j: V.at(self.xs, V.at(a, j))), (lambda j: V.at(a, j))


def agree(V, d, part, relation, on_value, on_vector, on_matrix):
    """part gives the truth of relation(place in the order), on values, one vector, many vectors."""
    rows, cols = V.length("rows", 2), V.length("columns")
    me = V.int("row of the parent", 0, rows - 1)
    child = V.int("row of the child", 0, rows - 1)
    V.assume(V.not_(V.eq(me, child)))
    # the positions change whenever hyperparameters are added: the last ones count
    part.set_vector_idx({"child": me, d.hp.name: child})
    part.set_vector_idx({"child": child, d.hp.name: me})
    name = d.hp.name
    # ---- values
    x, p = d.one("value")
    V.check(V.iff(on_value({name: x}), relation(p)), "evaluation on values")
    # ---- one vector
    other = V.array("other entries", rows, nan=True)
    vec = d.hp.to_vector(x)
    V.check(V.iff(on_vector(V.build(rows, lambda i: V.ite(V.eq(i, me), vec, other[i]))), relation(p)), "evaluation on a vector")
    V.check(V.not_(on_vector(V.build(rows, lambda i: V.unless(V.eq(i, me), other[i])))), "false on a vector without the parent")
    # ---- many vectors
    value, place = d.many("values", cols)
    missing = V.array("inactive", cols, "bool")
    rest = V.function("other entries of the matrix", "int", "int", out="real")
    arr = V.table(rows, cols, lambda i, j: V.ite(V.eq(i, me), V.unless(V.at(missing, j), d.hp.to_vector(value(j))), rest(i, j)))
    mask = on_matrix(arr)
    V.check(V.eq(V.len(mask), cols), "one result for each vector")
    V.check_forall(cols, lambda j: V.iff(mask[j], V.and_(V.not_(missing[j]), relation(place(j)))), "evaluation on a matrix")


def child_of(V):
    from ConfigSpace.hyperparameters import Constant

    return Constant("child", "present")


def compares(V, kinds, cls, op):
    from ConfigSpace.types import NotSet

    d = Domain(V, kinds)
    x, p = d.one("value of the condition")
    c = cls(child_of(V), d.hp, x)
    V.check(V.not_(c.satisfied_by_value({d.hp.name: NotSet})), "false when the parent is not set")
    agree(V, d, c, lambda q: op(q, p), c.satisfied_by_value, c.satisfied_by_vector, c.satisfied_by_vector_array)


@theorem("C05", functions=[*ALL, *BINARY, MOD + "EqualsCondition"])
def equals_condition(V):
    from ConfigSpace import EqualsCondition

    compares(V, ["int", "float", "categorical", "ordinal", "constant"], EqualsCondition, V.eq)


@theorem("C05", functions=[*ALL, *BINARY, MOD + "NotEqualsCondition.satisfied_by_vector", MOD + "NotEqualsCondition.satisfied_by_vector_array"])
def not_equals_condition(V):
    from ConfigSpace import NotEqualsCondition

    compares(V, ["int", "float", "categorical", "ordinal", "constant"], NotEqualsCondition, lambda a, b: V.not_(V.eq(a, b)))


@theorem("C05", functions=[*ALL, *BINARY, MOD + "LessThanCondition"])
def less_than_condition(V):
    from ConfigSpace import LessThanCondition

    compares(V, ["int", "float", "ordinal"], LessThanCondition, lambda a, b: a < b)


@theorem("C05", functions=[*ALL, *BINARY, MOD + "GreaterThanCondition"])
def greater_than_condition(V):
    from ConfigSpace import GreaterThanCondition

    compares(V, ["int", "float", "ordinal"], GreaterThanCondition, lambda a, b: a > b)


@theorem("C05", functions=[*ALL, *[MOD + "InCondition." + m for m in ("__init__", "satisfied_by_value", "satisfied_by_vector", "satisfied_by_vector_array")]])
def in_condition(V):
    from ConfigSpace import InCondition
    from ConfigSpace.types import NotSet

    d = Domain(V, ["int", "float", "categorical", "ordinal", "constant"])
    m = V.length("number of values of the condition", 1)
    value, place = d.many("values of the condition", m)
    c = InCondition(child_of(V), d.hp, V.seq(m, value))
    V.check(V.not_(c.satisfied_by_value({d.hp.name: NotSet})), "false when the parent is not set")
    agree(
        V, d, c, lambda q: V.exists(m, lambda k: V.eq(place(k), q)), c.satisfied_by_value, c.satisfied_by_vector, c.satisfied_by_vector_array
    )


class Part:
    """Any component of a conjunction: all that is known are its truth values."""

    def __init__(self, V, i, holds, mask):
        self.V, self.i, self.holds, self.mask = V, i, holds, mask

    def satisfied_by_value(self, values):
        return self.holds(self.i)

    satisfied_by_vector = satisfied_by_value
    is_forbidden_value = is_forbidden_vector = satisfied_by_value

    def satisfied_by_vector_array(self, arr):
        return self.V.build(arr.shape[1], lambda j: self.mask(self.i, j), "bool")

    is_forbidden_vector_array = satisfied_by_vector_array


def parts_of(V, cls, least=2):
    """A conjunction of any number of arbitrary components (of any depth)."""
    n = V.length("number of components", least)
    cols = V.length("columns")
    holds = V.function("component holds", "int", out="bool")
    mask = V.function("component holds on vector", "int", "int", out="bool")
    c = cls.__new__(cls)
    c.components = V.seq(n, lambda i: Part(V, i, holds, mask))
    arr = V.table(3, cols, lambda i, j: V.np.float64(0))
    return n, cols, holds, mask, c, arr


def conjunction(V, cls, quantifier):
    n, cols, holds, mask, c, arr = parts_of(V, cls)
    V.check(V.iff(c.satisfied_by_value({}), quantifier(n, holds)), "evaluation on values")
    V.check(V.iff(c.satisfied_by_vector(V.np.zeros(3)), quantifier(n, holds)), "evaluation on a vector")
    m = c.satisfied_by_vector_array(arr)
    V.check(V.eq(V.len(m), cols), "one result for each vector")
    V.check_forall(cols, lambda j: V.iff(m[j], quantifier(n, lambda i: mask(i, j))), "evaluation on a matrix")


METHODS = ("satisfied_by_value", "satisfied_by_vector", "satisfied_by_vector_array")


@theorem("C05", functions=[MOD + "AndConjunction." + m for m in METHODS])
def and_conjunction(V):
    from ConfigSpace import AndConjunction

    conjunction(V, AndConjunction, V.forall)


@theorem("C05", functions=[MOD + "OrConjunction." + m for m in METHODS])
def or_conjunction(V):
    from ConfigSpace import OrConjunction

    conjunction(V, OrConjunction, V.exists)


@theorem("C05", functions=[MOD + "Conjunction.__init__", MOD + "Conjunction.set_vector_idx", MOD + "AndConjunction.__init__", MOD + "OrConjunction.__init__"])
def nested_conjunctions(V):
    """Made from conditions and conjunctions: the components are all kept."""
    from ConfigSpace import AndConjunction, EqualsCondition, OrConjunction

    child = child_of(V)
    hps = [mk.uniform_int(mk.Named(V, n), False, default=False) for n in ("a", "b", "c")]
    xs = []
    for h in hps:
        x = V.int(f"value of {h.name}", draw=(h.lower, h.upper))
        V.assume(V.and_(h.lower <= x, x <= h.upper))
        xs.append(x)
    p, q, r = (EqualsCondition(child, h, h.lower) for h in hps)
    outer, inner = V.choice("kinds", [(AndConjunction, OrConjunction), (OrConjunction, AndConjunction)])
    c = outer(p, inner(q, r)) if V.choice("nested last", [True, False]) else outer(inner(q, r), p)
    c.set_vector_idx({"a": 2, "b": 0, "c": 1, "child": 3})
    A, B, C = (V.eq(x, h.lower) for x, h in zip(xs, hps))
    truth = V.and_(A, V.or_(B, C)) if outer is AndConjunction else V.or_(A, V.and_(B, C))
    V.check(V.iff(c.satisfied_by_value(dict(zip("abc", xs))), truth), "evaluation on values")
    vec = V.np.array([hps[1].to_vector(xs[1]), hps[2].to_vector(xs[2]), hps[0].to_vector(xs[0]), 0.0])
    V.check(V.iff(c.satisfied_by_vector(vec), truth), "evaluation on a vector")
    V.check(V.iff(c.satisfied_by_vector_array(V.table(4, 1, lambda i, j: vec[i]))[0], truth), "evaluation on a matrix")
    V.check(V.and_(c.child is child, len(c.dlcs) == 3, all(any(d is e for e in c.dlcs) for d in (p, q, r))), "child and conditions")


# ------------------------------------------------------------------ equivalence
# Children whose conditions are equivalent are checked together, by one of the conditions.
class Component:
    """A component of a conjunction: equivalence with another one implies the same truth."""

    def __init__(self, V, side, i, alike, holds):
        self.V, self.side, self.i, self.alike, self.holds = V, side, i, alike, holds

    def equivalent_condition_on_parent(self, other):
        a, b = (self, other) if self.side == 0 else (other, self)
        return self.V.bool(self.alike(a.i, b.i)) if not self.V.symbolic else self.alike(a.i, b.i)

    __eq__ = equivalent_condition_on_parent
    __hash__ = None


@theorem("C07", functions=[MOD + "Conjunction.equivalent_condition_on_parent"], concrete=False)
def equivalent_conjunctions(V):
    """Conjunctions found equivalent are true together, for any number of components."""
    true_together(V, lambda c, d: c.equivalent_condition_on_parent(d))


@theorem("C12", functions=[MOD + "Conjunction.__eq__"], concrete=False)
def equal_conjunctions(V):
    """Conjunctions that are equal are true together, for any number of components: a second
    condition that is accepted for a child says the same as the first."""
    true_together(V, lambda c, d: c == d)


def true_together(V, relation):
    from ConfigSpace import AndConjunction, OrConjunction

    n, m = V.length("number of components", 2), V.length("number of components of the other", 2)
    one, two = V.function("component holds", "int", out="bool"), V.function("component of the other holds", "int", out="bool")
    alike = V.function("components are equivalent", "int", "int", out="bool")
    V.assume(V.forall(n, lambda i: V.forall(m, lambda j: V.implies(alike(i, j), V.iff(one(i), two(j))))))
    kind, other_kind = V.choice("kinds", [(AndConjunction, AndConjunction), (OrConjunction, OrConjunction), (AndConjunction, OrConjunction), (OrConjunction, AndConjunction)])
    c, d = kind.__new__(kind), other_kind.__new__(other_kind)
    c.components = V.seq(n, lambda i: Component(V, 0, i, alike, one))
    d.components = V.seq(m, lambda i: Component(V, 1, i, alike, two))
    truth = lambda k, n, holds: (V.forall if k is AndConjunction else V.exists)(n, holds)  # noqa: E731
    if relation(c, d):
        V.check(V.iff(truth(kind, n, one), truth(other_kind, m, two)), "equivalent conjunctions are true together")


@theorem("C07", functions=[MOD + "Condition.equivalent_condition_on_parent", *BINARY, MOD + "InCondition.__init__", MOD + "InCondition.satisfied_by_value"], bounded="conditions on one or two parents, lists of two values")
def equivalent_conditions(V):
    """Conditions found equivalent are true together."""
    c, d, values = two_conditions(V)
    if c.equivalent_condition_on_parent(d):
        V.check(V.iff(c.satisfied_by_value(values), d.satisfied_by_value(values)), "equivalent conditions are true together")


@theorem("C12", functions=[MOD + "Condition.__eq__", *BINARY, MOD + "InCondition.__init__", MOD + "InCondition.satisfied_by_value"], bounded="conditions on one or two parents, lists of two values")
def equal_conditions(V):
    """Conditions that are equal have the same child and are true together."""
    c, d, values = two_conditions(V, ["child 0", V.choice("other child", ["child 0", "child 1"])])
    if c == d:
        V.check(c.child.name == d.child.name, "equal conditions have the same child")
        V.check(V.iff(c.satisfied_by_value(values), d.satisfied_by_value(values)), "equal conditions are true together")


def two_conditions(V, children=("child 0", "child 1")):
    from ConfigSpace import EqualsCondition, GreaterThanCondition, InCondition, LessThanCondition, NotEqualsCondition
    from ConfigSpace.hyperparameters import Constant

    names = ["one", "two"] if V.boolean("two parents") else ["one", "one"]
    lo, hi = V.int("lower", -50, 50), V.int("size", 1, 50)
    from ConfigSpace import UniformIntegerHyperparameter

    made = {x: UniformIntegerHyperparameter(x, lo, lo + hi, default_value=lo) for x in set(names)}
    kinds = [EqualsCondition, NotEqualsCondition, LessThanCondition, GreaterThanCondition, InCondition]
    conds = []
    for k, p in enumerate(names):
        cls = V.choice(f"kind {k}", kinds)
        x = V.int(f"value {k}", lo, lo + hi)
        value = [x, V.int(f"second value {k}", lo, lo + hi)] if cls is InCondition else x
        conds.append(cls(Constant(children[k], 1), made[p], value))
    values = {n: V.int(f"value of {n}", lo, lo + hi) for n in made}
    return *conds, values
