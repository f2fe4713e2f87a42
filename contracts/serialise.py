"""Encoding a space to a dictionary and reading it back (C13)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.conditions import Domain

RW = "ConfigSpace/read_and_write/dictionary.py:"
CS = "ConfigSpace/configuration_space.py:ConfigurationSpace."

ONE = "spaces of one hyperparameter"

NUMERICAL = {
    "uniform_float": (mk.uniform_float, []),
    "uniform_int": (mk.uniform_int, []),
    "normal_float": (mk.normal_float, ["mu", "sigma"]),
    "normal_int": (mk.normal_int, ["mu", "sigma"]),
    "beta_float": (mk.beta_float, ["alpha", "beta"]),
    "beta_int": (mk.beta_int, ["alpha", "beta"]),
}


def shape(d):
    """The keys of a nested dictionary."""
    if isinstance(d, dict):
        return {k: shape(v) for k, v in d.items()}
    return [shape(x) for x in d] if type(d) is list and all(isinstance(x, dict) for x in d) else None


def round_trip(V, space):
    from ConfigSpace import ConfigurationSpace

    d = space.to_serialized_dict()
    before = shape(d)
    again = ConfigurationSpace.from_serialized_dict(d)
    V.check(shape(d) == before, "the dictionary is not modified")
    return again


def same_after_round_trip(V, hp):
    from ConfigSpace import ConfigurationSpace

    meta = V.choice("meta", [None, {"a": 1}])
    hp.meta = meta
    space = ConfigurationSpace("name", meta=None if meta is None else {"b": 2})
    space.add(hp)
    again = round_trip(V, space)
    V.check(again.name == space.name and again.meta == space.meta, "same name and meta of the space")
    V.check(list(again.keys()) == [hp.name], "same hyperparameters")
    hp2 = again[hp.name]
    V.check(type(hp2) is type(hp) and hp2 is not hp, "same kind of hyperparameter")
    V.check(hp2.meta == hp.meta, "same meta")
    return hp2


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_{k}" for w in ("encode", "decode") for k in NUMERICAL]], bounded=ONE)
def serialised_numerical(V):
    kind = V.choice("kind", list(NUMERICAL))
    make, more = NUMERICAL[kind]
    hp = make(V)
    hp2 = same_after_round_trip(V, hp)
    V.check(hp2.log == hp.log, "same scale")
    for a in ["lower", "upper", "default_value", *more]:
        V.check(V.eq(getattr(hp2, a), getattr(hp, a)), f"same {a}")


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_{k}" for w in ("encode", "decode") for k in ("categorical", "ordinal", "constant")]], bounded=ONE)
def serialised_discrete(V):
    kind = V.choice("kind", ["categorical", "ordinal", "constant"])
    if kind == "constant":
        hp, x, _ = mk.constant(V)
        V.check(V.eq(same_after_round_trip(V, hp).value, x), "same value")
        return
    hp, xs = (mk.categorical if kind == "categorical" else mk.ordinal)(V)
    hp2 = same_after_round_trip(V, hp)
    mine = hp2.choices if kind == "categorical" else hp2.sequence
    V.check(V.eq(V.len(mine), V.len(xs)), "as many values")
    V.check_forall(V.len(xs), lambda i: V.eq(mine[i], xs[i]), "same values in the same order")
    V.check(V.eq(hp2.default_value, hp.default_value), "same default")
    if kind == "categorical":
        V.check((hp2.weights is None) == (hp.weights is None), "weighted if it was")
        if hp.weights is not None and hp2.weights is not None:
            V.check_forall(V.len(xs), lambda i: V.eq(hp2.weights[i], hp.weights[i]), "same weights")
            V.check_forall(V.len(xs), lambda i: V.eq(hp2.probabilities[i], hp.probabilities[i]), "same probabilities")


def parts_of(V, d, kind):
    """A condition on d.hp (for the child), its class and the legal values it compares with."""
    import ConfigSpace as C

    cls = {"EQ": C.EqualsCondition, "NEQ": C.NotEqualsCondition, "LT": C.LessThanCondition, "GT": C.GreaterThanCondition, "IN": C.InCondition}[kind]
    if kind == "IN":
        values = [d.one("first value")[0], d.one("second value")[0]]
        return cls, values
    return cls, d.one("compared value")[0]


def build(kind, cls, child, parent, v):
    return cls(child, parent, values=v) if kind == "IN" else cls(child, parent, v)


def same_condition(V, a, b, v, kind):
    V.check(type(a) is type(b), "same kind of condition")
    V.check(a.child.name == b.child.name and a.parent.name == b.parent.name, "same child and parent")
    if kind == "IN":
        V.check(len(a.values) == len(v), "as many values compared with")
        for x, y in zip(a.values, v):
            V.check(V.eq(x, y), "compared with the same values")
    else:
        V.check(V.eq(a.value, v), "compared with the same value")


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_{k}_condition" for w in ("encode", "decode") for k in ("equals", "not_equals", "less_than", "greater_than", "in")]], bounded="one parent and one child with one condition, lists of two values")
def serialised_condition(V):
    from ConfigSpace import ConfigurationSpace, Constant

    kind = V.choice("kind of condition", ["EQ", "NEQ", "LT", "GT", "IN"])
    d = Domain(V, ["int", "float", "ordinal"] if kind in ("LT", "GT") else ["int", "float", "categorical", "ordinal", "constant"])
    cls, v = parts_of(V, d, kind)
    child = Constant("child", "on")
    space = ConfigurationSpace("name")
    space.add(d.hp, child)
    cond = build(kind, cls, child, d.hp, v)
    space.add(cond)
    again = round_trip(V, space)
    V.check(len(again.conditions) == 1 and len(again.forbidden_clauses) == 0, "one condition")
    same_condition(V, again.conditions[0], cond, v, kind)
    V.check(again.conditions[0].child is again["child"] and again.conditions[0].parent is again[d.hp.name], "between hyperparameters of the new space")


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_{k}" for w in ("encode", "decode") for k in ("and_conjunction", "or_conjunction")]], bounded="one conjunction of a condition and a conjunction of two conditions")
def serialised_conjunctions(V):
    """A condition nested in conjunctions (one shape: a, or / and of (b, c))."""
    import ConfigSpace as C

    d = Domain(V, ["int", "categorical"])
    child, other = C.Constant("child", "on"), C.Constant("other", "x")
    space = C.ConfigurationSpace("name")
    space.add(d.hp, child, other)
    u, v = d.one("first compared value")[0], d.one("second compared value")[0]
    a, b, c = C.EqualsCondition(child, d.hp, u), C.NotEqualsCondition(child, d.hp, v), C.EqualsCondition(child, other, "x")
    outer, inner = V.choice("kinds", [(C.AndConjunction, C.OrConjunction), (C.OrConjunction, C.AndConjunction)])
    space.add(outer(a, inner(b, c)))
    again = round_trip(V, space)
    V.check(len(again.conditions) == 1, "one condition")
    top = again.conditions[0]
    V.check(type(top) is outer and len(top.components) == 2, "same outer conjunction")
    V.check(type(top.components[1]) is inner and len(top.components[1].components) == 2, "same inner conjunction")
    same_condition(V, top.components[0], a, u, "EQ")
    same_condition(V, top.components[1].components[0], b, v, "NEQ")
    same_condition(V, top.components[1].components[1], c, "x", "EQ")


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_forbidden_{k}" for w in ("encode", "decode") for k in ("equals", "in", "and")]], bounded="two hyperparameters and one clause, lists of two values, conjunctions of two clauses")
def serialised_clause(V):
    import ConfigSpace as C

    d = Domain(V, ["int", "float", "categorical", "ordinal", "constant"])
    kind = V.choice("kind of clause", ["EQ", "IN", "AND"])
    other = C.CategoricalHyperparameter("other", ["x", "y"])
    space = C.ConfigurationSpace("name")
    space.add(d.hp, other)
    u, v = d.one("first value")[0], d.one("second value")[0]
    V.assume(V.not_(V.eq(u, d.hp.default_value)))
    if kind == "IN":
        V.assume(V.not_(V.eq(v, d.hp.default_value)))
        V.assume(V.not_(V.eq(u, v)))
    clause = C.ForbiddenInClause(d.hp, [u, v]) if kind == "IN" else C.ForbiddenEqualsClause(d.hp, u)
    space.add(C.ForbiddenAndConjunction(clause, C.ForbiddenEqualsClause(other, "y")) if kind == "AND" else clause)
    again = round_trip(V, space)
    V.check(len(again.forbidden_clauses) == 1 and len(again.conditions) == 0, "one clause")
    got = again.forbidden_clauses[0]
    if kind == "AND":
        V.check(type(got) is C.ForbiddenAndConjunction and len(got.components) == 2, "same conjunction")
        second = got.components[1]
        V.check(type(second) is C.ForbiddenEqualsClause and second.hyperparameter is again["other"] and second.value == "y", "same second clause")
        got = got.components[0]
    V.check(type(got) is type(clause) and got.hyperparameter is again[d.hp.name], "same kind of clause on the same hyperparameter")
    if kind == "IN":
        V.check(len(got.values) == 2, "as many values")
        V.check(V.or_(V.and_(V.eq(got.values[0], u), V.eq(got.values[1], v)), V.and_(V.eq(got.values[0], v), V.eq(got.values[1], u))), "same values")
    else:
        V.check(V.eq(got.value, u), "same value")


@theorem("C13", functions=[CS + "to_serialized_dict", CS + "from_serialized_dict", *[RW + f"_{w}_forbidden_{k}_relation" for w in ("encode", "decode") for k in ("equals", "less_than", "greater_than")]], bounded="two uniform integers and one relation")
def serialised_relation(V):
    import ConfigSpace as C

    cls = V.choice("kind of relation", [C.ForbiddenEqualsRelation, C.ForbiddenLessThanRelation, C.ForbiddenGreaterThanRelation])
    a, b = mk.uniform_int(mk.Named(V, "a"), log=False), mk.uniform_int(mk.Named(V, "b"), log=False)
    x, y = a.default_value, b.default_value
    V.assume(V.not_({"ForbiddenEqualsRelation": lambda: V.eq(x, y), "ForbiddenLessThanRelation": lambda: x < y, "ForbiddenGreaterThanRelation": lambda: x > y}[cls.__name__]()))
    space = C.ConfigurationSpace("name")
    space.add(a, b)
    space.add(cls(a, b))
    again = round_trip(V, space)
    V.check(len(again.forbidden_clauses) == 1, "one clause")
    got = again.forbidden_clauses[0]
    V.check(type(got) is cls and got.left is again["a"] and got.right is again["b"], "same relation of the same hyperparameters")
