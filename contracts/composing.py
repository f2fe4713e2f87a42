"""Adding a space under a prefix, and removing priors (C14).

The structures are given (one hyperparameter, one condition, one clause); their
numbers, values and lists of choices are arbitrary.
"""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.conditions import Domain
from contracts.serialise import NUMERICAL, ONE

CS = "ConfigSpace/configuration_space.py:ConfigurationSpace."
TWO = "added or changed spaces of one parent and one child with one condition and one clause"
HP = "ConfigSpace/hyperparameters/"
REMOVE = [CS + "remove_hyperparameter_priors", CS + "substitute_hyperparameters_in_conditions", CS + "substitute_hyperparameters_in_forbiddens"]


@theorem("C14", functions=[*REMOVE, *[HP + f"{m}.py:{c}.to_uniform" for m, c in (("normal_float", "NormalFloatHyperparameter"), ("normal_integer", "NormalIntegerHyperparameter"), ("beta_float", "BetaFloatHyperparameter"), ("beta_integer", "BetaIntegerHyperparameter"), ("uniform_float", "UniformFloatHyperparameter"), ("uniform_integer", "UniformIntegerHyperparameter"))]], bounded=ONE)
def numerical_prior_removed(V):
    import ConfigSpace as C

    kind = V.choice("kind", list(NUMERICAL))
    make, more = NUMERICAL[kind]
    hp = make(V)
    names = ["lower", "upper", "default_value", "log", *more]
    before = {a: getattr(hp, a) for a in names}
    space = C.ConfigurationSpace("name")
    space.add(hp)
    plain = space.remove_hyperparameter_priors()
    V.check(list(plain.keys()) == [hp.name], "same names")
    hp2 = plain[hp.name]
    V.check(type(hp2) is (C.UniformIntegerHyperparameter if kind.endswith("int") else C.UniformFloatHyperparameter), "uniform of the same type")
    V.check(hp2.log == before["log"], "same scale")
    for a in ("lower", "upper", "default_value"):
        V.check(V.eq(getattr(hp2, a), before[a]), f"same {a}")
    V.check(space[hp.name] is hp and hp2 is not hp and type(hp).__name__.startswith(kind.split("_")[0].capitalize()), "the original keeps its hyperparameter")
    for a in names:
        V.check(V.eq(getattr(hp, a), before[a]), "the original is unchanged")


@theorem("C14", functions=[*REMOVE, HP + "categorical.py:CategoricalHyperparameter.to_uniform"], bounded=ONE)
def weights_removed(V):
    import ConfigSpace as C

    hp, xs = mk.discrete(V)
    weights, default = getattr(hp, "weights", None), hp.default_value
    space = C.ConfigurationSpace("name")
    space.add(hp)
    plain = space.remove_hyperparameter_priors()
    V.check(list(plain.keys()) == [hp.name], "same names")
    hp2 = plain[hp.name]
    V.check(type(hp2) is type(hp) and hp2 is not hp, "same type")
    categorical = type(hp) is C.CategoricalHyperparameter
    mine = hp2.choices if categorical else hp2.sequence
    V.check(V.eq(V.len(mine), V.len(xs)), "as many values")
    V.check_forall(V.len(xs), lambda i: V.eq(mine[i], xs[i]), "same values in the same order")
    V.check(V.eq(hp2.default_value, default), "same default")
    if categorical:
        V.check(hp2.weights is None, "unweighted")
        V.check_forall(V.len(xs), lambda i: V.eq(hp2.probabilities[i] * V.len(xs), 1), "all values equally likely")
        V.check((hp.weights is None) == (weights is None), "the original keeps its weights")


def conditional(V, d):
    """A space of d.hp and a child with a condition on it and with a clause on the child."""
    import ConfigSpace as C

    kind = V.choice("kind of condition", ["EQ", "NEQ", "GT", "LT", "IN"] if d.kind in ("int", "float", "ordinal") else ["EQ", "NEQ", "IN"])
    child = C.CategoricalHyperparameter("child", ["a", "b", "c"])
    v = d.one("compared value")[0]
    space = C.ConfigurationSpace("name")
    cond = {
        "EQ": lambda: C.EqualsCondition(child, d.hp, v),
        "NEQ": lambda: C.NotEqualsCondition(child, d.hp, v),
        "LT": lambda: C.LessThanCondition(child, d.hp, v),
        "GT": lambda: C.GreaterThanCondition(child, d.hp, v),
        "IN": lambda: C.InCondition(child, d.hp, [v]),
    }[kind]()
    space.add(d.hp, child)
    space.add(cond, C.ForbiddenEqualsClause(child, "b"))
    return space, cond, v


def condition_kept(V, space, cond, v, parent, child):
    import ConfigSpace as C

    mine = [c for c in space.conditions if c.child.name == child]
    V.check(len(mine) == 1, "one condition for the child")
    new = mine[0]
    V.check(type(new) is type(cond), "same kind of condition")
    V.check(new.child.name == child and new.parent.name == parent, "between the hyperparameters of these names")
    V.check(V.eq(new.values[0] if type(new) is C.InCondition else new.value, v), "compared with the same value")
    V.check(len(space.forbidden_clauses) == 1, "one clause")
    clause = space.forbidden_clauses[0]
    V.check(type(clause) is C.ForbiddenEqualsClause and clause.hyperparameter.name == child and clause.value == "b", "same clause")


def untouched(V, space, cond, v, parent):
    import ConfigSpace as C

    V.check(list(space.keys()) == [parent, "child"] and space[parent].name == parent and space["child"].name == "child", "names of the given space")
    V.check(len(space.conditions) == 1 and space.conditions[0] is cond and cond.child is space["child"] and cond.parent is space[parent], "conditions of the given space")
    V.check(V.eq(cond.values[0] if type(cond) is C.InCondition else cond.value, v), "value of the condition of the given space")
    V.check(len(space.forbidden_clauses) == 1 and space.forbidden_clauses[0].hyperparameter is space["child"], "clauses of the given space")


@theorem("C14", functions=REMOVE, bounded=TWO)
def structure_without_priors(V):
    d = Domain(V, ["int", "float", "categorical", "ordinal", "constant"])
    space, cond, v = conditional(V, d)
    plain = space.remove_hyperparameter_priors()
    V.check(list(plain.keys()) == list(space.keys()), "same names")
    V.check(len(plain.conditions) == 1, "as many conditions")
    condition_kept(V, plain, cond, v, d.hp.name, "child")
    untouched(V, space, cond, v, d.hp.name)


@theorem("C14", functions=[CS + "add_configuration_space"], bounded=TWO)
def space_under_prefix(V):
    import ConfigSpace as C

    d = Domain(V, ["int", "float", "categorical", "ordinal", "constant"])
    name = d.hp.name
    space, cond, v = conditional(V, d)
    main = C.ConfigurationSpace("main")
    switch = C.CategoricalHyperparameter("switch", ["on", "off"], default_value="off")
    main.add(switch)
    under, prefix, delimiter = V.choice("under a parent; prefix and delimiter", [(False, "p", ":"), (True, "chi", "__")])
    returned = main.add_configuration_space(prefix, space, delimiter=delimiter, **({"parent_hyperparameter": {"parent": switch, "value": "on"}} if under else {}))
    parent, child = prefix + delimiter + name, prefix + delimiter + "child"
    V.check(returned is space, "returns the added space")
    V.check(set(main.keys()) == {"switch", parent, child} and len(main) == 3, "exactly the prefixed names")
    V.check(main[parent].name == parent and main[child].name == child, "hyperparameters know their names")
    V.check(len(main.conditions) == (2 if under else 1), "as many conditions")
    condition_kept(V, main, cond, v, parent, child)
    if under:
        new = [c for c in main.conditions if c.child.name == parent]
        V.check(len(new) == 1 and type(new[0]) is C.EqualsCondition and new[0].parent is main["switch"] and new[0].value == "on", "top-level hyperparameters conditioned on the parent")
    new = main[parent]
    V.check(type(new) is type(d.hp) and new is not d.hp, "same type")
    V.check(V.eq(new.default_value, d.hp.default_value), "same default")
    if d.kind in ("int", "float"):
        V.check(V.and_(V.eq(new.lower, d.hp.lower), V.eq(new.upper, d.hp.upper)), "same bounds")
        V.check(new.log == d.hp.log, "same scale")
    elif d.kind != "constant":
        mine = new.choices if d.kind == "categorical" else new.sequence
        V.check(V.eq(V.len(mine), V.len(d.xs)), "as many values")
        V.check_forall(V.len(d.xs), lambda i: V.eq(mine[i], d.xs[i]), "same values in the same order")
    untouched(V, space, cond, v, name)
