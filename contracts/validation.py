"""Validation of configurations of arbitrary spaces (C07)."""
from __future__ import annotations

from contracts import theorem

MOD = "ConfigSpace/util.py:"
SPACE = "ConfigSpace/configuration_space.py:ConfigurationSpace."


@theorem("C07", functions=[MOD + "check_configuration"], concrete=False)
def check_configuration_decides_validity(V):
    """Any number of hyperparameters, conditions and clauses."""
    from ConfigSpace.util import check_configuration
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    vec = V.array("vector", w.n, nan=True)
    w.version(vec)
    allow = V.choice("inactive values allowed", [False, True])
    error, _ = V.call(lambda: check_configuration(space, vec, allow))
    if error is None:
        V.check(w.valid(vec, allow), "an accepted vector is valid")
    else:
        V.check(isinstance(error, ValueError), "an error is a ValueError")
        V.check(V.not_(w.valid(vec, allow)), "a rejected vector is not valid")


@theorem("C07", functions=[SPACE + "get_active_hyperparameters"], concrete=False)
def active_hyperparameters(V):
    """Exactly those whose condition holds, for any space and vector."""
    from contracts.abstract import World

    w = World(V, clauses=False)
    space = w.space()
    vec = V.array("vector", w.n, nan=True)
    before = vec.copy()
    w.version(vec)
    active = space.get_active_hyperparameters(vec)
    t = V.int("position", 0)
    V.assume(t < w.n)
    V.check(V.iff(w.name(t) in active, w.active(t, vec)), "exactly those whose condition holds")
    V.check_forall(w.n, lambda i: V.same(vec[i], before[i]), "the vector is left alone")


@theorem("C07", functions=[SPACE + "_check_configuration_rigorous", SPACE + "get_active_hyperparameters", SPACE + "_check_forbidden"], concrete=False)
def rigorous_check_decides_validity(V):
    """Any configuration: as check_configuration, and inactive values have to be legal as well."""
    from ConfigSpace import Configuration
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    vec = V.array("vector", w.n, nan=True)
    w.version(vec)
    allow = V.choice("inactive values allowed", [False, True])
    config = Configuration(space, vector=vec)
    error, _ = V.call(lambda: space._check_configuration_rigorous(config, allow))
    right = V.and_(w.valid(vec, allow), V.forall(w.n, lambda i: V.or_(V.isnan(vec[i]), w.legal_vector(i, vec[i]))))
    if error is None:
        V.check(right, "an accepted configuration is valid")
    else:
        V.check(isinstance(error, ValueError), "an error is a ValueError")
        V.check(V.not_(right), "a rejected configuration is not valid")
