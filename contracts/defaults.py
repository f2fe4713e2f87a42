"""The default configuration of an arbitrary space (C11)."""
from __future__ import annotations

from contracts import theorem

MOD = "ConfigSpace/configuration_space.py:ConfigurationSpace."


@theorem("C11", functions=[MOD + "_check_default_configuration", MOD + "get_default_configuration"], concrete=False)
def default_configuration(V):
    """Any space: every active hyperparameter has its default, the others are not set."""
    from ConfigSpace.types import NotSet
    from contracts.abstract import World

    w = World(V, leaves=True)
    space = w.space()
    w.check_by_contract()
    # the vector that is wanted, by recursion along the order of the hyperparameters
    new = V.array("wanted", w.n, nan=True)
    w.version(new)
    w.targets.append(new)
    V.know(V.forall(w.n, lambda i: V.same(new.at(i), V.ite(w.active(i, new), w.enc(i, w.default(i)), V.np.nan))))

    def value(i):
        return w.default(i) if V.bool(w.active(i, new)) else NotSet

    V.invariant("ConfigurationSpace._check_default_configuration:1", lambda L, G: [], arrays=[dict(name="values", entries=lambda k: (k, w.name, value, w.names_inverse))])
    error, config = V.call(space.get_default_configuration)
    if error is not None:
        V.check(isinstance(error, ValueError), "an error is a ValueError")
        V.check(w.some_forbidden(new), "it fails only if the defaults are forbidden")
        return
    V.check_forall(w.n, lambda i: V.same(config._vector[i], new[i]), "active hyperparameters have their default, the others are not set")
    V.check(w.valid(new), "the configuration is valid")
    V.check(config.config_space is space, "it belongs to the space")
