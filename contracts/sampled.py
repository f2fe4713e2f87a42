"""Sampling configurations of an arbitrary space (C08)."""
from __future__ import annotations

from contracts import theorem

MOD = "ConfigSpace/configuration_space.py:ConfigurationSpace."


@theorem("C08", functions=[MOD + "sample_configuration"], concrete=False, budget=200)
def sampled_configurations(V):
    """Any space with at least one hyperparameter, any number of configurations; whatever legal vectors are drawn."""
    from contracts.abstract import World

    w = World(V, sampling=True)
    V.assume(V.le(1, w.n))
    space = w.space()
    ghost = {}

    def accept(config):
        V.check(config.config_space is space, "the configurations are of the space")
        vec = config.get_array()
        w.version(vec)
        V.check_forall(w.n, lambda i: V.ite(w.active(i, vec), w.legal_vector(i, vec.at(i)), V.isnan(vec.at(i))), "exactly the active ones are set, legally")
        V.check(V.not_(w.some_forbidden(vec)), "no configuration is forbidden")

    w.follow(accept)

    def start(L):
        """What the followed column becomes: defined by recursion along the order of the conditions."""
        base = L.valid_configs.vec.copy()
        w.version(base)
        new = V.array("wanted", w.n, nan=True)
        w.version(new)
        V.know(V.forall(w.n, lambda i: V.same(new.at(i), V.ite(w.active(i, new), base.at(i), V.np.nan))))
        ghost.update(base=base, new=new)

    def form(k):
        base, new = ghost["base"], ghost["new"]

        def at(i):
            c = w.group(i)
            return V.ite(V.and_(c >= 0, c < k), new.at(i), base.at(i))

        return at

    V.invariant("ConfigurationSpace.sample_configuration:while1", lambda L, G: [], numbers={"sample_size": "int"}, bags=["accepted_configurations"])
    V.invariant("ConfigurationSpace.sample_configuration:3", lambda L, G: [], arrays=[dict(name="valid_configs", part=lambda m: m.vec, form=form)], start=start)
    size = V.choice("size given", [True, False])
    n = V.int("size", 1) if size else None
    error, out = V.call(lambda: space.sample_configuration(n))
    V.check(error is None, "sampling does not fail")
    if error is not None:
        return
    from seq import Bag

    if n is None or V.bool(V.eq(n, 1)):
        V.check(isinstance(out, Bag.Element), "a single configuration")
    else:
        V.check(V.eq(V.len(out), n), "as many configurations as asked for")
        V.check(isinstance(out, Bag) or isinstance(getattr(out, "sym", None), Bag), "all of them sampled")
