"""Changing one hyperparameter of a configuration of an arbitrary space (C09, C10)."""
from __future__ import annotations

from contracts import theorem

UTIL = "ConfigSpace/util.py:"


def wanted(w, before, p, x):
    """The vector after hyperparameter p was set to x.

    Defined by recursion along the order of the hyperparameters (parents come first):
    conditional ones that depend on p have their value or default if their condition
    holds and are unset otherwise, the others are as before.
    """
    V = w.V
    new = V.array("wanted", w.n, nan=True)
    w.version(new)

    def step(i):
        c, old = w.group(i), before.at(i)
        value = V.ite(V.isnan(old), w.enc(i, w.default(i)), old)
        looked = V.and_(c >= 0, w.affects(p, c))
        return V.ite(V.eq(i, p), x, V.ite(looked, V.ite(w.holds(c, new), value, V.np.nan), old))

    V.know(V.forall(w.n, lambda i: V.same(new.at(i), step(i))))
    return new


@theorem("C09", "C10", functions=[UTIL + "change_hp_value"], concrete=False)
def change_of_one_value(V):
    """Any space with its dependencies, any valid vector, any new value of one hyperparameter."""
    from ConfigSpace.util import change_hp_value
    from contracts.abstract import World

    w = World(V, lookups=True, clauses=False)
    space = w.space()
    vec = V.array("vector", w.n, nan=True)
    before = vec.copy()
    w.version(before)
    V.assume(V.forall(w.n, lambda i: V.iff(w.active(i, before), V.not_(V.isnan(before[i])))))
    p = V.int("position", 0)
    V.assume(p < w.n)
    x = V.real("new value")
    new = wanted(w, before, p, x)

    def form(k):
        def at(i):
            c = w.group(i)
            done = V.and_(c >= 0, w.affects(p, c), w.looked_at(p, c, k))
            return V.ite(V.or_(V.eq(i, p), done), new.at(i), before.at(i))

        return at

    V.invariant("change_hp_value:1", lambda L, G: [], arrays=[dict(name="arr", form=form)])
    out = change_hp_value(space, vec, w.name(p), x, p)
    V.check_forall(w.n, lambda i: V.same(out[i], new[i]), "the result is the wanted vector")
    w.version(out)
    V.check(V.same(out[p], x), "the hyperparameter has the new value")
    V.check_forall(w.n, lambda i: V.or_(V.eq(i, p), V.iff(w.active(i, out), V.not_(V.isnan(out[i])))), "exactly the active ones are set")
    V.check(V.implies(V.not_(V.isnan(before[p])), w.active(p, out)), "the hyperparameter stays active")
    V.check_forall(w.n, lambda i: V.or_(V.eq(i, p), V.isnan(out[i]), V.ite(V.isnan(before[i]), V.same(out[i], w.enc(i, w.default(i))), V.same(out[i], before[i]))), "newly active ones have their default, the others are unchanged")


def change_by_contract(w, new):
    """change_hp_value by its contract (change_of_one_value); new holds the vector that is wanted."""
    import ConfigSpace.util as util

    V = w.V

    def change_hp_value(configuration_space, configuration_array, hp_name, hp_value, index):
        vec, i, x = configuration_array, index, hp_value
        V.check(V.eq(w.name(i), hp_name), "the name and the index belong together")
        before, p, y = new.of
        V.check(V.and_(V.eq(i, p), V.same(x, y)), "the change that was asked for is made")
        V.check_forall(w.n, lambda j: V.same(vec.at(j), before.at(j)), "the change starts from the present vector")
        vec[:] = new
        return vec

    V.contract(util, "change_hp_value", change_hp_value, "sets the value, activates and deactivates what depends on it, and returns the array it was given (change_of_one_value)")


@theorem("C10", "C16", functions=["ConfigSpace/configuration.py:Configuration.__setitem__"], concrete=False)
def assignment_to_a_configuration(V):
    """Any space, any valid configuration after any reads, any key and value."""
    from ConfigSpace.exceptions import IllegalValueError
    from contracts.abstract import World
    from contracts.configurations import any_configuration, cache_is_right

    w = World(V, lookups=True)
    space = w.space()
    config, vec = any_configuration(w, space)
    before = vec.copy()
    V.assume(w.valid(before))
    known = V.choice("key", ["a hyperparameter", "something else"])
    v = w.given("value assigned")
    w.check_by_contract()
    if known == "something else":
        key = V.val("key", "str")
        if w.known(key):
            V.assume(False)
        error, _ = V.call(lambda: config.__setitem__(key, v))
        V.check(isinstance(error, KeyError), "an unknown key raises KeyError")
        new = None
    else:
        p = V.int("position", 0)
        V.assume(p < w.n)
        x = w.enc(p, v)
        new = wanted(w, before, p, x)
        new.of = before, p, x
        change_by_contract(w, new)
        error, _ = V.call(lambda: config.__setitem__(w.name(p), v))
        if not V.bool(w.legal(p, v)):
            V.check(isinstance(error, IllegalValueError), "an illegal value raises IllegalValueError")
        elif error is not None:
            V.check(isinstance(error, ValueError), "an error is a ValueError")
            V.check(V.not_(w.valid(new)), "only a result that is not valid is refused")
    if error is not None:
        V.check_forall(w.n, lambda i: V.same(config._vector[i], before[i]), "a refused assignment changes nothing")
        V.check(cache_is_right(w, config, before), "values read after a refused assignment agree with the vector")
    else:
        V.check_forall(w.n, lambda i: V.same(config._vector[i], new[i]), "the configuration is the wanted one")
        V.check(w.valid(new), "the configuration is valid")
        V.check(cache_is_right(w, config, new), "values read afterwards agree with the vector")
    V.check_forall(w.n, lambda i: V.same(vec[i], before[i]), "arrays handed out before are left alone")
