"""Removing the values of inactive hyperparameters (C17)."""
from __future__ import annotations

from contracts import theorem

FUN = ["ConfigSpace/util.py:deactivate_inactive_hyperparameters"]
STRUCTURES = ["chain", "two children", "all of two", "one of two"]


@theorem("C17", functions=FUN, bounded="three integers from 0 to 9, four structures of conditions")
def deactivated_values(V):
    """Arbitrary values for all hyperparameters; exactly those of active ones are kept."""
    import ConfigSpace as C
    from ConfigSpace.util import deactivate_inactive_hyperparameters

    kind = V.choice("structure", STRUCTURES)
    names = ("a", "b", "c")
    value = {n: V.int(n, 0, 9) for n in names}
    t, u, w = (V.int(f"threshold {i}", 0, 9) for i in range(3))
    space = C.ConfigurationSpace("name")
    a, b, c = (C.UniformIntegerHyperparameter(n, 0, 9) for n in names)
    space.add(a, b, c)
    space.add(C.GreaterThanCondition(b, a, t))
    has_b = value["a"] > t
    if kind == "chain":
        space.add(C.LessThanCondition(c, b, u))
        has_c = V.and_(has_b, value["b"] < u)
    elif kind == "two children":
        space.add(C.LessThanCondition(c, a, u))
        has_c = value["a"] < u
    else:
        join = C.AndConjunction if kind == "all of two" else C.OrConjunction
        space.add(join(C.EqualsCondition(c, a, u), C.LessThanCondition(c, b, w)))
        parts = (V.eq(value["a"], u), V.and_(has_b, value["b"] < w))
        has_c = V.and_(*parts) if kind == "all of two" else V.or_(*parts)
    given = dict(value)
    form = V.choice("given as", ["values", "vector"])
    if form == "values":
        got = deactivate_inactive_hyperparameters(given, space)
    else:
        vector = V.np.array([space[n].to_vector(given[n]) for n in space])
        got = deactivate_inactive_hyperparameters(None, space, vector)
    kept = dict(got)
    V.check(V.eq(kept["a"], value["a"]), "unconditional values are kept")
    for n, on in (("b", has_b), ("c", has_c)):
        V.check(V.iff(V.bool(n in kept), on), "exactly the active hyperparameters are kept")
        if n in kept:
            V.check(V.eq(kept[n], value[n]), "with their values")
    V.check(V.and_(len(given) == 3, *[V.eq(given[n], value[n]) for n in names]), "the values given are unchanged")
