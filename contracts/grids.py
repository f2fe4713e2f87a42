"""Grid generation (C15)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem

FUN = ["ConfigSpace/util.py:generate_grid"]


@theorem("C15", functions=FUN, bounded="one numerical hyperparameter, two to four steps")
def grid_of_a_number(V):
    import ConfigSpace as C
    from ConfigSpace.util import generate_grid

    kind = V.choice("kind", ["int", "float"])
    hp = mk.uniform_int(V, default=False) if kind == "int" else mk.uniform_float(V, default=False)
    steps = V.choice("steps", [2, 3, 4])
    if kind == "int":
        V.assume(V.and_(hp.upper - hp.lower >= steps - 1) if not hp.log else hp.upper - hp.lower >= 1)
    space = C.ConfigurationSpace("name")
    space.add(hp)
    grid = generate_grid(space, {hp.name: steps})
    got = [g[hp.name] for g in grid]
    lo, hi = (V.log(hp.lower), V.log(hp.upper)) if hp.log else (hp.lower, hp.upper)
    at = [lo + (hi - lo) * i / (steps - 1) for i in range(steps)]
    if kind == "int" and not hp.log:
        V.check(len(got) == steps, "as many points as asked for")
        for i, g in enumerate(got):
            V.check(V.eq(g, V.rint(at[i])), "evenly spaced points, rounded")
    elif kind == "float" and not hp.log:
        V.check(len(got) == steps, "as many points as asked for")
        for i, g in enumerate(got):
            V.check(V.and_(g - at[i] <= 1e-9, at[i] - g <= 1e-9), "evenly spaced points")
    for i, g in enumerate(got):
        V.check(V.and_(hp.lower <= g, g <= hp.upper), "inside the bounds")
        if i and kind == "int":
            V.check(got[i - 1] < g, "in order, without repetitions")
    V.check(V.eq(got[0], hp.lower), "the lower end")
    V.check(V.eq(got[-1], hp.upper), "the upper end")


@theorem("C15", functions=FUN, bounded="a parent and two children in a chain, three to nine points, one clause")
def grid_of_a_chain(V):
    """A parent with three values, a child and a grandchild with conditions, and a clause."""
    import ConfigSpace as C
    from ConfigSpace.util import generate_grid

    b, c = C.OrdinalHyperparameter("b", [5, 6, 7]), C.CategoricalHyperparameter("c", ["x", "y"])
    t, u, w = V.int("threshold of the child", 0, 2), V.int("value of the grandchild's parent", 5, 7), V.int("forbidden value", 1, 2)
    op = V.choice("condition of the child", [C.GreaterThanCondition, C.EqualsCondition, C.NotEqualsCondition])
    space = C.ConfigurationSpace("name")
    space.add(C.UniformIntegerHyperparameter("a", 0, 2, default_value=0), b, c)
    space.add(op(b, space["a"], t), C.EqualsCondition(c, space["b"], u), C.ForbiddenEqualsClause(space["a"], w))
    holds = {"GreaterThanCondition": lambda v: v > t, "EqualsCondition": lambda v: V.eq(v, t), "NotEqualsCondition": lambda v: V.not_(V.eq(v, t))}[op.__name__]
    got = [dict(g) for g in generate_grid(space, {"a": 3})]
    number = 0
    for x in range(3):
        allowed = V.not_(V.eq(x, w))
        alone = [g for g in got if set(g) == {"a"} and g["a"] == x]
        V.check(V.eq(len(alone), V.ite(V.and_(allowed, V.not_(holds(x))), 1, 0)), "without the child where its condition does not hold")
        number += len(alone)
        for y in (5, 6, 7):
            two = [g for g in got if set(g) == {"a", "b"} and g["a"] == x and g["b"] == y]
            on = V.and_(allowed, holds(x))
            V.check(V.eq(len(two), V.ite(V.and_(on, V.not_(V.eq(y, u))), 1, 0)), "with the child where its condition holds")
            number += len(two)
            for z in ("x", "y"):
                three = [g for g in got if set(g) == {"a", "b", "c"} and g["a"] == x and g["b"] == y and g["c"] == z]
                V.check(V.eq(len(three), V.ite(V.and_(on, V.eq(y, u)), 1, 0)), "with the grandchild where both conditions hold")
                number += len(three)
    V.check(len(got) == number, "nothing else")
