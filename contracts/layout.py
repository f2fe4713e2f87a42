"""Layout of a space (C12)."""
from __future__ import annotations

from itertools import permutations

from contracts import theorem

TREE = "ConfigSpace/_condition_tree.py:"
DAG = [TREE + f for f in ("DAG.update", "DAG.add", "DAG.add_condition", "DAG._check_cyclic_dependancy", "DAG._minimum_conditions", "HPNode.propogate_new_depth", "HPNode.__lt__")]
PAIRS = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]


def acyclic(edges):
    left = {0, 1, 2}
    while left:
        free = [x for x in left if not any(p in left and c == x for p, c in edges)]
        if not free:
            return False
        left -= set(free)
    return True


@theorem("C12", functions=DAG, bounded="all graphs of three hyperparameters, all orders of adding hyperparameters")
def layout_of_small_graphs(V):
    """Every graph of three hyperparameters; the values of the conditions are arbitrary."""
    import ConfigSpace as C

    names = ["b", "a", "c"]
    edges = [e for e in PAIRS if V.choice(f"{names[e[0]]} is a parent of {names[e[1]]}", [False, True])]
    order = V.choice("order of adding", list(permutations(range(3))))
    hps = [C.UniformIntegerHyperparameter(n, 0, 5) for n in names]
    values = [V.int(f"value for {n}", 0, 5) for n in names]

    def condition(c):
        parts = [C.EqualsCondition(hps[c], hps[p], values[p]) for p, k in edges if k == c]
        return parts[0] if len(parts) == 1 else C.AndConjunction(*parts)

    def built(order):
        space = C.ConfigurationSpace("name")
        space.add([hps[i] for i in order])
        for c in order[::-1]:
            if any(k == c for _, k in edges):
                space.add(condition(c))
        return space

    error, space = V.call(lambda: built(order))
    V.check((error is None) == acyclic(edges), "rejected exactly when there is a cycle")
    if error is not None:
        return
    got = list(space)
    V.check(sorted(got) == ["a", "b", "c"] and len(space) == 3, "exactly the names that were added")
    V.check(list(space.keys()) == got and [h.name for h in space.values()] == got and list(space.at) == got, "one order")
    V.check(all(space.index_of[n] == i for i, n in enumerate(got)) and len(space.index_of) == 3, "positions")
    V.check(all(got.index(names[p]) < got.index(names[c]) for p, c in edges), "parents come before children")
    for i, n in enumerate(names):
        V.check(sorted(h.name for h in space.parents_of[n]) == sorted(names[p] for p, c in edges if c == i), "parents")
        V.check(sorted(h.name for h in space.children_of[n]) == sorted(names[c] for p, c in edges if p == i), "children")
    V.check(sorted(space.conditional_hyperparameters) == sorted({names[c] for _, c in edges}), "conditional hyperparameters")
    V.check(sorted(space.unconditional_hyperparameters) == sorted(set(names) - {names[c] for _, c in edges}), "unconditional hyperparameters")
    if order != (0, 1, 2):
        V.check(got == list(built((0, 1, 2))), "the order does not depend on the order of adding")
