"""Forbidden clauses: evaluation on values, on one vector and on a matrix of vectors (C06)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.conditions import Domain, agree, parts_of

MOD = "ConfigSpace/forbidden.py:"
METHODS = ("__init__", "is_forbidden_value", "is_forbidden_vector", "is_forbidden_vector_array")
ALL = [MOD + "ForbiddenClause.__init__", MOD + "ForbiddenClause.set_vector_idx"]
KINDS = ["int", "float", "categorical", "ordinal", "constant"]


@theorem("C06", functions=[*ALL, *[MOD + "ForbiddenEqualsClause." + m for m in METHODS]])
def forbidden_equals(V):
    from ConfigSpace import ForbiddenEqualsClause

    d = Domain(V, KINDS)
    x, p = d.one("value of the clause")
    c = ForbiddenEqualsClause(d.hp, x)
    V.check(V.not_(c.is_forbidden_value({})), "false when the hyperparameter is not set")
    agree(V, d, c, lambda q: V.eq(q, p), c.is_forbidden_value, c.is_forbidden_vector, c.is_forbidden_vector_array)


@theorem("C06", functions=[*ALL, *[MOD + "ForbiddenInClause." + m for m in METHODS]])
def forbidden_in(V):
    from ConfigSpace import ForbiddenInClause

    d = Domain(V, KINDS)
    m = V.length("number of values of the clause", 1)
    value, place = d.many("values of the clause", m)
    c = ForbiddenInClause(d.hp, V.seq(m, value))
    V.check(V.not_(c.is_forbidden_value({})), "false when the hyperparameter is not set")
    agree(V, d, c, lambda q: V.exists(m, lambda k: V.eq(place(k), q)), c.is_forbidden_value, c.is_forbidden_vector, c.is_forbidden_vector_array)


@theorem("C06", functions=[MOD + "ForbiddenAndConjunction." + m for m in METHODS[1:]])
def forbidden_and(V):
    from ConfigSpace import ForbiddenAndConjunction

    n, cols, holds, mask, c, arr = parts_of(V, ForbiddenAndConjunction, 1)
    V.check(V.iff(c.is_forbidden_value({}), V.forall(n, holds)), "evaluation on values")
    V.check(V.iff(c.is_forbidden_vector(V.np.zeros(3)), V.forall(n, holds)), "evaluation on a vector")
    m = c.is_forbidden_vector_array(arr)
    V.check(V.eq(V.len(m), cols), "one result for each vector")
    V.check_forall(cols, lambda j: V.iff(m[j], V.forall(n, lambda i: mask(i, j))), "evaluation on a matrix")


def decode(V, hp):
    """to_value of the hyperparameter: some function of the vector, the same for one vector as for many."""
    g = V.function(f"decode {hp.name}", "real", out="real")
    V.contract(hp, "to_value", lambda vector: vector.map(g, "f8") if hasattr(vector, "map") else g(vector), "the same for one vector as for many (proved: C01)")


def relation(V, cls, op):
    if V.symbolic:
        # only the decoding of the two hyperparameters matters: any functions of the vector
        from ConfigSpace.hyperparameters import Constant

        V.choice("left: type of parent", ["any"]), V.choice("right: type of parent", ["any"])
        left_hp, right_hp = Constant("left", 0), Constant("right", 0)
        decode(V, left_hp), decode(V, right_hp)
    else:
        kinds = ["int", "float"]
        d, e = Domain(mk.Named(V, "left"), kinds), Domain(mk.Named(V, "right"), kinds)
        left_hp, right_hp = d.hp, e.hp
    c = cls(left_hp, right_hp)
    rows, cols = V.length("rows", 2), V.length("columns")
    me, you = V.int("row of the left", 0, rows - 1), V.int("row of the right", 0, rows - 1)
    V.assume(V.not_(V.eq(me, you)))
    c.set_vector_idx({"left": you, "right": me})
    c.set_vector_idx({"left": me, "right": you})
    x = V.real("left value") if V.symbolic else d.one("value")[0]
    y = V.real("right value") if V.symbolic else e.one("value")[0]
    V.check(V.iff(c.is_forbidden_value({"left": x, "right": y}), op(x, y)), "evaluation on values")
    V.check(V.not_(V.or_(c.is_forbidden_value({}), c.is_forbidden_value({"left": x}), c.is_forbidden_value({"right": y}))), "false when not both are set")
    other = V.array("other entries", rows, nan=True)
    # the relation is between the decoded values
    a, b = (V.real("left vector"), V.real("right vector")) if V.symbolic else (left_hp.to_vector(x), right_hp.to_vector(y))
    va, vb = left_hp.to_value(a), right_hp.to_value(b)
    no_a, no_b = V.boolean("left inactive"), V.boolean("right inactive")
    vec = V.build(rows, lambda i: V.ite(V.eq(i, me), V.unless(no_a, a), V.ite(V.eq(i, you), V.unless(no_b, b), other[i])))
    V.check(V.iff(c.is_forbidden_vector(vec), V.and_(V.not_(no_a), V.not_(no_b), op(va, vb))), "evaluation on a vector")
    if V.symbolic:
        left, right = V.array("left vectors", cols), V.array("right vectors", cols)
    else:
        xs, ys = d.many("values", cols)[0], e.many("values", cols)[0]
        left = V.build(cols, lambda j: left_hp.to_vector(xs(j)))
        right = V.build(cols, lambda j: right_hp.to_vector(ys(j)))
    na, nb = V.array("left inactive in", cols, "bool"), V.array("right inactive in", cols, "bool")
    rest = V.function("other entries of the matrix", "int", "int", out="real")
    arr = V.table(
        rows, cols, lambda i, j: V.ite(V.eq(i, me), V.unless(na[j], left[j]), V.ite(V.eq(i, you), V.unless(nb[j], right[j]), rest(i, j)))
    )
    mask = c.is_forbidden_vector_array(arr)
    V.check(V.eq(V.len(mask), cols), "one result for each vector")
    V.check_forall(
        cols,
        lambda j: V.iff(V.cases(lambda: mask[j]), V.and_(V.not_(na[j]), V.not_(nb[j]), op(left_hp.to_value(left[j]), right_hp.to_value(right[j])))),
        "evaluation on a matrix",
    )


RELATION = [MOD + "ForbiddenRelation.__init__", MOD + "ForbiddenRelation.set_vector_idx"]


@theorem("C06", functions=[*RELATION, *[MOD + "ForbiddenEqualsRelation." + m for m in METHODS[1:]]])
def forbidden_equals_relation(V):
    from ConfigSpace import ForbiddenEqualsRelation

    relation(V, ForbiddenEqualsRelation, V.same)


@theorem("C06", functions=[*RELATION, *[MOD + "ForbiddenLessThanRelation." + m for m in METHODS[1:]]])
def forbidden_less_relation(V):
    from ConfigSpace import ForbiddenLessThanRelation

    relation(V, ForbiddenLessThanRelation, lambda a, b: a < b)


@theorem("C06", functions=[*RELATION, *[MOD + "ForbiddenGreaterThanRelation." + m for m in METHODS[1:]]])
def forbidden_greater_relation(V):
    from ConfigSpace import ForbiddenGreaterThanRelation

    relation(V, ForbiddenGreaterThanRelation, lambda a, b: a > b)


@theorem("C06", functions=[MOD.replace("forbidden.py", "_condition_tree.py") + "DAG._optimized_forbiddens", MOD.replace("forbidden.py", "_condition_tree.py") + "DAG.update", MOD.replace("forbidden.py", "util.py") + "check_configuration"], bounded="two integers from 0 to 9, up to three conjunctions of two equalities")
def conjunctions_checked_together(V):
    """Conjunctions that share all but their last clause are checked as one (two of them, or three)."""
    import ConfigSpace as C
    from ConfigSpace.exceptions import ForbiddenValueError

    a, b = C.UniformIntegerHyperparameter("a", 0, 9), C.UniformIntegerHyperparameter("b", 0, 9)
    space = C.ConfigurationSpace("name")
    space.add(a, b)
    pairs = []
    for k in range(V.choice("number of clauses", [1, 2, 3])):
        u, w = (V.int(f"{n} of clause {k}", draw=(h.lower, h.upper)) for n, h in (("a", a), ("b", b)))
        V.assume(V.and_(a.lower <= u, u <= a.upper, b.lower <= w, w <= b.upper))
        V.assume(V.not_(V.and_(V.eq(u, a.default_value), V.eq(w, b.default_value))))
        pairs.append((u, w))
    space.add([C.ForbiddenAndConjunction(C.ForbiddenEqualsClause(b, w), C.ForbiddenEqualsClause(a, u)) for u, w in pairs])
    x, y = V.int("value of a", draw=(a.lower, a.upper)), V.int("value of b", draw=(b.lower, b.upper))
    V.assume(V.and_(a.lower <= x, x <= a.upper, b.lower <= y, y <= b.upper))
    error, _ = V.call(lambda: C.Configuration(space, values={"a": x, "b": y}))
    V.check(error is None or isinstance(error, ForbiddenValueError), "accepted, or rejected because of a clause")
    V.check(V.iff(error is not None, V.or_(*[V.and_(V.eq(x, u), V.eq(y, w)) for u, w in pairs])), "rejected exactly when a conjunction holds")
