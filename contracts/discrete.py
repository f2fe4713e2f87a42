"""Categorical, ordinal and constant hyperparameters."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.numeric import BASE, HP
from contracts.sampling import DIST, SAMPLE, sampled

SEQ = [HP + "hp_components.TransformerSeq." + m for m in ("__post_init__", "to_value", "to_vector", "legal_value", "legal_vector", "legal_vector_single")]
CAT = [HP + "categorical.CategoricalHyperparameter." + m for m in ("__init__", "to_vector", "legal_value")]
ORD = [HP + "ordinal.OrdinalHyperparameter." + m for m in ("__init__", "to_vector", "legal_value")]
CON = [HP + "constant.Constant." + m for m in ("__init__", "to_vector", "legal_value")] + [
    HP + "hp_components.TransformerConstant." + m for m in ("__post_init__", "to_value", "to_vector", "legal_value", "legal_vector")
]


@theorem("C01", functions=[*CAT, *ORD, *SEQ, *BASE])
def discrete_roundtrip(V):
    hp, xs = mk.discrete(V)
    n = V.len(xs)

    def item(k):
        x = V.at(xs, k)
        v = hp.to_vector(x)
        V.check(V.eq(v, k), "the vector of a value is its position")
        V.check(V.and_(V.le(hp.lower_vectorized, v), V.le(v, hp.upper_vectorized)), "vectors within the vector bounds")
        V.check(hp.legal_vector(v), "encoded values are legal vectors")
        return V.eq(hp.to_value(v), x)

    V.check_forall(n, item, "decoding returns the value")


@theorem("C01", functions=[*CAT, *ORD, *SEQ, *BASE])
def discrete_arrays(V):
    """Many values at once, given as an array or as a list."""
    hp, xs = mk.discrete(V, default=False)
    m = V.length("m")
    pos = V.array("positions", m, "i8", lo=0, draw=(0, V.len(xs) - 1))
    V.assume(V.forall(m, lambda i: pos[i] < V.len(xs)))
    vec = V.as_floats(pos)
    values = hp.to_value(vec)
    V.check(V.eq(V.len(values), m), "as many values as vectors")
    V.check_forall(m, lambda i: V.eq(values[i], V.at(xs, pos[i])), "values are the options at the positions")
    V.check_forall(m, lambda i: hp.legal_vector(vec)[i], "positions are legal vectors")
    V.check_forall(m, lambda i: hp.legal_value(values)[i], "decoded values are legal")
    back = hp.to_vector(values)
    V.check(V.eq(V.len(back), m), "as many vectors as values")
    V.check_forall(m, lambda i: V.eq(back[i], pos[i]), "encoding the values gives the positions")


@theorem("C02", "C01", functions=[*CAT, *ORD, *SEQ, *BASE])
def discrete_vectors(V):
    hp, xs = mk.discrete(V, default=False)
    n = V.len(xs)
    m = V.length("m")
    vec = V.array("vectors", m, nan=True, draw=(-2, 8))
    legal = hp.legal_vector(vec)
    V.check(V.eq(V.len(legal), m), "one answer per vector")

    def item(k):
        v = vec[k]
        V.check(V.iff(hp.legal_vector(v), legal[k]), "one at a time: same answer")
        V.check(V.implies(V.isnan(v), V.not_(legal[k])), "NaN is no legal vector")
        V.assume(V.not_(V.isnan(v)))
        r = V.rint(v)
        V.check(V.implies(V.is_int(v), V.iff(legal[k], V.and_(v >= 0, v < n))), "of the whole numbers, the positions are legal")
        V.check(V.implies(legal[k], V.and_(r >= 0, r < n)), "legal vectors are close to a position")
        V.assume(legal[k])
        x = hp.to_value(v)
        V.check(V.eq(x, V.at(xs, r)), "decoding takes the option at the position")
        return hp.legal_value(x)

    V.check_forall(m, item, "legal vectors decode to legal values")


@theorem("C02", functions=[*CAT, *ORD, *SEQ, *BASE])
def discrete_domain(V):
    hp, xs = mk.discrete(V)
    kind = V.chosen("kind of values")
    n = V.len(xs)
    y = V.val("candidate", kind)
    V.check_forall(n, lambda k: hp.legal_value(V.at(xs, k)), "every option is legal")
    V.check(V.implies(hp.legal_value(y), V.exists(n, lambda k: V.eq(V.at(xs, k), y))), "nothing else is legal")
    V.check(hp.legal_value(hp.default_value), "the default is legal")
    V.check(V.eq(hp.default_value, hp.to_value(hp._normalized_default_value)), "the default vector decodes to the default")
    V.check(V.eq(hp.size, n), "as many values as options")
    if kind != "tuple":
        V.check(V.not_(hp.legal_value(None)), "None is illegal")


@theorem("C02", functions=[*CAT, *ORD])
def discrete_illegal_default(V):
    from ConfigSpace.hyperparameters import CategoricalHyperparameter, OrdinalHyperparameter

    n, xs, kind = mk.options(V)
    y = V.val("default", kind)
    V.assume(V.forall(n, lambda k: V.not_(V.eq(V.at(xs, k), y))))
    cls = V.choice("type", [CategoricalHyperparameter, OrdinalHyperparameter])
    V.check(V.raises(lambda: cls("c", xs, default_value=y), ValueError), "a default that is no option is rejected")


@theorem("C02", functions=[*CAT, *ORD])
def discrete_duplicates(V):
    from ConfigSpace.hyperparameters import CategoricalHyperparameter, OrdinalHyperparameter

    kind = V.choice("kind of values", mk.KINDS)
    n = V.length("number of values", 2)
    xs = V.vals("options", n, kind=kind, distinct=False)
    V.assume(V.exists(n, lambda i: V.exists(i, lambda j: V.eq(V.at(xs, i), V.at(xs, j)))))
    cls = V.choice("type", [CategoricalHyperparameter, OrdinalHyperparameter])
    V.check(V.raises(lambda: cls("c", xs), ValueError), "repeated options are rejected")


@theorem("C02", functions=CAT)
def categorical_weights_rejected(V):
    from ConfigSpace.hyperparameters import CategoricalHyperparameter

    n, xs, _ = mk.options(V, ["str"])
    m = V.length("number of weights")
    w = V.reals("weights", m, draw=(-1, 3))
    V.assume(V.or_(V.not_(V.eq(m, n)), V.exists(m, lambda i: w[i] < 0), V.forall(m, lambda i: V.eq(w[i], 0))))
    V.check(V.raises(lambda: CategoricalHyperparameter("c", xs, weights=w), ValueError), "unusable weights are rejected")


@theorem("C01", "C02", functions=[*CON, *BASE])
def constant_value(V):
    hp, x, kind = mk.constant(V)
    v = hp.to_vector(x)
    V.check(V.eq(v, hp._normalized_default_value), "the vector of the value is the default vector")
    V.check(hp.legal_vector(v), "encoded value is a legal vector")
    V.check(V.eq(hp.to_value(v), x), "decoding returns the value")
    V.check(hp.legal_value(x), "the value is legal")
    V.check(V.and_(V.le(hp.lower_vectorized, v), V.le(v, hp.upper_vectorized)), "vector within the vector bounds")
    y = V.val("candidate", kind)
    V.check(V.iff(hp.legal_value(y), V.eq(x, y)), "nothing else is legal")
    w = V.real("vector", draw=(-2, 2))
    V.check(V.iff(hp.legal_vector(w), V.eq(w, v)), "no other vector is legal")
    m = V.length("m")
    vec = V.array("vectors", m, draw=(-2, 2))
    V.check_forall(m, lambda k: V.iff(hp.legal_vector(vec)[k], V.eq(vec[k], v)), "no other vector of an array is legal")
    V.check_forall(m, lambda k: V.eq(hp.to_value(vec)[k], x), "arrays decode to the value")


@theorem("C03", functions=[DIST + "UniformIntegerDistribution.sample_vector", DIST + "WeightedIntegerDiscreteDistribution.sample_vector", *CAT, *ORD, *SEQ, *SAMPLE])
def discrete_samples(V):
    hp, xs = mk.discrete(V, default=False)
    sampled(V, hp, lambda x: V.exists(V.len(xs), lambda k: V.eq(V.at(xs, k), x)))


@theorem("C03", functions=[DIST + "WeightedIntegerDiscreteDistribution.sample_vector", *CAT, *SEQ, *SAMPLE])
def zero_weight_never_sampled(V):
    from ConfigSpace.hyperparameters import CategoricalHyperparameter

    n, xs, _ = mk.options(V, ["str", "tuple"])
    w = mk.weights_of(V, n)
    hp = CategoricalHyperparameter("c", xs, weights=w)
    m = V.length("m")
    val = hp.sample_value(m, seed=V.rng())
    V.check_forall(m, lambda i: V.exists(n, lambda k: V.and_(V.eq(V.at(xs, k), val[i]), w[k] > 0)), "only options of positive weight are sampled")


@theorem("C03", functions=[DIST + "ConstantVectorDistribution.sample_vector", *CON, *SAMPLE])
def constant_samples(V):
    hp, x, _ = mk.constant(V)
    sampled(V, hp, lambda y: V.eq(x, y))
