"""Densities (C18)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.discrete import CAT, CON, ORD, SEQ
from contracts.numeric import BASE, COMP, HP, UF, UI
from contracts.priors import BF, BI, NF, NI
from contracts.sampling import DIST

PDF = [HP + "hyperparameter.Hyperparameter." + m for m in ("pdf_vector", "pdf_values", "get_max_density")]


@theorem("C18", functions=[UF, UI, DIST + "UnitUniformContinuousDistribution.pdf_vector", DIST + "UniformIntegerNormalizedDistribution.pdf_vector", DIST + "DiscretizedContinuousScipyDistribution.pdf_vector", *COMP, *BASE, *PDF])
def uniform_density(V):
    make = V.choice("type", [mk.uniform_float, mk.uniform_int])
    hp = make(V, default=False)
    m = V.length("m")
    vec = V.array("vectors", m, nan=True, draw=(-1, 2))
    legal = hp.legal_vector(vec)
    p = hp.pdf_vector(vec)
    top = hp.get_max_density()
    V.check(V.eq(V.len(p), m), "one density per vector")
    V.check(top > 0, "the maximum is positive")
    V.check_forall(m, lambda k: V.eq(p[k], V.ite(V.and_(legal[k], 0 <= vec[k], vec[k] <= 1), top, 0)), "the density is the maximum for legal vectors and zero for others")
    vals = V.array("values", m, draw=(hp.lower, hp.upper))
    V.assume(V.forall(m, lambda k: V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)))
    q = hp.pdf_values(vals)
    V.check_forall(m, lambda k: V.eq(q[k], hp.pdf_vector(hp.to_vector(vals))[k]), "the same for values and their vectors")
    if make is mk.uniform_int:
        V.check(V.eq(top * (hp.upper - hp.lower + 1), 1), "the densities of all values sum to one")


@theorem("C18", functions=[NF, BF, NI, BI, DIST + "ScipyContinuousDistribution.pdf_vector", DIST + "DiscretizedContinuousScipyDistribution.pdf_vector", *COMP, *BASE, *PDF])
def prior_density(V):
    hp = V.choice("type", [mk.normal_float, mk.beta_float, mk.normal_int, mk.beta_int])(V, default=False)
    m = V.length("m")
    vec = V.array("vectors", m, nan=True, draw=(-1, 2))
    legal = hp.legal_vector(vec)
    p = hp.pdf_vector(vec)
    V.check(V.eq(V.len(p), m), "one density per vector")
    V.check_forall(m, lambda k: p[k] >= 0, "densities are not negative")
    V.check_forall(m, lambda k: V.implies(V.not_(legal[k]), V.eq(p[k], 0)), "illegal vectors have density zero")
    vals = V.array("values", m, draw=(hp.lower, hp.upper))
    V.assume(V.forall(m, lambda k: V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)))
    q = hp.pdf_values(vals)
    V.check_forall(m, lambda k: V.eq(q[k], hp.pdf_vector(hp.to_vector(vals))[k]), "the same for values and their vectors")


@theorem("C18", functions=[*CAT, *ORD, *SEQ, DIST + "UniformIntegerDistribution.pdf_vector", DIST + "WeightedIntegerDiscreteDistribution.__post_init__", DIST + "WeightedIntegerDiscreteDistribution.pdf_vector", HP + "categorical.CategoricalHyperparameter.pdf_values", HP + "ordinal.OrdinalHyperparameter.pdf_values", *PDF])
def discrete_density(V):
    hp, xs = mk.discrete(V, default=False)
    n = V.len(xs)
    m = V.length("m")
    vec = V.array("vectors", m, nan=True, draw=(-2, 8))
    legal = hp.legal_vector(vec)
    p = hp.pdf_vector(vec)
    top = hp.get_max_density()
    V.check(V.eq(V.len(p), m), "one density per vector")
    V.check_forall(m, lambda k: V.and_(p[k] >= 0, V.le(p[k], top)), "densities are between zero and the maximum")
    V.check_forall(m, lambda k: V.implies(V.not_(legal[k]), V.eq(p[k], 0)), "illegal vectors have density zero")
    q = hp.pdf_values(xs)
    V.check(V.eq(V.len(q), n), "one density per value")
    V.check_forall(n, lambda k: V.eq(q[k], hp.pdf_vector(hp.to_vector(V.at(xs, k)) + V.np.zeros(1))[0]), "the same for values and their vectors")
@theorem("C18", functions=[*CAT, *SEQ, DIST + "WeightedIntegerDiscreteDistribution.__post_init__", DIST + "WeightedIntegerDiscreteDistribution.pdf_vector", *PDF])
def weights_are_densities(V):
    """Densities of a weighted categorical are proportional to the weights."""
    from ConfigSpace.hyperparameters import CategoricalHyperparameter

    n, xs, _ = mk.options(V, ["str", "tuple"])
    w = mk.weights_of(V, n)
    hp = CategoricalHyperparameter("c", xs, weights=w)
    q = hp.pdf_values(xs)
    weight = V.sum(w)
    share = V.seq(n, lambda k: w[k] / weight)
    V.check_forall(n, lambda k: V.eq(q[k], share[k]), "the density is the share of the weight")
    V.check(V.eq(V.sum(share), 1), "the densities of all values sum to one")
    V.check_forall(n, lambda k: V.implies(w[k] > 0, q[k] > 0), "options of positive weight have positive density")
    V.check(V.exists(n, lambda k: V.eq(q[k], hp.get_max_density())), "the maximum is attained")


@theorem("C18", functions=[*CAT, *ORD, *SEQ, DIST + "UniformIntegerDistribution.pdf_vector", *PDF])
def uniform_shares(V):
    """Densities of ordinal and unweighted categorical values are the same."""
    hp, xs = mk.discrete(V, weighted=False, default=False)
    n = V.len(xs)
    q = hp.pdf_values(xs)
    V.check_forall(n, lambda k: V.eq(q[k] * n, 1), "the densities of all values are equal and sum to one")
    V.check(V.eq(hp.get_max_density() * n, 1), "the maximum is attained")


@theorem("C18", functions=[*CON, DIST + "ConstantVectorDistribution.pdf_vector", HP + "constant.Constant.pdf_values", *PDF])
def constant_density(V):
    hp, x, kind = mk.constant(V)
    m = V.length("m")
    vec = V.array("vectors", m, nan=True, draw=(-2, 2))
    p = hp.pdf_vector(vec)
    V.check_forall(m, lambda k: V.eq(p[k], V.ite(hp.legal_vector(vec)[k], 1, 0)), "one for the vector of the value, zero for others")
    V.check(V.eq(hp.get_max_density(), 1), "the maximum is one")
    V.check(V.eq(hp.pdf_values([x])[0], 1), "the density of the value is one")
