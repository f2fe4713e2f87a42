"""Samples are legal, in every representation (C03)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.numeric import BASE, COMP, HP, UF, UI
from contracts.priors import BF, BI, NF, NI

DIST = HP + "distributions."
SAMPLE = [HP + "hyperparameter.Hyperparameter." + m for m in ("sample_value", "sample_vector", "rvs")]


def sampled(V, hp, domain):
    """Samples of any number: legal vectors, legal values."""
    m = V.length("m")
    vec = hp.sample_vector(m, seed=V.rng())
    V.check(V.eq(V.len(vec), m), "as many vectors as asked for")
    V.check_forall(m, lambda i: hp.legal_vector(vec)[i], "sampled vectors are legal")
    V.check_forall(m, lambda i: V.and_(V.le(hp.lower_vectorized, vec[i]), V.le(vec[i], hp.upper_vectorized)), "sampled vectors within the vector bounds")
    val = hp.sample_value(m, seed=V.rng())
    V.check(V.eq(V.len(val), m), "as many values as asked for")
    V.check_forall(m, lambda i: domain(val[i]), "sampled values are legal")
    V.check_forall(m, lambda i: hp.legal_value(val)[i], "sampled values are reported as legal")
    V.check(hp.legal_vector(hp.sample_vector(seed=V.rng())), "a single sampled vector is legal")
    one = hp.sample_value(seed=V.rng())
    V.check(V.and_(domain(one), hp.legal_value(one)), "a single sampled value is legal")
    other = hp.rvs(random_state=V.rng())
    V.check(V.and_(domain(other), hp.legal_value(other)), "rvs gives legal values")
    V.check(V.seeded(), "all randomness comes from the given generator")


def within(V, hp):
    return lambda x: V.and_(hp.lower <= x, x <= hp.upper)


def integer_within(V, hp):
    return lambda x: V.and_(V.is_int(x), hp.lower <= x, x <= hp.upper)


@theorem("C03", functions=[UF, NF, BF, DIST + "UnitUniformContinuousDistribution.sample_vector", DIST + "ScipyContinuousDistribution.sample_vector", *COMP, *BASE, *SAMPLE])
def float_samples(V):
    hp = V.choice("type", [mk.uniform_float, mk.normal_float, mk.beta_float])(V, default=False)
    sampled(V, hp, within(V, hp))


@theorem("C03", functions=[UI, DIST + "UniformIntegerNormalizedDistribution.sample_vector", *COMP, *BASE, *SAMPLE])
def uniform_int_samples(V):
    hp = mk.uniform_int(V, False, default=False)
    sampled(V, hp, integer_within(V, hp))


@theorem("C03", functions=[NI, BI, DIST + "DiscretizedContinuousScipyDistribution.sample_vector", DIST + "DiscretizedContinuousScipyDistribution._quantize", *COMP, *BASE, *SAMPLE])
def prior_int_samples(V):
    hp = V.choice("type", [mk.normal_int, mk.beta_int])(V, False, default=False)
    sampled(V, hp, integer_within(V, hp))


@theorem("C03", functions=[UI, NI, BI, DIST + "DiscretizedContinuousScipyDistribution.__post_init__", DIST + "DiscretizedContinuousScipyDistribution.sample_vector", DIST + "DiscretizedContinuousScipyDistribution._quantize", *COMP, *BASE, *SAMPLE])
def log_int_samples(V):
    hp = V.choice("type", [mk.uniform_int, mk.normal_int, mk.beta_int])(V, True, default=False)
    sampled(V, hp, integer_within(V, hp))
