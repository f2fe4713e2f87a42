"""Neighbours of a value (C04)."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.discrete import CAT, CON, ORD, SEQ
from contracts.numeric import BASE, COMP, HP, UF, UI
from contracts.priors import BF, BI, NF, NI
from contracts.sampling import DIST

NB = [HP + "hyperparameter.Hyperparameter." + m for m in ("neighbors_vectorized", "neighbors_values")]


def distinct_others(V, nb, count, available, me):
    """Exactly min(count, available) neighbours, pairwise distinct, none of them the vector itself."""
    m = V.len(nb)
    V.check(V.eq(m, V.ite(V.le(count, available), count, available)), "as many as asked for, or all there are")
    V.check_forall(m, lambda i: V.not_(V.eq(nb[i], me)), "never the value itself")

    def differ(i):
        V.check_forall(i, lambda j: V.not_(V.eq(nb[i], nb[j])), "pairwise distinct")

    V.check_forall(m, differ, "pairwise distinct")


@theorem("C04", functions=[HP + "categorical.NeighborhoodCat.__post_init__", HP + "categorical.NeighborhoodCat.__call__", *CAT, *SEQ, *NB])
def categorical_neighbours(V):
    hp, xs = mk.categorical(V, ["str"], default=False, weighted=False)
    n = V.len(xs)
    p = V.float_int("position", 0, n - 1)
    count = V.int("count", 0, draw=(0, 12))
    nb = hp.neighbors_vectorized(p, count, seed=V.rng())
    V.check_forall(V.len(nb), lambda i: hp.legal_vector(nb)[i], "neighbours are legal")
    distinct_others(V, nb, count, n - 1, p)
    V.check(V.seeded(), "all randomness comes from the given generator")


@theorem("C04", functions=[HP + "hp_components.ordinal_neighborhood", *ORD, *SEQ, *NB])
def ordinal_neighbours(V):
    hp, xs = mk.ordinal(V, ["str"], default=False)
    n = V.len(xs)
    p = V.float_int("position", 0, n - 1)
    count = V.int("count", 1, draw=(1, 5))
    nb = hp.neighbors_vectorized(p, count, seed=V.rng())
    m = V.len(nb)
    both = V.and_(p > 0, p < n - 1)
    V.check(V.eq(m, V.ite(V.eq(n, 1), 0, V.ite(V.and_(both, count >= 2), 2, 1))), "the adjacent positions, as many as asked for")
    V.check_forall(m, lambda i: V.or_(V.eq(nb[i], p - 1), V.eq(nb[i], p + 1)), "neighbours are adjacent positions")
    V.check_forall(m, lambda i: hp.legal_vector(nb)[i], "neighbours are legal")

    def differ(i):
        V.check_forall(i, lambda j: V.not_(V.eq(nb[i], nb[j])), "pairwise distinct")

    V.check_forall(m, differ, "pairwise distinct")
    V.check(V.seeded(), "all randomness comes from the given generator")


@theorem("C04", functions=[HP + "constant._empty_neighborhood", *CON, *NB])
def constant_neighbours(V):
    hp, x, _ = mk.constant(V)
    count = V.int("count", 0, draw=(0, 4))
    V.check(V.eq(V.len(hp.neighbors_vectorized(hp.to_vector(x), count, seed=V.rng())), 0), "a constant has no neighbours")
    V.check(V.eq(V.len(hp.neighbors_values(x, count, seed=V.rng())), 0), "a constant has no neighbouring values")


@theorem("C04", functions=[DIST + "quantized_neighborhood", DIST + "UniformIntegerNormalizedDistribution.neighborhood", UI, *COMP, *NB])
def uniform_int_all_neighbours(V):
    """All other values, when that many are asked for."""
    hp = mk.uniform_int(V, False, default=False)
    x = V.int("value", draw=(hp.lower, hp.upper))
    V.assume(V.and_(hp.lower <= x, x <= hp.upper))
    count = V.int("count", 0, draw=(0, 500))
    V.assume(V.and_(count >= hp.upper - hp.lower, count < 1000000))
    nb = hp.neighbors_vectorized(hp.to_vector(x), count, seed=V.rng())
    m = V.len(nb)
    V.check(V.eq(m, hp.upper - hp.lower), "as many as there are other values")
    V.check_forall(m, lambda i: V.eq(hp.to_value(nb)[i], V.ite(hp.lower + i < x, hp.lower + i, hp.lower + i + 1)), "all other values in order")
    V.check_forall(m, lambda i: hp.legal_vector(nb)[i], "neighbours are legal")




def quantize_by_contract(V, bins):
    """quantize(x, bounds=(0, 1), bins): one of the bins, and a bin is left alone (proved: C19 quantize, quantize_keeps_bins)."""
    from ConfigSpace.hyperparameters import distributions as D

    level = V.function("bin", "real", out="int", lo=0, hi=bins - 1)

    def quantize(x, *, bounds, bins):
        lo, hi = bounds
        V.check(V.and_(V.eq(lo, 0), V.eq(hi, 1)), "quantizes the unit interval")
        if not hasattr(x, "map"):
            V.check(V.and_(V.le(0, x), V.le(x, 1)), "quantizes a vector within the bounds")
            return level(x) / (bins - 1)
        V.check_forall(V.len(x), lambda i: V.and_(V.le(0, x[i]), V.le(x[i], 1)), "quantizes vectors within the bounds")
        return x.map(lambda v: level(v) / (bins - 1), "f8")

    V.contract(D, "quantize", quantize, "one of the bins, a bin is left alone (proved: quantize, quantize_keeps_bins)")
    return level


@theorem("C04", functions=[DIST + "quantized_neighborhood"])
def quantized_neighborhood(V):
    """Fewer than all other bins, drawn at random."""
    from ConfigSpace.hyperparameters.distributions import quantized_neighborhood as fn

    bins = V.int("bins", 3, draw=(3, 60))
    q = V.int("bin of the vector", 0, bins - 1)
    count = V.int("count", 1, draw=(1, 20))
    V.assume(V.and_(count < bins - 1, count < 1000000))
    vec = V.np.float64(q) / (bins - 1)
    if V.symbolic:
        level = quantize_by_contract(V, bins)
        V.assume(V.eq(level(vec), q))

    def holds(L, G):
        g = G["neighbors"]
        yield V.and_(V.le(1, L.offset), V.le(L.offset, count), V.eq(g(0), q))
        yield L.offset, lambda i: V.and_(V.le(0, g(i)), V.le(g(i), bins - 1))
        yield L.offset, 2, lambda i, j: V.not_(V.eq(g(i), g(j)))

    V.invariant(
        "quantized_neighborhood:1",
        holds,
        numbers={"offset": "int"},
        arrays=[dict(name="neighbors", upto=lambda L: L.offset, sort="int", elem=lambda g: g / (bins - 1), witness=lambda y: y * (bins - 1))],
    )
    given = V.choice("std", [None, 0.3])
    error, nb = V.call(lambda: fn(vec, count, std=given, seed=V.rng(), lower=V.np.float64(0), upper=V.np.float64(1), bins=bins))
    if error is not None:
        V.check(isinstance(error, ValueError), "fails only when too few bins were drawn")
        return
    V.check(V.eq(V.len(nb), count), "as many as asked for")
    at = lambda i: V.cases(lambda: nb[i])  # noqa: E731
    V.check_forall(count, lambda i: V.and_(V.near_int(at(i) * (bins - 1)), V.le(0, at(i)), V.le(at(i), 1)), "bins")
    V.check_forall(count, lambda i: V.not_(V.eq(at(i), vec)), "never the bin of the vector")

    def differ(i):
        V.check_forall(i, lambda j: V.not_(V.eq(at(i), at(j))), "pairwise distinct")

    V.check_forall(count, differ, "pairwise distinct")
    V.check(V.seeded(), "all randomness comes from the given generator")


@theorem("C04", functions=[DIST + "continuous_neighborhood"])
def continuous_neighborhood(V):
    from ConfigSpace.hyperparameters.distributions import continuous_neighborhood as fn

    vec = V.real("vector", draw=(0, 1))
    V.assume(V.and_(vec >= 0, vec <= 1))
    count = V.int("count", 1, draw=(1, 20))

    def holds(L, G):
        g = G["neighbors"]
        yield V.and_(V.le(0, L.offset), V.le(L.offset, count))
        yield L.offset, lambda i: V.and_(V.le(0, g(i)), V.le(g(i), 1))

    V.invariant("continuous_neighborhood:1", holds, numbers={"offset": "int"}, arrays=[dict(name="neighbors", upto=lambda L: L.offset)])
    given = V.choice("std", [None, 0.3])
    error, nb = V.call(lambda: fn(V.np.float64(vec), count, std=given, seed=V.rng(), lower=V.np.float64(0), upper=V.np.float64(1)))
    if error is not None:
        V.check(isinstance(error, ValueError), "fails only when too few vectors were drawn")
        return
    V.check(V.eq(V.len(nb), count), "as many as asked for")
    at = lambda i: V.cases(lambda: nb[i])  # noqa: E731
    V.check_forall(count, lambda i: V.and_(V.le(0, at(i)), V.le(at(i), 1)), "within the vector bounds")
    V.check(V.seeded(), "all randomness comes from the given generator")


def by_contract(V, name, result):
    """The neighbourhood function obeys its contract, when it returns."""
    from ConfigSpace.hyperparameters import distributions as D

    if V.symbolic:
        V.contract(D, name, result, f"proved as {name}")


@theorem("C04", functions=[DIST + "UniformIntegerNormalizedDistribution.neighborhood", UI, *COMP, *NB])
def uniform_int_sampled_neighbours(V):
    """Fewer than all other values: legal, distinct, not the value itself."""
    hp = mk.uniform_int(V, False, default=False)
    x = V.int("value", draw=(hp.lower, hp.upper))
    V.assume(V.and_(hp.lower <= x, x <= hp.upper))
    count = V.int("count", 1, draw=(1, 30))
    V.assume(V.and_(count < hp.upper - hp.lower, count < 1000000))
    size = hp.upper - hp.lower + 1
    if V.symbolic:
        level = V.function("bin", "int", out="int", lo=0, hi=size - 1)

        def result(vector, n, *, std=None, seed=None, lower, upper, bins, **_):
            V.check(V.and_(V.eq(bins, size), V.eq(lower, 0), V.eq(upper, 1), V.le(0, vector), V.le(vector, 1), seed is not None), "asks for neighbours among all values")
            V.assume(V.forall(n, lambda i: V.forall(i, lambda j: V.not_(V.eq(level(i), level(j))))))
            V.assume(V.forall(n, lambda i: V.not_(V.eq(level(i), vector * (bins - 1)))))
            return V.np.ndarray(n, lambda i: level(i) / (bins - 1), "f8")

        by_contract(V, "quantized_neighborhood", result)
    error, nb = V.call(lambda: hp.neighbors_values(x, count, seed=V.rng()))
    if error is not None:
        V.check(isinstance(error, ValueError), "fails only when too few values were drawn")
        return
    V.check(V.eq(V.len(nb), count), "as many as asked for")
    V.check_forall(count, lambda i: V.and_(V.is_int(nb[i]), hp.lower <= nb[i], nb[i] <= hp.upper), "neighbours are legal")
    V.check_forall(count, lambda i: hp.legal_value(nb)[i], "neighbours are reported as legal")
    V.check_forall(count, lambda i: V.not_(V.eq(nb[i], x)), "never the value itself")

    def differ(i):
        V.check_forall(i, lambda j: V.not_(V.eq(nb[i], nb[j])), "pairwise distinct")

    V.check_forall(count, differ, "pairwise distinct")


@theorem(
    "C04",
    functions=[DIST + "UnitUniformContinuousDistribution.neighborhood", DIST + "ScipyContinuousDistribution.neighborhood", UF, NF, BF, *COMP, *NB],
)
def float_neighbours(V):
    hp = V.choice("type", [mk.uniform_float, mk.normal_float, mk.beta_float])(V, default=False)
    x = V.real("value", draw=(hp.lower, hp.upper))
    V.assume(V.and_(hp.lower <= x, x <= hp.upper))
    count = V.int("count", 1, draw=(1, 30))
    if V.symbolic:
        drawn = V.function("drawn", "int", out="real", lo=0, hi=1)

        def result(vector, n, *, std=None, seed=None, lower, upper, **_):
            V.check(V.and_(V.eq(lower, 0), V.eq(upper, 1), V.le(0, vector), V.le(vector, 1), seed is not None), "asks for neighbours among all vectors")
            return V.np.ndarray(n, drawn, "f8")

        by_contract(V, "continuous_neighborhood", result)
    error, nb = V.call(lambda: hp.neighbors_values(x, count, seed=V.rng()))
    if error is not None:
        V.check(isinstance(error, ValueError), "fails only when too few values were drawn")
        return
    V.check(V.eq(V.len(nb), count), "as many as asked for")
    V.check_forall(count, lambda i: V.and_(hp.lower <= nb[i], nb[i] <= hp.upper), "neighbours are legal")
    V.check_forall(count, lambda i: hp.legal_value(nb)[i], "neighbours are reported as legal")


DISCRETIZED = [DIST + "DiscretizedContinuousScipyDistribution." + m for m in ("neighborhood", "_quantize")]


def prior_int(V, log):
    hp = V.choice("type", [mk.normal_int, mk.beta_int, *([mk.uniform_int] if log else [])])(V, log, default=False)
    x = V.int("value", draw=(hp.lower, hp.upper))
    V.assume(V.and_(hp.lower <= x, x <= hp.upper))
    return hp, x


def scaled(V, hp, log):
    """(to vector, to value) of the integers of the hyperparameter."""
    if log:
        a, b = V.log(hp.lower), V.log(hp.upper)
        return (lambda g: (V.log(g) - a) / (b - a)), (lambda y: V.exp(y * (b - a) + a))
    size = hp.upper - hp.lower
    return (lambda g: (g - hp.lower) / size), (lambda y: y * size + hp.lower)


def quantizes(V, log):
    """_quantize: vectors of legal integers; those are left alone."""
    hp, x = prior_int(V, log)
    to_vec, to_val = scaled(V, hp, log)
    n = V.length("n")
    v = V.array("v", n, draw=(0, 1))
    V.assume(V.forall(n, lambda i: V.and_(v[i] >= 0, v[i] <= 1)))
    if V.symbolic and not log:
        level = quantize_by_contract(V, hp.upper - hp.lower + 1)
        V.assume(V.eq(level(hp.to_vector(x)), x - hp.lower))
    q = hp._vector_dist._quantize(v)
    V.check(V.eq(V.len(q), n), "one result for each")
    values = hp.to_value(q)

    def item(i):
        y, g = q[i], values[i]
        V.check(V.and_(V.is_int(g), V.le(hp.lower, g), V.le(g, hp.upper)), "a legal integer")
        return V.eq(to_vec(g), y)

    V.check_forall(n, item, "its vector")
    one = hp._vector_dist._quantize(V.np.array([hp.to_vector(x)]))
    V.check(V.eq(one[0], hp.to_vector(x)), "the vector of a value is left alone")
    V.check(V.eq(hp.to_vector(x), to_vec(x)), "the vector of a value")


@theorem("C04", "C03", functions=DISCRETIZED)
def prior_int_quantize(V):
    quantizes(V, False)


@theorem("C04", "C03", functions=DISCRETIZED)
def log_int_quantize(V):
    quantizes(V, True)


def prior_neighbours(V, log):
    from ConfigSpace.hyperparameters.distributions import DiscretizedContinuousScipyDistribution as D

    hp, x = prior_int(V, log)
    count = V.int("count", 1, draw=(1, 20))
    V.assume(V.and_(count < hp.upper - hp.lower, count < 1000000))
    to_vec, to_val = scaled(V, hp, log)
    vec = to_vec(x) if V.symbolic else hp.to_vector(x)
    if V.symbolic:
        value = V.function("integer", "real", out="int", lo=hp.lower, hi=hp.upper)
        V.assume(V.eq(value(vec), x))

        def quantize(self, x):
            V.check_forall(V.len(x), lambda i: V.and_(V.le(0, x[i]), V.le(x[i], 1)), "quantizes vectors within the bounds")
            return x.map(lambda y: to_vec(value(y)), "f8")

        V.contract(D, "_quantize", quantize, "the vector of a legal integer; the vectors of legal integers are left alone (proved)")

    def holds(L, G):
        g = G["neighbors"]
        yield V.and_(V.le(1, L.offset), V.le(L.offset, count), V.eq(g(0), x))
        yield L.offset, lambda i: V.and_(V.le(hp.lower, g(i)), V.le(g(i), hp.upper))
        yield L.offset, 2, lambda i, j: V.not_(V.eq(g(i), g(j)))

    V.invariant(
        "DiscretizedContinuousScipyDistribution.neighborhood:1",
        holds,
        numbers={"offset": "int"},
        arrays=[dict(name="neighbors", upto=lambda L: L.offset, sort="int", elem=to_vec, witness=to_val)],
    )
    error, nb = V.call(lambda: hp._neighborhood(vec, count, std=None, seed=V.rng()))
    if error is not None:
        V.check(isinstance(error, ValueError), "fails only when too few values were drawn")
        return
    V.check(V.eq(V.len(nb), count), "as many as asked for")
    at = lambda i: to_val(V.cases(lambda: nb[i]))  # noqa: E731
    V.check_forall(count, lambda i: V.and_(V.near_int(at(i)), V.le(hp.lower, at(i)), V.le(at(i), hp.upper)), "vectors of legal integers")
    V.check_forall(count, lambda i: V.not_(V.eq(at(i), x)), "never the value itself")

    def differ(i):
        V.check_forall(i, lambda j: V.not_(V.eq(at(i), at(j))), "pairwise distinct")

    V.check_forall(count, differ, "pairwise distinct")
    V.check(V.seeded(), "all randomness comes from the given generator")


@theorem("C04", functions=[NI, BI, *DISCRETIZED])
def prior_int_neighbours(V):
    prior_neighbours(V, False)


@theorem("C04", functions=[NI, BI, UI, *DISCRETIZED])
def log_int_neighbours(V):
    prior_neighbours(V, True)


def prior_all_neighbours(V, log):
    """All other values, when that many are asked for."""
    from ConfigSpace.hyperparameters.distributions import DiscretizedContinuousScipyDistribution as D

    hp, x = prior_int(V, log)
    size = hp.upper - hp.lower
    count = V.int("count", 0, draw=(0, 500))
    V.assume(V.and_(count >= size, count < 1000000))
    to_vec, to_val = scaled(V, hp, log)
    vec = to_vec(x) if V.symbolic else hp.to_vector(x)
    if V.symbolic:
        value = V.function("integer", "real", out="int", lo=hp.lower, hi=hp.upper)

        def one(y):
            g = to_val(y)
            if V.proved(V.and_(V.is_int(g), hp.lower <= g, g <= hp.upper)):
                return to_vec(g)
            return to_vec(value(y))

        V.contract(D, "_quantize", lambda self, x: x.map(one, "f8"), "the vector of a legal integer; the vectors of legal integers are left alone (proved)")
    nb = hp._neighborhood(vec, count, std=None, seed=V.rng())
    V.check(V.eq(V.len(nb), size), "as many as there are other values")
    V.check_forall(size, lambda i: V.eq(to_val(V.cases(lambda: nb[i])), V.ite(hp.lower + i < x, hp.lower + i, hp.lower + i + 1)), "all other values in order")


@theorem("C04", functions=[NI, BI, *DISCRETIZED])
def prior_int_all_neighbours(V):
    prior_all_neighbours(V, False)


@theorem("C04", functions=[NI, BI, UI, *DISCRETIZED])
def log_int_all_neighbours(V):
    prior_all_neighbours(V, True)
