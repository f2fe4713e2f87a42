"""Numerical hyperparameters: encoding, legality, sampling, densities."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem

HP = "ConfigSpace.hyperparameters."
COMP = [HP + "hp_components.UnitScaler." + m for m in ("__post_init__", "to_value", "to_vector", "legal_value", "legal_vector", "legal_value_single", "legal_vector_single")]
BASE = [HP + "hyperparameter.Hyperparameter." + m for m in ("__init__", "to_value", "to_vector", "legal_value", "legal_vector")]
UI = HP + "uniform_integer.UniformIntegerHyperparameter.__init__"
UF = HP + "uniform_float.UniformFloatHyperparameter.__init__"


def int_roundtrip(V, hp):
    n = V.length("n")
    vals = V.array("values", n, "i8", draw=(hp.lower, hp.upper))
    V.assume(V.forall(n, lambda k: V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)))
    vec = hp.to_vector(vals)
    back = hp.to_value(vec)
    legal = hp.legal_vector(vec)
    V.check(V.and_(V.eq(V.len(vec), n), V.eq(V.len(back), n)), "as many vectors and values as given")
    V.check_forall(n, lambda k: V.and_(V.le(hp.lower_vectorized, vec[k]), V.le(vec[k], hp.upper_vectorized)), "vectors within the vector bounds")
    V.check_forall(n, lambda k: legal[k], "encoded values are legal vectors")
    V.check_forall(n, lambda k: V.eq(back[k], vals[k]), "decoding returns the value")
    V.check_forall(n, lambda k: V.eq(hp.to_vector(vals[k]), vec[k]), "one at a time: same vector")
    V.check_forall(n, lambda k: V.eq(hp.to_value(vec[k]), vals[k]), "one at a time: same value")


@theorem("C01", functions=[UI, *COMP, *BASE])
def uniform_int_linear_roundtrip(V):
    int_roundtrip(V, mk.uniform_int(V, False))


@theorem("C01", functions=[UI, *COMP, *BASE])
def uniform_int_log_roundtrip(V):
    int_roundtrip(V, mk.uniform_int(V, True))


def float_roundtrip(V, hp):
    n = V.length("n")
    vals = V.array("values", n, draw=(hp.lower, hp.upper))
    V.assume(V.forall(n, lambda k: V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)))
    vec = hp.to_vector(vals)
    back = hp.to_value(vec)
    V.check(V.and_(V.eq(V.len(vec), n), V.eq(V.len(back), n)), "as many vectors and values as given")
    V.check_forall(n, lambda k: V.and_(V.le(hp.lower_vectorized, vec[k]), V.le(vec[k], hp.upper_vectorized)), "vectors within the vector bounds")
    if V.symbolic:  # at the bounds up to rounding only
        legal = hp.legal_vector(vec)
        V.check_forall(n, lambda k: legal[k], "encoded values are legal vectors")
    V.check_forall(n, lambda k: V.eq(back[k], vals[k]), "decoding returns the value")
    V.check_forall(n, lambda k: V.eq(hp.to_vector(vals[k]), vec[k]), "one at a time: same vector")
    V.check_forall(n, lambda k: V.eq(hp.to_value(vec[k]), vals[k]), "one at a time: same value")


@theorem("C01", functions=[UF, *COMP, *BASE])
def uniform_float_linear_roundtrip(V):
    float_roundtrip(V, mk.uniform_float(V, False))


@theorem("C01", functions=[UF, *COMP, *BASE])
def uniform_float_log_roundtrip(V):
    float_roundtrip(V, mk.uniform_float(V, True))


def legal_vectors_decode(V, hp, bounded=True):
    n = V.length("n")
    vec = V.array("vectors", n, nan=True, draw=(-0.2, 1.2))
    legal = hp.legal_vector(vec)
    V.check(V.eq(V.len(legal), n), "one answer per vector")

    def item(k):
        if bounded:  # integers on a log scale: within the tolerance for integers
            V.check(V.implies(legal[k], V.and_(hp.lower_vectorized <= vec[k], vec[k] <= hp.upper_vectorized)), "legal vectors are within the vector bounds")
        V.check(V.iff(hp.legal_vector(vec[k]), legal[k]), "one at a time: same answer")
        V.assume(legal[k])
        value = hp.to_value(vec[k])
        return hp.legal_value(value)

    V.check_forall(n, item, "legal vectors decode to legal values")


@theorem("C01", "C02", functions=[UI, *COMP, *BASE])
def uniform_int_linear_vectors(V):
    legal_vectors_decode(V, mk.uniform_int(V, False, default=False))


@theorem("C01", "C02", functions=[UI, *COMP, *BASE])
def uniform_int_log_vectors(V):
    legal_vectors_decode(V, mk.uniform_int(V, True, default=False), bounded=False)


@theorem("C01", "C02", functions=[UF, *COMP, *BASE])
def uniform_float_vectors(V):
    legal_vectors_decode(V, mk.uniform_float(V, default=False))


def int_domain(V, hp):
    n = V.length("n")
    vals = V.array("values", n, nan=True, draw=(-70, 410))
    legal = hp.legal_value(vals)
    V.check(V.eq(V.len(legal), n), "one answer per value")

    def item(k):
        x = vals[k]
        V.check(V.iff(hp.legal_value(x), legal[k]), "one at a time: same answer")
        V.check(V.implies(V.isnan(x), V.not_(legal[k])), "NaN is illegal")
        V.assume(V.not_(V.isnan(x)))
        V.check(V.implies(V.and_(V.is_int(x), hp.lower <= x, x <= hp.upper), legal[k]), "integers within the bounds are legal")
        r = V.rint(x)
        V.check(V.implies(legal[k], V.and_(hp.lower <= r, r <= hp.upper)), "nothing outside the bounds is legal")
        d = V.ite(x >= r, x - r, r - x)
        mag = V.ite(r >= 0, r, -r)
        return V.implies(legal[k], V.le(d, 1e-13 + 1e-5 * mag))

    V.check_forall(n, item, "only numbers close to an integer are legal")


@theorem("C02", functions=[UI, *COMP, *BASE])
def uniform_int_domain(V):
    int_domain(V, mk.uniform_int(V, default=False))


@theorem("C02", functions=[UF, *COMP, *BASE])
def uniform_float_domain(V):
    hp = mk.uniform_float(V, default=False)
    n = V.length("n")
    vals = V.array("values", n, nan=True, draw=(-30, 210))
    legal = hp.legal_value(vals)
    V.check(V.eq(V.len(legal), n), "one answer per value")
    V.check_forall(n, lambda k: V.iff(legal[k], V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)), "legal exactly within the closed bounds")
    V.check_forall(n, lambda k: V.iff(hp.legal_value(vals[k]), legal[k]), "one at a time: same answer")
    other = V.choice("unrelated", ["a", None, (1, 2), b"x"][:2])
    V.check(V.not_(hp.legal_value(other)), "values of an unrelated type are illegal")


@theorem("C02", functions=[UI, UF, *COMP, *BASE])
def illegal_defaults(V):
    from ConfigSpace.hyperparameters import UniformFloatHyperparameter, UniformIntegerHyperparameter

    log = V.choice("log", [False, True])
    if V.choice("integer", [False, True]):
        lo, hi = mk.bounds_int(V, log)
        d = V.int("default", draw=(-80, 500))
        make = lambda: UniformIntegerHyperparameter("x", lower=lo, upper=hi, default_value=d, log=log)
    else:
        lo, hi = mk.bounds_float(V, log)
        d = V.real("default", draw=(-30, 1000))
        make = lambda: UniformFloatHyperparameter("x", lower=lo, upper=hi, default_value=d, log=log)
    inside = V.and_(lo <= d, d <= hi)
    V.assume(V.or_(inside, d <= lo - 1e-12, d >= hi + 1e-12))  # not within rounding of the bounds
    V.check(V.iff(V.raises(make, ValueError), V.not_(inside)), "a default outside the bounds is rejected, one inside is not")


@theorem("C01", "C02", "C11", functions=[UI, UF, *COMP, *BASE])
def midpoint_default(V):
    if V.choice("integer", [False, True]):
        hp = mk.uniform_int(V, default=False)
        V.check(V.is_int(hp.default_value), "an integer")
    else:
        hp = mk.uniform_float(V, default=False)
    V.check(V.and_(hp.lower <= hp.default_value, hp.default_value <= hp.upper), "the default of the constructor is within the bounds")
    V.check(hp.legal_value(hp.default_value), "the default of the constructor is legal")
