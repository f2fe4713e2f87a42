"""Normal and beta hyperparameters: encoding and legality."""
from __future__ import annotations

from contracts import hp_make as mk
from contracts import theorem
from contracts.numeric import BASE, COMP, HP, float_roundtrip, int_domain, int_roundtrip, legal_vectors_decode

NF, NI, BF, BI = (HP + m for m in ("normal_float.NormalFloatHyperparameter.__init__", "normal_integer.NormalIntegerHyperparameter.__init__", "beta_float.BetaFloatHyperparameter.__init__", "beta_integer.BetaIntegerHyperparameter.__init__"))


@theorem("C01", functions=[NF, *COMP, *BASE])
def normal_float_roundtrip(V):
    float_roundtrip(V, mk.normal_float(V))


@theorem("C01", functions=[BF, *COMP, *BASE])
def beta_float_roundtrip(V):
    float_roundtrip(V, mk.beta_float(V))


@theorem("C01", functions=[NI, *COMP, *BASE])
def normal_int_roundtrip(V):
    int_roundtrip(V, mk.normal_int(V))


@theorem("C01", functions=[BI, *COMP, *BASE])
def beta_int_roundtrip(V):
    int_roundtrip(V, mk.beta_int(V))


@theorem("C01", "C02", functions=[NF, *COMP, *BASE])
def normal_float_vectors(V):
    legal_vectors_decode(V, mk.normal_float(V, default=False))


@theorem("C01", "C02", functions=[BF, *COMP, *BASE])
def beta_float_vectors(V):
    legal_vectors_decode(V, mk.beta_float(V, default=False))


@theorem("C01", "C02", functions=[NI, *COMP, *BASE])
def normal_int_vectors(V):
    log = V.choice("on a log scale", [False, True])
    legal_vectors_decode(V, mk.normal_int(V, log, default=False), bounded=not log)


@theorem("C01", "C02", functions=[BI, *COMP, *BASE])
def beta_int_vectors(V):
    log = V.choice("on a log scale", [False, True])
    legal_vectors_decode(V, mk.beta_int(V, log, default=False), bounded=not log)


@theorem("C02", functions=[NI, *COMP, *BASE])
def normal_int_domain(V):
    int_domain(V, mk.normal_int(V, default=False))


@theorem("C02", functions=[BI, *COMP, *BASE])
def beta_int_domain(V):
    int_domain(V, mk.beta_int(V, default=False))


@theorem("C02", functions=[NF, NI, BF, BI, *COMP, *BASE])
def priors_illegal_defaults(V):
    from ConfigSpace import hyperparameters as h

    log = V.choice("log", [False, True])
    kind = V.choice("type", ["NormalFloat", "BetaFloat", "NormalInteger", "BetaInteger"])
    integer = kind.endswith("Integer")
    lo, hi = mk.bounds_int(V, log) if integer else mk.bounds_float(V, log)
    d = V.int("default", draw=(-80, 500)) if integer else V.real("default", draw=(-30, 1000))
    args = mk.scale_of_normal(V, lo, hi, log) if kind.startswith("Normal") else mk.beta_params(V)
    mk.mass_of_prior(V)
    make = lambda: getattr(h, kind + "Hyperparameter")("x", *args, lower=lo, upper=hi, default_value=d, log=log)
    inside = V.and_(lo <= d, d <= hi)
    V.assume(V.or_(inside, d <= lo - 1e-12, d >= hi + 1e-12))  # not within rounding of the bounds
    V.check(V.iff(V.raises(make, ValueError), V.not_(inside)), "a default outside the bounds is rejected, one inside is not")


@theorem("C02", functions=[NF, BF, *COMP, *BASE])
def priors_float_domain(V):
    hp = mk.normal_float(V, default=False) if V.choice("normal", [False, True]) else mk.beta_float(V, default=False)
    n = V.length("n")
    vals = V.array("values", n, nan=True, draw=(-30, 210))
    legal = hp.legal_value(vals)
    V.check(V.eq(V.len(legal), n), "one answer per value")
    V.check_forall(n, lambda k: V.iff(legal[k], V.and_(hp.lower <= vals[k], vals[k] <= hp.upper)), "legal exactly within the closed bounds")
    V.check_forall(n, lambda k: V.iff(hp.legal_value(vals[k]), legal[k]), "one at a time: same answer")
    other = V.choice("unrelated", ["a", None])
    V.check(V.not_(hp.legal_value(other)), "values of an unrelated type are illegal")


@theorem("C02", "C11", functions=[NF, NI, BF, BI, *COMP, *BASE])
def priors_computed_default(V):
    """The default computed by the constructor is legal."""
    make = V.choice("type", [mk.normal_float, mk.normal_int, mk.beta_float, mk.beta_int])
    hp = make(V, default=False)
    if make in (mk.normal_int, mk.beta_int):
        V.check(V.is_int(hp.default_value), "an integer")
    V.check(V.and_(hp.lower <= hp.default_value, hp.default_value <= hp.upper), "the default of the constructor is within the bounds")
    V.check(hp.legal_value(hp.default_value), "the default of the constructor is legal")
