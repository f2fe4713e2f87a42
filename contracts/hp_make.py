"""Arbitrary hyperparameters, built by the real constructors."""
from __future__ import annotations


class Named:
    """V with a prefix on the names of inputs, for a second hyperparameter in one theorem."""

    INPUTS = {"int", "real", "float_int", "boolean", "choice", "chosen", "length", "array", "reals", "val", "vals", "function", "ghost_int"}

    def __init__(self, V, prefix):
        self._V, self._prefix = V, prefix

    def __getattr__(self, n):
        f = getattr(self._V, n)
        if n in self.INPUTS:
            return lambda name, *a, **k: f(f"{self._prefix}: {name}", *a, **k)
        return f


def name_of(V, default):
    return getattr(V, "_prefix", default) if isinstance(V, Named) else default


def bounds_int(V, log):
    lo = V.int("lower", 1 if log else None, draw=(1, 30) if log else (-60, 60))
    hi = V.int("upper", draw=(1, 400) if log else (-60, 400))
    V.assume(lo < hi)
    return lo, hi


def bounds_float(V, log):
    # bounds and defaults of floats are rounded to 13 places: they differ by more than that
    if log:
        lo, hi = V.real("lower", draw=(0.001, 3)), V.real("upper", draw=(0.01, 900))
        V.assume(lo >= 1e-12)
        V.assume(lo + 1e-12 <= hi if V.symbolic else lo * 1.01 < hi)
    else:
        lo, hi = V.real("lower", draw=(-20, 20)), V.real("upper", draw=(-20, 200))
        V.assume(lo + 1e-12 <= hi if V.symbolic else lo + 0.01 < hi)
    return lo, hi


def default_of(V, lo, hi, integer):
    if V.choice("given default", [False, True]):
        d = V.int("default", draw=(lo, hi)) if integer else V.real("default", draw=(lo, hi))
        V.assume(V.and_(lo <= d, d <= hi))
        return d
    return None


def uniform_int(V, log=None, default=True):
    from ConfigSpace.hyperparameters import UniformIntegerHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_int(V, log)
    return UniformIntegerHyperparameter(name_of(V, "x"), lower=lo, upper=hi, default_value=default_of(V, lo, hi, True) if default else None, log=log)


def uniform_float(V, log=None, default=True):
    from ConfigSpace.hyperparameters import UniformFloatHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_float(V, log)
    return UniformFloatHyperparameter(name_of(V, "x"), lower=lo, upper=hi, default_value=default_of(V, lo, hi, False) if default else None, log=log)


def scale_of_normal(V, lo, hi, log):
    """(mu, sigma): sigma must not vanish on the vector scale."""
    mu = V.real("mu", draw=(lo, hi)) if log else V.real("mu", draw=(lo - 2, hi + 2))
    sigma = V.real("sigma", draw=(0.05, 30))
    V.assume(sigma >= 1e-12 if V.symbolic else sigma > 0.01)
    if log:
        V.assume(mu > 1e-12)
        V.assume(V.or_(lo + sigma < 1 - 1e-12, lo + sigma > 1 + 1e-12))
    return mu, sigma


def normal_float(V, log=None, default=True):
    from ConfigSpace.hyperparameters import NormalFloatHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_float(V, log)
    mu, sigma = scale_of_normal(V, lo, hi, log)
    return NormalFloatHyperparameter(name_of(V, "x"), mu, sigma, lower=lo, upper=hi, default_value=default_of(V, lo, hi, False) if default else None, log=log)


def beta_params(V):
    a, b = V.real("alpha", draw=(1, 9)), V.real("beta", draw=(1, 9))
    V.assume(V.and_(a >= 1, b >= 1))
    return a, b


def beta_float(V, log=None, default=True):
    from ConfigSpace.hyperparameters import BetaFloatHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_float(V, log)
    a, b = beta_params(V)
    return BetaFloatHyperparameter(name_of(V, "x"), a, b, lower=lo, upper=hi, default_value=default_of(V, lo, hi, False) if default else None, log=log)


def mass_of_prior(V):
    """Largest value and sum of the density over the grid: positive numbers."""
    if V.symbolic:
        from ConfigSpace.hyperparameters.distributions import DiscretizedContinuousScipyDistribution as D

        top, total = V.real("largest density"), V.real("sum of densities")
        V.assume(V.and_(top > 0, total >= top))
        V.contract(D, "_max_density_and_normalization_constant", lambda self: (top, total), "0 < maximum <= sum (assumed)")


def normal_int(V, log=None, default=True):
    from ConfigSpace.hyperparameters import NormalIntegerHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_int(V, log)
    mu, sigma = scale_of_normal(V, lo, hi, log)
    mass_of_prior(V)
    return NormalIntegerHyperparameter(name_of(V, "x"), mu, sigma, lower=lo, upper=hi, default_value=default_of(V, lo, hi, True) if default else None, log=log)


def beta_int(V, log=None, default=True):
    from ConfigSpace.hyperparameters import BetaIntegerHyperparameter

    log = V.choice("log", [False, True]) if log is None else log
    lo, hi = bounds_int(V, log)
    a, b = beta_params(V)
    mass_of_prior(V)
    return BetaIntegerHyperparameter(name_of(V, "x"), a, b, lower=lo, upper=hi, default_value=default_of(V, lo, hi, True) if default else None, log=log)


KINDS = ["str", "int", "mix", "tuple"]


def options(V, kinds=KINDS, least=1):
    """Distinct values of one kind: strings, integers, strings mixed with numbers, tuples."""
    kind = V.choice("kind of values", kinds)
    n = V.length("number of values", least)
    return n, V.vals("options", n, kind=kind), kind


def weights_of(V, n):
    w = V.reals("weights", n, lo=0, draw=(0, 3))
    V.assume(V.exists(n, lambda i: w[i] > 0))
    return w


def categorical(V, kinds=KINDS, weighted=None, default=True, least=1):
    from ConfigSpace.hyperparameters import CategoricalHyperparameter

    n, xs, _ = options(V, kinds, least)
    args = {}
    if V.choice("weighted", [False, True]) if weighted is None else weighted:
        args["weights"] = weights_of(V, n)
    if default and V.choice("given default", [False, True]):
        args["default_value"] = xs[V.int("position of the default", 0, n - 1)]
    return CategoricalHyperparameter(name_of(V, "c"), xs, **args), xs


def ordinal(V, kinds=KINDS, default=True, least=1):
    from ConfigSpace.hyperparameters import OrdinalHyperparameter

    n, xs, _ = options(V, kinds, least)
    args = {}
    if default and V.choice("given default", [False, True]):
        args["default_value"] = xs[V.int("position of the default", 0, n - 1)]
    return OrdinalHyperparameter(name_of(V, "o"), xs, **args), xs


def discrete(V, kinds=KINDS, default=True, weighted=None, least=1):
    if V.choice("ordinal", [False, True]):
        return ordinal(V, kinds, default, least)
    return categorical(V, kinds, weighted, default, least)


def constant(V, kinds=KINDS):
    from ConfigSpace.hyperparameters import Constant

    kind = V.choice("kind of value", kinds)
    x = V.val("value", kind)
    return Constant(name_of(V, "k"), x), x, kind
