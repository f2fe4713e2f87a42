"""Helpers shared by the run-time contract checks."""
from __future__ import annotations

import math
import warnings

import numpy as np

warnings.simplefilter("ignore")

from ConfigSpace import Configuration  # noqa: E402
from ConfigSpace.types import NotSet  # noqa: E402

import desc as S  # noqa: E402


class Violation(Exception):
    pass


KNOWN_HITS = set()


def require(ok, msg, *, known=None, **ctx):
    """`known` is the key of a listed finding: the runner reports hits apart."""
    if not ok and known is not None:
        KNOWN_HITS.add(known)
        return
    if not ok:
        raise Violation(msg + (" | " + ", ".join(f"{k}={v!r}" for k, v in ctx.items()) if ctx else ""))


def objarr(values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def arr_of(d, values):
    """Values of a hyperparameter as an array of the kind it works with."""
    if d["t"] in S.NUM:
        return np.asarray(values)
    return objarr(values)


def has_seq(d):
    return d["t"] in ("cat", "ord", "const") and any(
        isinstance(o, (list, tuple)) for o in S.options(d)
    )


def unlisted(d):
    """None of the values is a list (numpy compares lists elementwise)."""
    kinds = (list, tuple) if d["t"] == "const" else list
    return d["t"] in S.NUM or not any(isinstance(o, kinds) for o in S.options(d))


def isbool(x):
    return isinstance(x, (bool, np.bool_))


def call(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa: BLE001
        return ("raise", e)


def vec_of(space, assign):
    """Vector of a (possibly partial) assignment, NaN for unset."""
    v = np.full(len(space), np.nan)
    for n, x in assign.items():
        v[space.index_of[n]] = space[n].to_vector(x)
    return v


def same_arr(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def plain(x):
    """JSON-independent equality key of nested plain data."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def cfg_values(c):
    return {k: c[k] for k in c}


def assert_valid(ref, assign, what):
    p = ref.problem(assign)
    require(p is None, f"{what}: not a valid configuration ({p})", assign=assign)


def isfinite(x):
    return math.isfinite(x)
