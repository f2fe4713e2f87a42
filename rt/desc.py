"""Plain-data descriptions of hyperparameters and spaces, their construction
through the real API, and an independent reference semantics.

Nothing in the reference part calls ConfigSpace: domains, relations, activity,
validity and defaults are computed from the description alone.

Hyperparameter description (dict):
  t      uf ui nf ni bf bi cat ord const
  name   str
  lower, upper, log, mu, sigma, alpha, beta          (numerical)
  choices, weights                                     (cat)
  sequence                                             (ord)
  value                                                (const)
  default  (absent: not given), meta
Condition: {"op": "==|!=|<|>|in", "c": child, "p": parent, "v": value(s)}
           {"op": "and|or", "args": [...]}
Forbidden: {"f": "==|in", "hp": name, "v": value(s)}
           {"f": "rel", "op": "<|==|>", "l": name, "r": name}
           {"f": "and", "args": [...]}
Space: {"hps": [...], "conds": [...], "forbs": [...], "name":, "meta":, "seed":}
"""
from __future__ import annotations

import math

FLOATS = ("uf", "nf", "bf")
INTS = ("ui", "ni", "bi")
NUM = FLOATS + INTS

UNSET = object()


# --------------------------------------------------------------- construction
def build_hp(d, style="class"):
    from ConfigSpace import (
        BetaFloatHyperparameter,
        BetaIntegerHyperparameter,
        CategoricalHyperparameter,
        Constant,
        NormalFloatHyperparameter,
        NormalIntegerHyperparameter,
        OrdinalHyperparameter,
        UniformFloatHyperparameter,
        UniformIntegerHyperparameter,
    )

    t = d["t"]
    kw = {"name": d["name"]}
    if d.get("meta") is not None:
        kw["meta"] = d["meta"]
    if style == "api" and t != "const":
        return _build_api(d)
    if "default" in d and t != "const":
        kw["default_value"] = d["default"]
    if t in NUM:
        kw.update(lower=d["lower"], upper=d["upper"], log=d.get("log", False))
    if t in ("nf", "ni"):
        kw.update(mu=d["mu"], sigma=d["sigma"])
    if t in ("bf", "bi"):
        kw.update(alpha=d["alpha"], beta=d["beta"])
    if t == "cat":
        kw["choices"] = list(d["choices"])
        if d.get("weights") is not None:
            kw["weights"] = list(d["weights"])
        return CategoricalHyperparameter(**kw)
    if t == "ord":
        return OrdinalHyperparameter(sequence=list(d["sequence"]), **kw)
    if t == "const":
        return Constant(value=d["value"], **kw)
    cls = {
        "uf": UniformFloatHyperparameter,
        "ui": UniformIntegerHyperparameter,
        "nf": NormalFloatHyperparameter,
        "ni": NormalIntegerHyperparameter,
        "bf": BetaFloatHyperparameter,
        "bi": BetaIntegerHyperparameter,
    }[t]
    return cls(**kw)


def _build_api(d):
    from ConfigSpace import Beta, Categorical, Float, Integer, Normal

    t = d["t"]
    kw = {}
    if d.get("meta") is not None:
        kw["meta"] = d["meta"]
    if "default" in d:
        kw["default"] = d["default"]
    if t in ("cat", "ord"):
        if d.get("weights") is not None:
            kw["weights"] = list(d["weights"])
        items = d["choices"] if t == "cat" else d["sequence"]
        return Categorical(d["name"], list(items), ordered=t == "ord", **kw)
    if t in ("nf", "ni"):
        kw["distribution"] = Normal(d["mu"], d["sigma"])
    if t in ("bf", "bi"):
        kw["distribution"] = Beta(d["alpha"], d["beta"])
    fn = Float if t in FLOATS else Integer
    return fn(d["name"], (d["lower"], d["upper"]), log=d.get("log", False), **kw)


def build_cond(c, hps):
    import ConfigSpace as CS

    op = c["op"]
    if op in ("and", "or"):
        cls = CS.AndConjunction if op == "and" else CS.OrConjunction
        return cls(*[build_cond(a, hps) for a in c["args"]])
    if op == "in":
        return CS.InCondition(hps[c["c"]], hps[c["p"]], list(c["v"]))
    cls = {
        "==": CS.EqualsCondition,
        "!=": CS.NotEqualsCondition,
        "<": CS.LessThanCondition,
        ">": CS.GreaterThanCondition,
    }[op]
    return cls(hps[c["c"]], hps[c["p"]], c["v"])


def build_forb(f, hps):
    import ConfigSpace as CS

    k = f["f"]
    if k == "and":
        return CS.ForbiddenAndConjunction(*[build_forb(a, hps) for a in f["args"]])
    if k == "==":
        return CS.ForbiddenEqualsClause(hps[f["hp"]], f["v"])
    if k == "in":
        return CS.ForbiddenInClause(hps[f["hp"]], list(f["v"]))
    cls = {
        "<": CS.ForbiddenLessThanRelation,
        "==": CS.ForbiddenEqualsRelation,
        ">": CS.ForbiddenGreaterThanRelation,
    }[f["op"]]
    return cls(hps[f["l"]], hps[f["r"]])


def build_space(sp, style="class", seed=None):
    """Build a space from a description: in one add(), or first some hyperparameters
    with their parents and all that is about these only, then the rest."""
    from ConfigSpace import ConfigurationSpace

    cs = ConfigurationSpace(
        name=sp.get("name"),
        seed=sp.get("seed", 1) if seed is None else seed,
        meta=sp.get("meta"),
    )
    hps = {d["name"]: build_hp(d, style) for d in sp["hps"]}
    conds = [(cond_child(c), build_cond(c, hps)) for c in sp["conds"]]
    forbs = [(forb_names(f), build_forb(f, hps)) for f in sp["forbs"]]
    cut = sum(ord(x) for n in hps for x in n) % (2 * len(hps) + 2)
    first = set(Ref(sp).topo[:cut]) if cut < len(hps) else set()
    if first:
        cs.add(
            [h for n, h in hps.items() if n in first],
            [c for n, c in conds if n in first],
            [f for ns, f in forbs if set(ns) <= first],
        )
    cs.add(
        [h for n, h in hps.items() if n not in first],
        [c for n, c in conds if n not in first],
        [f for ns, f in forbs if not first or not set(ns) <= first],
    )
    return cs


# -------------------------------------------------------- reference semantics
def is_num(v):
    import numpy as np

    return isinstance(v, (int, float, np.integer, np.floating))


def in_domain(d, v):
    t = d["t"]
    if t in NUM:
        if not is_num(v) or math.isnan(v):
            return False
        if t in INTS and (math.isinf(v) or v != math.floor(v)):
            return False
        return bool(d["lower"] <= v <= d["upper"])
    if t == "const":
        return _eq(v, d["value"])
    return any(_eq(v, c) for c in options(d))


def _eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def options(d):
    t = d["t"]
    if t == "cat":
        return list(d["choices"])
    if t == "ord":
        return list(d["sequence"])
    if t == "const":
        return [d["value"]]
    if t in INTS:
        return list(range(d["lower"], d["upper"] + 1))
    raise ValueError(t)


def size(d):
    t = d["t"]
    if t in FLOATS:
        return math.inf
    if t in INTS:
        return d["upper"] - d["lower"] + 1
    return len(options(d))


def position(d, v):
    for i, o in enumerate(options(d)):
        if _eq(o, v):
            return i
    raise ValueError(v)


def default_of(d, hp):
    """The default: as described, else what the built hyperparameter reports."""
    if d["t"] == "const":
        return d["value"]
    return d["default"] if "default" in d else hp.default_value


def cond_leaves(c):
    if c["op"] in ("and", "or"):
        return [x for a in c["args"] for x in cond_leaves(a)]
    return [c]


def cond_child(c):
    return cond_leaves(c)[0]["c"]


def holds(c, assign, D):
    """Truth of a condition on a (partial) assignment name -> value."""
    op = c["op"]
    if op == "and":
        return all(holds(a, assign, D) for a in c["args"])
    if op == "or":
        return any(holds(a, assign, D) for a in c["args"])
    if c["p"] not in assign:
        return False
    v = assign[c["p"]]
    d = D[c["p"]]
    if op == "in":
        return any(_eq(v, x) for x in c["v"])
    if op == "==":
        return _eq(v, c["v"])
    if op == "!=":
        return not _eq(v, c["v"])
    if d["t"] == "ord":
        a, b = position(d, v), position(d, c["v"])
    else:
        a, b = v, c["v"]
    return a < b if op == "<" else a > b


def forb_names(f):
    if f["f"] == "and":
        return [x for a in f["args"] for x in forb_names(a)]
    if f["f"] == "rel":
        return [f["l"], f["r"]]
    return [f["hp"]]


def forbidden(f, assign, D):
    k = f["f"]
    if k == "and":
        return all(forbidden(a, assign, D) for a in f["args"])
    if any(n not in assign for n in forb_names(f)):
        return False
    if k == "==":
        return _eq(assign[f["hp"]], f["v"])
    if k == "in":
        return any(_eq(assign[f["hp"]], x) for x in f["v"])
    a, b = assign[f["l"]], assign[f["r"]]
    return {"<": lambda: a < b, ">": lambda: a > b, "==": lambda: _eq(a, b)}[f["op"]]()


class Ref:
    """Reference semantics of one space description."""

    def __init__(self, sp):
        self.sp = sp
        self.D = {d["name"]: d for d in sp["hps"]}
        self.cond = {}
        for c in sp["conds"]:
            self.cond[cond_child(c)] = c
        self.topo = self._topo()

    def parents(self, n):
        if n not in self.cond:
            return []
        out = []
        for leaf in cond_leaves(self.cond[n]):
            if leaf["p"] not in out:
                out.append(leaf["p"])
        return out

    def _topo(self):
        out, seen = [], set()

        def visit(n):
            if n in seen:
                return
            seen.add(n)
            for p in self.parents(n):
                visit(p)
            out.append(n)

        for n in sorted(self.D):
            visit(n)
        return out

    def depth(self, n):
        ps = self.parents(n)
        return 1 if not ps else 1 + max(self.depth(p) for p in ps)

    def active(self, assign):
        """Hyperparameters without condition or whose condition holds as given."""
        return {
            n
            for n in self.D
            if n not in self.cond or holds(self.cond[n], assign, self.D)
        }

    def is_forbidden(self, assign):
        return any(forbidden(f, assign, self.D) for f in self.sp["forbs"])

    def problem(self, assign, allow_inactive=False):
        """None if valid, else a word for what is wrong."""
        for n, v in assign.items():
            if n not in self.D:
                return "unknown"
            if not in_domain(self.D[n], v):
                return "illegal"
        act = self.active(assign)
        if any(n not in assign for n in act):
            return "not set"
        if not allow_inactive and any(n not in act for n in assign):
            return "inactive set"
        if self.is_forbidden(assign):
            return "forbidden"
        return None

    def restrict(self, full):
        """Keep the values of exactly the active hyperparameters."""
        out = {}
        for n in self.topo:
            if n not in self.cond or holds(self.cond[n], out, self.D):
                if n in full:
                    out[n] = full[n]
        return out

    def default(self, hps):
        return self.restrict({n: default_of(d, hps[n]) for n, d in self.D.items()})

    def set_value(self, assign, name, value, hps):
        """Assignment after name := value, with (de)activation and defaults."""
        out = {}
        for n in self.topo:
            if n in self.cond and not holds(self.cond[n], out, self.D):
                continue
            if n == name:
                out[n] = value
            elif n in assign:
                out[n] = assign[n]
            else:
                out[n] = default_of(self.D[n], hps[n])
        return out


# ------------------------------------------------------------------ comparing
def close(a, b):
    return abs(a - b) <= 1e-12 + 1e-9 * max(abs(a), abs(b))


def same_value(d, a, b):
    if d["t"] in FLOATS:
        return is_num(a) and is_num(b) and close(float(a), float(b))
    return _eq(a, b)


def same_assign(D, a, b):
    return set(a) == set(b) and all(same_value(D[n], a[n], b[n]) for n in a)
