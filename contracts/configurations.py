"""Configurations of arbitrary spaces as mappings (C07, C16, C17)."""
from __future__ import annotations

from contracts import theorem

MOD = "ConfigSpace/configuration.py:Configuration."


class Given:
    """Any assignment of values: to some hyperparameters of the space, and perhaps to other names."""

    def __init__(self, w):
        import z3
        from engine import Val

        self.w = w
        self._given, self._value = z3.Function("given", z3.IntSort(), z3.BoolSort()), z3.Function("value given", z3.IntSort(), Val)
        self.unknown = w.V.boolean("other names are given")

    def given(self, i):
        return self.w._b(self._given, self.w.term(i))

    def value(self, i):
        return self.w.value(self._value(self.w.term(i)))

    def vector(self):
        """The vector that these values stand for."""
        w, V = self.w, self.w.V
        return V.build(w.n, lambda i: V.ite(self.given(i), w.enc(i, w.rounded(i, self.value(i))), V.np.nan))

    # what the code may ask for
    def keys(self):
        return Keys(self)

    def get(self, key, default=None):
        i = self.w.position(key)
        return self.value(i) if self.w.V.bool(self.given(i)) else default

    def __contains__(self, key):
        return self.w.V.bool(self.given(self.w.position(key)))

    def __getitem__(self, key):
        i = self.w.position(key)
        if not self.w.V.bool(self.given(i)):
            raise KeyError(key)
        return self.value(i)

    def __getattr__(self, n):
        from engine import Unsupported

        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of arbitrary values")

    def __iter__(self):
        from engine import Unsupported

        raise Unsupported("iteration over arbitrary values")


class Keys:
    def __init__(self, g):
        self.g = g

    def __sub__(self, o):
        from engine import Unsupported

        if getattr(o, "_mapping", None) is not self.g.space:
            raise Unsupported("difference of keys")
        return ["unknown"] if self.g.w.V.bool(self.g.unknown) else []


@theorem("C07", functions=[MOD + "__init__", MOD + "check_valid_configuration"], concrete=False)
def configuration_from_values(V):
    """Any space, any assignment of values."""
    from ConfigSpace import Configuration
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    w.check_by_contract()
    g = Given(w)
    g.space = space
    vec = g.vector()
    w.version(vec)
    allow = V.choice("inactive values allowed", [False, True])
    right = V.and_(V.not_(g.unknown), V.forall(w.n, lambda i: V.implies(g.given(i), w.legal(i, g.value(i)))), w.valid(vec, allow))
    error, config = V.call(lambda: Configuration(space, values=g, allow_inactive_with_values=allow))
    if error is None:
        V.check(right, "accepted values are known, legal and valid")
        V.check_forall(w.n, lambda i: V.same(config._vector[i], vec[i]), "the vector holds the encoded values, unset ones are missing")
    else:
        V.check(isinstance(error, ValueError), "an error is a ValueError")
        V.check(V.not_(right), "values that are rejected are unknown, illegal or not valid")


def shows(w, vec, i, v):
    """v is the value that the entry of the vector stands for (as decoded or, where the
    configuration was made of values, the value that was encoded)."""
    V = w.V
    decoded = w.rounded(i, w.dec(i, vec[i]))
    kept = V.and_(w.legal(i, v), V.eq(w.rounded(i, v), v), V.eq(w.enc(i, v), vec[i]))
    return V.and_(V.not_(V.isnan(vec[i])), V.or_(V.eq(v, decoded), kept))


def any_configuration(w, space, cache=True):
    """A configuration of the space with any vector that passed or did not pass validation,
    after any reads: its cache holds some of the values the vector stands for."""
    import z3
    from ConfigSpace import Configuration
    from engine import Val
    from seq import SDict, TDict

    V = w.V
    vec = V.array("vector", w.n, nan=True)
    config = Configuration(space, vector=vec, allow_inactive_with_values=V.boolean("inactive hyperparameters with values allowed"))
    state = V.choice("values read so far", ["none", "some"]) if cache else "none"
    if state == "some":
        cached, value = z3.Function("cached", z3.IntSort(), z3.BoolSort()), z3.Function("cached value", z3.IntSort(), Val)
        has, at = lambda i: w._b(cached, w.term(i)), lambda i: w.value(value(w.term(i)))
        V.assume(V.forall(w.n, lambda i: V.implies(has(i), shows(w, vec, i, at(i)))))
        d = TDict()
        d.sym = SDict(w.n, w.name, at, w.names_inverse, has)
        config._values = d
    return config, vec


def cache_is_right(w, config, vec):
    V = w.V
    d = config._values
    if d is None:
        return True
    t = d.sym
    if t is None:
        return len(d) == 0
    return V.forall(w.n, lambda i: shows(w, vec, i, d[w.name(i)]) if w.name(i) in d else True)


@theorem("C16", functions=[MOD + "__init__", MOD + "__getitem__", MOD + "__contains__"], concrete=False)
def configuration_lookup(V):
    """Lookup and membership agree with the vector, whatever was read before."""
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    config, vec = any_configuration(w, space)
    before = vec.copy()
    t = V.int("position", 0)
    V.assume(t < w.n)
    key = w.name(t)
    was_set = V.not_(V.isnan(before[t]))
    if V.choice("operation", ["in", "lookup"]) == "in":
        V.check(V.iff(key in config, was_set), "a name is contained exactly if it is set")
    else:
        error, v = V.call(lambda: config[key])
        if error is not None:
            V.check(isinstance(error, KeyError), "lookup of a missing name raises KeyError")
            V.check(V.not_(was_set), "only a missing name raises")
        else:
            V.check(was_set, "a missing name raises")
            V.check(shows(w, before, t, v), "the value is the one that the vector stands for")
            V.check(V.eq(config[key], v), "looking up again gives the same value")
    V.check_forall(w.n, lambda i: V.same(config._vector[i], before[i]), "reading does not change the vector")
    V.check(cache_is_right(w, config, before), "later reads agree with the vector as well")


def lookup_by_contract(w):
    """Configuration.__getitem__ by its contract (configuration_lookup)."""
    import z3
    from ConfigSpace import Configuration
    from engine import Val

    V = w.V
    shown = z3.Function("shown", z3.IntSort(), z3.IntSort(), Val)

    def value(config, i):
        """The value that a configuration shows for a hyperparameter that is set."""
        ids = w.__dict__.setdefault("config_ids", {})
        number = ids.setdefault(id(config), (len(ids), config))[0]
        return w.value(shown(number, w.term(i)))

    def getitem(self, key):
        if not w.known(key):
            raise KeyError(key)
        i = w.position(key)
        if V.bool(V.isnan(self._vector[i])):
            raise KeyError(key)
        v = value(self, i)
        V.know(shows(w, self._vector, i, v))
        return v

    V.contract(Configuration, "__getitem__", getitem, "gives the value that the vector stands for, the same for every lookup, and raises KeyError if the name is unknown or not set (configuration_lookup)")
    return value


@theorem("C16", functions=[MOD + "__iter__", MOD + "__contains__", "collections.abc.Mapping:get"], concrete=False)
def configuration_as_mapping(V):
    """Iteration, membership, get and dict() agree with lookup."""
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    config, vec = any_configuration(w, space, cache=False)
    value = lookup_by_contract(w)
    is_set = lambda i: V.not_(V.isnan(vec[i]))  # noqa: E731
    names = V.list(iter(config))
    V.check_forall(V.len(names), lambda j: is_set(w.position(V.at(names, j))), "iteration gives names that are set")
    V.check_forall(V.len(names), lambda j: V.lt(w.position(V.at(names, j - 1)), w.position(V.at(names, j))) if V.bool(j > 0) else True, "iteration gives them once, in the order of the space")
    t = V.int("position", 0)
    V.assume(t < w.n)
    key = w.name(t)
    d = w.dict(config)
    V.check(V.iff(key in d, is_set(t)), "the dictionary has exactly the names that are set")
    V.check(V.iff(key in config, is_set(t)), "contains exactly the names that are set")
    missing = object()
    got = config.get(key, missing)
    V.check(V.iff(got is not missing, is_set(t)), "get gives the default exactly for names that are not set")
    if got is not missing:
        V.check(V.eq(got, value(config, t)), "get gives the value")
    if V.bool(is_set(t)):
        V.check(V.eq(d[key], value(config, t)), "the dictionary has the value")


@theorem("C16", functions=[MOD + "__eq__", MOD + "__hash__", "ConfigSpace/configuration_space.py:ConfigurationSpace.__eq__"], concrete=False)
def configuration_equality(V):
    """Equal exactly if the values are, and then equal hashes."""
    from ConfigSpace import Configuration
    from contracts.abstract import World

    w = World(V)
    space = w.space()
    a, va = any_configuration(w, space, cache=False)
    vb = V.array("other vector", w.n, nan=True)
    b = Configuration(space, vector=vb)
    value = lookup_by_contract(w)

    def same(i):
        x, y = V.isnan(va[i]), V.isnan(vb[i])
        return V.and_(V.iff(x, y), V.or_(x, V.eq(value(a, i), value(b, i))))

    alike = V.forall(w.n, same)
    if a == b:
        V.check(alike, "equal configurations have the same values")
        V.check(V.eq(w.hash(a), w.hash(b)), "equal configurations have equal hashes")
    else:
        V.check(V.not_(alike), "configurations with the same values are equal")


@theorem("C16", functions=[MOD + "__eq__"], concrete=False)
def configurations_of_other_spaces(V):
    """Configurations of spaces that are not equal are not equal."""
    from ConfigSpace import Configuration
    from contracts.abstract import World

    w = World(V)
    a, _ = any_configuration(w, w.space(), cache=False)
    lookup_by_contract(w)
    b = Configuration(w.space(), vector=V.array("other vector", w.n, nan=True))
    V.contract(type(a.config_space), "__eq__", lambda self, other: self is other, "the spaces are not equal")
    V.check(V.not_(a == b), "configurations of different spaces are not equal")


@theorem("C17", functions=["ConfigSpace/util.py:impute_inactive_values", MOD + "__init__"], concrete=False)
def imputed_values(V):
    """Set values are kept, the others become the default or the given number."""
    from ConfigSpace.util import impute_inactive_values
    from contracts.abstract import AnyFloat, World

    w = World(V)
    space = w.space()
    config, vec = any_configuration(w, space, cache=False)
    value = lookup_by_contract(w)
    w.check_by_contract()
    V.assume(w.valid(vec))
    before = vec.copy()
    unset = lambda i: V.isnan(before[i])  # noqa: E731
    how = V.choice("strategy", ["default", "number", "unknown"])
    if how == "number":
        strategy = AnyFloat(w, "strategy")
        V.assume(V.not_(V.eq(strategy, "default")))
    else:
        strategy = "default" if how == "default" else "other"
    filler = lambda i: w.default(i) if how == "default" else strategy  # noqa: E731
    spec = None
    if how != "unknown":
        spec = V.build(w.n, lambda i: V.ite(unset(i), w.enc(i, w.rounded(i, filler(i))), w.enc(i, value(config, i))))
        w.version(spec)
    error, new = V.call(lambda: impute_inactive_values(config, strategy))
    V.check_forall(w.n, lambda i: V.same(config._vector[i], before[i]), "the configuration is left unchanged")
    if error is not None:
        V.check(isinstance(error, ValueError), "an error is a ValueError")
        if how == "default":
            V.check(w.some_forbidden(spec), "imputing defaults fails only if a forbidden clause holds then")
        elif how == "number":
            V.check(V.or_(w.some_forbidden(spec), V.not_(V.forall(w.n, lambda i: V.implies(unset(i), w.legal(i, strategy))))), "imputing a number fails only if it is illegal or a forbidden clause holds then")
        return
    if how == "unknown":
        V.check(V.forall(w.n, lambda i: V.not_(unset(i))), "an unknown strategy is rejected")
        return
    out = new._vector
    V.check_forall(w.n, lambda i: V.implies(V.not_(unset(i)), shows(w, out, i, value(config, i))), "set values are kept")
    V.check_forall(w.n, lambda i: V.implies(unset(i), shows(w, out, i, w.rounded(i, filler(i)))), "the others have the default or the number")
    V.check(V.not_(w.some_forbidden(spec)), "the result violates no forbidden clause")
