"""Random descriptions (see desc.py). All randomness from one random.Random."""
from __future__ import annotations

import math

import desc as S

STR = ["a", "b", "c", "dd", "e e", "F", "g", "0", "1", "True"]
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "z1", "z10", "z2", "A", "B:x"]


def _round(x, k=6):
    return float(f"{x:.{k}g}")


def gen_choices(r, n=None, kind=None, json_only=False):
    n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    kinds = ["str", "str", "int", "float", "mixed", "bool", "none"]
    if not json_only:
        kinds += ["tuple", "list", "tuples"]
    kind = kind or r.choice(kinds)
    if kind == "str":
        return r.sample(STR, n)
    if kind == "int":
        return r.sample(range(-5, 12), n)
    if kind == "float":
        return r.sample([0.5, 1.25, -2.0, 3.75, 1e-3, 10.0, 7.5], min(n, 7))
    if kind == "bool":
        return r.sample([True, False], min(n, 2))
    if kind == "mixed":
        return r.sample(["x", 3, 2.5, "1", 1, None, "None"], min(n, 7))
    if kind == "none":
        return r.sample([None, "a", "b", "c", "d", "e", "f"], min(n, 7))
    if kind == "tuple":
        return r.sample([(1, 2), (3, 4), (5, 6), (1, 1), (2, 1), (0, 0), (9, 9)], min(n, 7))
    if kind == "tuples":
        return r.sample([(1, 2), (3,), (5, 6, 7), "x", (), (2, 1), 4], min(n, 7))
    if kind == "list":
        return r.sample([[1, 2], [3], [5, 6, 7], ["x"], [2, 1], [0], [[1], 2]], min(n, 7))
    raise ValueError(kind)


def gen_float_bounds(r, log):
    if log:
        lo = r.choice([1e-6, 1e-4, 0.01, 0.5, 1.0, 2.0, 10.0, _round(r.uniform(0.001, 3))])
        up = _round(lo * r.choice([1.5, 2, 10, 100, 1e3, 1e5]))
    else:
        lo = r.choice([0.0, -1.0, 0.0, 1.0, -10.0, 0.25, _round(r.uniform(-100, 100))])
        up = _round(lo + r.choice([1.0, 0.5, 2.0, 10.0, 1000.0, 0.01, _round(r.uniform(0.1, 50))]))
    return lo, up


def gen_int_bounds(r, log, small=False):
    if log:
        lo = r.choice([1, 1, 2, 3, 5, 10, r.randint(1, 50)])
    else:
        lo = r.choice([0, 0, 1, -1, -5, 3, 10, r.randint(-100, 100)])
    w = r.choice([1, 2, 3, 4, 6] if small else [1, 2, 3, 4, 7, 9, 12, 30, 99, 1000])
    return lo, lo + w


def gen_hp(r, name, types=None, small=False, json_only=False, meta=False):
    t = r.choice(types or ["uf", "ui", "nf", "ni", "bf", "bi", "cat", "cat", "ord", "const"])
    d = {"t": t, "name": name}
    if meta and r.random() < 0.5:
        d["meta"] = r.choice([{"k": 1}, {"note": "x", "l": [1, 2]}, {}])
    if t in S.NUM:
        d["log"] = log = r.random() < 0.4
        if t in S.FLOATS:
            d["lower"], d["upper"] = gen_float_bounds(r, log)
        else:
            d["lower"], d["upper"] = gen_int_bounds(r, log, small)
        lo, up = d["lower"], d["upper"]
        if t in ("nf", "ni"):
            if log:
                d["mu"] = _round(lo * (up / lo) ** r.random())
            else:
                d["mu"] = _round(r.choice([lo, up, (lo + up) / 2, r.uniform(lo, up)]))
            d["sigma"] = _round((up - lo) * r.choice([0.1, 0.3, 0.8, 3.0]))
        if t in ("bf", "bi"):
            d["alpha"] = r.choice([1, 1.5, 2, 3, 5])
            d["beta"] = r.choice([1, 1.5, 2, 3, 7])
        if r.random() < 0.6:
            d["default"] = gen_value(r, d)
    elif t == "cat":
        d["choices"] = gen_choices(r, json_only=json_only)
        if r.random() < 0.4:
            w = [r.choice([0, 0.5, 1, 2, 3.25]) for _ in d["choices"]]
            if not any(w):
                w[-1] = 1
            d["weights"] = w
        if r.random() < 0.5:
            d["default"] = r.choice(d["choices"])
    elif t == "ord":
        d["sequence"] = gen_choices(r, json_only=json_only)
        if r.random() < 0.5:
            d["default"] = r.choice(d["sequence"])
    else:
        d["value"] = r.choice(
            ["c", 1, 2.5, 0, "", True, None] if json_only else ["c", 1, 2.5, 0, "", (1, 2), [3, 4], True, None],
        )
    return d


def gen_value(r, d):
    """A legal value, biased to the edges."""
    t = d["t"]
    if t in S.FLOATS:
        lo, up = d["lower"], d["upper"]
        k = r.random()
        if k < 0.15:
            return lo
        if k < 0.3:
            return up
        if d.get("log"):
            v = math.exp(r.uniform(math.log(lo), math.log(up)))
        else:
            v = r.uniform(lo, up)
        v = round(v, 9)
        return min(max(v, lo), up)
    if t in S.INTS:
        k = r.random()
        if k < 0.15:
            return d["lower"]
        if k < 0.3:
            return d["upper"]
        return r.randint(d["lower"], d["upper"])
    return r.choice(S.options(d))


def gen_illegal(r, d):
    """A value outside the domain (never close to the tolerance), or UNSET."""
    t = d["t"]
    if t in S.NUM:
        lo, up = d["lower"], d["upper"]
        w = up - lo
        c = [lo - 1, up + 1, lo - w, up + 10 * w, lo - 0.25 * w, up + 0.25 * w, "x", None, "1", math.inf, -math.inf]
        if t in S.INTS:
            c = [lo - 1, up + 1, lo - 10, up + 100, "x", None, math.inf]
            k = r.randint(lo, up - 1)
            if abs(k) < 10000:
                c += [k + 0.5, k + 0.25, lo - 0.5, up + 0.5]
        return r.choice(c)
    c = ["zz", -77, 0.123, None, "A", 4.5, "no"]
    if t == "const":
        c = [x for x in c if not S._eq(x, d["value"])]
    else:
        c = [x for x in c if not S.in_domain(d, x)]
    return r.choice(c)


def hashable_opts(d):
    return d["t"] in ("cat", "ord", "const")


def gen_leaf_cond(r, D, child, parent):
    d = D[parent]
    ops = ["==", "!=", "in"]
    if d["t"] in S.NUM or d["t"] == "ord":
        ops += ["<", ">", "<", ">"]
    if d["t"] in S.FLOATS:
        ops = ["<", ">", "<", ">", "==", "!="]
    op = r.choice(ops)
    if op == "in":
        k = r.randint(1, 3)
        vs = []
        for _ in range(k):
            v = gen_value(r, d)
            if not any(S._eq(v, x) for x in vs):
                vs.append(v)
        return {"op": "in", "c": child, "p": parent, "v": vs}
    return {"op": op, "c": child, "p": parent, "v": gen_value(r, d)}


def gen_cond(r, D, child, parents, depth=0):
    k = r.random()
    if depth >= 2 or k < (0.55 if depth == 0 else 0.7):
        return gen_leaf_cond(r, D, child, r.choice(parents))
    n = r.choice([2, 2, 3])
    args = [gen_cond(r, D, child, parents, depth + 1) for _ in range(n)]
    return {"op": r.choice(["and", "or"]), "args": args}


def comparable(a, b):
    def kind(d):
        if d["t"] in S.NUM:
            return {"n"}
        ks = set()
        for o in S.options(d):
            if isinstance(o, bool):
                ks.add("b")
            elif isinstance(o, (int, float)):
                ks.add("n")
            else:
                ks.add(type(o).__name__)
        return ks

    ka, kb = kind(a), kind(b)
    return len(ka) == 1 and ka == kb and ka <= {"n", "str"}


def gen_forb_leaf(r, D, names):
    n = r.choice(names)
    d = D[n]
    if r.random() < 0.25:
        pairs = [
            (x, y)
            for x in names
            for y in names
            if x != y and comparable(D[x], D[y])
        ]
        if pairs:
            x, y = r.choice(pairs)
            op = r.choice(["<", ">", "=="])
            if op == "==" and (D[x]["t"] in S.FLOATS or D[y]["t"] in S.FLOATS):
                op = r.choice(["<", ">"])
            return {"f": "rel", "op": op, "l": x, "r": y}
    if d["t"] in S.FLOATS or r.random() < 0.6:
        return {"f": "==", "hp": n, "v": gen_value(r, d)}
    vs = []
    for _ in range(r.randint(1, 3)):
        v = gen_value(r, d)
        if not any(S._eq(v, x) for x in vs):
            vs.append(v)
    return {"f": "in", "hp": n, "v": vs}


def gen_forb(r, D, names):
    if r.random() < 0.45:
        return gen_forb_leaf(r, D, names)
    args = [gen_forb_leaf(r, D, names) for _ in range(r.choice([1, 2, 2, 2, 3]))]
    if r.random() < 0.15:
        args.append({"f": "and", "args": [gen_forb_leaf(r, D, names) for _ in range(2)]})
    return {"f": "and", "args": args}


def gen_space(r, nmax=6, types=None, small=False, json_only=False, meta=False,
              conds=True, forbs=True, nmin=1, simple_values=True, dense=False):
    """A space description whose default is not forbidden and where random
    sampling has a fair chance of success."""
    n = r.randint(nmin, nmax)
    names = r.sample(NAMES, n)
    hps = []
    for nm in names:
        d = gen_hp(r, nm, types=types, small=small, json_only=json_only, meta=meta)
        if simple_values and d["t"] in ("cat", "ord"):
            k = "choices" if d["t"] == "cat" else "sequence"
            if any(isinstance(x, (list, tuple)) for x in d[k]):
                d[k] = gen_choices(r, kind=r.choice(["str", "int", "none"]))
                d.pop("weights", None)
                d.pop("default", None)
        if simple_values and d["t"] == "const" and isinstance(d["value"], (list, tuple)):
            d["value"] = "c"
        if d["t"] == "cat" and d.get("weights") and conds and "default" not in d:
            pass
        hps.append(d)
    sp = {"hps": hps, "conds": [], "forbs": [], "name": r.choice([None, "sp"]), "seed": r.randint(0, 10**6)}
    if meta and r.random() < 0.5:
        sp["meta"] = {"m": 1}
    D = {d["name"]: d for d in hps}
    if conds and n > 1:
        order = names[:]
        r.shuffle(order)
        last = None
        for i in range(1, n):
            if r.random() < (0.8 if dense else 0.5):
                ps = order[:i]
                if r.random() < 0.6:
                    ps = ps[-3:]
                c = gen_cond(r, D, order[i], ps)
                if last is not None and r.random() < 0.3:
                    # the same condition for several children
                    c2 = _rename_child(_vary(r, last, D) if r.random() < 0.5 else last, order[i])
                    if all(x["p"] != order[i] and order.index(x["p"]) < i for x in S.cond_leaves(c2)):
                        c = c2
                sp["conds"].append(c)
                last = c
    settle_defaults(sp)
    if forbs:
        try:
            hpobj = {d["name"]: build_default(d) for d in hps}
        except Exception:
            return sp
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            f = gen_forb(r, D, names)
            if r.random() < 0.3 and len(names) > 1:
                # clauses which differ only in the last value are merged
                base = [gen_forb_leaf(r, D, names) for _ in range(1)]
                base = [b for b in base if b["f"] == "=="]
                other = r.choice(names)
                if base and D[other]["t"] not in S.FLOATS and other != base[0]["hp"]:
                    fs = [
                        {"f": "and", "args": [base[0], {"f": "==", "hp": other, "v": v}]}
                        for v in r.sample(S.options(D[other]), min(3, len(S.options(D[other]))))
                    ]
                    for g in fs:
                        _try_add(sp, g, hpobj, r)
                    continue
            _try_add(sp, f, hpobj, r)
    return sp


def _vary(r, c, D):
    """A condition that looks much like the given one."""
    if c["op"] not in ("and", "or"):
        return gen_leaf_cond(r, D, c["c"], c["p"])
    args = list(c["args"])
    k = r.random()
    if k < 0.2:
        return {"op": "or" if c["op"] == "and" else "and", "args": args}
    if k < 0.4:
        r.shuffle(args)
    elif k < 0.7:
        # as many components, one of them twice
        args[r.randrange(len(args))] = r.choice(args)
    else:
        j = r.randrange(len(args))
        args[j] = _vary(r, args[j], D)
    return {"op": c["op"], "args": args}


def _rename_child(c, child):
    if c["op"] in ("and", "or"):
        return {"op": c["op"], "args": [_rename_child(a, child) for a in c["args"]]}
    return {**c, "c": child}


class _Dflt:
    def __init__(self, v):
        self.default_value = v


def build_default(d):
    """Default from the description; only needed where none is given, then
    taken from the real constructor."""
    if d["t"] == "const":
        return _Dflt(d["value"])
    if "default" in d:
        return _Dflt(d["default"])
    return _Dflt(S.build_hp(d).default_value)


def near(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1e-3, abs(a), abs(b))
    return S._eq(a, b)


def perhaps(f, a):
    """The clause holds or is within rounding of holding."""
    if f["f"] == "and":
        return all(perhaps(x, a) for x in f["args"])
    if any(n not in a for n in S.forb_names(f)):
        return False
    if f["f"] == "==":
        return near(a[f["hp"]], f["v"])
    if f["f"] == "in":
        return any(near(a[f["hp"]], x) for x in f["v"])
    x, y = a[f["l"]], a[f["r"]]
    return near(x, y) or S.forbidden(f, a, None)


def settle_defaults(sp):
    """Computed float defaults that differ from a threshold only by rounding."""
    D = {d["name"]: d for d in sp["hps"]}
    for c in sp["conds"]:
        for leaf in S.cond_leaves(c):
            d = D[leaf["p"]]
            if d["t"] in S.FLOATS and "default" not in d:
                x = build_default(d).default_value
                for m in leaf["v"] if leaf["op"] == "in" else [leaf["v"]]:
                    if near(x, m) and x != m:
                        d["default"] = m


def _try_add(sp, f, hpobj, r):
    sp["forbs"].append(f)
    ref = S.Ref(sp)
    ok = True
    dflt = ref.default(hpobj)
    if ref.is_forbidden(dflt) or perhaps(f, dflt):
        ok = False
    else:
        good = 0
        for _ in range(30):
            full = {n: gen_value_sampled(r, d) for n, d in ref.D.items()}
            good += not ref.is_forbidden(ref.restrict(full))
        ok = good >= 4
    if not ok:
        sp["forbs"].pop()


def gen_value_sampled(r, d):
    t = d["t"]
    if t == "uf" and not d.get("log"):
        return r.uniform(d["lower"], d["upper"])
    if t in S.FLOATS:
        return math.exp(r.uniform(math.log(d["lower"]), math.log(d["upper"]))) if d.get("log") else r.uniform(d["lower"], d["upper"])
    if t in S.INTS:
        return r.randint(d["lower"], d["upper"])
    if t == "cat" and d.get("weights"):
        return r.choices(d["choices"], d["weights"])[0]
    return r.choice(S.options(d))


def gen_full(r, ref):
    return {n: gen_value(r, d) for n, d in ref.D.items()}


def gen_valid(r, ref, tries=60):
    """A valid assignment, or None."""
    for _ in range(tries):
        a = ref.restrict(gen_full(r, ref))
        if not ref.is_forbidden(a):
            return a
    return None
