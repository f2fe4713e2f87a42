"""Run-time contracts of single hyperparameters: C01-C04, C18, and C19."""
from __future__ import annotations

import math

import numpy as np

import desc as S
import gen as G
from core import (
    Violation, arr_of, call, has_seq, isbool, objarr, require, unlisted,
)

STYLES = ["class", "class", "api"]


def _hp_case(r, i, types=None):
    order = ["uf", "ui", "nf", "ni", "bf", "bi", "cat", "ord", "const", "cat"]
    t = (types or order)[i % len(types or order)]
    d = G.gen_hp(r, "p", types=[t])
    return {"hp": d, "style": r.choice(STYLES) if t != "const" else "class"}


def _scalar(x):
    require(np.ndim(x) == 0 if not isinstance(x, (list, tuple)) else True, "a single result expected", got=x)
    return x


def tol(d):
    if d.get("log"):
        return 1e-9 * d["upper"]
    return 1e-12 * (d["upper"] - d["lower"]) + 1e-9 * max(abs(d["lower"]), abs(d["upper"])) * 1e-3


def same(d, a, b):
    if d["t"] in S.FLOATS:
        return abs(float(a) - float(b)) <= 1e-12 * max(abs(d["lower"]), abs(d["upper"]), d["upper"] - d["lower"]) + (
            1e-9 * abs(float(b)) if d.get("log") else 0
        )
    return S._eq(a, b)


def to_vec(hp, d, v):
    return float(hp.to_vector(v))


# ------------------------------------------------------------------ C01
def gen_C01(r, i):
    c = _hp_case(r, i)
    d = c["hp"]
    if d["t"] in S.INTS and d["upper"] - d["lower"] <= 40:
        vals = S.options(d)
    elif d["t"] in S.NUM:
        vals = [d["lower"], d["upper"]] + [G.gen_value(r, d) for _ in range(8)]
    else:
        vals = S.options(d)
    c["values"] = vals
    c["vectors"] = [0.0, 1.0] + [r.random() for _ in range(6)]
    return c


def run_C01(c):
    d = c["hp"]
    hp = S.build_hp(d, c["style"])
    lo, up = float(hp.lower_vectorized), float(hp.upper_vectorized)
    vecs = []
    for v in c["values"]:
        x = hp.to_vector(v)
        require(np.ndim(x) == 0, "to_vector of one value is not one number", value=v, got=x)
        x = float(x)
        require(bool(hp.legal_vector(x)), "encoding of a legal value is not a legal vector", value=v, vector=x)
        require(lo <= x <= up, "encoding outside the declared vector bounds", value=v, vector=x, bounds=(lo, up))
        back = hp.to_value(x)
        require(same(d, back, v), "decoding the encoding gives another value", value=v, vector=x, back=back)
        require(bool(np.all(hp.legal_value(back))), "decoded value is not legal", value=v, back=back)
        vecs.append(x)
    if d["t"] != "const":
        # distinct values have distinct vectors
        for a in range(len(vecs)):
            for b in range(a):
                if not same(d, c["values"][a], c["values"][b]):
                    require(vecs[a] != vecs[b], "two values with one vector", values=(c["values"][a], c["values"][b]))
    # arrays: same results in the same order, also for a shuffled and repeated order
    idx = list(range(len(vecs)))
    order = idx[::-1] + idx[:2] + idx
    if unlisted(d):
        arr = hp.to_vector(arr_of(d, [c["values"][k] for k in order]))
        require(arr.shape == (len(order),), "to_vector of an array has another length", got=arr)
        for j, k in enumerate(order):
            require(float(arr[j]) == vecs[k], "array and single to_vector differ", value=c["values"][k], single=vecs[k], array=float(arr[j]), pos=j)
    if not has_seq(d) and d["t"] != "const":
        arr = hp.to_vector([c["values"][k] for k in order])
        for j, k in enumerate(order):
            require(float(arr[j]) == vecs[k], "list and single to_vector differ", value=c["values"][k])
    legal = [x for x in c["vectors"] if hp.legal_vector(x)] + vecs
    for x in legal:
        v = hp.to_value(x)
        require(S.in_domain(d, v), "a legal vector decodes to an illegal value", vector=x, value=v)
    if legal:
        arr = hp.to_value(np.array(legal, dtype=float))
        require(len(arr) == len(legal), "to_value of an array has another length")
        for x, v in zip(legal, arr):
            require(S._eq(v, hp.to_value(x)) or same(d, v, hp.to_value(x)), "array and single to_value differ", vector=x, single=hp.to_value(x), array=v)
            require(S.in_domain(d, v), "a legal vector decodes to an illegal value (array)", vector=x, value=v)
    return len(vecs)


# ------------------------------------------------------------------ C02
def gen_C02(r, i):
    c = _hp_case(r, i)
    d = c["hp"]
    c["legal"] = [G.gen_value(r, d) for _ in range(5)]
    c["illegal"] = [G.gen_illegal(r, d) for _ in range(8)] if unlisted(d) else []
    if d["t"] in S.FLOATS:
        c["vec_legal"] = [0.0, 1.0, r.random()]
        c["vec_illegal"] = [-1e-6, 1 + 1e-6, -1.0, 2.0, math.nan, math.inf, -math.inf]
    elif d["t"] in S.INTS:
        c["vec_legal"] = []
        bad = [-0.5, 1.5, -1.0, 2.0, math.nan]
        if not d.get("log"):
            w = d["upper"] - d["lower"]
            k = r.randrange(w)
            bad += [(k + 0.5) / w, (k + 0.25) / w, -1 / w, (w + 1) / w]
        else:
            lo, up = math.log(d["lower"]), math.log(d["upper"])
            k = r.randrange(d["lower"], d["upper"])
            if k < 5000:
                bad += [(math.log(k + 0.5) - lo) / (up - lo), (math.log(k + 0.3) - lo) / (up - lo)]
            bad += [(math.log(d["upper"] + 1) - lo) / (up - lo)]
        c["vec_illegal"] = bad
    elif d["t"] == "const":
        c["vec_legal"] = []
        c["vec_illegal"] = [0.5, -1.0, 2.0, math.nan]
    else:
        n = len(S.options(d))
        c["vec_legal"] = [float(k) for k in range(n)]
        c["vec_illegal"] = [-1.0, float(n), n + 1.0, 0.5, n - 0.5, math.nan, n + 0.4, -0.4]
    # illegal defaults
    c["bad_default"] = [x for x in c["illegal"] if not (x is None)][:3]
    return c


def run_C02(c):
    d = c["hp"]
    hp = S.build_hp(d, c["style"])
    n = 0
    for want, vals in ((True, c["legal"]), (False, c["illegal"])):
        for v in vals:
            got = hp.legal_value(v)
            if not unlisted(d) and not isinstance(v, list):
                continue
            require(np.ndim(got) == 0 and isbool(got), "legal_value of one value is not one bool", value=v, got=got)
            require(bool(got) is want, f"legal_value should be {want}", value=v)
            n += 1
    if unlisted(d):
        mixed = [(v, True) for v in c["legal"]] + [(v, False) for v in c["illegal"]]
        mixed = mixed[::2] + mixed[1::2]
        if mixed:
            got = hp.legal_value(objarr([v for v, _ in mixed]))
            require(got.shape == (len(mixed),), "legal_value of an array has another shape")
            for (v, want), g in zip(mixed, got):
                require(bool(g) is want, f"legal_value (array) should be {want}", value=v)
        nums = [(v, w) for v, w in mixed if isinstance(v, (int, float)) and not isinstance(v, bool)]
        if nums and d["t"] in S.NUM:
            got = hp.legal_value(np.array([v for v, _ in nums]))
            for (v, want), g in zip(nums, got):
                require(bool(g) is want, f"legal_value (numeric array) should be {want}", value=v)
    encs = [float(hp.to_vector(v)) for v in c["legal"]]
    vecs = [(x, True) for x in list(c["vec_legal"]) + encs] + [(x, False) for x in c["vec_illegal"]]
    for x, want in vecs:
        for y in (x, np.float64(x)):
            got = hp.legal_vector(y)
            require(isbool(got), "legal_vector of one vector is not one bool", vector=x, got=got)
            require(bool(got) is want, f"legal_vector should be {want}", vector=x)
        n += 1
    got = hp.legal_vector(np.array([x for x, _ in vecs]))
    for (x, want), g in zip(vecs, got):
        require(bool(g) is want, f"legal_vector (array) should be {want}", vector=x)
    for bad in c["bad_default"]:
        if d["t"] == "const":
            continue
        if d["t"] in S.INTS and isinstance(bad, float) and math.isfinite(bad) and d["lower"] <= int(bad) <= d["upper"]:
            continue  # a fractional integer default is truncated by the constructors
        st, e = call(S.build_hp, {**d, "default": bad}, "class")
        require(st == "raise", "a default outside the domain was accepted", default=bad)
        n += 1
    for bad in ({"lower": 5, "upper": 5}, {"lower": 5, "upper": 4}):
        if d["t"] in S.NUM:
            dd = {k: v for k, v in d.items() if k != "default"}
            st, e = call(S.build_hp, {**dd, **bad, "log": False, "mu": 5, "sigma": 1}, "class")
            require(st == "raise", "empty bounds were accepted", bounds=bad)
    return n


# ------------------------------------------------------------------ C03
def gen_C03(r, i):
    c = _hp_case(r, i)
    c["seed"] = r.randrange(2**31)
    c["n"] = r.choice([0, 1, 2, 5, 37, 200])
    return c


def run_C03(c):
    d = c["hp"]
    hp = S.build_hp(d, c["style"])
    seed, n = c["seed"], c["n"]
    RS = np.random.RandomState
    x = hp.sample_vector(seed=RS(seed))
    require(np.ndim(x) == 0, "one vector expected", got=x)
    require(bool(hp.legal_vector(float(x))), "sampled vector not legal", vector=x)
    v = hp.sample_value(seed=RS(seed))
    require(S.in_domain(d, v), "sampled value outside the domain", value=v)
    require(bool(np.all(hp.legal_value(v))), "sampled value not legal", value=v)
    require(S._eq(hp.to_value(x), v), "sampled value is not the decoded sampled vector", vector=x, value=v)
    xs = hp.sample_vector(n, seed=RS(seed))
    require(np.shape(xs) == (n,), "wrong number of sampled vectors", n=n, got=np.shape(xs))
    vs = hp.sample_value(n, seed=RS(seed))
    require(len(vs) == n, "wrong number of sampled values", n=n, got=len(vs))
    for x, v in zip(xs, vs):
        require(bool(hp.legal_vector(float(x))), "sampled vector not legal", vector=float(x))
        require(S.in_domain(d, v), "sampled value outside the domain", vector=float(x), value=v)
        require(S._eq(hp.to_value(float(x)), v), "sampled value is not the decoded sampled vector", vector=float(x), value=v)
        if d["t"] == "cat" and d.get("weights"):
            require(d["weights"][S.position(d, v)] > 0, "sampled a choice of weight zero", value=v)
    require(bool(np.all(hp.legal_vector(np.asarray(xs)))) if n else True, "sampled vectors not legal (array)")
    xs2 = hp.sample_vector(n, seed=RS(seed))
    require(bool(np.array_equal(xs, xs2)), "same seed, different samples")
    # one random state used twice: continues deterministically
    a, b = RS(seed), RS(seed)
    for m in (1, max(n, 1), 3):
        require(bool(np.array_equal(hp.sample_vector(m, seed=a), hp.sample_vector(m, seed=b))), "same seed, different sequences")
    w = hp.rvs(3, random_state=seed)
    require(len(w) == 3 and all(S.in_domain(d, v) for v in w), "rvs outside the domain", got=w)
    return n + 2


# ------------------------------------------------------------------ C04
def gen_C04(r, i):
    c = _hp_case(r, i)
    d = c["hp"]
    if d["t"] in S.INTS and r.random() < 0.5:
        # small ranges exercise the exhaustive branch, also with a prior
        lo = d["lower"]
        d["upper"] = lo + r.choice([1, 2, 3, 5, 8])
        d.pop("default", None)
        if "mu" in d:
            d["mu"] = min(max(d["mu"], lo), d["upper"])
    if d["t"] in ("cat", "ord") and r.random() < 0.3:
        n = r.choice([20, 101, 150, 1005])
        d.pop("weights", None), d.pop("default", None)
        d["choices" if d["t"] == "cat" else "sequence"] = [f"v{k}" for k in range(n)]
    c["value"] = G.gen_value(r, d)
    c["n"] = r.choice([1, 1, 2, 3, 4, 7, 10, 50, 200])
    if d["t"] in S.INTS and r.random() < 0.2:
        # all values of a range of medium size, all others asked for
        d["upper"] = d["lower"] + r.randint(9, 130)
        d.pop("default", None)
        c["every"], c["value"] = True, d["lower"]
        if "mu" in d:
            d["mu"] = min(max(d["mu"], d["lower"]), d["upper"])
    c["seed"] = r.randrange(2**31)
    c["std"] = r.choice([None, None, 0.2, 0.05, 0.5, 1.0])
    return c


def run_C04(c):
    d = c["hp"]
    hp = S.build_hp(d, c["style"])
    RS = np.random.RandomState
    if c.get("every"):
        lo, hi = d["lower"], d["upper"]
        for v in range(lo, hi + 1):
            st, got = call(hp.neighbors_values, v, hi - lo + 1 + c["n"], seed=RS(c["seed"]))
            require(st == "ok", f"neighbors_values raised {got!r}", value=v)
            require(sorted(int(x) for x in got) == [x for x in range(lo, hi + 1) if x != v], "the neighbours are not all other values", value=v, got=list(got))
        return hi - lo + 1
    v, n, seed, std = c["value"], c["n"], c["seed"], c["std"]
    x = float(hp.to_vector(v))
    st, got = call(hp.neighbors_vectorized, x, n, std=std, seed=RS(seed))
    finite = d["t"] not in S.FLOATS
    if st == "raise":
        if isinstance(got, ValueError) and "Failed to find enough" in str(got):
            return 0
        raise Violation(f"neighbors_vectorized raised {type(got).__name__}: {got}")
    got = np.asarray(got)
    require(got.ndim == 1, "neighbours are not one-dimensional", got=got)
    xs = [float(y) for y in got]
    require(len(xs) <= n, "more neighbours than asked for", n=n, got=len(xs))
    for y in xs:
        require(bool(hp.legal_vector(y)), "neighbour is not a legal vector", vector=y)
    st, vs = call(hp.neighbors_values, v, n, std=std, seed=RS(seed))
    require(st == "ok", f"neighbors_values raised {vs!r}")
    require(len(vs) == len(xs), "value and vector neighbours differ in number")
    for y, w in zip(xs, vs):
        require(S.in_domain(d, w), "neighbour outside the domain", value=w)
        require(S._eq(hp.to_value(y), w), "value neighbours are not the decoded vector neighbours", vector=y, value=w)
    if finite:
        for w in vs:
            require(not S._eq(w, v), "the value is its own neighbour", value=v, neighbours=list(vs))
        for a in range(len(vs)):
            if len(vs) <= 60:
                for b in range(a):
                    require(not S._eq(vs[a], vs[b]), "a neighbour twice", neighbours=list(vs))
        require(len(set(xs)) == len(xs), "a neighbour twice (vector)", neighbours=xs)
    others = S.size(d) - 1
    if d["t"] == "ord":
        p = S.position(d, v)
        adj = {q for q in (p - 1, p + 1) if 0 <= q < S.size(d)}
        require({int(y) for y in xs} <= adj, "ordinal neighbours are not adjacent", value=v, got=xs)
        require(len(xs) == min(n, len(adj)), "wrong number of ordinal neighbours", n=n, got=xs)
    elif finite:
        require(len(xs) == min(n, others), "wrong number of neighbours", n=n, others=others, got=len(xs))
    elif not finite:
        require(len(xs) == n, "wrong number of neighbours", n=n, got=len(xs))
    return len(xs) + 1


# ------------------------------------------------------------------ C18
def gen_C18(r, i):
    c = _hp_case(r, i)
    if i == 3:
        c["hp"] = {"t": "ni", "name": "p", "log": False, "lower": 0, "upper": 2, "mu": 2.0, "sigma": 0.2}
    d = c["hp"]
    if d["t"] in S.INTS and d["upper"] - d["lower"] <= 40:
        c["values"] = S.options(d)
    elif d["t"] in S.NUM:
        c["values"] = [d["lower"], d["upper"]] + [G.gen_value(r, d) for _ in range(10)]
    else:
        c["values"] = S.options(d)
    c["vec_out"] = gen_C02_vec_out(r, d)
    if d["t"] in S.NUM:
        w = d["upper"] - d["lower"]
        outs = [d["upper"] + 1, d["upper"] + 2 * w]
        if not d.get("log"):
            outs += [d["lower"] - 1, d["lower"] - w]
        elif d["t"] in S.FLOATS:
            outs += [d["lower"] / 2]
        if d["t"] in S.INTS and d["lower"] < 4000:
            outs += [d["lower"] + 0.5]
        c["val_out"] = outs
    else:
        c["val_out"] = []
    return c


def gen_C02_vec_out(r, d):
    if d["t"] in S.FLOATS:
        return [-0.1, 1.1, 2.0, -3.0, 1 + 1e-6, -1e-6]
    if d["t"] in S.INTS:
        w = d["upper"] - d["lower"]
        return [-0.5, 1.5] + ([-1 / w, 0.5 / w, 1 + 1 / w] if not d.get("log") else [])
    if d["t"] == "const":
        return [0.5, 2.0, -1.0]
    n = len(S.options(d))
    return [-1.0, float(n), n + 1.0, 0.5, n - 0.5]


def run_C18(c):
    d = c["hp"]
    hp = S.build_hp(d, c["style"])
    vals = c["values"]
    st, pv = call(hp.pdf_values, vals if has_seq(d) else (list(vals) if d["t"] not in S.NUM else np.array(vals)))
    require(st == "ok", f"pdf_values raised {pv!r}")
    vecs = np.array([float(hp.to_vector(v)) for v in vals])
    px = hp.pdf_vector(vecs)
    require(len(pv) == len(vals) and len(px) == len(vals), "wrong number of densities")
    mx = float(hp.get_max_density())
    for k, v in enumerate(vals):
        a, b = float(pv[k]), float(px[k])
        require(math.isfinite(a) and a >= 0, "negative or undefined density", value=v, density=a)
        require(abs(a - b) <= 1e-9 * max(1, abs(a)), "density of value and vector differ", value=v, got=(a, b))
        possible = True
        if d["t"] == "cat" and d.get("weights"):
            possible = d["weights"][k] > 0
            if not possible:
                require(a == 0, "a choice of weight zero has positive density", value=v, density=a)
        if d["t"] in ("cat", "ord", "const", "uf", "ui") and possible:
            require(a > 0, "a possible value has density zero", value=v)
        if d["t"] in ("cat", "ord", "const", "uf", "ui", "nf", "bf"):
            require(a <= mx * (1 + 1e-9) + 1e-300, "density above the reported maximum", value=v, density=a, maximum=mx)
        else:
            require(a <= mx * (1 + 1e-6) + 1e-300, "density above the reported maximum", known="max-density-of-discretised-prior", value=v, density=a, maximum=mx)
        s = float(hp.pdf_vector(np.array([vecs[k]]))[0])
        require(abs(s - a) <= 1e-9 * max(1, abs(a)), "density depends on the other elements of the array", value=v)
    for x in c["vec_out"]:
        p = hp.pdf_vector(np.array([x, float(vecs[0])]))
        require(float(p[0]) == 0.0, "positive density of an illegal vector", vector=x, density=float(p[0]))
        require(abs(float(p[1]) - float(px[0])) <= 1e-9 * max(1, abs(float(p[1]))), "density changes next to an illegal vector")
    for v in c["val_out"]:
        st, p = call(hp.pdf_values, np.array([v, vals[0]]))
        require(st == "ok", f"pdf_values raised {p!r}", value=v)
        require(float(p[0]) == 0.0, "positive density of an illegal value", value=v, density=float(p[0]))
    if d["t"] in ("cat", "ord", "const") or (d["t"] == "ui" and len(vals) == S.size(d)):
        require(abs(float(np.sum(px)) - 1) < 1e-6, "densities of all values do not sum to one", total=float(np.sum(px)))
    if d["t"] == "cat" and d.get("weights"):
        tot = sum(d["weights"])
        for k, w in enumerate(d["weights"]):
            require(abs(float(px[k]) - w / tot) < 1e-9, "density is not the normalised weight", value=vals[k], density=float(px[k]))
    return len(vals)


# ------------------------------------------------------------------ C19
def gen_C19(r, i):
    k = ["arange", "linspace", "center", "split", "quant", "quantlog", "scale", "arange"][i % 8]
    c = {"k": k}
    if k == "arange":
        a = r.randint(-20, 20)
        c.update(start=a, stop=a + r.choice([1, 2, 5, 17, 40]), step=r.choice([1, 1, 2, 3, 5, 7]), chunk=r.choice([1, 2, 3, 4, 7, 10, 100]))
    elif k == "linspace":
        a = round(r.uniform(-5, 5), 3)
        c.update(start=a, stop=round(a + r.choice([1, 2.5, 10, 0.1]), 3), num=r.choice([1, 2, 3, 5, 10, 23, 40]), chunk=r.choice([1, 2, 3, 4, 7, 10, 100]), endpoint=r.choice([True, True, False]))
    elif k == "center":
        lo = r.randint(-10, 10)
        hi = lo + r.choice([1, 2, 5, 12])
        c.update(low=lo, high=hi, center=r.randint(lo, hi), step=r.choice([1, 1, 2, 3]))
    elif k == "split":
        a = r.randint(-10, 10)
        b = a + r.choice([1, 2, 5, 12])
        c.update(frm=a, to=b, pivot=r.randint(a, b - 1))
    elif k in ("quant", "quantlog"):
        lo, up = G.gen_float_bounds(r, False)
        if r.random() < 0.3:
            lo, up = 0, 1
        bins = r.choice([2, 3, 4, 5, 10, 17, 101])
        c.update(bounds=(lo, up), bins=bins, xs=[lo, up] + [r.uniform(lo, up) for _ in range(8)])
        if k == "quantlog":
            c["slice"] = G.gen_float_bounds(r, True)
    else:
        lo, up = G.gen_float_bounds(r, False)
        c.update(bounds=(lo, up), xs=[0.0, 1.0, 0.5, r.random(), r.random()], frm=(round(r.uniform(-3, 0), 3), round(r.uniform(1, 3), 3)))
    return c


def run_C19(c):
    from ConfigSpace import functional as F

    k = c["k"]
    if k == "arange":
        want = np.arange(c["start"], c["stop"], c["step"])
        chunks = list(F.arange_chunked(c["start"], c["stop"], c["step"], chunk_size=c["chunk"]))
        require(all(len(x) <= c["chunk"] for x in chunks), "chunk too long", got=chunks)
        require(all(len(x) > 0 for x in chunks), "empty chunk", got=chunks)
        got = np.concatenate(chunks) if chunks else np.array([])
        require(len(got) == len(want) and bool(np.allclose(got, want)), "chunks are not the range", got=got.tolist(), want=want.tolist())
    elif k == "linspace":
        want = np.linspace(c["start"], c["stop"], c["num"], endpoint=c["endpoint"])
        chunks = list(F.linspace_chunked(c["start"], c["stop"], c["num"], chunk_size=c["chunk"], endpoint=c["endpoint"]))
        require(all(len(x) <= c["chunk"] for x in chunks), "chunk too long", got=chunks)
        got = np.concatenate(chunks) if chunks else np.array([])
        require(len(got) == len(want) and bool(np.allclose(got, want)), "chunks are not the linspace", got=got.tolist(), want=want.tolist())
    elif k == "center":
        lo, hi, ce, st = c["low"], c["high"], c["center"], c["step"]
        got = [int(x) for x in F.center_range(ce, lo, hi, st)]
        want = [x for x in range(lo, hi + 1) if x != ce and (x - ce) % st == 0]
        require(sorted(got) == want, "centred range misses or repeats indices", got=got, want=want)
        dist = [abs(x - ce) for x in got]
        require(dist == sorted(dist), "centred range not in order of distance", got=got)
    elif k == "split":
        got = [int(x) for x in F.split_arange(c["frm"], c["to"], pivot=c["pivot"])]
        want = [x for x in range(c["frm"], c["to"]) if x != c["pivot"]]
        require(got == want, "split range is not the range without the pivot", got=got, want=want)
    elif k == "quant":
        lo, up = c["bounds"]
        bins = c["bins"]
        levels = [lo + (up - lo) * j / (bins - 1) for j in range(bins)]
        xs = sorted(c["xs"])
        q = F.quantize(np.array(xs), bounds=(lo, up), bins=bins)
        w = up - lo
        for x, y in zip(xs, q):
            best = min(abs(x - z) for z in levels)
            near = min(abs(y - z) for z in levels)
            require(near <= 1e-9 * w, "quantised number is not a level", x=x, y=float(y))
            s = float(F.quantize(np.float64(x), bounds=(lo, up), bins=bins))
            require(abs(s - y) <= 1e-12 * w, "scalar and array quantisation differ", x=x)
        require(all(a <= b + 1e-12 * w for a, b in zip(q, q[1:])), "quantisation is not monotone", xs=xs, q=q.tolist())
        require(abs(q[0] - lo) <= 1e-9 * w and abs(q[-1] - up) <= 1e-9 * w, "an end is not hit", q=q.tolist())
        ql = F.quantize(np.array(levels), bounds=(lo, up), bins=bins)
        require(bool(np.all(np.abs(ql - np.array(levels)) <= 1e-9 * w)), "a level is moved", levels=levels, got=ql.tolist())
    elif k == "quantlog":
        lo, up = c["bounds"]
        sl, su = c["slice"]
        bins = c["bins"]
        xs = sorted(c["xs"])
        w = up - lo
        lv = np.linspace(sl, su, bins)
        lv = lo + (np.log(lv) - np.log(sl)) / (np.log(su) - np.log(sl)) * w
        q = F.quantize_log(np.array(xs), bounds=(lo, up), scale_slice=(sl, su), bins=bins)
        for x, y in zip(xs, q):
            require(float(np.min(np.abs(lv - y))) <= 1e-9 * w, "quantised number is not a level", x=x, y=float(y))
        require(all(a <= b + 1e-9 * w for a, b in zip(q, q[1:])), "log quantisation is not monotone", xs=xs, q=q.tolist())
        require(abs(q[0] - lo) <= 1e-9 * w and abs(q[-1] - up) <= 1e-9 * w, "an end is not hit", q=q.tolist())
        ql = F.quantize_log(lv, bounds=(lo, up), scale_slice=(sl, su), bins=bins)
        require(bool(np.all(np.abs(ql - lv) <= 1e-9 * w)), "a level is moved", levels=lv.tolist(), got=ql.tolist())
    else:
        lo, up = c["bounds"]
        xs = np.array(c["xs"])
        y = F.scale(xs, to=(lo, up))
        w = up - lo
        require(bool(np.allclose(y, lo + xs * w, rtol=1e-12, atol=1e-12 * w)), "scale is not linear", got=y.tolist())
        require(bool(np.allclose(F.normalize(y, bounds=(lo, up)), xs, atol=1e-9 * max(1, abs(lo) / w, abs(up) / w))), "normalise does not invert scale", xs=xs.tolist())
        fr = c["frm"]
        z = F.rescale(y, frm=(lo, up), to=fr)
        require(bool(np.allclose(F.rescale(z, frm=fr, to=(lo, up)), y, rtol=1e-9, atol=1e-9 * max(w, abs(lo), abs(up)))), "rescale is not invertible")
        require(abs(float(F.rescale(np.array([lo]), frm=(lo, up), to=fr)[0]) - fr[0]) < 1e-9, "rescale misses an end")
    return 1
