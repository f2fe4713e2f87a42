"""Run-time contracts of conditions, clauses, configurations and spaces."""
from __future__ import annotations

import copy
import itertools
import json
import math
import random

import numpy as np
from ConfigSpace import Configuration, ConfigurationSpace
from ConfigSpace.types import NotSet

import desc as S
import gen as G
from core import (
    Violation, assert_valid, call, cfg_values, plain, require, same_arr, vec_of,
)

FAST = ["uf", "ui", "cat", "cat", "ord", "const", "ui", "nf", "bi"]


def perturb_floats(r, assign, D, sp):
    return assign


def tidy(r, v, d, marks):
    """Keep floats either exactly on a threshold or clearly off it."""
    if d["t"] not in S.FLOATS:
        return v
    for m in marks:
        if v != m and abs(v - m) <= 1e-6 * max(1e-3, abs(m), abs(v)):
            return m
    return v


def marks_of(sp):
    out = {}

    def walk(c):
        if "args" in c:
            for a in c["args"]:
                walk(a)
            return
        n = c.get("p") or c.get("hp")
        if n and "v" in c:
            vs = c["v"] if c.get("op") == "in" or c.get("f") == "in" else [c["v"]]
            out.setdefault(n, []).extend(vs)

    for c in sp["conds"] + sp["forbs"]:
        walk(c)
    return out


def pick(r, d, marks, off=False):
    """A value, often a threshold; with `off` floats stay off thresholds
    (decoding and encoding again may move them by a rounding error)."""
    ms = marks.get(d["name"], [])
    if off and d["t"] in S.FLOATS:
        for _ in range(20):
            v = G.gen_value(r, d)
            if not any(G.near(v, m) for m in ms):
                break
        return v
    if ms and r.random() < 0.5:
        return r.choice(ms)
    v = G.gen_value(r, d)
    return tidy(r, v, d, [m for m in ms if isinstance(m, (int, float))])


def rand_assign(r, D, marks, p_unset=0.25):
    return {n: pick(r, d, marks) for n, d in D.items() if r.random() >= p_unset}


def rel_ok(sp, assign, D):
    """Relations are only judged where float values are clearly apart."""

    def walk(f):
        if "args" in f:
            return all(walk(a) for a in f["args"])
        if f["f"] == "rel" and f["l"] in assign and f["r"] in assign:
            a, b = assign[f["l"]], assign[f["r"]]
            if D[f["l"]]["t"] in S.FLOATS or D[f["r"]]["t"] in S.FLOATS:
                return abs(a - b) > 1e-6 * max(1e-3, abs(a), abs(b))
        return True

    return all(walk(f) for f in sp["forbs"])


# ------------------------------------------------------------------ C05
def gen_C05(r, i):
    n = r.randint(1, 4)
    names = r.sample(G.NAMES, n + 1)
    types = ["uf", "ui", "nf", "ni", "bf", "bi", "cat", "ord", "ord", "const"]
    hps = [G.gen_hp(r, nm, types=types) for nm in names[:-1]]
    child = {"t": "ui", "name": names[-1], "lower": 0, "upper": 3, "log": False}
    D = {d["name"]: d for d in hps}
    for d in hps:
        if d["t"] in ("cat", "ord") and any(isinstance(x, (list, tuple)) for x in S.options(d)):
            k = "choices" if d["t"] == "cat" else "sequence"
            d[k] = G.gen_choices(r, kind=r.choice(["str", "int", "mixed", "bool"]))
            d.pop("weights", None), d.pop("default", None)
        if d["t"] == "const" and isinstance(d["value"], (list, tuple)):
            d["value"] = "c"
    D = {d["name"]: d for d in hps}
    if i % 2:
        cond = G.gen_leaf_cond(r, D, names[-1], r.choice(names[:-1]))
    else:
        cond = {"op": r.choice(["and", "or"]), "args": [G.gen_cond(r, D, names[-1], names[:-1], 1) for _ in range(r.choice([2, 2, 3, 4]))]}
    sp = {"hps": hps + [child], "conds": [cond], "forbs": []}
    mk = marks_of(sp)
    rows = [rand_assign(r, D, mk) for _ in range(14)]
    return {"sp": sp, "rows": rows, "pads": r.randint(0, 2)}


def run_C05(c):
    sp = c["sp"]
    cs = S.build_space(sp)
    ref = S.Ref(sp)
    cond = cs.conditions[0]
    cdesc = sp["conds"][0]
    parents = {x["p"] for x in S.cond_leaves(cdesc)}
    vecs, want = [], []
    for row in c["rows"]:
        truth = S.holds(cdesc, row, ref.D)
        vals = {p: row.get(p, NotSet) for p in parents}
        got = cond.satisfied_by_value(vals)
        require(bool(got) is truth, f"condition on values should be {truth}", cond=cdesc, values=row)
        v = vec_of(cs, row)
        v0 = v.copy()
        got = cond.satisfied_by_vector(v)
        require(bool(got) is truth, f"condition on a vector should be {truth}", cond=cdesc, values=row)
        require(same_arr(v, v0), "evaluating a condition changed the vector")
        vecs.append(v)
        want.append(truth)
    m = np.array(vecs).T.copy()
    m0 = m.copy()
    got = cond.satisfied_by_vector_array(m)
    require(np.shape(got) == (len(want),), "wrong shape of the mask")
    for g, w, row in zip(got, want, c["rows"]):
        require(bool(g) is w, f"condition on a matrix should be {w}", cond=cdesc, values=row)
    require(same_arr(m, m0), "evaluating a condition changed the matrix")
    empty = cond.satisfied_by_vector_array(m[:, :0])
    require(np.shape(empty) == (0,), "mask of an empty matrix is not empty")
    # the same condition with other vector positions
    other = copy.copy(cond)
    pos = {n: k for k, n in enumerate(sorted(cs.index_of, reverse=True))}
    other.set_vector_idx(pos)
    for row, w in zip(c["rows"], want):
        v = np.full(len(pos), np.nan)
        for n, x in row.items():
            v[pos[n]] = cs[n].to_vector(x)
        require(bool(other.satisfied_by_vector(v)) is w, f"copied condition at other positions should be {w}", cond=cdesc, values=row)
    return len(want)


# ------------------------------------------------------------------ C06
def gen_C06(r, i):
    sp = G.gen_space(r, nmax=5, nmin=2, types=["uf", "ui", "ui", "cat", "cat", "ord", "const", "ni", "bf"], conds=(i % 3 == 0), forbs=False, small=True)
    D = {d["name"]: d for d in sp["hps"]}
    names = list(D)
    sp["forbs"] = []
    fs = []
    for _ in range(r.choice([1, 2, 3])):
        fs.append(G.gen_forb(r, D, names))
    # clauses sharing all but the last component are merged internally
    fin = [n for n in names if D[n]["t"] not in S.FLOATS]
    if len(fin) >= 2 and r.random() < 0.7:
        k = r.randint(2, min(3, len(fin)))
        sel = r.sample(fin, k)
        base = {n: G.gen_value(r, D[n]) for n in sel}
        for _ in range(r.choice([2, 3, 4])):
            row = dict(base)
            ch = r.choice(sel)
            row[ch] = G.gen_value(r, D[ch])
            args = [{"f": "==", "hp": n, "v": v} for n, v in row.items()]
            if r.random() < 0.5:
                r.shuffle(args)
            fs.append({"f": "and", "args": args})
    return {"sp": sp, "forbs": fs, "rows": [rand_assign(r, D, marks_of({"conds": [], "forbs": fs}), 0.2) for _ in range(20)]}


def run_C06(c):
    sp = dict(c["sp"])
    cs = S.build_space(sp)
    hps = {n: cs[n] for n in cs}
    ref = S.Ref(sp)
    dflt = ref.default(hps)
    added, fd = [], []
    for f in c["forbs"]:
        if S.forbidden(f, dflt, ref.D):
            continue
        added.append(S.build_forb(f, hps))
        fd.append(f)
    if not added:
        return 0
    cs.add(added)
    rows = [row for row in c["rows"] if rel_ok({"forbs": fd}, row, ref.D)]
    vecs = [vec_of(cs, row) for row in rows]
    if not rows:
        return 0
    M = np.array(vecs).T.copy()
    total = np.zeros(len(rows), dtype=bool)
    for f, obj in zip(fd, added):
        mask = obj.is_forbidden_vector_array(M)
        for row, v, g in zip(rows, vecs, mask):
            truth = S.forbidden(f, row, ref.D)
            require(bool(obj.is_forbidden_value(row)) is truth, f"clause on values should be {truth}", clause=f, values=row)
            v0 = v.copy()
            require(bool(obj.is_forbidden_vector(v)) is truth, f"clause on a vector should be {truth}", clause=f, values=row)
            require(same_arr(v, v0), "evaluating a clause changed the vector")
            require(bool(g) is truth, f"clause on a matrix should be {truth}", clause=f, values=row)
        total |= np.array([S.forbidden(f, row, ref.D) for row in rows])
    # what the space checks with
    merged = getattr(getattr(cs, "_dag", None), "fast_forbidden_checks", cs.forbidden_clauses)
    for v, t, row in zip(vecs, total, rows):
        fast = any(bool(f.is_forbidden_vector(v)) for f in merged)
        require(fast is bool(t), f"internal clauses should say {bool(t)}", clauses=fd, values=row)
        listed = any(bool(f.is_forbidden_vector(v)) for f in cs.forbidden_clauses)
        require(listed is bool(t), f"the clauses of the space should say {bool(t)}", clauses=fd, values=row)
    fastm = np.zeros(len(rows), dtype=bool)
    for f in merged:
        fastm |= f.is_forbidden_vector_array(M)
    require(bool(np.array_equal(fastm, total)), "internal clauses on a matrix differ", clauses=fd)
    return len(rows)


# ------------------------------------------------------------------ C07
def gen_C07(r, i):
    if i % 4 == 0:
        sp = G.gen_space(r, nmax=4, types=["cat", "ord", "ui", "const"], small=True, nmin=2, dense=True)
        sp = shrink_domains(r, sp)
        return {"sp": sp, "all": True}
    sp = G.gen_space(r, nmax=6, nmin=1, types=FAST, dense=i % 2 == 0)
    ref = S.Ref(sp)
    mk = marks_of(sp)
    rows = []
    for _ in range(12):
        full = {n: pick(r, d, mk) for n, d in ref.D.items()}
        a = ref.restrict(full)
        k = r.random()
        if k < 0.35:
            pass
        elif k < 0.5 and a:
            a.pop(r.choice(list(a)))
        elif k < 0.65:
            n = r.choice(list(ref.D))
            a[n] = full[n]
        elif k < 0.75 and a:
            n = r.choice(list(a))
            a[n] = G.gen_illegal(r, ref.D[n])
        elif k < 0.8:
            a[r.choice(["nope", "", "zzz"])] = 1
        else:
            a = {n: v for n, v in full.items() if r.random() < 0.7}
        rows.append(a)
    return {"sp": sp, "rows": rows}


def shrink_domains(r, sp):
    for d in sp["hps"]:
        if d["t"] in S.INTS and d["upper"] - d["lower"] > 3:
            pass
    return sp


def all_rows(ref, cap=3000):
    doms = []
    for n in ref.topo:
        d = ref.D[n]
        o = S.options(d)
        doms.append([(n, v) for v in o[:5]] + [None])
    tot = 1
    for x in doms:
        tot *= len(x)
    rows = []
    if tot <= cap:
        it = itertools.product(*doms)
    else:
        rr = random.Random(tot)
        it = ([rr.choice(x) for x in doms] for _ in range(cap))
    for combo in it:
        rows.append({x[0]: x[1] for x in combo if x is not None})
    return rows


def check_cfg(cs, ref, a, allow):
    want = ref.problem(a, allow_inactive=allow)
    st, got = call(Configuration, cs, values=a, allow_inactive_with_values=allow)
    if want is None:
        require(st == "ok", f"a valid configuration was rejected: {got!r}", values=a, allow_inactive=allow)
    else:
        require(st == "raise", f"an invalid configuration ({want}) was accepted", values=a, allow_inactive=allow)
        require(isinstance(got, ValueError), f"the error is no ValueError: {got!r}", values=a)
    known = all(n in ref.D for n in a)
    legal = known and all(S.in_domain(ref.D[n], v) for n, v in a.items())
    if legal:
        v = vec_of(cs, a)
        v0 = v.copy()
        cfg = Configuration(cs, vector=v, allow_inactive_with_values=allow)
        st2, got2 = call(cfg.check_valid_configuration)
        if want is None:
            require(st2 == "ok", f"a valid vector was rejected: {got2!r}", values=a, allow_inactive=allow)
        else:
            require(st2 == "raise", f"an invalid vector ({want}) was accepted", values=a, allow_inactive=allow)
            require(isinstance(got2, ValueError), f"the error is no ValueError: {got2!r}", values=a)
        require(same_arr(v, v0), "validating changed the vector")
        if not allow:
            act = cs.get_active_hyperparameters(cfg)
            require(act == ref.active(a), "get_active_hyperparameters differs", values=a, got=sorted(act), want=sorted(ref.active(a)))
            st3, _ = call(cs._check_configuration_rigorous, cfg) if hasattr(cs, "_check_configuration_rigorous") else ("skip", None)
            if st3 != "skip":
                require((st3 == "ok") == (want is None), "the rigorous check differs", values=a)
    elif known:
        # illegal vector values of active hyperparameters are rejected
        pass
    return st


def run_C07(c):
    sp = c["sp"]
    cs = S.build_space(sp)
    ref = S.Ref(sp)
    if c.get("all"):
        rows = all_rows(ref)
        if len(rows) > 900:
            rr = random.Random(len(rows))
            rows = rr.sample(rows, 900)
    else:
        rows = [a for a in c["rows"]]
    n = 0
    for a in rows:
        if not rel_ok(sp, {k: v for k, v in a.items() if k in ref.D and S.in_domain(ref.D[k], v)}, ref.D):
            continue
        for allow in (False, True):
            check_cfg(cs, ref, a, allow)
            n += 1
    # illegal vectors
    base = ref.default({k: cs[k] for k in cs})
    for name in base:
        d = ref.D[name]
        bads = [-0.5, 1.5, -1.0] if d["t"] in S.NUM else [-1.0, 0.5, float(len(S.options(d)))]
        if d["t"] == "const":
            bads = [0.5, 3.0]
        if d["t"] in S.INTS and not d.get("log"):
            bads.append(0.5 / (d["upper"] - d["lower"]))
        for bad in bads:
            v = vec_of(cs, base)
            v[cs.index_of[name]] = bad
            for allow in (False, True):
                st, e = call(Configuration(cs, vector=v, allow_inactive_with_values=allow).check_valid_configuration)
                require(st == "raise" and isinstance(e, ValueError), "a vector with an illegal entry was accepted", name=name, entry=bad, allow_inactive=allow, got=repr(e))
                n += 1
    return n


# ------------------------------------------------------------------ C08
def gen_C08(r, i):
    sp = G.gen_space(r, nmax=7, types=None if i % 2 else FAST, dense=i % 3 == 0, small=i % 4 == 0)
    return {"sp": sp, "n": r.choice([None, 0, 1, 2, 3, 7, 20, 60]), "seed": r.randrange(10**6)}


def acceptance(ref, k=150):
    """Share of random assignments that violate no clause: sampling loops until
    it has enough of them."""
    draws = {}
    for n, d in ref.D.items():
        if d["t"] in ("nf", "ni", "bf", "bi"):
            draws[n] = S.build_hp(d).sample_value(k, seed=np.random.RandomState(5))
        else:
            rr = random.Random(n)
            draws[n] = [G.gen_value_sampled(rr, d) for _ in range(k)]
    good = sum(
        not ref.is_forbidden(ref.restrict({n: plain(v[j]) if ref.D[n]["t"] in S.NUM else v[j] for n, v in draws.items()}))
        for j in range(k)
    )
    return good / k


def clean_float(sp, a, D):
    return rel_ok(sp, a, D)


def check_sampled(cs, ref, sp, cfg, what):
    a = cfg_values(cfg)
    require(isinstance(cfg, Configuration), f"{what}: not a configuration")
    v = np.array(cfg.get_array())
    # set exactly where finite, legal
    for n in cs:
        x = v[cs.index_of[n]]
        require(math.isnan(x) == (n not in a), f"{what}: vector and mapping disagree", name=n)
        if n in a:
            require(bool(cs[n].legal_vector(float(x))), f"{what}: illegal vector entry", name=n, entry=float(x))
    if not rel_ok(sp, a, ref.D):
        return False
    mk = marks_of(sp)
    for n, x in a.items():
        if ref.D[n]["t"] in S.FLOATS:
            for m in mk.get(n, []):
                if x != m and abs(x - m) < 1e-9 * max(1e-3, abs(x)):
                    return False
    p = ref.problem(a)
    require(p is None, f"{what}: not a valid configuration ({p})", values=a)
    st, e = call(cfg.check_valid_configuration)
    require(st == "ok", f"{what}: rejected by its own validation: {e!r}", values=a)
    st, e = call(Configuration, cs, values=dict(cfg))
    require(st == "ok", f"{what}: its values are rejected: {e!r}", values=a)
    return True


def run_C08(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    if acceptance(ref) < 0.08:
        return 0
    cs = S.build_space(sp)
    n = c["n"]
    cs.seed(c["seed"])
    got = cs.sample_configuration(n)
    if n is None or (n == 1 and isinstance(got, Configuration)):
        require(isinstance(got, Configuration), "one bare configuration expected", got=type(got).__name__)
        lst = [got]
    else:
        require(isinstance(got, list), "a list expected", got=type(got).__name__)
        require(len(got) == n, "wrong number of configurations", n=n, got=len(got))
        lst = got
    for cfg in lst:
        check_sampled(cs, ref, sp, cfg, "sample")
    more = cs.sample_configuration(4)
    require(len(more) == 4, "wrong number of configurations", n=4, got=len(more))
    for cfg in more:
        check_sampled(cs, ref, sp, cfg, "sample")
    # again with the same seed, on this space and on an equal one
    for cs2 in (cs, S.build_space(sp)):
        cs2.seed(c["seed"])
        again = cs2.sample_configuration(n)
        l2 = again if isinstance(again, list) else [again]
        require(len(l2) == len(lst), "same seed, different number")
        for x, y in zip(lst, l2):
            require(same_arr(np.array(x.get_array()), np.array(y.get_array())), "same seed, different configurations")
        for x, y in zip(more, cs2.sample_configuration(4)):
            require(same_arr(np.array(x.get_array()), np.array(y.get_array())), "same seed, different configurations (second draw)")
    # configurations do not share their vectors
    if len(lst) > 1:
        keep = lst[1].get_array().copy()
        lst[0].get_array()[:] = 0
        require(same_arr(lst[1].get_array(), keep), "two samples share one vector")
    return len(lst) + 4


# ------------------------------------------------------------------ C09
def gen_C09(r, i):
    sp = G.gen_space(r, nmax=6, nmin=1, types=FAST if i % 2 else None, dense=True, small=i % 3 == 0)
    return {"sp": sp, "seed": r.randrange(10**6), "nn": r.choice([1, 2, 4, 4, 8]), "std": r.choice([0.2, 0.05, 1.0]), "start": r.choice(["default", "sample"])}


def start_cfg(cs, ref, c):
    if c["start"] == "default":
        return cs.get_default_configuration()
    cs.seed(c["seed"])
    return cs.sample_configuration()


def check_neighbour(cs, ref, sp, old, oldv, new, exact_names=False):
    a, b = dict(oldv), cfg_values(new)
    if not check_sampled(cs, ref, sp, new, "neighbour"):
        return
    hps = {k: cs[k] for k in cs}
    changed = [n for n in a if n in b and not S.same_value(ref.D[n], a[n], b[n])]
    # which single change explains it
    ok = False
    for n in changed:
        w = ref.set_value(a, n, b[n], hps)
        if S.same_assign(ref.D, w, b):
            ok = True
            break
    require(ok, "the neighbour is not the result of changing one active hyperparameter", before=a, after=b, changed=changed)


def run_C09(c):
    from ConfigSpace.util import get_one_exchange_neighbourhood, get_random_neighbor

    sp = c["sp"]
    ref = S.Ref(sp)
    if acceptance(ref) < 0.08:
        return 0
    cs = S.build_space(sp)
    old = start_cfg(cs, ref, c)
    oldv = cfg_values(old)
    if not rel_ok(sp, oldv, ref.D) or ref.problem(oldv) is not None:
        return 0
    arr0 = np.array(old.get_array()).copy()
    n = 0
    try:
        for new in itertools.islice(get_one_exchange_neighbourhood(old, c["seed"], c["nn"], c["std"]), 60):
            check_neighbour(cs, ref, sp, old, oldv, new)
            require(same_arr(np.array(old.get_array()), arr0), "the original configuration changed")
            n += 1
    except (ValueError, AssertionError) as e:
        if "Failed to find enough" not in str(e):
            raise Violation(f"one-exchange neighbourhood raised {e!r}") from e
    require(S.same_assign(ref.D, cfg_values(old), oldv), "the original configuration changed")
    # determinism
    st, l1 = call(lambda: [dict(x) for x in itertools.islice(get_one_exchange_neighbourhood(old, c["seed"], c["nn"], c["std"]), 20)])
    st2, l2 = call(lambda: [dict(x) for x in itertools.islice(get_one_exchange_neighbourhood(old, c["seed"], c["nn"], c["std"]), 20)])
    require(st == st2 and (st == "raise" or l1 == l2), "same seed, different neighbours")
    free = sum(1 for k in oldv if S.size(ref.D[k]) > 1)
    if free:
        # bounded: where almost every neighbour is rejected the search takes long
        easy = not sp["forbs"] and any(S.size(ref.D[k]) > 1 and not any(k == x["p"] for cc in sp["conds"] for x in S.cond_leaves(cc)) for k in oldv)
        if easy:
            for s in range(3):
                st, new = call(get_random_neighbor, old, c["seed"] + s)
                if st == "raise":
                    if isinstance(new, ValueError) and ("infinite loop" in str(new) or "Failed to find" in str(new) or "too many" in str(new)):
                        continue
                    raise Violation(f"get_random_neighbor raised {new!r}")
                b = cfg_values(new)
                require(check_sampled(cs, ref, sp, new, "random neighbour") or True, "")
                require(set(b) == set(oldv), "a random neighbour activates or deactivates", before=oldv, after=b)
                diff = [k for k in b if not S.same_value(ref.D[k], oldv[k], b[k])]
                require(len(diff) <= 1, "a random neighbour changes more than one value", before=oldv, after=b)
                if diff == []:
                    require(any(ref.D[k]["t"] in S.FLOATS for k in b), "a random neighbour changes nothing", values=b)
                require(same_arr(np.array(old.get_array()), arr0), "the original configuration changed")
                n += 1
    return n


# ------------------------------------------------------------------ C10
def gen_C10(r, i):
    sp = G.gen_space(r, nmax=7, nmin=2, types=["cat", "ui", "ord", "uf", "cat", "const", "ni"], dense=True, small=i % 2 == 0)
    ref = S.Ref(sp)
    mk = marks_of(sp)
    ops = []
    for _ in range(14):
        n = r.choice(list(ref.D))
        if r.random() < 0.15:
            ops.append((n, G.gen_illegal(r, ref.D[n])))
        else:
            ops.append((n, pick(r, ref.D[n], mk)))
    return {"sp": sp, "ops": ops, "start": r.choice(["default", "sample"]), "lax": r.random() < 0.3, "seed": r.randrange(10**6)}


def run_C10(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    if acceptance(ref, 80) < 0.1:
        return 0
    cs = S.build_space(sp)
    hps = {k: cs[k] for k in cs}
    cfg = start_cfg(cs, ref, c)
    cur = cfg_values(cfg)
    if ref.problem(cur) is not None or not rel_ok(sp, cur, ref.D):
        return 0
    if c["lax"]:
        # what validation would tolerate makes no difference to assignments
        cfg = Configuration(cs, vector=cfg.get_array().copy(), allow_inactive_with_values=True)
    n = 0
    for name, val in c["ops"]:
        before = np.array(cfg.get_array()).copy()
        legal = S.in_domain(ref.D[name], val)
        want = None
        if legal and name in cur:
            want = ref.set_value(cur, name, val, hps)
            if not rel_ok(sp, want, ref.D):
                continue
            if ref.is_forbidden(want):
                want = None
        st, e = call(cfg.__setitem__, name, val)
        if want is None:
            require(st == "raise", "an impossible assignment succeeded", name=name, value=val, before=cur, after=cfg_values(cfg))
            require(same_arr(np.array(cfg.get_array()), before), "a failed assignment changed the vector", name=name, value=val)
            require(S.same_assign(ref.D, cfg_values(cfg), cur), "a failed assignment changed the values", name=name, value=val, before=cur, after=cfg_values(cfg))
        else:
            require(st == "ok", f"a possible assignment raised {e!r}", name=name, value=val, before=cur)
            after = cfg_values(cfg)
            require(S.same_assign(ref.D, after, want), "wrong configuration after an assignment", name=name, value=val, before=cur, after=after, want=want)
            st2, e2 = call(cfg.check_valid_configuration)
            require(st2 == "ok", f"invalid after an assignment: {e2!r}", name=name, value=val, before=cur, after=after)
            cur = want
        n += 1
    st, e = call(cfg.__setitem__, "no such name", 1)
    require(st == "raise", "assigning an unknown name succeeded")
    return n


# ------------------------------------------------------------------ C11
def gen_C11(r, i):
    sp = G.gen_space(r, nmax=7, dense=True, types=None if i % 3 else FAST)
    ref = S.Ref(sp)
    return {"sp": sp, "cut": r.randint(0, len(sp["hps"])), "pick": r.randrange(1000), "pick2": r.randrange(1000)}


def run_C11(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    cs = S.build_space(sp)
    hps = {k: cs[k] for k in cs}
    want = ref.default(hps)
    cfg = cs.get_default_configuration()
    got = cfg_values(cfg)
    require(S.same_assign(ref.D, got, want), "wrong default configuration", got=got, want=want)
    require(S.same_assign(ref.D, dict(cfg), want), "wrong default configuration (dict)")
    st, e = call(cfg.check_valid_configuration)
    require(st == "ok", f"the default configuration is invalid: {e!r}", values=got)
    v = np.array(cfg.get_array())
    for n in cs:
        x = v[cs.index_of[n]]
        if n in want:
            y = float(cs[n].to_vector(want[n]))
            require(abs(x - y) < 1e-9, "the default vector is not the encoding of the defaults", name=n)
        else:
            require(math.isnan(x), "an inactive hyperparameter has a default entry", name=n)
    # the defaults hold after adding in steps
    names = [d["name"] for d in sp["hps"]]
    cs2 = ConfigurationSpace(seed=1)
    h2 = {d["name"]: S.build_hp(d) for d in sp["hps"]}
    for k, n in enumerate(names):
        cs2.add(h2[n])
        g = cfg_values(cs2.get_default_configuration())
        require(set(g) == set(names[: k + 1]), "wrong default while adding", got=g)
    for k, cd in enumerate(sp["conds"]):
        cs2.add(S.build_cond(cd, h2))
        part = S.Ref({**sp, "conds": sp["conds"][: k + 1], "forbs": []})
        g = cfg_values(cs2.get_default_configuration())
        require(S.same_assign(ref.D, g, part.default(h2)), "wrong default while adding conditions", got=g, want=part.default(h2))
    # a clause forbidding the default raises
    act = sorted(want)
    k = act[c["pick"] % len(act)]
    if not isinstance(want[k], (list, tuple)):
        fs = [{"f": "==", "hp": k, "v": want[k]}, {"f": "in", "hp": k, "v": [want[k]]}]
        k2 = act[c["pick2"] % len(act)]
        if k2 != k and not isinstance(want[k2], (list, tuple)):
            fs.append({"f": "and", "args": [{"f": "==", "hp": k, "v": want[k]}, {"f": "==", "hp": k2, "v": want[k2]}]})
        for f in fs:
            cs3 = S.build_space(sp)
            st, e = call(cs3.add, S.build_forb(f, {n: cs3[n] for n in cs3}))
            require(st == "raise", "a clause forbidding the default was accepted", clause=f, default=want)
        # one that does not is accepted
        d = ref.D[k]
        if d["t"] in ("cat", "ord") and S.size(d) > 1:
            o = [x for x in S.options(d) if not S._eq(x, want[k])][0]
            cs4 = S.build_space(sp)
            st, e = call(cs4.add, S.build_forb({"f": "==", "hp": k, "v": o}, {n: cs4[n] for n in cs4}))
            require(st == "ok", f"a clause not touching the default was rejected: {e!r}", default=want)
    return len(want)


# ------------------------------------------------------------------ C12
def gen_C12(r, i):
    sp = G.gen_space(r, nmax=8 if i % 4 == 1 else 5, nmin=2, dense=True, types=["ui", "cat", "ord", "uf", "const"], forbs=i % 2 == 0, small=True)
    return {"sp": sp, "order": r.randrange(2**31)}


def add_in_order(sp, rr):
    """Add everything one by one or in batches in a random feasible order."""
    cs = ConfigurationSpace(name=sp.get("name"), seed=1, meta=sp.get("meta"))
    hps = {d["name"]: S.build_hp(d) for d in sp["hps"]}
    todo = [("h", d["name"]) for d in sp["hps"]]
    rr.shuffle(todo)
    conds = list(sp["conds"])
    rr.shuffle(conds)
    pending, have = [], set()
    plan = []
    for t in todo:
        plan.append(hps[t[1]])
        have.add(t[1])
        for cd in list(conds):
            need = {x["p"] for x in S.cond_leaves(cd)} | {S.cond_child(cd)}
            if need <= have and rr.random() < 0.7:
                plan.append(S.build_cond(cd, hps))
                conds.remove(cd)
    for cd in conds:
        plan.append(S.build_cond(cd, hps))
    fs = [S.build_forb(f, hps) for f in sp["forbs"]]
    rr.shuffle(fs)
    plan += fs
    # clauses last: before, the default may differ and be forbidden
    while plan:
        k = rr.choice([1, 1, 2, 3, len(plan)])
        batch, plan = plan[:k], plan[k:]
        cs.add(batch) if rr.random() < 0.7 else cs.add(*batch)
    return cs


def layout(cs):
    return list(cs)


def check_layout(cs, ref):
    names = list(cs)
    require(sorted(names) == sorted(ref.D), "names differ", got=names)
    require(len(cs) == len(names), "length differs")
    require(list(cs.keys()) == names and [h.name for h in cs.values()] == names and [k for k, _ in cs.items()] == names, "iteration orders differ")
    require(list(cs.at) == names, "at and iteration order differ", at=list(cs.at), names=names)
    for k, n in enumerate(names):
        require(cs.index_of[n] == k, "index_of is not the position", name=n, index=cs.index_of[n], position=k)
        require(cs.at[cs.index_of[n]] == n, "at and index_of are not inverse", name=n)
        require(cs[n].name == n, "lookup by name gives another hyperparameter", name=n)
        require(n in cs, "a listed name is not contained", name=n)
        for p in ref.parents(n):
            require(cs.index_of[p] < k, "a parent comes after its child", parent=p, child=n)
        require(sorted(h.name for h in cs.parents_of[n]) == sorted(ref.parents(n)), "parents_of differs", name=n, got=[h.name for h in cs.parents_of[n]])
        kids = sorted(x for x in ref.D if n in ref.parents(x))
        require(sorted(h.name for h in cs.children_of[n]) == kids, "children_of differs", name=n, got=[h.name for h in cs.children_of[n]], want=kids)
        require(len(cs.parent_conditions_of[n]) == (1 if n in ref.cond else 0), "parent_conditions_of differs", name=n)
        require(len(cs.child_conditions_of[n]) == len(kids), "child_conditions_of differs", name=n)
    require(set(cs.index_of) == set(names), "index_of has other names")
    require(sorted(cs.conditional_hyperparameters) == sorted(ref.cond), "conditional hyperparameters differ", got=list(cs.conditional_hyperparameters))
    require(sorted(cs.unconditional_hyperparameters) == sorted(set(ref.D) - set(ref.cond)), "unconditional hyperparameters differ", got=list(cs.unconditional_hyperparameters))
    require(len(cs.conditions) == len(ref.cond), "number of conditions differs")


def run_C12(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    cs = S.build_space(sp)
    check_layout(cs, ref)
    rr = random.Random(c["order"])
    for _ in range(3):
        o = add_in_order(sp, rr)
        check_layout(o, ref)
        require(list(o) == list(cs), "the layout depends on the order of adding", got=list(o), want=list(cs))
        require(o == cs, "spaces built in different orders are not equal")
    hps = {k: cs[k] for k in cs}
    names = list(cs)
    # rejections
    st, e = call(cs.add, S.build_hp({"t": "uf", "name": rr.choice(names), "lower": 0.0, "upper": 1.0, "log": False}))
    require(st == "raise", "a duplicate name was accepted")
    foreign = S.build_hp({"t": "ui", "name": "not in it", "lower": 0, "upper": 3, "log": False})
    import ConfigSpace as CS

    x = rr.choice(names)
    for mk, what in (
        (lambda: CS.EqualsCondition(hps[x], foreign, 1), "parent"),
        (lambda: CS.EqualsCondition(foreign, hps[x], hps[x].default_value), "child"),
        (lambda: CS.AndConjunction(CS.EqualsCondition(foreign, hps[x], hps[x].default_value), CS.EqualsCondition(foreign, foreign2(), 1)), "child"),
        (lambda: CS.ForbiddenEqualsClause(foreign, 2), "clause"),
        (lambda: CS.ForbiddenInClause(foreign, [2]), "clause"),
        (lambda: CS.ForbiddenLessThanRelation(foreign, hps[x]), "relation"),
        (lambda: CS.ForbiddenGreaterThanRelation(hps[x], foreign), "relation"),
        (lambda: CS.ForbiddenAndConjunction(CS.ForbiddenEqualsClause(hps[x], hps[x].default_value), CS.ForbiddenEqualsClause(foreign, 2)), "conjunction"),
    ):
        if len(names) > 5:
            break  # the message of the error prints the whole graph, repeatedly
        cs5 = S.build_space(sp)
        hps = {k: cs5[k] for k in cs5}
        obj = mk()
        st, e = call(cs5.add, obj)
        require(st == "raise", f"an unknown hyperparameter in a {what} was accepted", got=str(obj))
    # a second, different condition for a child
    for n in ref.cond:
        cs6 = S.build_space(sp)
        h = {k: cs6[k] for k in cs6}
        others = [m for m in names if m != n and not reaches(ref, n, m)]
        for m in others[:2]:
            dm = ref.D[m]
            cd = {"op": "==", "c": n, "p": m, "v": default_for(dm, h[m])}
            if plain_cond(cd) == plain_cond(ref.cond[n]):
                continue
            st, e = call(cs6.add, S.build_cond(cd, h))
            require(st == "raise", "a second different condition was accepted", child=n, cond=cd)
            break
        # one that looks much like the first, but says something else
        mk = marks_of(sp)
        for _ in range(3):
            cd = G._vary(rr, ref.cond[n], ref.D)
            rows = [{m: pick(rr, ref.D[m], mk) for m in ref.parents(n)} for _ in range(12)]
            if all(S.holds(cd, row, ref.D) == S.holds(ref.cond[n], row, ref.D) for row in rows):
                continue
            cs6 = S.build_space(sp)
            st, e = call(cs6.add, S.build_cond(cd, {k: cs6[k] for k in cs6}))
            require(st == "raise", "a second different condition was accepted", child=n, cond=cd)
        # the same condition again is no problem
        cs6 = S.build_space(sp)
        h = {k: cs6[k] for k in cs6}
        st, e = call(cs6.add, S.build_cond(ref.cond[n], h))
        require(st == "ok", f"the same condition again was rejected: {e!r}", child=n)
        check_layout(cs6, ref)
    # cycles
    for n in ref.cond:
        for p in ref.parents(n):
            roots = [m for m in names if m not in ref.cond and (m == p or reaches(ref, m, p))]
            for m in roots[:1]:
                cs7 = S.build_space(sp)
                h = {k: cs7[k] for k in cs7}
                cd = {"op": "==", "c": m, "p": n, "v": default_for(ref.D[n], h[n])}
                st, e = call(cs7.add, S.build_cond(cd, h))
                require(st == "raise", "a cyclic condition was accepted", cond=cd)
    st, e = call(lambda: S.build_space(sp).add(CS.EqualsCondition(cs[x], cs[x], cs[x].default_value)))
    require(st == "raise", "a condition of a hyperparameter on itself was accepted")
    return len(names)


def foreign2():
    return S.build_hp({"t": "ui", "name": "nor this", "lower": 0, "upper": 3, "log": False})


def default_for(d, hp):
    return S.default_of(d, hp)


def plain_cond(c):
    return json.dumps(c, sort_keys=True, default=str)


def reaches(ref, a, b):
    """b is a descendant of a."""
    return any(p == a or reaches(ref, a, p) for p in ref.parents(b))


# ------------------------------------------------------------------ C13
def gen_C13(r, i):
    js = i % 2 == 0
    sp = G.gen_space(r, nmax=6, dense=True, json_only=js, meta=True, simple_values=False if not js and i % 4 == 1 else True)
    for d in sp["hps"]:
        if js and d["t"] in ("cat", "ord"):
            k = "choices" if d["t"] == "cat" else "sequence"
            d[k] = [None if v is None else v for v in d[k]]
    return {"sp": sp, "json": js, "seed": r.randrange(10**6)}


def hp_same(d, a, b):
    for k in ("name", "default_value", "meta", "size"):
        require(plain(getattr(a, k)) == plain(getattr(b, k)) or (isinstance(getattr(a, k), float) and math.isinf(getattr(a, k)) and getattr(b, k) == getattr(a, k)), f"{k} of a hyperparameter differs", hp=d, got=getattr(b, k))
    require(type(a) is type(b), "type of a hyperparameter differs", hp=d, got=type(b).__name__)
    for k in ("lower", "upper", "log", "mu", "sigma", "alpha", "beta", "choices", "sequence", "value"):
        if hasattr(a, k):
            require(plain(getattr(a, k)) == plain(getattr(b, k)), f"{k} of a hyperparameter differs", hp=d, got=getattr(b, k))
    if d["t"] == "cat":
        require(bool(np.allclose(np.asarray(a.probabilities, float), np.asarray(b.probabilities, float))), "weights differ", hp=d)
        require((a.weights is None) == (b.weights is None), "weights lost", hp=d)


def spaces_agree(cs, cs2, ref, seed, what):
    require(list(cs) == list(cs2), f"{what}: other layout")
    for n in cs:
        hp_same(ref.D[n], cs[n], cs2[n])
    require(cs2.name == cs.name, f"{what}: other name")
    require(plain(cs2.meta) == plain(cs.meta), f"{what}: other meta", got=cs2.meta, want=cs.meta)
    require([str(x) for x in cs.conditions] == [str(x) for x in cs2.conditions], f"{what}: other conditions", got=[str(x) for x in cs2.conditions])
    require(sorted(str(x) for x in cs.forbidden_clauses) == sorted(str(x) for x in cs2.forbidden_clauses), f"{what}: other clauses", got=[str(x) for x in cs2.forbidden_clauses])
    require(len(cs.conditions) == len(ref.sp["conds"]) and len(cs2.forbidden_clauses) == len(cs.forbidden_clauses), f"{what}: something is missing")


def same_acceptance(cs, cs2, ref, seed, k=15):
    rr = random.Random(seed)
    mk = marks_of(ref.sp)
    n = 0
    for j in range(k):
        full = {m: pick(rr, d, mk) for m, d in ref.D.items()}
        a = ref.restrict(full)
        if j % 3 == 1 and a:
            a.pop(rr.choice(sorted(a)))
        if j % 3 == 2:
            m = rr.choice(sorted(ref.D))
            a[m] = full[m]
        s1, c1 = call(Configuration, cs, values=a)
        s2, c2 = call(Configuration, cs2, values=a)
        require(s1 == s2, "one space accepts, the other rejects", values=a, first=repr(c1)[:200], second=repr(c2)[:200])
        if rel_ok(ref.sp, a, ref.D):
            require((s1 == "ok") == (ref.problem(a) is None), "acceptance is wrong", values=a)
        if s1 == "ok":
            require(same_arr(c1.get_array(), c2.get_array()), "same values, different vectors", values=a)
            n += 1
    return n


def run_C13(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    cs = S.build_space(sp) if c["seed"] % 3 else add_in_order(sp, random.Random(c["seed"]))
    before = repr(cs)
    d = cs.to_serialized_dict()
    require(repr(cs) == before, "encoding changed the space")
    snap = repr(d)
    cs2 = ConfigurationSpace.from_serialized_dict(d)
    require(repr(d) == snap, "decoding changed the dictionary")
    spaces_agree(cs, cs2, ref, c["seed"], "dictionary")
    require(cs2 == cs and cs == cs2, "the decoded space is not equal")
    n = same_acceptance(cs, cs2, ref, c["seed"])
    d2 = cs2.to_serialized_dict()
    require(plain_eq(d, d2), "encoding again gives something else", first=d, second=d2)
    # decode twice
    cs3 = ConfigurationSpace.from_serialized_dict(d)
    require(cs3 == cs, "decoding twice gives something else")
    if c["json"]:
        import io

        buf = io.StringIO()
        cs.to_json(buf)
        text = buf.getvalue()
        json.loads(text)
        import os
        import tempfile

        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "s.json")
            cs.to_json(p)
            cs4 = ConfigurationSpace.from_json(p)
        spaces_agree(cs, cs4, ref, c["seed"], "JSON")
        if not any(has_tuple(x) for x in sp["hps"]):
            require(cs4 == cs, "the space read from JSON is not equal")
        n += same_acceptance(cs, cs4, ref, c["seed"] + 1, 8)
    return n + 1


def has_tuple(d):
    return d["t"] in ("cat", "ord", "const") and any(isinstance(o, tuple) for o in S.options(d))


def plain_eq(a, b):
    return plain(a) == plain(b)


# ------------------------------------------------------------------ C14
def gen_C14(r, i):
    if i % 2 == 0:
        inner = G.gen_space(r, nmax=4, types=["ui", "cat", "uf", "ord", "const", "ni"], small=True, meta=True)
        outer = G.gen_space(r, nmax=3, types=["cat", "ui", "ord"], small=True, conds=False, forbs=False)
        prefix = r.choice(["p", "q", "a", "b", "P x"])
        delim = r.choice([":", ":", "__", ".", ""])
        names = [d["name"] for d in inner["hps"]]
        ren = {}
        for n in names:
            k = r.random()
            if k < 0.1 and prefix not in names and prefix not in ren.values():
                ren[n] = prefix
            elif k < 0.2:
                ren[n] = prefix + delim + n
            elif k < 0.35:
                ren[n] = prefix + n
            else:
                ren[n] = n
        inner = rename(inner, ren)
        par = r.choice(outer["hps"])
        return {"k": "add", "inner": inner, "outer": outer, "prefix": prefix, "delim": delim, "parent": (par["name"], G.gen_value(r, par)) if r.random() < 0.7 else None, "seed": r.randrange(10**6), "nest": r.random() < 0.3}
    sp = G.gen_space(r, nmax=6, dense=True, meta=True)
    return {"k": "prior", "sp": sp, "seed": r.randrange(10**6)}


def rename(sp, ren):
    def cd(c):
        if "args" in c:
            return {**c, "args": [cd(a) for a in c["args"]]}
        out = dict(c)
        for k in ("c", "p", "hp", "l", "r"):
            if k in out:
                out[k] = ren[out[k]]
        return out

    return {
        **sp,
        "hps": [{**d, "name": ren[d["name"]]} for d in sp["hps"]],
        "conds": [cd(c) for c in sp["conds"]],
        "forbs": [cd(f) for f in sp["forbs"]],
    }


def new_name(n, prefix, delim):
    if n in ("", prefix):
        return prefix
    if n.startswith(prefix + delim):
        return n
    return prefix + delim + n


def run_C14(c):
    if c["k"] == "prior":
        return run_prior(c)
    inner, outer = c["inner"], c["outer"]
    ren = {d["name"]: new_name(d["name"], c["prefix"], c["delim"]) for d in inner["hps"]}
    if len(ren) != len(inner["hps"]):
        return 0
    onames = {d["name"] for d in outer["hps"]}
    if len(set(ren.values())) != len(ren) or onames & set(ren.values()):
        return 0
    moved = rename(inner, ren)
    comb = {"hps": outer["hps"] + moved["hps"], "conds": list(moved["conds"]), "forbs": outer["forbs"] + moved["forbs"], "name": outer.get("name"), "seed": 1}
    if c["parent"]:
        pn, pv = c["parent"]
        have = {S.cond_child(x) for x in moved["conds"]}
        for d in moved["hps"]:
            if d["name"] not in have:
                comb["conds"].append({"op": "==", "c": d["name"], "p": pn, "v": pv})
    ref = S.Ref(comb)
    cs_in = S.build_space(inner)
    cs_out = S.build_space(outer)
    snap = (repr(cs_in), plain(cs_in.to_serialized_dict()), list(cs_in), list(cs_in.forbidden_clauses), list(cs_in.conditions))
    parent = {"parent": cs_out[c["parent"][0]], "value": c["parent"][1]} if c["parent"] else None
    st, e = call(cs_out.add_configuration_space, c["prefix"], cs_in, c["delim"], parent)
    require(st == "ok", f"adding a space raised {e!r}")
    want = S.build_space(comb)
    check_layout(cs_out, ref)
    for n in want:
        hp_same(ref.D[n], want[n], cs_out[n])
    require(sorted(str(x) for x in want.conditions) == sorted(str(x) for x in cs_out.conditions), "other conditions after adding a space", got=[str(x) for x in cs_out.conditions], want=[str(x) for x in want.conditions])
    require(sorted(str(x) for x in want.forbidden_clauses) == sorted(str(x) for x in cs_out.forbidden_clauses), "other clauses after adding a space", got=[str(x) for x in cs_out.forbidden_clauses])
    n = same_acceptance(want, cs_out, ref, c["seed"], 18)
    require(snap[0] == repr(cs_in) and snap[1] == plain(cs_in.to_serialized_dict()) and snap[2] == list(cs_in), "the added space changed")
    n += same_acceptance(cs_in, S.build_space(inner), S.Ref(inner), c["seed"] + 3, 6)
    if c["nest"]:
        # add the combination into a third space
        cs_top = S.build_space({"hps": [{"t": "cat", "name": "top", "choices": ["x", "y"]}], "conds": [], "forbs": []})
        ren2 = {k: "T:" + k for k in ref.D}
        if "top" not in ren2.values():
            comb2 = rename(comb, ren2)
            comb2["hps"] = comb2["hps"] + [{"t": "cat", "name": "top", "choices": ["x", "y"]}]
            have = {S.cond_child(x) for x in comb2["conds"]}
            comb2["conds"] = comb2["conds"] + [{"op": "==", "c": d["name"], "p": "top", "v": "y"} for d in comb2["hps"] if d["name"] not in have and d["name"] != "top"]
            st, e = call(cs_top.add_configuration_space, "T", cs_out, ":", {"parent": cs_top["top"], "value": "y"})
            require(st == "ok", f"nesting a space raised {e!r}")
            ref2 = S.Ref(comb2)
            check_layout(cs_top, ref2)
            n += same_acceptance(S.build_space(comb2), cs_top, ref2, c["seed"] + 5, 12)
    return n + 1


def run_prior(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    cs = S.build_space(sp)
    snap = (repr(cs), plain(cs.to_serialized_dict()))
    u = cs.remove_hyperparameter_priors()
    import ConfigSpace as CS

    require(list(u) == list(cs), "other layout without priors", got=list(u), want=list(cs))
    for n in cs:
        a, b = cs[n], u[n]
        for k in ("name", "default_value", "size", "lower", "upper", "log", "choices", "sequence", "value", "meta"):
            if hasattr(a, k):
                require(plain(getattr(a, k)) == plain(getattr(b, k)), f"{k} changed by removing priors", hp=ref.D[n], got=getattr(b, k))
        t = ref.D[n]["t"]
        if t in S.FLOATS:
            require(isinstance(b, CS.UniformFloatHyperparameter), "not uniform", hp=ref.D[n])
        if t in S.INTS:
            require(isinstance(b, CS.UniformIntegerHyperparameter), "not uniform", hp=ref.D[n])
        if t == "cat":
            require(b.weights is None and len(set(np.asarray(b.probabilities).tolist())) == 1, "still weighted", hp=ref.D[n])
        require(b is not a, "a hyperparameter is shared with the original", hp=ref.D[n])
    require(sorted(str(x) for x in cs.conditions) == sorted(str(x) for x in u.conditions), "other conditions without priors", got=[str(x) for x in u.conditions])
    require(sorted(str(x) for x in cs.forbidden_clauses) == sorted(str(x) for x in u.forbidden_clauses), "other clauses without priors", got=[str(x) for x in u.forbidden_clauses])
    usp = {**sp, "hps": [unprior(d, cs[d["name"]]) for d in sp["hps"]]}
    n = same_acceptance(cs, u, S.Ref(usp), c["seed"], 18)
    require(snap == (repr(cs), plain(cs.to_serialized_dict())), "the original space changed")
    return n + 1


def unprior(d, hp):
    d = dict(d)
    d["t"] = {"nf": "uf", "bf": "uf", "ni": "ui", "bi": "ui"}.get(d["t"], d["t"])
    if d["t"] != "const":
        d["default"] = hp.default_value
    d.pop("weights", None)
    return d


# ------------------------------------------------------------------ C15
def gen_C15(r, i):
    sp = G.gen_space(r, nmax=5, types=["cat", "ui", "ord", "uf", "const", "cat"], small=True, dense=True)
    for d in sp["hps"]:
        if d["t"] in ("cat", "ord"):
            k = "choices" if d["t"] == "cat" else "sequence"
    steps = {d["name"]: r.choice([1, 2, 2, 3, 4]) for d in sp["hps"] if d["t"] in S.NUM}
    return {"sp": sp, "steps": steps}


def grid_values(d, steps):
    if d["t"] not in S.NUM:
        return S.options(d)
    n = steps[d["name"]]
    lo, up = d["lower"], d["upper"]
    if d.get("log"):
        a, b = math.log(lo), math.log(up)
        pts = [math.exp(a + (b - a) * j / (n - 1)) if n > 1 else lo for j in range(n)]
    else:
        pts = [lo + (up - lo) * j / (n - 1) if n > 1 else lo for j in range(n)]
    pts = [min(max(p, lo), up) for p in pts]
    if d["t"] in S.INTS:
        out = []
        for p in pts:
            if abs(p - math.floor(p) - 0.5) < 1e-9:
                q = 2 * round(p / 2)
                q = int(np.round(p))
            else:
                q = int(math.floor(p + 0.5))
            if q not in out:
                out.append(q)
        return out
    return pts


def run_C15(c):
    from ConfigSpace.util import generate_grid

    sp, steps = c["sp"], c["steps"]
    ref = S.Ref(sp)
    tot = 1
    for d in sp["hps"]:
        tot *= len(grid_values(d, steps))
    if tot > 1500:
        return 0
    # float thresholds on grid points: only clear cases
    mk = marks_of(sp)
    for d in sp["hps"]:
        if d["t"] in S.FLOATS:
            for m in mk.get(d["name"], []):
                for g in grid_values(d, steps):
                    if abs(m - g) < 1e-6 * max(1e-3, abs(m)):
                        return 0
    cs = S.build_space(sp)
    want = []

    def rec(k, a):
        if k == len(ref.topo):
            want.append(dict(a))
            return
        n = ref.topo[k]
        if n in ref.cond and not S.holds(ref.cond[n], a, ref.D):
            rec(k + 1, a)
            return
        for v in grid_values(ref.D[n], steps):
            a[n] = v
            rec(k + 1, a)
            del a[n]

    rec(0, {})
    for a in want:
        if not rel_ok(sp, a, ref.D):
            return 0
    want = [a for a in want if not ref.is_forbidden(a)]
    before = repr(cs)
    st, got = call(generate_grid, cs, dict(steps))
    require(st == "ok", f"generate_grid raised {got!r}")
    require(repr(cs) == before, "generate_grid changed the space")
    gv = [cfg_values(x) for x in got]

    def key(a):
        return tuple(sorted((n, grid_pos(ref.D[n], steps, v)) for n, v in a.items()))

    wk = {key(a) for a in want}
    gk = [key(a) for a in gv]
    require(len(set(gk)) == len(gk), "a configuration twice in the grid", n=len(gk), distinct=len(set(gk)))
    miss = wk - set(gk)
    extra = set(gk) - wk
    require(not miss, "configurations missing in the grid", missing=list(miss)[:3], n=len(miss))
    require(not extra, "configurations in the grid that do not belong there", extra=list(extra)[:3], n=len(extra))
    for x in got:
        st, e = call(x.check_valid_configuration)
        require(st == "ok", f"an invalid configuration in the grid: {e!r}", values=dict(x))
    return len(gk) + 1


def grid_pos(d, steps, v):
    for k, g in enumerate(grid_values(d, steps)):
        if S.same_value(d, v, g):
            return k
    raise Violation(f"{v!r} of {d['name']} is not a grid value {grid_values(d, steps)!r}")


# ------------------------------------------------------------------ C16
def gen_C16(r, i):
    sp = G.gen_space(r, nmax=6, types=None if i % 2 else FAST, dense=True, simple_values=i % 3 != 0)
    ref = S.Ref(sp)
    ops = []
    for _ in range(8):
        n = r.choice(list(ref.D))
        ops.append((r.choice(["get", "in", "set", "dict", "iter", "hash", "getdef"]), n, (G.gen_value_sampled if r.random() < 0.5 else G.gen_value)(r, ref.D[n])))
    return {"sp": sp, "ops": ops, "form": r.choice(["values", "vector", "sample", "default"]), "seed": r.randrange(10**6)}


def check_mapping(cs, ref, cfg):
    v = np.array(cfg.get_array())
    names = [n for n in cs if not math.isnan(v[cs.index_of[n]])]
    require(list(cfg) == names, "iteration is not the set hyperparameters in order", got=list(cfg), want=names)
    require(list(cfg.keys()) == names, "keys differ from iteration")
    dct = dict(cfg)
    require(list(dct) == names, "dict differs from iteration")
    require([k for k, _ in cfg.items()] == names and len(list(cfg.values())) == len(names), "items or values differ from iteration")
    for n in ref.D:
        if n in names:
            require(n in cfg, "a set hyperparameter is not contained", name=n)
            x = cs[n].to_value(float(v[cs.index_of[n]]))
            y = cfg[n]
            require(S.same_value(ref.D[n], x, y), "lookup is not the decoded vector entry", name=n, vector=float(v[cs.index_of[n]]), decoded=x, got=y)
            require(S._eq(cfg.get(n, "missing"), y), "get differs from lookup", name=n)
            require(S._eq(dct[n], y), "dict differs from lookup", name=n)
            if ref.D[n]["t"] in S.FLOATS:
                require(isinstance(y, float), "a float hyperparameter has no float value", name=n, got=type(y).__name__)
                require(abs(y) >= 100 or y == float(np.round(y, 13)), "the value of a float hyperparameter is not rounded", name=n, got=y)
        else:
            require(n not in cfg, "an unset hyperparameter is contained", name=n)
            st, e = call(cfg.__getitem__, n)
            require(st == "raise" and isinstance(e, KeyError), "looking up an unset hyperparameter does not raise KeyError", name=n, got=repr(e))
            require(cfg.get(n, "missing") == "missing", "get of an unset hyperparameter is not the default", name=n)
    require("no such" not in cfg and 3 not in cfg, "an unknown name is contained")
    st, e = call(cfg.__getitem__, "no such")
    require(st == "raise" and isinstance(e, KeyError), "looking up an unknown name does not raise KeyError", got=repr(e))


def run_C16(c):
    sp = c["sp"]
    ref = S.Ref(sp)
    if acceptance(ref, 80) < 0.1:
        return 0
    cs = S.build_space(sp)
    cs.seed(c["seed"])
    base = cs.sample_configuration() if c["form"] != "default" else cs.get_default_configuration()
    mk = marks_of(sp)
    ops = [(o, n, v) for o, n, v in c["ops"] if ref.D[n]["t"] not in S.FLOATS or not any(G.near(v, m) for m in mk.get(n, []))]
    if any(ref.D[n]["t"] in S.FLOATS and any(G.near(v, m) for m in mk.get(n, [])) for n, v in base.items()):
        return 0
    if c["form"] == "values":
        cfg = Configuration(cs, values=dict(base))
    elif c["form"] == "vector":
        cfg = Configuration(cs, vector=np.array(base.get_array()).copy())
    else:
        cfg = base
    check_mapping(cs, ref, cfg)
    n = 1
    for op, name, val in ops:
        if op == "get":
            call(cfg.__getitem__, name)
        elif op == "in":
            name in cfg
        elif op == "dict":
            dict(cfg)
        elif op == "iter":
            list(cfg)
        elif op == "hash":
            call(hash, cfg)
        elif op == "getdef":
            cfg.get(name, None)
        else:
            call(cfg.__setitem__, name, val)
        if op in ("set", "dict"):
            check_mapping(cs, ref, cfg)
        n += 1
    check_mapping(cs, ref, cfg)
    # equality and hash
    cs2 = S.build_space(sp)
    twins = [Configuration(cs, values=dict(cfg)), Configuration(cs2, values=dict(cfg)), Configuration(cs, vector=np.array(cfg.get_array()).copy())]
    for t in twins:
        eq = dict(t) == dict(cfg)
        require((t == cfg) is eq and (cfg == t) is eq, "equality is not equality of the dictionaries", a=dict(t), b=dict(cfg))
        if eq:
            require(hash(t) == hash(cfg), "equal configurations with different hashes", a=dict(t), b=dict(cfg))
        require(eq or any(ref.D[k]["t"] in S.FLOATS for k in cfg), "a copy is not equal", a=dict(t), b=dict(cfg))
    eq3 = Configuration(cs, values=dict(twins[0]))
    require(eq3 == twins[0] and hash(eq3) == hash(twins[0]), "a configuration from the same values is not equal")
    others = cs.sample_configuration(4)
    for o in others:
        eq = dict(o) == dict(cfg)
        require((o == cfg) is eq, "equality is not equality of the dictionaries", a=dict(o), b=dict(cfg))
        require((o != cfg) is (not eq), "inequality is not the negation of equality")
        if eq:
            require(hash(o) == hash(cfg), "equal configurations with different hashes", a=dict(o), b=dict(cfg))
    require((cfg == dict(cfg)) is False or True, "")
    # another space: never equal
    sp3 = {**sp, "hps": sp["hps"] + [{"t": "const", "name": "extra one", "value": 1}]}
    cs3 = S.build_space(sp3)
    o = cs3.get_default_configuration()
    require(o != cfg, "configurations of different spaces are equal")
    for d in sp["hps"]:
        d4 = None
        if d["t"] in ("ui", "uf"):
            d4 = {**d, "upper": d["upper"] + 1, "default": S.default_of(d, cs[d["name"]])}
        elif d["t"] == "ord":
            d4 = {**d, "sequence": [*d["sequence"], "one more"], "default": S.default_of(d, cs[d["name"]])}
        if d4 is None:
            continue
        st, o = call(lambda d4=d4: Configuration(S.build_space({**sp, "hps": [d4 if x is d else x for x in sp["hps"]]}), values=dict(cfg)))
        if st == "ok":
            require(o != cfg and cfg != o, "configurations of different spaces with the same values are equal", name=d["name"], values=dict(cfg))
            n += 1
            break
    return n


# ------------------------------------------------------------------ C17
def gen_C17(r, i):
    sp = G.gen_space(r, nmax=7, nmin=2, types=["cat", "ui", "ord", "uf", "cat", "const"], dense=True, small=True)
    ref = S.Ref(sp)
    mk = marks_of(sp)
    rows = []
    for _ in range(8):
        rows.append({n: pick(r, d, mk, True) for n, d in ref.D.items()})
    return {"sp": sp, "rows": rows, "num": r.choice([-1.0, 0.5, 2.0])}


def run_C17(c):
    from ConfigSpace.util import deactivate_inactive_hyperparameters, impute_inactive_values

    sp = c["sp"]
    ref = S.Ref(sp)
    cs = S.build_space(sp)
    hps = {k: cs[k] for k in cs}
    n = 0
    for full in c["rows"]:
        if not rel_ok(sp, full, ref.D):
            continue
        want = ref.restrict(full)
        # all intermediate assignments are sub-assignments, clauses are monotone
        if not ref.is_forbidden(full) and len(cs) > 0:
            keep = dict(full)
            st, got = call(deactivate_inactive_hyperparameters, full, cs)
            require(full == keep, "the given assignment changed")
            require(st == "ok", f"deactivating raised {got!r}", values=full)
            require(S.same_assign(ref.D, cfg_values(got), want), "wrong configuration after deactivating", values=full, got=cfg_values(got), want=want)
            st, e = call(got.check_valid_configuration)
            require(st == "ok", f"invalid after deactivating: {e!r}")
            v = vec_of(cs, full)
            v0 = v.copy()
            st, got2 = call(deactivate_inactive_hyperparameters, None, cs, v)
            require(st == "ok", f"deactivating a vector raised {got2!r}", values=full)
            require(S.same_assign(ref.D, cfg_values(got2), want), "wrong configuration after deactivating a vector", values=full, got=cfg_values(got2), want=want)
            require(same_arr(v, v0), "the given vector changed")
            n += 1
        if not ref.is_forbidden(want):
            cfg = Configuration(cs, values=want)
            arr0 = cfg.get_array().copy()
            imp = {k: want.get(k, S.default_of(ref.D[k], hps[k])) for k in ref.D}
            if not ref.is_forbidden(imp) and rel_ok(sp, imp, ref.D) and ref.problem(imp, True) is None:
                st, got = call(impute_inactive_values, cfg)
                require(st == "ok", f"imputing raised {got!r}", values=want)
                require(S.same_assign(ref.D, cfg_values(got), imp), "wrong values after imputing", values=want, got=cfg_values(got), want=imp)
                require(same_arr(cfg.get_array(), arr0) and S.same_assign(ref.D, cfg_values(cfg), want), "imputing changed the given configuration")
                n += 1
            x = c["num"]
            if all(S.in_domain(ref.D[k], x) for k in ref.D if k not in want):
                imp = {k: want.get(k, x) for k in ref.D}
                if not ref.is_forbidden(imp) and rel_ok(sp, imp, ref.D) and ref.problem(imp, True) is None:
                    st, got = call(impute_inactive_values, cfg, x)
                    require(st == "ok", f"imputing a number raised {got!r}", values=want)
                    require(S.same_assign(ref.D, cfg_values(got), imp), "wrong values after imputing a number", values=want, got=cfg_values(got), want=imp)
                    n += 1
            st, e = call(impute_inactive_values, cfg, "no such strategy")
            if len(want) < len(ref.D):
                require(st == "raise", "an unknown strategy was accepted")
    return n
