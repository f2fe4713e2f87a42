"""prove.py <property> --out FILE [--tier quick|thorough]

Verifies the contracts of one property against the current source of /repo and
writes the obligations with their status.  Each theorem runs in its own process.
"""
from __future__ import annotations

import argparse
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
sys.dont_write_bytecode = True


def executed_functions():
    """Names of the functions of the verified package that get executed."""
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(4, "pyvc")

    def start(code, _off):
        if "/ConfigSpace/" in code.co_filename and "<" not in code.co_qualname.split(".")[-1] and not code.co_name.startswith("__b") and not code.co_name.startswith("__p"):
            mod = code.co_filename.split("/ConfigSpace/")[-1][:-3].replace("/", ".")
            seen.add(f"ConfigSpace.{mod}.{code.co_qualname.replace('.<locals>', '')}")
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    return seen, lambda: mon.set_events(4, mon.events.PY_START)


def one(name, tier):
    import load

    cs = load.install()
    import contracts
    import symbolic

    th = next(t for t in contracts.load() if t.name == name)
    timeout = 6000 if tier == "quick" else 30000
    budget = th.budget if tier == "quick" else th.budget * 8
    seen, on = executed_functions()
    on()
    main = symbolic.run_theorem(th, cs, None, timeout, budget)
    main["executed"] = sorted(seen)
    bad = [c for c in main["checks"] if c["status"] != "proved"]
    small = []
    if bad or main["problem"]:
        t0 = time.time()
        for n in th.small:
            if time.time() - t0 > budget / 2:
                break
            r = symbolic.run_theorem(th, cs, n, timeout, budget / 3)
            r["n"] = n
            small.append(r)
    return {"theorem": name, "main": main, "small": small}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--one")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.one:
        r = one(a.one, a.tier)
        json.dump(r, open(a.out, "w"))
        return 0
    import contracts

    ths = [t for t in contracts.of_property(a.prop) if a.tier == "thorough" or not t.thorough_only]
    wall = 330 if a.tier == "quick" else 6000
    deadline = time.time() + wall
    base = a.out + ".d"
    os.makedirs(base, exist_ok=True)

    def go(t):
        out = os.path.join(base, t.name + ".json")
        left = deadline - time.time()
        limit = min(left, (t.budget * 2 + 30) * (1 if a.tier == "quick" else 8))
        if left < 5:
            return t, None, "no time left"
        try:
            r = subprocess.run(
                [sys.executable, os.path.abspath(__file__), a.prop, "--one", t.name, "--out", out, "--tier", a.tier],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit,
            )
        except subprocess.TimeoutExpired:
            return t, None, "time limit"
        if not os.path.exists(out):
            return t, None, r.stdout[-1500:]
        return t, json.load(open(out)), None

    with ThreadPoolExecutor(a.jobs) as ex:
        # long ones first
        results = list(ex.map(go, sorted(ths, key=lambda t: -t.budget)))
    obligations, problems, trusted, functions, executed = [], [], set(), set(), set()
    backends, solver_s, paths, covers = {}, 0.0, 0, {}
    for t, r, err in results:
        if r is None:
            problems.append(f"{t.name}: {err}")
            obligations.append(dict(name=f"{t.name}: all", theorem=t.name, function=", ".join(t.functions), status="unsupported", detail=err, models=[]))
            continue
        m = r["main"]
        functions.update(t.functions)
        executed.update(m["executed"])
        trusted.update(m["trusted"])
        solver_s += m["solver_s"]
        paths += m["paths"]
        covers[t.name] = m["cover"]
        small = {}
        for s in r["small"]:
            for c in s["checks"]:
                if c["status"] == "refuted":
                    small.setdefault(c["label"], []).extend(c["models"])
        labels = {c["label"] for c in m["checks"]}
        # a loop invariant is part of the proof, not of the property: one that fails decides nothing by itself
        for c in m["checks"]:
            if c["label"].startswith("loop invariant") and (c["status"] == "refuted" or c["label"] in small):
                c.update(status="unknown", detail=f"the loop invariant does not fit the loop ({c['detail']})", models=[])
        small = {k: v for k, v in small.items() if not k.startswith("loop invariant")}
        for c in m["checks"]:
            st = c["status"]
            if st != "refuted" and c["label"] in small:
                st = "refuted"
                c["detail"] = f"counterexample for small lengths ({c['detail']})"
            elif m["problem"] and st == "proved":
                st = "unsupported"  # not all paths were examined
                c["detail"] = m["problem"]
            for k, v in c["backends"].items():
                backends[k] = backends.get(k, 0) + v
            obligations.append(dict(
                name=f"{t.name}: {c['label']}", theorem=t.name, function=", ".join(t.functions), status=st, detail=c["detail"],
                models=small.get(c["label"], []) + c["models"], instances=c["instances"], exact=m["exact"], bounded=t.bounded,
            ))
        for lab, models in small.items():
            if lab not in labels:
                obligations.append(dict(name=f"{t.name}: {lab}", theorem=t.name, function=", ".join(t.functions), status="refuted", detail="counterexample for small lengths", models=models, exact=m["exact"]))
        if m["problem"]:
            problems.append(f"{t.name}: {m['problem']}")
            if not m["checks"]:
                obligations.append(dict(name=f"{t.name}: all", theorem=t.name, function=", ".join(t.functions), status="unsupported", detail=m["problem"], models=[]))
    if not obligations:
        problems.append("no obligations were generated")
    json.dump(dict(
        obligations=obligations, problems=problems, trusted=sorted(trusted), functions=sorted(functions), executed=sorted(executed),
        assumptions=[], backends=backends, solver_s=round(solver_s, 2), paths=paths, covers=covers, complete=False,
        theorems=[t.name for t in ths], bounded={t.name: t.bounded for t in ths if t.bounded},
    ), open(a.out, "w"), indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
