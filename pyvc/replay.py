"""Contracts on the unmodified code: counterexamples of the verifier and random inputs.

usage: replay.py <property> --models FILE --count N --seed S --out FILE
       replay.py <property> --replay FILE
Runs with the interpreter of the repository.
"""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
warnings.simplefilter("ignore")


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow


def attempt(th, values, seed):
    import concrete

    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, 20)
    try:
        return concrete.run(th, values, seed)
    except Slow:
        return "slow", "", {}, 0
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def job(a):
    import contracts

    name, values, seeds, deadline = a
    th = next(t for t in contracts.load() if t.name == name)
    res = dict(theorem=name, ok=0, reject=0, checks=0, violated=None, harness=None, slow=0)
    for s in seeds:
        if time.time() > deadline:
            break
        st, msg, used, n = attempt(th, values, s)
        res["checks"] += n
        if st == "violated":
            res["violated"] = dict(theorem=name, values=values, seed=s, message=msg, inputs={k: repr(v)[:300] for k, v in used.items()})
            break
        if st == "harness":
            res["harness"] = msg
            break
        res[st] += 1
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--models")
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=120)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--theorem")
    a = ap.parse_args()
    import contracts

    if a.replay:
        d = json.load(open(a.replay))
        th = next(t for t in contracts.load() if t.name == d["theorem"])
        st, msg, used, n = attempt(th, d["values"], d["seed"])
        print({k: repr(v)[:300] for k, v in used.items()})
        print("VIOLATED" if st == "violated" else st, msg)
        return 1 if st == "violated" else 0
    deadline = time.time() + a.limit
    jobs, tags = [], []
    if a.models:
        vc = json.load(open(a.models))
        runnable = {t.name for t in contracts.of_property(a.prop) if t.concrete}
        for i, o in enumerate(vc["obligations"]):
            if o["theorem"] not in runnable:
                continue
            for m in o.get("models", [])[:6]:
                # inputs the model leaves open are completed in several ways
                jobs.append((o["theorem"], m, [a.seed * 1000 + j for j in range(12)], deadline))
                tags.append(("model", i))
    for t in contracts.of_property(a.prop):
        if not t.concrete or (a.theorem and t.name != a.theorem):
            continue
        per = max(1, a.count // 8)
        for c in range(8):
            jobs.append((t.name, None, [a.seed * 10**6 + c * per + j for j in range(per)], deadline))
            tags.append(("random", t.name))
    out = dict(models={}, random={}, violated=[], harness=[])
    with mp.Pool(a.jobs) as pool:
        for (kind, key), r in zip(tags, pool.map(job, jobs, chunksize=1)):
            d = out["models" if kind == "model" else "random"].setdefault(str(key), dict(ok=0, reject=0, checks=0, slow=0, violated=None))
            for k in ("ok", "reject", "checks", "slow"):
                d[k] += r[k]
            if r["violated"] and d["violated"] is None:
                d["violated"] = r["violated"]
                out["violated"].append(r["violated"])
            if r["harness"]:
                out["harness"].append([r["theorem"], r["harness"]])
    json.dump(out, open(a.out, "w"), indent=1) if a.out else print(json.dumps(out, indent=1))
    return 0


if __name__ == "__main__":
    sys.exit(main())
