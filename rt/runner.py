"""Runs the bounded run-time contract check of one property.

usage: runner.py <property> --count N --seed S --out FILE [--replay FILE]
Writes a JSON summary to FILE. Replay files are self-contained.
"""
from __future__ import annotations

import argparse
import ast
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
warnings.simplefilter("ignore")

CPU_LIMIT = 60.0


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout


def load():
    import props_hp
    import props_space

    table = {}
    for m in (props_hp, props_space):
        for k, v in vars(m).items():
            if k[:4] in ("gen_", "run_") and k[4:5] == "C" and k[5:].isdigit():
                table[k] = v
    return table


def one(prop, case, table):
    """None if the case passes, else (kind, message)."""
    from core import Violation

    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        n = table["run_" + prop](case)
        return None, n
    except Violation as e:
        return ("contract", str(e)), 0
    except Timeout:
        return ("termination", f"no result within {CPU_LIMIT:.0f} s of CPU time"), 0
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-4:]
        inside = any("/ConfigSpace/" in f.filename for f in tb)
        kind = "raised" if inside else "result"
        if not inside and isinstance(e, (AttributeError, ImportError, NameError)):
            kind = "harness"  # the harness relies on a name that is gone: no verdict
        return (kind, f"{type(e).__name__}: {e} at {' <- '.join(reversed(where))}"), 0
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def work(a):
    prop, seed, lo, hi, deadline = a
    table = load()
    res = {"run": 0, "nontrivial": 0, "checks": 0, "bad": [], "genfail": [], "harness": [], "known": [], "sample": None}
    for i in range(lo, hi):
        if time.time() > deadline:
            res["cut"] = True
            break
        r = random.Random(f"{prop}/{seed}/{i}")
        try:
            case = table["gen_" + prop](r, i)
        except Exception as e:  # noqa: BLE001
            # generators build hyperparameters to learn their defaults
            if any("/ConfigSpace/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
                res["bad"].append((i, "raised", f"building a hyperparameter raised {type(e).__name__}: {e}", f"GEN:{seed}:{i}"))
            else:
                res["genfail"].append((i, f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]))
            continue
        bad, n = one(prop, case, table)
        res["run"] += 1
        res["checks"] += n
        res["nontrivial"] += n > 0
        if bad and bad[0] == "harness":
            res["harness"].append((i, bad[1]))
        elif bad:
            res["bad"].append((i, bad[0], bad[1], repr(case)))
            if len(res["bad"]) >= 3:
                break
        elif n > 0 and res["sample"] is None:
            res["sample"] = repr(case)[:1500]
    import core

    res["known"] = sorted(core.KNOWN_HITS)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--count", type=int, default=400)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--limit", type=float, default=400.0)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        table = load()
        if d["case"].startswith("GEN:"):
            _, seed, i = d["case"].split(":")
            try:
                case = table["gen_" + d["property"]](random.Random(f"{d['property']}/{seed}/{i}"), int(i))
            except Exception as e:  # noqa: BLE001
                print("VIOLATED", f"{type(e).__name__}: {e}")
                return 1
        else:
            case = ast_case(d["case"])
        bad, n = one(d["property"], case, table)
        print("VIOLATED" if bad else "holds", bad or n)
        return 1 if bad else 0
    t0 = time.time()
    step = max(1, min(10, a.count // (a.jobs * 3) or 1))
    tasks = [(a.prop, a.seed, lo, min(lo + step, a.count), t0 + a.limit) for lo in range(0, a.count, step)]
    tot = {"run": 0, "nontrivial": 0, "checks": 0, "bad": [], "genfail": [], "harness": [], "known": [], "samples": [], "cut": False}
    with mp.get_context("fork").Pool(a.jobs) as pool:
        for r in pool.imap_unordered(work, tasks):
            for k in ("run", "nontrivial", "checks"):
                tot[k] += r[k]
            tot["bad"] += r["bad"]
            tot["genfail"] += r["genfail"]
            tot["harness"] += r["harness"]
            tot["known"] = sorted(set(tot["known"]) | set(r["known"]))
            if r["sample"] and len(tot["samples"]) < 3:
                tot["samples"].append(r["sample"])
            tot["cut"] |= r.get("cut", False)
            if len(tot["bad"]) >= 8:
                pool.terminate()
                break
    tot["bad"].sort()
    tot["genfail"].sort()
    tot["wall_s"] = time.time() - t0
    tot["requested"] = a.count
    if a.out:
        json.dump(tot, open(a.out, "w"))
    else:
        print({k: v for k, v in tot.items() if k not in ("bad", "genfail")})
        for b in tot["bad"][:6]:
            print(b[0], b[1], b[2][:1500])
        print(tot['harness'][:2])
        for b in tot["genfail"][:2]:
            print("GENFAIL", b[0], b[1], b[2])
    return 0


def ast_case(s):
    try:
        return ast.literal_eval(s)
    except ValueError:
        return eval(s, {"__builtins__": {}, "inf": float("inf"), "nan": float("nan")})  # noqa: S307


if __name__ == "__main__":
    sys.exit(main())
