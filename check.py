#!/usr/bin/env python3
"""check.py <property> : decides one property on the current tree of /repo.

1. deductive part (pyvc): the contracts of the functions the property depends
   on are verified against the current source, function by function;
2. replay: counterexamples of refuted obligations are run on the unmodified
   code; the contracts are also run there on random inputs (cross-check of the
   verifier);
3. bounded part (rt): run-time contract check of the whole property against an
   independent reference, for the functions that are out of reach and as the
   search for failing inputs of refuted obligations.

Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
from __future__ import annotations

import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
RT_PY = "/opt/venv/bin/python"
VT_PY = "python3-vt"

# cases of the bounded part: quick, thorough
COUNTS = {
    "C01": (12000, 400000), "C02": (12000, 400000), "C03": (9000, 250000),
    "C04": (9000, 250000), "C05": (9000, 250000), "C06": (9000, 200000),
    "C07": (6000, 150000), "C08": (4500, 100000), "C09": (6000, 120000),
    "C10": (8000, 160000), "C11": (6000, 100000), "C12": (4000, 60000),
    "C13": (6000, 100000), "C14": (7000, 120000), "C15": (9000, 200000),
    "C16": (7000, 120000), "C17": (9000, 150000), "C18": (12000, 300000),
    "C19": (30000, 1000000),
}

THEOREM_RUNS = {"quick": 400, "thorough": 20000}

ENV_ASSUMPTIONS = [
    "CPython 3.12, numpy and scipy behave as documented",
    "machine arithmetic treated as mathematical: float64 as reals, int64 as unbounded integers "
    "(rounding is exercised by the concrete runs and the bounded part only)",
    "generators are run to their end where they are made; while loops: partial correctness",
    "the rewriting of the source, the models of the numpy functions used, and z3 / cvc5",
]


def known_findings():
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.setdefault(m[1], {})[m[2]] = m[3].strip()
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    count = COUNTS[prop][tier == "thorough"]
    env = dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        rt_out, vc_out, rp_out = (os.path.join(tmp, x) for x in ("rt.json", "vc.json", "rp.json"))
        limit = 200 if tier == "quick" else 3000
        prove = os.path.join(VERIF, "pyvc", "prove.py")
        vc = None
        if os.path.exists(prove):
            venv = {k: v for k, v in env.items() if k != "PYTHONPATH"}
            vc = run([VT_PY, prove, prop, "--out", vc_out, "--tier", tier], venv, VERIF, 400 if tier == "quick" else 7000)
            run(
                [RT_PY, os.path.join(VERIF, "pyvc", "replay.py"), prop, "--count", str(THEOREM_RUNS[tier]), "--seed", str(seed), "--out", rp_out,
                 "--limit", str(60 if tier == "quick" else 1200), *(["--models", vc_out] if os.path.exists(vc_out) else [])],
                env, tmp, 150 if tier == "quick" else 2000,
            )
        rt = run(
            [RT_PY, os.path.join(VERIF, "rt", "runner.py"), prop, "--count", str(count), "--seed", str(seed), "--limit", str(limit), "--out", rt_out],
            env, tmp, limit + 100,
        )
        rtr = json.load(open(rt_out)) if os.path.exists(rt_out) else None
        vcr = json.load(open(vc_out)) if os.path.exists(vc_out) else None
        rpr = json.load(open(rp_out)) if os.path.exists(rp_out) else None
        code = report(prop, tier, seed, t0, rtr, rt, vcr, vc, rpr, evdir, repdir, env)
    return code


def run(cmd, env, cwd, limit):
    """Output of a command; it is ended after limit seconds."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return p.communicate(timeout=limit)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return p.communicate()[0] + "\n(time limit)"


def write_replay(repdir, prop, n, data):
    path = os.path.join(repdir, f"{prop}-{n}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def report(prop, tier, seed, t0, rtr, rt, vcr, vc, rpr, evdir, repdir, env):
    violations = 0
    lines = []
    known = known_findings().get(prop, {})
    how = f"{RT_PY} {VERIF}/rt/runner.py {prop} --replay <this file>"

    def hit(v, tag, **more):
        path = write_replay(repdir, prop, tag, {"property": prop, "kind": "contract", **v, **more, "replay_with": f"PYTHONPATH=/repo/src {RT_PY} {VERIF}/pyvc/replay.py {prop} --replay <this file>"})
        return f"VIOLATION property={prop} replay={path}"

    # ---- bounded part
    rt_failed = False
    if rtr is None:
        print(f"BOUNDED-CHECK-ERROR property={prop}")
        print(rt[-3000:])
    else:
        for k in rtr["known"]:
            if k not in known:
                rt_failed = True
                path = write_replay(repdir, prop, f"known-{k}", {"property": prop, "kind": "unlisted finding", "key": k})
                lines.append(f"VIOLATION property={prop} replay={path}")
                violations += 1
        for n, (i, kind, msg, case) in enumerate(rtr["bad"][:3]):
            rt_failed = True
            path = write_replay(repdir, prop, n, {"property": prop, "kind": kind, "message": msg, "seed": seed, "index": i, "case": case, "replay_with": how})
            print(f"  case {i}: {kind}: {msg[:600]}")
            lines.append(f"VIOLATION property={prop} replay={path}")
            violations += 1
        for i, msg in rtr["harness"][:2]:
            print(f"UNDECIDED-CASE property={prop} index={i} {msg[:300]}")
    # ---- deductive part
    obligations, proved, undecided, refuted = [], [], [], []
    if vcr is not None:
        obligations = vcr["obligations"]
        proved = [o for o in obligations if o["status"] == "proved"]
        undecided = [o for o in obligations if o["status"] in ("unknown", "unsupported")]
        refuted = [o for o in obligations if o["status"] == "refuted"]
        for o in undecided:
            print(f"UNDECIDED-OBLIGATION property={prop} {o['name']}: {o.get('detail', '')[:300]}")
        for n, o in enumerate(refuted):
            print(f"REFUTED-OBLIGATION property={prop} {o['name']}: {o.get('detail', '')[:500]}")
        open_refuted = []
        for n, o in enumerate(obligations):
            if o["status"] != "refuted":
                continue
            rep = (rpr or {}).get("models", {}).get(str(n))
            if rep and rep["violated"]:
                lines.append(hit(rep["violated"], f"vc{n}", obligation=o["name"], function=o.get("function"), verifier=o.get("detail")))
                violations += 1
            elif rep and o.get("exact") and rep["ok"] and not rep["reject"]:
                print(f"SPURIOUS-COUNTEREXAMPLE property={prop} {o['name']}: the model does not fail on the real code")
                undecided.append(o)
            else:
                open_refuted.append(o)
        for n, v in enumerate((rpr or {}).get("violated", [])):
            if v["values"] is None:
                o = f"{v['theorem']}: {v['message']}"
                print(f"  contract {o[:500]} inputs {v['inputs']}"[:1500])
                lines.append(hit(v, f"contract{n}", obligation=o))
                violations += 1
        for t, msg in (rpr or {}).get("harness", [])[:3]:
            print(f"UNDECIDED-CONTRACT property={prop} {t}: {msg[:300]}")
        if open_refuted and not violations:
            for n, o in enumerate(open_refuted[:3]):
                path = write_replay(repdir, prop, f"obligation{n}", {"property": prop, "kind": "obligation", "obligation": o["name"], "function": o.get("function"), "verifier": o.get("detail"), "note": "no failing input was found by the replay search"})
                lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
                violations += 1
        if vcr.get("problems"):
            for p in vcr["problems"]:
                print(f"DEDUCTIVE-PART property={prop}: {p[:400]}")
    elif vc is not None:
        print(f"DEDUCTIVE-PART-ERROR property={prop}: relying on the bounded part\n{vc[-1500:]}")
    for k, text in known.items():
        if rtr is not None and k not in rtr["known"]:
            continue
        print(f"KNOWN-FINDING: property={prop} {text}")
    # ---- evidence
    full = bool(obligations) and len(proved) == len(obligations) and vcr.get("complete", False)
    cov = {}
    if vcr is not None:
        cov.update(
            obligations=len(obligations), discharged=len(proved),
            discharged_for_all_inputs=sum(not o.get("bounded") for o in proved),
            discharged_for_given_structures_only=sum(bool(o.get("bounded")) for o in proved),
            given_structures=vcr.get("bounded", {}),
            checker_cmd=f"{VT_PY} pyvc/prove.py {prop}",
            trusted_base=vcr.get("trusted", []),
            functions_under_contract=vcr.get("functions", []),
            functions_executed_symbolically=vcr.get("executed", []),
            by_back_end=vcr.get("backends", {}), solver_s=vcr.get("solver_s", 0),
            paths=vcr.get("paths", 0), vacuity_covers=vcr.get("covers", {}),
            undecided=[o["name"] for o in undecided],
            obligation_names=[o["name"] for o in obligations],
        )
    if rpr is not None:
        cov.update(
            contract_runs_on_cpython=sum(d["ok"] for d in rpr["random"].values()),
            contract_checks_on_cpython=sum(d["checks"] for d in rpr["random"].values()),
        )
    if rtr is not None:
        cov.update(
            evaluations=rtr["run"], distinct_nontrivial=rtr["nontrivial"],
            bounded_contract_evaluations=rtr["checks"],
            rule=f"bounded part: cases generated from seed {seed} by rt/gen (index 0..{rtr['requested'] - 1}); non-trivial: at least one contract was evaluated; never counted as proved",
            samples=rtr["samples"],
        )
    cov["explanation"] = (
        "Deductive part: obligations generated from the current source and discharged by an SMT solver, for all inputs. "
        "Bounded part: stands in for what the contracts do not reach (see level_note in MANIFEST.json)."
    )
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": level_of(prop), "coverage": cov,
        "assumptions": ENV_ASSUMPTIONS + (vcr.get("assumptions", []) if vcr else []),
        "wall_s": round(time.time() - t0, 3), "violations": violations,
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop}: {len(proved)}/{len(obligations)} obligations discharged, {len(undecided)} undecided, {len(refuted)} refuted; "
        f"bounded: {rtr['run'] if rtr else 0} cases, {rtr['checks'] if rtr else 0} contract evaluations; {time.time() - t0:.1f} s"
    )
    for line in lines:
        print(line)
    if lines:
        return 1
    if rtr is None or (rtr["run"] == 0):
        return 2  # no verdict
    if vcr is None and vc is not None and rtr is None:
        return 2
    return 0


def level_of(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except OSError:
        pass
    return "other"


if __name__ == "__main__":
    sys.exit(main())
