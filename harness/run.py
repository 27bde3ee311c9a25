"""Concrete oracle runner.
  run.py PROP --seed N --budget SECONDS --out FILE   search for a failing case (and cross-check on the passing tree)
  run.py --replay FILE                               re-run one recorded case
Writes {"cases": n, "failures": [{"case":..., "message":...}], ...}."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base  # noqa: E402
import numpy as np  # noqa: E402

MODS = ["cat", "gau", "graph", "misc"]


def find(prop, what):
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if hasattr(mod, f"{what}_{prop}"):
            return getattr(mod, f"{what}_{prop}")
    return None


def run_case(prop, case):
    """None when the case passes, otherwise the message."""
    chk = find(prop, "check")
    try:
        chk(json.loads(json.dumps(case)))
        return None
    except base.Fail as e:
        return str(e)
    except Exception as e:  # noqa: BLE001  the property promises an answer on this input
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if "/veroku/" in f.filename]
        where = f"{os.path.basename(inner[-1].filename)}:{inner[-1].name}" if inner else \
            f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        if not inner:
            return f"HARNESS {type(e).__name__} at {where}: {e}"
        return f"raised {type(e).__name__} in {where}: {str(e)[:300]}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10.0)
    ap.add_argument("--max-cases", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        if not rec.get("case"):
            print("no concrete case in this replay file; it records the failed obligation")
            return 0
        msg = run_case(rec["property"], rec["case"])
        print("REPRODUCED: " + msg if msg else "case passes on the current tree")
        return 1 if msg else 0
    gen = find(a.prop, "gen")
    known = find(a.prop, "known")  # known(case, message) -> finding id or None
    import veroku.cluster_graph  # noqa: F401  (import time is not search time)
    t0 = time.time()
    n = 0
    failures, knowns, samples = [], {}, []
    stream = find(a.prop, "fixed")
    fixed = list(stream()) if stream else []
    distinct = set()
    while (time.time() - t0 < a.budget or n < len(fixed) + 20) and n < a.max_cases:
        case = fixed[n] if n < len(fixed) else gen(np.random.default_rng([a.seed, n]), n)
        msg = run_case(a.prop, case)
        n += 1
        if n == 30 or (n < 30 and not samples):
            samples = [json.dumps(case, sort_keys=True)[:1500]]
        if len(distinct) < 200000:
            distinct.add(hash(json.dumps(case, sort_keys=True)))
        if msg:
            k = known(case, msg) if known else None
            if k:
                knowns.setdefault(k, {"case": case, "message": msg})
                continue
            failures.append({"case": case, "message": msg})
            if len(failures) >= 3 or time.time() - t0 > a.budget:
                break
    res = {"property": a.prop, "cases": n, "distinct": len(distinct), "failures": failures, "known": knowns,
           "samples": samples, "seconds": round(time.time() - t0, 2), "seed": a.seed}
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps({k: v for k, v in res.items() if k not in ("failures", "samples")}))
        for f in failures:
            print(f["message"])
            print("   ", json.dumps(f["case"])[:600])
    return 0


if __name__ == "__main__":
    sys.exit(main())
