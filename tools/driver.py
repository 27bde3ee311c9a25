"""Decide one property: discharge the contract obligations generated from /repo's current source, replay the recorded
oracle search against the real code, write the evidence file and print the verdict."""
import argparse
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
PRIVATE = re.compile(r"HARNESS (AttributeError|ImportError|ModuleNotFoundError|KeyError)\b.*(attribute '_|_animation|cannot import name '_)")


def repo_python():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; echo \"$PY\""], capture_output=True, text=True).stdout.strip()
    return out or "/opt/venv/bin/python"


def start_oracle(prop, seed, budget, procs):
    py, jobs = repo_python(), []
    os.makedirs(EVID, exist_ok=True)
    for k in range(procs):
        out = os.path.join(EVID, f".{prop}.{os.getpid()}.{k}.json")
        cmd = f". /opt/vp/env.sh >/dev/null 2>&1; exec {py} {HERE}/harness/run.py {prop} --seed {seed * 1000 + k} --budget {budget} --out {out}"
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO,
                   PYTHONHASHSEED=str(k))  # the iteration order of sets differs between the processes
        jobs.append((out, subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)))
    return jobs


def collect_oracle(jobs, limit):
    res = {"cases": 0, "distinct": 0, "failures": [], "known": {}, "undecided": [], "errors": [], "samples": []}
    end = time.time() + limit
    for out, p in jobs:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            res["errors"].append("oracle search exceeded its time limit")
            continue
        if p.returncode != 0 or not os.path.exists(out):
            res["errors"].append((err or b"").decode(errors="replace")[-1500:])
            continue
        r = json.load(open(out))
        os.remove(out)
        res["cases"] += r["cases"]
        res["distinct"] += r["distinct"]
        res["samples"] += r.get("samples", [])[:1]
        for k, v in r["known"].items():
            res["known"].setdefault(k, v)
        for f in r["failures"]:
            f["hashseed"] = jobs.index((out, p))
            (res["undecided"] if PRIVATE.search(f["message"]) else res["failures"]).append(f)
    return res


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    data = json.load(open(path)) if os.path.exists(path) else {"findings": []}
    return {f["id"]: f for f in data["findings"] if f["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-oracle", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.property
    quick = a.tier != "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "18" if quick else "240"))
    procs = 4 if quick else 7
    jobs = [] if a.no_oracle else start_oracle(prop, seed, budget, procs)
    proof = None
    try:
        from pyvc import prover
        proof = prover.run(prop, tier=a.tier, seed=seed, repo=REPO)
    except Exception:  # noqa: BLE001  a defect of the engine is no verdict about the code
        traceback.print_exc()
    orc = collect_oracle(jobs, budget + 400) if jobs else {"cases": 0, "distinct": 0, "failures": [], "known": {}, "undecided": [], "errors": [], "samples": []}
    failed = [o for o in (proof or {}).get("obligations", []) if o["status"] == "failed"]
    if failed and not orc["failures"] and jobs:
        # an obligation failed: look longer for a concrete failing input
        more = collect_oracle(start_oracle(prop, seed + 100, 60 if quick else 300, 7), 400)
        for k in ("cases", "distinct"):
            orc[k] += more[k]
        for k in ("failures", "undecided", "errors"):
            orc[k] += more[k]
        for k, v in more["known"].items():
            orc["known"].setdefault(k, v)
    finds = known_findings(prop)
    lines, violations = [], 0
    replay_dir = os.path.join(EVID, "replay")
    os.makedirs(replay_dir, exist_ok=True)

    def replay_file(tag, data):
        path = os.path.join(replay_dir, f"{prop}.{tag}.json")
        json.dump(data, open(path, "w"), indent=1)
        return path
    for k, v in orc["known"].items():
        if k in finds:
            lines.append(f"KNOWN-FINDING: property={prop} {finds[k]['what']}")
        else:
            orc["failures"].append(v)
    for k, f in finds.items():
        if k not in orc["known"] and f.get("always"):
            lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    if orc["failures"]:
        f = min(orc["failures"], key=lambda x: len(json.dumps(x["case"])))
        path = replay_file("case", {"property": prop, "case": f["case"], "message": f["message"], "PYTHONHASHSEED": f.get("hashseed", 0),
                                    "failed_obligations": [o["name"] for o in failed],
                                    "replay": f". /opt/vp/env.sh; PYTHONHASHSEED={f.get('hashseed', 0)} $PY {HERE}/harness/run.py --replay <this file>"})
        lines.append(f"failing input: {f['message'][:400]}")
        for o in failed[:5]:
            lines.append(f"failed obligation: {o['name']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        violations = len(orc["failures"])
    elif failed:
        path = replay_file("obligation", {"property": prop, "case": None, "failed_obligations": failed})
        for o in failed[:8]:
            lines.append(f"failed obligation: {o['name']} ({o.get('detail', '')[:300]})")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        violations = len(failed)
    if orc["errors"] and orc["cases"] == 0 and not violations and not (proof and proof["obligations"]):
        print("the oracle could not run:", orc["errors"][0])
        return 2
    # ---- evidence
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from levels import RULES, ASSUMPTIONS, LEVEL, MIXED
    expl = {"evaluations": orc["cases"], "distinct_nontrivial": orc["distinct"], "rule": RULES.get(prop, RULES["default"]),
            "samples": orc["samples"][:2] or [s for s in ["see /verif/harness"]]}
    cov = dict(expl)
    level = LEVEL.get(prop, "exploration")
    assumptions = list(ASSUMPTIONS["all"]) + ASSUMPTIONS.get(prop, [])
    if proof is not None and proof["obligations"]:
        obs = proof["obligations"]
        cov.update({"obligations": len(obs), "discharged": sum(o["status"] == "proved" for o in obs),
                    "checker_cmd": f"./check {prop}", "trusted_base": proof["trusted"],
                    "functions_under_contract": proof["functions"], "by_backend": proof["backends"],
                    "solver_seconds": proof["solver_seconds"], "outside_the_verified_subset": proof["unsupported"],
                    "contracts": proof["contracts"], "bounded_stand_in": expl["rule"], "canaries": proof.get("canaries", [])})
        assumptions += proof.get("assumptions", [])
        if level == "proof" and (proof["unsupported"] or cov["discharged"] != cov["obligations"]):
            level = "other"
        if level == "other":
            cov["explanation"] = (f"{cov['discharged']} of {cov['obligations']} obligations of the contracts listed were discharged deductively; "
                                  + MIXED.get(prop, "what the contracts do not cover") + " is only checked within bounds, by the seeded run of the real code "
                                  f"against the contract ({orc['cases']} cases), and is not counted as proved")
    else:
        if level in ("proof", "other"):
            level = "exploration"
        if proof is not None and proof["unsupported"]:
            cov["outside_the_verified_subset"] = proof["unsupported"]
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    if orc["undecided"]:
        ev["coverage"]["undecided_cases"] = [u["message"] for u in orc["undecided"]][:3]
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    n = cov.get("obligations", 0)
    print(f"{prop}: {cov.get('discharged', 0)}/{n} obligations discharged, {orc['cases']} oracle cases, {ev['wall_s']} s")
    for u in (proof or {}).get("unsupported", [])[:6]:
        print("  outside the verified subset (bounded stand-in decides):", u)
    for ln in lines:
        print(ln)
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(3)
