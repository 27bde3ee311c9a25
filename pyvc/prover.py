"""Run the contracts of a property and collect the obligations."""
import importlib
import json
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["categorical", "gaussian", "graph", "sparse", "frames"]


def load():
    from pyvc import spec
    if not spec.REGISTRY:
        for m in MODULES:
            importlib.import_module("contracts." + m)
    return spec.REGISTRY


def run_contract(c, repo, deadline=None, scale=1.0):
    from pyvc import core, interp
    from pyvc.core import X
    X.reset_all()
    X.deadline = deadline
    X.query_timeout = int(12000 * scale)
    X.prefix = f"{c.prop}/{c.name}: "
    t0 = time.time()
    out = {"name": c.name, "obligations": [], "unsupported": None, "functions": [], "trusted": [], "paths": 0, "canaries": []}
    X.canaries = []
    X.only = re.compile(c.only) if c.only else None
    from pyvc import lib
    lib.REALS[0] = False
    try:
        from pyvc import spec
        it = interp.Interp(repo)
        it.contracts.update(spec.CALLEE)
        if c.prop.startswith("LEMMA:"):
            it.active.add(c.prop[6:])

        def thunk():
            X.new_run()
            X.unexpected = True
            try:
                c.fn(it)
            except core.PyRaise as e:
                if X.in_setup:
                    raise
                # the specification allows no exception here: the path must be infeasible
                X.oblige(False, f"no exception ({getattr(e.exc, 'name', e.exc)} {e.note})")
            if not any(c["what"] == "end of a path" and c["result"] != "vacuous" for c in X.canaries):
                X.canary("end of a path")
        runs = X.explore(thunk)
        out["paths"] = len(runs)
        bad = [r for r in runs if r.kind == "raise"]
        if bad:
            out["unsupported"] = f"the set-up of the contract raised {bad[0].value}"
        out["functions"] = sorted(it.executed)
        out["contracts_used"] = sorted(it.used_contracts)
    except core.Unsupported as e:
        out["unsupported"] = str(e)
        tb = traceback.extract_tb(sys.exc_info()[2])
        out["where"] = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-6:]]
    except (core.FlowSignal, core.Infeasible) as e:
        out["unsupported"] = f"engine: {type(e).__name__}"
    except RecursionError:
        out["unsupported"] = "recursion limit of the interpreter"
    except Exception as e:  # noqa: BLE001  an engine defect must never look like a verdict
        out["unsupported"] = f"engine error {type(e).__name__}: {str(e)[:200]}"
        out["where"] = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in traceback.extract_tb(sys.exc_info()[2])[-6:]]
    out["obligations"] = [{"name": o.name, "status": o.status, "detail": o.detail, "backend": o.backend, "seconds": round(o.seconds, 3)} for o in X.obls]
    out["trusted"] = sorted(X.trusted)
    out["solver_s"] = X.solver_s
    out["backends"] = dict(X.backends)
    out["canaries"] = X.canaries
    out["wall"] = time.time() - t0
    return out


def _spawn(prop, idx, repo, scale, limit):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    fd, out = tempfile.mkstemp(suffix=".json", prefix="pyvc")
    os.close(fd)
    p = subprocess.Popen([sys.executable, "-m", "pyvc.prover", prop, "--worker", str(idx), "--repo", repo, "--scale", str(scale), "--out", out],
                         cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return {"p": p, "out": out, "idx": (prop, idx), "end": time.time() + limit, "limit": limit}


def _finish(job, name):
    job["p"].wait()
    err = (job["p"].stderr.read() or b"").decode(errors="replace")
    try:
        r = json.load(open(job["out"]))
    except (OSError, ValueError):
        r = None
    try:
        os.remove(job["out"])
    except OSError:
        pass
    if r is None:
        why = job.get("why") or f"the verifier process ended with {job['p'].returncode} {err[-200:]}"
        r = {"name": name, "obligations": [], "unsupported": why, "functions": [], "trusted": [], "paths": 0, "canaries": [], "solver_s": 0.0,
             "backends": {}, "wall": job["limit"], "contracts_used": []}
    return r


def _pool(jobs, names, repo, procs, scale, limit, total):
    res, running, end = {}, [], time.time() + total
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < procs and time.time() < end:
            running.append(_spawn(*queue.pop(0), repo, scale, limit))
        if queue and time.time() >= end:
            for i in queue:
                res[i] = {"name": names[i], "obligations": [], "unsupported": "not started within the time budget of this run", "functions": [], "trusted": [],
                          "paths": 0, "canaries": [], "solver_s": 0.0, "backends": {}, "wall": 0.0, "contracts_used": []}
            queue = []
        for j in list(running):
            if j["p"].poll() is None and time.time() > min(j["end"], end + limit):
                j["why"] = f"no answer within {j['limit']:.0f} s"
                j["p"].kill()
            if j["p"].poll() is not None:
                running.remove(j)
                res[j["idx"]] = _finish(j, names[j["idx"]])
        time.sleep(0.02)
    return res


def run(prop, tier="quick", seed=1, repo="/repo"):
    """discharge every contract of the property; every contract in a process of its own"""
    reg = load()
    if not reg.get(prop):
        return None
    quick = tier == "quick"
    procs = int(os.environ.get("VERIF_PROCS", "4"))

    def batch(keys, scale, again=False):
        return _pool(keys, {k: reg[k[0]][k[1]].name for k in keys}, repo, procs, scale,
                     (200 if again else 150) if quick else (900 if again else 600), (200 if again else 330) if quick else 1800)
    idx = [(prop, i) for i, c in enumerate(reg[prop]) if not quick or c.tier == "quick"]
    res = batch(idx, 1.0)
    seen = {prop}
    while True:     # the contracts of callees that were used in place of their bodies
        new = {"LEMMA:" + q for i in idx for q in res[i].get("contracts_used", [])} - seen
        if not new:
            break
        seen |= new
        more = [(q, i) for q in sorted(new) for i in range(len(reg.get(q, [])))]
        for q in sorted(new):
            if not reg.get(q):
                raise RuntimeError("callee contract without proof: " + q)
        res.update(batch(more, 1.0))
        idx += more
    again = [i for i in idx if any(o["status"] != "proved" for o in res[i]["obligations"])]
    if again:   # a second attempt with three times the solver time, so that a busy machine cannot fail an obligation
        res2 = batch(again, 3.0, True)
        for i in again:
            if res2[i]["obligations"] or not res[i]["obligations"]:
                if not (res2[i]["unsupported"] and not any(o["status"] != "proved" for o in res2[i]["obligations"])):
                    res[i] = res2[i]
    out = {"obligations": [], "trusted": set(), "functions": set(), "backends": {}, "solver_seconds": 0.0, "unsupported": [], "canaries": [], "assumptions": [],
           "contracts": []}
    for i in idx:
        r = res[i]
        for o in r["obligations"]:
            out["obligations"].append({"name": o["name"], "status": o["status"], "detail": o["detail"]})
        out["trusted"] |= set(r["trusted"])
        out["functions"] |= set(r["functions"])
        out["solver_seconds"] = round(out["solver_seconds"] + r["solver_s"], 2)
        for k, v in r["backends"].items():
            out["backends"][k] = out["backends"].get(k, 0) + v
        out["backends"]["syntactic"] = out["backends"].get("syntactic", 0) + sum(o["backend"] == "syntactic" for o in r["obligations"])
        if r["unsupported"]:
            out["unsupported"].append(f"{r['name']}: {r['unsupported']}" + (f" at {r['where'][-1]}" if r.get("where") else ""))
        elif not r["obligations"]:
            out["unsupported"].append(f"{r['name']}: no obligation was generated")
        vac = [c["what"] for c in r["canaries"] if c["result"] == "vacuous" and c["what"] != "end of a path"]
        ends = [c for c in r["canaries"] if c["what"] == "end of a path"]
        if ends and all(c["result"] == "vacuous" for c in ends):
            vac.append("every path")
        if vac:
            out["unsupported"].append(f"{r['name']}: the assumptions are contradictory ({', '.join(vac)}), so its obligations count for nothing")
            for o in out["obligations"][len(out["obligations"]) - len(r["obligations"]):]:
                o["status"] = "vacuous"
        out["canaries"].append(f"{r['name']}: {len(r['canaries'])} satisfiability canaries, {len(vac)} refuted")
        out["contracts"].append({"name": r["name"], "paths": r["paths"], "obligations": len(r["obligations"]), "wall_s": round(r["wall"], 2), "decided": not r["unsupported"]})
    out["trusted"], out["functions"] = sorted(out["trusted"]), sorted(out["functions"])
    return out


if __name__ == "__main__":
    import argparse
    sys.path.insert(0, HERE)
    from pyvc import prover as P
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("-c")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.worker is not None:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        r = P.run_contract(P.load()[a.prop][a.worker], a.repo, scale=a.scale)
        with open(a.out + ".tmp", "w") as f:
            json.dump(r, f)
        os.replace(a.out + ".tmp", a.out)
        sys.exit(0)
    tot = [0, 0]
    for c in P.load().get(a.prop, []):
        if a.c and a.c not in c.name:
            continue
        r = P.run_contract(c, a.repo, scale=a.scale)
        n = len(r["obligations"])
        print(f"== {c.name}: {sum(o['status']=='proved' for o in r['obligations'])}/{n} paths {r['paths']} {r['wall']:.1f}s solver {r['solver_s']:.1f}s {r['backends']} canaries {r['canaries']}")
        if r["unsupported"]:
            print("   UNSUPPORTED", r["unsupported"], r.get("where"))
        for o in r["obligations"]:
            if o["status"] != "proved" or o["seconds"] > 2:
                print("   ", o["status"], o["name"], o["seconds"], o["detail"][:300])
