"""Discharges the contracts carrying one property. usage: verify.py PROP --out FILE [--budget S] [--only TARGET]"""
import argparse
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)


def targets(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "t_*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        out += m.TARGETS.get(prop, [])
    return out


def work(args):
    prop, i, budget = args
    import core

    t = targets(prop)[i]
    pr = core.Prover()
    r = t.verify(pr, budget)
    obs = r.pop("obligations")
    failed = []
    for o in obs:
        if o.status == "failed":
            failed.append({"name": o.name, "status": o.status, "detail": o.detail, "case": o.case, "target": t.name})
    r["obligations"] = [o.as_dict() for o in obs]
    r["failed"] = failed
    r["assumptions"] = t.assumptions
    r["queries"], r["solver_s"] = pr.queries, pr.secs
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=240)
    ap.add_argument("--jobs", type=int, default=6)
    a = ap.parse_args()
    t0 = time.time()
    ts = targets(a.prop)
    # what is not finished at the deadline is reported as such, the rest stands
    deadline = t0 + 2 * a.budget + 30
    rs = []
    with multiprocessing.get_context("fork").Pool(min(a.jobs, max(1, len(ts))), maxtasksperchild=1) as pool:
        todo = [pool.apply_async(work, ((a.prop, i, a.budget),)) for i in range(len(ts))]
        for t, r in zip(ts, todo):
            try:
                rs.append(r.get(max(0.1, deadline - time.time())))
            except multiprocessing.TimeoutError:
                rs.append({"target": t.name, "functions": t.functions, "kind": t.kind, "paths": 0, "wall_s": 0.0, "obligations": [],
                           "failed": [], "unsupported": "not finished in time", "assumptions": [], "queries": 0, "solver_s": 0.0})
        pool.terminate()
    res = {"functions": [], "lemmas": [], "obligations": [], "failed": [], "unsupported": [], "assumptions": [], "by_backend": {},
           "solver_s": 0.0, "queries": 0, "vacuity": [], "wall_s": 0, "trusted_base": [
               "z3 5.3 / cvc5 1.4 (python3-vt)", "pyvc: loop and comprehension rewriting (loader.py), path exploration and loop rule (core.py)",
               "assumed contracts of builtins, numpy, pandas and the file system (models*.py and the tables of the t_*.py used)"]}
    for r in rs:
        ok = not r["unsupported"]
        st = {"target": r["target"], "functions": r["functions"], "kind": r["kind"], "paths": r["paths"],
              "obligations": len(r["obligations"]), "discharged": sum(o["status"] == "discharged" for o in r["obligations"]),
              "complete": ok, "wall_s": round(r["wall_s"], 2)}
        (res["functions"] if r["kind"] != "lemma" else res["lemmas"]).append(st)
        res["vacuity"].append(f"{r['target']}: {r.get('complete_paths', 0)} of {r['paths']} paths reach the postcondition")
        if not ok:
            res["unsupported"].append(f"{r['target']}: {r['unsupported']}")
            # what was discharged before the engine gave up is not counted
            res["failed"] += []
            continue
        res["obligations"] += r["obligations"]
        res["failed"] += r["failed"]
        res["assumptions"] += [x for x in r["assumptions"] if x not in res["assumptions"]]
        for o in r["obligations"]:
            if o["status"] == "discharged":
                res["by_backend"][o["backend"]] = res["by_backend"].get(o["backend"], 0) + 1
        res["solver_s"] += r["solver_s"]
        res["queries"] += r["queries"]
    res["solver_s"] = round(res["solver_s"], 2)
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f, default=str)
        os.replace(a.out + ".tmp", a.out)
    else:
        for k in ("functions", "lemmas", "unsupported", "by_backend", "solver_s", "wall_s"):
            print(k, json.dumps(res[k], indent=0) if k in ("functions",) else res[k])
        for f in res["failed"]:
            print("FAILED", f["name"])
        for o in res["obligations"]:
            if o["status"] == "unknown":
                print("UNKNOWN", o["name"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
