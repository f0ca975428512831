#!/usr/bin/env python3
"""Check of one property: discharge of the contract obligations generated from /repo's current
source (pyvc) + bounded run of the same contracts on the real code (harness).

usage: check.py PROP        (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
exit 0: held on everything explored; exit 1 + 'VIOLATION property=... replay=...' line otherwise.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
EVID = os.path.join(HERE, "evidence")
CONF = {}  # PROP -> dict(level=, seconds=, jit=)
sys.path.insert(0, HERE)
from checks_conf import CONF, COMMON_ASSUMPTIONS  # noqa: E402,F811


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                key = line.split(" key=", 1)[1].split(" ", 1)
                out.append((key[0], key[1] if len(key) > 1 else ""))
    return out


def env_for(jit, tmp):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", NUMBA_CACHE_DIR=os.path.join(tmp, "numba"), VERIF_REPO=REPO)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    else:
        env.pop("NUMBA_DISABLE_JIT", None)
    return env


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = CONF[prop]
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "_"):
            os.remove(os.path.join(EVID, "replay", f))
    tmp = tempfile.mkdtemp(prefix="oupscheck_")
    try:
        return run(prop, tier, seed, conf, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, conf, t0, tmp):
    seconds = conf.get("seconds", 25) if tier == "quick" else conf.get("thorough_seconds", 400)
    nworkers = conf.get("workers", 6)
    njit = conf.get("jit", 0)
    procs = []
    for i in range(nworkers):
        out = os.path.join(tmp, f"w{i}.json")
        err = open(os.path.join(tmp, f"w{i}.err"), "w")
        cmd = [PY, os.path.join(HERE, "harness", "run.py"), prop, "--seed", str(seed), "--worker", str(i),
               "--workers", str(nworkers), "--seconds", str(seconds), "--out", out]
        procs.append((out, subprocess.Popen(cmd, env=env_for(i < njit, tmp), stdout=subprocess.DEVNULL, stderr=err, cwd=tmp)))
    eng = None
    eng_out = os.path.join(tmp, "engine.json")
    if conf.get("engine", True) and os.path.exists(os.path.join(HERE, "pyvc", "verify.py")):
        budget = 240 if tier == "quick" else 1500
        eng = subprocess.Popen([VT, "-O", os.path.join(HERE, "pyvc", "verify.py"), prop, "--out", eng_out, "--tier", tier, "--budget", str(budget)],
                               env=env_for(False, tmp), stdout=subprocess.DEVNULL,
                               stderr=open(os.path.join(tmp, "engine.err"), "w"), cwd=tmp)
        eng_deadline = time.time() + 2 * budget + 60
    results, crashed = [], []
    deadline = time.time() + seconds + 240
    for out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            crashed.append(out)
    engine = None
    if eng is not None:
        try:
            eng.wait(timeout=max(1, eng_deadline - time.time()))
        except subprocess.TimeoutExpired:
            eng.kill()
            eng.wait()
        if os.path.exists(eng_out):
            engine = json.load(open(eng_out))
        else:
            engine = {"error": open(os.path.join(tmp, "engine.err")).read()[-2000:], "functions": [], "obligations": [],
                      "failed": [], "unsupported": ["engine did not finish"]}
    if not results:
        err = ""
        for o in crashed:
            err = open(o[:-5] + ".err").read()[-3000:]
        print(f"ERROR: no bounded worker finished; last stderr:\n{err}", file=sys.stderr)
        return 3

    # violations with an input, each replayed once more in a fresh process
    known = known_findings(prop)
    lines, viol, seen_known = [], 0, set()

    def replay(path):
        r = subprocess.run([PY, os.path.join(HERE, "harness", "run.py"), prop, "--replay", path],
                           env=env_for(False, tmp), capture_output=True, text=True, timeout=300)
        if r.returncode == 1 and "replay:" in r.stdout:
            return r.stdout.strip()
        if njit:
            r = subprocess.run([PY, os.path.join(HERE, "harness", "run.py"), prop, "--replay", path],
                               env=env_for(True, tmp), capture_output=True, text=True, timeout=300)
            if r.returncode == 1 and "replay:" in r.stdout:
                return r.stdout.strip()
        return None

    n = 0
    msgs = set()
    cand = [f for r in results for f in r["failures"]]
    if engine:
        cand = [{"case": f["case"], "message": f.get("name", ""), "key": "", "obligation": f} for f in engine["failed"] if f.get("case")] + cand
    for f in cand:
        hit = [k for k in known if f.get("key") and k[0] == f["key"]]
        if hit:
            seen_known.add(hit[0])
            continue
        if f["message"] in msgs or viol >= 5:
            continue
        path = os.path.join(EVID, "replay", f"{prop}_{n}.json")
        n += 1
        with open(path, "w") as fh:
            json.dump({"property": prop, "case": f["case"], "message": f["message"], "obligation": f.get("obligation"),
                       "replay_cmd": f"{PY} {HERE}/harness/run.py {prop} --replay {path}"}, fh, indent=1, default=str)
        got = replay(path)
        if got is None:
            if not f.get("obligation"):
                print(f"note: failure not reproduced in a fresh process, not reported: {f['message'][:300]}", file=sys.stderr)
            os.remove(path)
            continue
        msgs.add(f["message"])
        viol += 1
        print(f"{prop}: {got[:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    failed = engine["failed"] if engine else []
    if failed and not viol:
        path = os.path.join(EVID, "replay", f"{prop}_obligation.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "failed_obligations": failed}, fh, indent=1, default=str)
        for f in failed[:5]:
            print(f"{prop}: obligation not discharged: {f['name']} [{f.get('status')}]")
        viol += 1
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    elif failed:
        for f in failed[:5]:
            print(f"{prop}: obligation not discharged: {f['name']} [{f.get('status')}]")
    for k, what in known:
        # a listed finding is reported on every run
        print(f"KNOWN-FINDING: property={prop} {what}")
    for ln in lines:
        print(ln)

    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "assumptions": list(conf.get("assumptions", [])) + COMMON_ASSUMPTIONS,
          "violations": viol, "wall_s": round(time.time() - t0, 2)}
    bounded = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["nontrivial"] for r in results),
        "rule": results[0]["rule"],
        "samples": [s for r in results for s in r["samples"]][:5],
    }
    cov = dict(bounded)
    cov["bounded_workers"] = {"finished": len(results), "crashed": len(crashed), "with_jit": njit,
                              "skipped_cases": sum(r["skipped"] for r in results),
                              "enumerated_cases": sum(r["exhaustive_part"] for r in results), "seconds_each": seconds}
    cov["bounded_label"] = "the bounded run stands in for what no discharged obligation covers; it is not counted as proved"
    if engine:
        obs = engine["obligations"]
        cov["obligations"] = len(obs)
        cov["discharged"] = sum(1 for o in obs if o["status"] == "discharged")
        cov["checker_cmd"] = f"{VT} pyvc/verify.py {prop}"
        cov["trusted_base"] = engine.get("trusted_base", [])
        cov["functions_under_contract"] = engine["functions"]
        cov["obligations_by_backend"] = engine.get("by_backend", {})
        cov["solver_s"] = engine.get("solver_s", 0)
        cov["unsupported"] = engine.get("unsupported", [])
        cov["undecided"] = [o["name"] for o in obs if o["status"] == "unknown"][:50]
        cov["failed_obligations"] = [f["name"] for f in failed][:50]
        cov["vacuity"] = engine.get("vacuity", [])
        if engine.get("error"):
            cov["engine_error"] = engine["error"]
        names = {}
        for o in obs:
            names[o["name"]] = o["status"] if o["status"] != "discharged" else o.get("backend", "")
        cov["obligation_names"] = dict(list(names.items())[:400])
        ev["assumptions"] += engine.get("assumptions", [])
    ev["coverage"] = cov
    path = os.path.join(EVID, f"{prop}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(path + ".tmp", path)
    tot = f"{cov['evaluations']} bounded cases"
    if engine:
        tot += f", {cov['discharged']}/{cov['obligations']} obligations discharged, unsupported {len(cov['unsupported'])}"
    print(f"{prop}: {'VIOLATED' if viol else 'held'} ({tot}, {ev['wall_s']} s)")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
