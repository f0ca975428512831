"""Bounded worker: runs the contract oracle of one property on the real code.

usage: run.py PROP --seed N --worker i --workers n --seconds T --out FILE [--replay FILE]
"""
import argparse
import contextlib
import importlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def run_check(mod, case):
    """-> None or a failure message."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return mod.check(case)
    except SkipCase:
        return "SKIP"
    except MemoryError:
        raise
    except ImportError:
        return "SKIP"  # an internal name this oracle uses does not exist (any more)
    except Exception as e:  # the code under contract raised where the contract says it returns
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (TypeError, AttributeError)) and tb[-1].filename.startswith(HERE) and (
            "argument" in str(e) or "has no attribute" in str(e) and "module" in str(e)
        ):
            return "SKIP"  # an internal function changed its signature: nothing to judge at this level
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        where = f"{os.path.basename(inrepo[-1].filename)}:{inrepo[-1].name}" if inrepo else "harness"
        return f"raised {type(e).__name__}: {str(e)[:200]} in {where}"


def shrink(mod, case, deadline):
    """Greedy structural shrink over JSON-able cases, keeping the case valid and failing."""
    valid = getattr(mod, "valid", lambda c: True)

    def fails(c):
        try:
            if not valid(c):
                return False
        except Exception:
            return False
        m = run_check(mod, c)
        return m is not None and m != "SKIP"

    def variants(x):
        if isinstance(x, dict):
            for k in list(x):
                for v in variants(x[k]):
                    yield {**x, k: v}
        elif isinstance(x, list):
            if len(x) > 1:
                h = len(x) // 2
                yield x[:h]
                yield x[h:]
            for i in range(len(x)):
                yield x[:i] + x[i + 1 :]
            for i in range(len(x)):
                for v in variants(x[i]):
                    yield x[:i] + [v] + x[i + 1 :]
        elif isinstance(x, bool) or x is None:
            return
        elif isinstance(x, int) and x not in (0, 1):
            yield x // 2
            yield x - 1

    again = True
    while again and time.time() < deadline:
        again = False
        for v in variants(case):
            if time.time() > deadline:
                break
            if fails(v):
                case = v
                again = True
                break
    return case


class SkipCase(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--max-cases", type=int, default=10**9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="oupsverif_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        t0 = time.time()
        mod = importlib.import_module("h_" + a.prop.lower())
        if a.replay:
            case = json.load(open(a.replay))
            case = case.get("case", case)
            m = run_check(mod, case)
            print("replay:", m or "holds")
            return 1 if m and m != "SKIP" else 0
        res = {
            "worker": a.worker, "evaluations": 0, "nontrivial": [], "failures": [], "samples": [],
            "rule": mod.RULE, "exhaustive_part": 0, "skipped": 0, "note": getattr(mod, "NOTE", ""),
        }
        rng = random.Random(a.seed * 1009 + a.worker)
        seen = set()
        t1 = time.time()
        deadline = t1 + a.seconds
        nontriv = getattr(mod, "nontrivial", lambda c: True)

        def cases():
            ex = getattr(mod, "enumerate_cases", None)
            if ex is not None:
                for i, c in enumerate(ex(a.seed)):
                    if i % a.workers == a.worker:
                        res["exhaustive_part"] += 1
                        yield c
            while hasattr(mod, "gen"):
                yield mod.gen(rng)

        for case in cases():
            if time.time() > deadline or res["evaluations"] >= a.max_cases:
                break
            if not getattr(mod, "valid", lambda c: True)(case):
                continue
            m = run_check(mod, case)
            if m == "SKIP":
                res["skipped"] += 1
                continue
            res["evaluations"] += 1
            h = hash(json.dumps(case, sort_keys=True, default=str))
            if h not in seen and nontriv(case):
                seen.add(h)
                if len(res["samples"]) < 3:
                    res["samples"].append(case)
            if m:
                key = getattr(mod, "finding_key", lambda c, m: "")(case, m)
                small = case if key else shrink(mod, case, time.time() + 15)
                m2 = run_check(mod, small) or m
                res["failures"].append({"case": small, "message": m2, "key": key})
                if sum(not f["key"] for f in res["failures"]) >= 2:
                    break
        res["nontrivial"] = len(seen)
        res["import_s"] = t1 - t0
        res["wall_s"] = time.time() - t1
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f, default=str)
        os.replace(a.out + ".tmp", a.out)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.modules.setdefault("run", sys.modules["__main__"])
    sys.exit(main())
