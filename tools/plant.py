#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and writes them under seeded/<id>/.

usage: plant.py BUGS.py [id ...] [--check] [--notests]
BUGS.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo=python source, needs, breaks)].
Each bug: scratch copy of /repo (seen as /repo in a user namespace of its own), demo on the unchanged
tree, demo with the patch, stable tests with the patch; with --check, the check of the property too.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD" NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, **kw)


def one(b, check, tests):
    bid = b["id"]
    tmp = f"/tmp/plant_{bid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    copy = tmp + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        d = tmp + "/d"
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        r = ns(copy, f"bash {d}/demo.sh", timeout=300)
        if r.returncode:
            return f"{bid}: demo fails on the unchanged tree: {r.stdout[-500:]} {r.stderr[-1500:]}"
        for f, old, new in [(b["file"], *e) if len(e) == 2 else e for e in b["edits"]]:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return f"{bid}: text found {s.count(old)} times: {old[:60]!r}"
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", copy, "diff"], capture_output=True).stdout
        r = ns(copy, f"bash {d}/demo.sh", timeout=300)
        if r.returncode == 0:
            return f"{bid}: demo passes with the patch"
        how = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if tests:
            r = ns(copy, f"bash /opt/vp/test.sh {tmp}/out.json", timeout=900)
            base = json.load(open("/opt/vp/BASELINE.json"))
            ok = set(json.load(open(tmp + "/out.json"))["passed"])
            broken = [t for t in base["stable"] if t not in ok]
            if broken:
                return f"{bid}: {len(broken)} stable tests fail with the patch: {broken[:4]}"
        msg = ""
        if check:
            vc = tmp + "/verif"
            subprocess.run(["cp", "-a", HERE, vc], check=True)
            shutil.rmtree(vc + "/seeded", ignore_errors=True)
            r = ns(copy, f"mount --bind {vc} {HERE} && cd {HERE} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {b['prop']}", timeout=900)
            out = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "obligation not" in x or x.startswith(b["prop"])]
            msg = f" | check exit {r.returncode}: {' / '.join(o[:160] for o in out[:4])}"
        dst = os.path.join(HERE, "seeded", bid)
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "wb").write(patch)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(d + "/" + f, dst + "/" + f)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return f"{bid}: kept ({how}){msg}"
    except Exception as e:
        return f"{bid}: {type(e).__name__} {e}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    spec = importlib.util.spec_from_file_location("bugs", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if len(a) == 1 or b["id"] in a[1:]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: one(b, "--check" in sys.argv, "--notests" not in sys.argv), bugs):
            print(r, flush=True)


if __name__ == "__main__":
    main()
