"""Deliberate changes of a scratch copy of the sources: the engine has to refuse them.
usage: mut.py MODULE [name]   (MODULE: t_agg, ...)"""
import importlib, json, os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "pyvc"))
from muts import MUTS
tmp = tempfile.mkdtemp(prefix="oupsmut_")
try:
    shutil.copytree("/repo/oups", tmp + "/oups")
    os.environ["VERIF_REPO"] = tmp
    import core, loader
    loader.REPO = tmp
    m = importlib.import_module(sys.argv[1])
    by = {t.name: t for ts in m.TARGETS.values() for t in ts}
    for (target, f, old, new) in MUTS[sys.argv[1]]:
        if len(sys.argv) > 2 and sys.argv[2] != target: continue
        p = os.path.join(tmp, f)
        src = open(p, newline="").read().replace("\r\n", "\n")
        if src.count(old) < 1:
            print("STALE", target, repr(old)); continue
        open(p, "w").write(src.replace(old, new, 1) if not old.startswith("ALL:") else src.replace(old[4:], new))
        loader._CODE.clear()
        r = by[target].verify(core.Prover(), 200)
        open(p, "w").write(src)
        bad = [o for o in r["obligations"] if o.status != "discharged"]
        st = "CAUGHT" if any(o.status == "failed" for o in bad) else ("unknown" if bad else ("unsupported: " + str(r["unsupported"])[:150] if r["unsupported"] else "MISSED"))
        print(st, target, "|", repr(old[:60]), "->", repr(new[:60]), "|", (bad[0].name if bad else ""), r["dropped"][:2], "%.1fs" % r["wall_s"], flush=True)
finally:
    shutil.rmtree(tmp)
