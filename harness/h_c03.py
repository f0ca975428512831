"""C03: catalog of the store = datasets on disk, over histories of writes, deletions, re-openings."""
import os
import shutil
import tempfile

import pandas as pd
from keys_common import *

RULE = ("random histories (1-10 steps) of writes, deletions, re-openings (several spellings of the store path), and "
        "foreign files or folders, over schemas of 1-3 levels; after each step the listing, the folders on disk and "
        "everything around the store are compared with an independent model; nontrivial: at least one deletion or "
        "foreign item after a write")


def gen(rng):
    desc = gen_desc(rng)
    sep = rng.choice([None, "-", "_", "+"])
    pool = []
    while len(pool) < rng.randint(2, 5):
        v = gen_values(rng, desc, sep)
        if pool and rng.random() < 0.7 and len(desc) > 1:
            cut = rng.randint(1, len(desc) - 1)
            v = pool[0][:cut] + v[cut:]
        for lv in v:
            for i, x in enumerate(lv):
                if isinstance(x, str):
                    lv[i] = "".join(ch for ch in x if ch not in "\n\\") or "k"
        pool.append(v)
    ops = []
    for _ in range(rng.randint(1, 10)):
        k = rng.random()
        i = rng.randrange(len(pool))
        if k < 0.4:
            ops.append(["set", i, rng.randint(0, 3)])
        elif k < 0.7:
            ops.append(["del", i])
        elif k < 0.8:
            ops.append(["open", rng.choice(["", "/", "//", "/."])])
        elif k < 0.86:
            ops.append(["badset", i])
        else:
            ops.append(["junk", rng.choice(["topfile", "leaffile", "emptyleaf", "badname", "deep", "shallow", "linkdir",
                                            "upfile"]), i])
    return {"desc": desc, "sep": sep, "pool": pool, "ops": ops, "root": rng.choice(["", "/", "//"])}


def valid(c):
    return bool(c["pool"]) and all(valid_values(c["desc"], c["sep"], v) for v in c["pool"]) and all(
        o[0] == "open" or o[-1 if o[0] == "junk" else 1] < len(c["pool"]) for o in c["ops"]) and all(
        "\\" not in str(x) for v in c["pool"] for lv in v for x in lv)


def nontrivial(c):
    ks = [o[0] for o in c["ops"]]
    return "set" in ks and ("del" in ks or "junk" in ks)


def tree(d):
    out = set()
    for r, ds, fs in os.walk(d):
        for x in ds:
            out.add(os.path.relpath(os.path.join(r, x), d) + "/")
        for x in fs:
            out.add(os.path.relpath(os.path.join(r, x), d))
    return out


def check(c):
    from oups import ParquetSet

    top = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        parent = os.path.join(top, "u", "v")
        os.makedirs(parent)
        store = os.path.join(parent, "store")
        sib = os.path.join(top, "sibling.parquet")
        open(sib, "w").close()
        desc, sep = c["desc"], c["sep"]
        depth = len(desc)
        cls = schema(tuple(map(tuple, desc)), sep)[0]
        ps = ParquetSet(store + c["root"], cls)
        model = {}  # path -> rows
        junk = set()
        dirs = set()
        n = 0
        for op in c["ops"]:
            if op[0] == "set":
                k = build(desc, sep, c["pool"][op[1]])
                p = oracle_path(desc, sep, c["pool"][op[1]])
                df = pd.DataFrame({"a": list(range(n, n + op[2])), "b": ["x"] * op[2]})
                n += 10
                ps[k] = df
                model[p] = model.get(p, []) + list(df["a"])
            elif op[0] == "badset":
                k = build(desc, sep, c["pool"][op[1]])
                other = schema((("s",),), "-")[0]("zz")
                for kk, dd in ((other, pd.DataFrame({"a": [1]})), (k, [1, 2]), (k, (3, pd.DataFrame({"a": [1]})))):
                    if type(kk) is cls and kk is other:
                        continue
                    try:
                        ps[kk] = dd
                    except TypeError:
                        continue
                    return f"write of {type(dd).__name__} at {kk!r} accepted"
            elif op[0] == "del":
                k = build(desc, sep, c["pool"][op[1]])
                p = oracle_path(desc, sep, c["pool"][op[1]])
                before = tree(top)
                had = p in model
                del ps[k]
                after = tree(top)
                if added := after - before:
                    return f"deleting {p!r} created {sorted(added)[:3]}"
                gone = before - after
                if not had:
                    if gone:
                        return f"deleting absent {p!r} removed {sorted(gone)[:3]}"
                    continue
                full = os.path.relpath(os.path.join(store, p), top)
                exp = {x for x in before if x.startswith(full + "/")} | {full + "/"}
                up = os.path.dirname(p)
                while up:
                    fu = os.path.relpath(os.path.join(store, up), top)
                    left = [x for x in before - exp if x.startswith(fu + "/") and x != fu + "/"]
                    if left:
                        break
                    exp.add(fu + "/")
                    up = os.path.dirname(up)
                if gone != exp:
                    return (f"deleting {p!r}: wrongly removed {sorted(gone - exp)[:4]}, "
                            f"wrongly kept {sorted(exp - gone)[:4]}")
                del model[p]
            elif op[0] == "open":
                ps = ParquetSet(store + op[1], cls)
            else:
                kind = op[1]
                p = oracle_path(desc, sep, c["pool"][op[2]])
                if kind == "topfile":
                    path = os.path.join(store, "readme.parquet")
                elif kind == "leaffile":
                    if p in model:
                        continue
                    path = os.path.join(store, p, "notes.txt")
                elif kind == "upfile":
                    if depth < 2:
                        continue
                    path = os.path.join(store, os.path.dirname(p), "notes.parquet")
                elif kind == "emptyleaf":
                    path = os.path.join(store, p) + "Z/"
                elif kind == "badname":
                    path = os.path.join(store, *(["a" + (sep or "-") + "b" + (sep or "-") + "c" + (sep or "-") + "d"]
                                                 * depth), "part.0.parquet")
                elif kind == "deep":
                    path = os.path.join(store, p, "sub", "part.0.parquet")
                    if p in model:
                        continue
                elif kind == "shallow":
                    if depth < 2:
                        continue
                    path = os.path.join(store, "part.0.parquet")
                else:
                    continue
                if path.endswith("/"):
                    os.makedirs(path, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    open(path, "w").close()
            # compare
            exp_keys = sorted(build(desc, sep, v) for v in {json_key(v): v for v in c["pool"]
                                                            if oracle_path(desc, sep, v) in model}.values())
            msg = compare(ps, exp_keys, c, model, desc, sep)
            if msg:
                return f"after {op}: {msg}"
            msg = compare(ParquetSet(store + c["root"], cls), exp_keys, c, model, desc, sep, data=True)
            if msg:
                return f"after {op}, re-opened: {msg}"
            if not os.path.isfile(sib) or not os.path.isdir(parent):
                return f"after {op}: something outside of the store was removed"
            if model and not os.path.isdir(store):
                return f"after {op}: store folder removed"
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def json_key(v):
    import json

    return json.dumps(v)


def compare(ps, exp, c, model, desc, sep, data=False):
    got = list(ps)
    if got != exp or list(ps.keys) != exp:
        return f"listing {got} but datasets on disk are {exp}"
    if len(ps) != len(exp):
        return "wrong number of datasets"
    for v in c["pool"]:
        k = build(desc, sep, v)
        if (k in ps) != (k in exp):
            return f"membership of {k!r} is {k in ps}"
    if repr(ps) != "\n".join(map(str, exp)):
        return f"text listing is {repr(ps)!r}"
    if data:
        for v in c["pool"]:
            k = build(desc, sep, v)
            p = oracle_path(desc, sep, v)
            if k in ps:
                df = ps[k].pdf
                if list(df["a"]) != model[p]:
                    return f"dataset {p!r} reads {list(df['a'])} instead of {model[p]}"
    return None
