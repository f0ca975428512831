"""C07: metadata of a dataset is merged write after write and survives data rewrites."""
import copy

from store_common import *

RULE = ("random histories of 1-6 writes to two datasets, with user and/or application metadata added, updated, set to "
        "falsy values or to None, along data appends, merges, empty frames and metadata-only writes, compared with a "
        "dict oracle; nontrivial: at least 2 writes with metadata")
VALS = [None, 0, "", False, [], {}, 1, "v", [1, 2], {"k": None}, 2.5, "0"]


def gen(rng):
    c = [0]
    ops = []
    for _ in range(rng.randint(1, 6)):
        a = rng.randint(0, 15)
        ops.append({
            "ds": rng.randint(0, 1),
            "rows": gen_rows(rng, a, a + rng.randint(0, 8), rng.choice([0, 1, 3, 6]), c),
            "nirgs": rng.choice([None, 0, 2]), "mrgs": rng.choice([None, 2, 4]), "ordered": rng.random() < 0.6,
            "user": None if rng.random() < 0.4 else {
                k: rng.choice(["x", "y", "z", None]) for k in rng.sample(["u1", "u2", "u3"], rng.randint(0, 3))},
            "app": None if rng.random() < 0.4 else {
                k: rng.choice(VALS) for k in rng.sample(["a", "b", "c", "d"], rng.randint(0, 4))},
            "other": rng.random() < 0.2,
        })
    return {"ops": ops}


def valid(c):
    first = {}
    for o in c["ops"]:
        if o["ds"] not in first:
            first[o["ds"]] = 1
            if not o["rows"] or (o["user"] and None in o["user"].values()):
                return False
        if [r[0] for r in o["rows"]] != sorted(r[0] for r in o["rows"]) or any(len(r) != 3 for r in o["rows"]):
            return False
        if o["ds"] not in (0, 1):
            return False
        if o["mrgs"] is not None and o["mrgs"] < 1:
            return False
    return bool(c["ops"])


def nontrivial(c):
    return sum(1 for o in c["ops"] if o["user"] or o["app"]) > 1


def merge(old, new):
    out = dict(old)
    for k, v in new.items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = v
    return out


def check(c):
    from oups.store.router import ParquetHandle
    from oups.store.writer import OUPS_METADATA, write

    OUPS_METADATA.clear()
    exp_u, exp_a, exp_has = [{}, {}], [{}, {}], [False, False]
    with Dir() as d:
        os.makedirs(d)
        for i, o in enumerate(c["ops"]):
            ds = o["ds"]
            path = os.path.join(d, f"ds{ds}")
            mk = f"key{ds}"
            user = copy.deepcopy(o["user"])
            if o["app"] is not None:
                OUPS_METADATA[mk] = copy.deepcopy(o["app"])
            if o["other"]:
                OUPS_METADATA["elsewhere"] = {"a": "wrong"}
            write(path, frame(o["rows"]), ordered_on="t" if o["ordered"] else None, max_row_group_size=o["mrgs"],
                  max_nirgs=o["nirgs"], metadata=user, md_key=mk)
            if user != o["user"]:
                return f"write {i}: metadata dict of the caller changed from {o['user']} to {user}"
            if mk in OUPS_METADATA:
                return f"write {i}: application metadata is kept in the buffer after being written"
            if o["other"]:
                if OUPS_METADATA.pop("elsewhere", None) != {"a": "wrong"}:
                    return f"write {i}: metadata of another dataset lost from the buffer"
            if o["user"]:
                exp_u[ds] = merge(exp_u[ds], o["user"])
            if o["app"] is not None:
                exp_a[ds] = merge(exp_a[ds], o["app"])
                exp_has[ds] = exp_has[ds] or bool(o["app"]) or exp_has[ds]
            for k in (0, 1):
                p = os.path.join(d, f"ds{k}")
                if not os.path.isdir(p):
                    continue
                h = ParquetHandle(p)
                got_u = {a: b for a, b in h.metadata.items() if a not in ("oups", "pandas")}
                if got_u != exp_u[k]:
                    return f"write {i}: user metadata of dataset {k} {got_u} instead of {exp_u[k]}"
                got_a = h._oups_metadata
                if (got_a or {}) != exp_a[k] or repr(sorted((got_a or {}).items())) != repr(sorted(exp_a[k].items())):
                    return f"write {i}: application metadata of dataset {k} {got_a} instead of {exp_a[k]}"
    return None
