"""C04: updating a dataset in order keeps every row once and the ascending order."""
import json

from store_common import *

RULE = ("random histories of 1-5 batches (positioned before/after/inside/across/touching recorded data, from pandas or "
        "vaex) with random row-group sizes and coalescing settings, compared with a sorted list; nontrivial: at least 2 batches")


def gen(rng):
    c = gen1(rng)
    if "null" in c["enc"].values():
        for o in c["ops"]:
            o["vaex"] = 0  # vaex has no such type
    return c


def gen1(rng):
    return {"ops": gen_history(rng), "kind": rng.choice(["int", "ts", "float", "int32"]),
            "enc": {"a": rng.choice(["int", "int", *(v for v in VALS if v != "bignull")]), "b": rng.choice(["int", "int", "big", "str", "ts", "float"])},
            "ix": rng.random() < 0.2, "empty": rng.random() < 0.1}


def enumerate_cases(seed):
    # listed in known_findings.txt
    yield {"ops": [{"rows": [[0, 0, 1], [1, 1, 2]], "vaex": 0, "nirgs": None, "mrgs": 5}, {"rows": [[1, 1, 3]], "vaex": 0, "nirgs": None, "mrgs": 5}],
           "kind": "int", "enc": {"a": "bignull"}, "ix": False, "empty": False}


def finding_key(c, m):
    return "bignull" if "bignull" in c["enc"].values() and m.startswith("after batch 1: rows [[0, 0, 1], [1, ") else ""


def valid(c):
    return all(x in "ab" and (e in VALS or e == "bignull") for x, e in c["enc"].items()) and bool(c["ops"]) and all(
        o["rows"] and all(len(r) == 3 for r in o["rows"])
        and [r[0] for r in o["rows"]] == sorted(r[0] for r in o["rows"])
        and (o["mrgs"] is None or o["mrgs"] > 0) and (o["nirgs"] is None or o["nirgs"] >= 0) for o in c["ops"])


def nontrivial(c):
    return len(c["ops"]) > 1


def check(c):
    from oups.store.router import ParquetHandle
    from oups.store.writer import write

    kind = c["kind"]
    exp = []
    with Dir() as d:
        for i, o in enumerate(c["ops"]):
            df = frame(o["rows"], kind, enc=c["enc"], ix=c["ix"])
            keep = df.copy()
            write(d, as_data(df, o["vaex"]), ordered_on="t", max_row_group_size=o["mrgs"], max_nirgs=o["nirgs"])
            if not df.equals(keep):
                return f"batch {i} was modified by the write"
            exp = sorted(exp + o["rows"], key=lambda r: r[0])  # stable: ties keep write order
            if c.get("empty") and i:
                write(d, df.iloc[:0], ordered_on="t", max_row_group_size=o["mrgs"], max_nirgs=o["nirgs"])
            got = rows_of(ParquetHandle(d).pdf, kind, enc=c["enc"])
            if [r[0] for r in got] != [r[0] for r in exp]:
                return f"after batch {i}: values of the ordering column {[r[0] for r in got]} instead of {[r[0] for r in exp]}"
            if sorted(got) != sorted(exp):
                return f"after batch {i}: rows {got} instead of {exp}"
            if got != exp:
                return f"after batch {i}: rows sharing an ordering value are not in order of writing: {got} instead of {exp}"
    return None
