"""C09: all read paths of a dataset return the same rows in the same order, with exact min and max."""
from store_common import *

RULE = ("random histories of 1-4 writes giving 1-130 row groups, read through every handle; nontrivial: more than 9 "
        "row groups")


def gen(rng):
    ops = gen_history(rng, max_ops=4, max_rows=rng.choice([6, 30]), span=rng.choice([10, 60]))
    for o in ops:
        o["mrgs"] = rng.choice([1, 1, 2, 3])
        o["vaex"] = 0
    if rng.random() < 0.02:  # file names with numbers of three digits
        ops = [{**ops[0], "rows": [[i // 2, i % 5, i % 7] for i in range(rng.randrange(101, 131))], "mrgs": 1, "nirgs": None}]
    enc = {"a": rng.choice(["int", "neg", "float", "ts", "str"]), "b": rng.choice(["int", "big", "neg", "float", "ts"])}
    return {"ops": ops, "ordered": rng.random() < 0.7, "enc": enc, "kind": rng.choice(["int", "ts", "float", "int32"])}


def valid(c):
    return all(x in "ab" and e in VALS for x, e in c["enc"].items()) and bool(c["ops"]) and all(
        o["rows"] and all(len(r) == 3 for r in o["rows"]) and o["mrgs"] and o["mrgs"] > 0
        and [r[0] for r in o["rows"]] == sorted(r[0] for r in o["rows"])
        and (o["nirgs"] is None or o["nirgs"] >= 0) for o in c["ops"])


def nontrivial(c):
    return sum(len(o["rows"]) // o["mrgs"] for o in c["ops"]) > 9


def check(c):
    from dataclasses import make_dataclass

    from oups import ParquetSet, toplevel
    from store_common import Dir

    K = toplevel(type("K", (), {"__annotations__": {"name": str}, "__module__": __name__}))
    k = K("a")
    with Dir() as d:
        ps = ParquetSet(d, K)
        allrows = []
        for o in c["ops"]:
            cfg = {"max_row_group_size": o["mrgs"], "max_nirgs": o["nirgs"]}
            if c["ordered"]:
                cfg["ordered_on"] = "t"
            ps[k] = cfg, frame(o["rows"], c["kind"], enc=c["enc"])
            allrows += o["rows"]
        h = ps[k]
        a = rows_of(h.pdf, c["kind"], enc=c["enc"])
        if sorted(a) != sorted(allrows):
            return f"pandas rows {a} are not those written"
        b = rows_of(h.pf.to_pandas(), c["kind"], enc=c["enc"])
        if a != b:
            return f"pandas read {a} and parquet file read {b} differ"
        v = rows_of(h.vdf.to_pandas_df(), c["kind"], enc=c["enc"])
        if a != v:
            return f"pandas read {a} and vaex read {v} differ"
        one = {x: list(v) for x, v in frame(c["ops"][0]["rows"][:1], c["kind"], enc=c["enc"]).items()}
        for j, col in enumerate(("t", "a", "b")):
            if c["enc"].get(col) == "str":
                continue
            mm = h.min_max(col)
            mm = tuple(rows_of({x: [mm[s] if x == col else y for y in v] for x, v in one.items()}, c["kind"], enc=c["enc"])[0][j] for s in (0, 1))
            if c["enc"].get(col) == "neg":
                mm = mm[::-1]
            ex = (min(r[j] for r in allrows), max(r[j] for r in allrows))
            if mm != ex:
                return f"min and max of column '{col}' given as {mm} instead of {ex}"
    return None
