"""C05: dropping duplicates keeps the last written row, other rows unchanged."""
from store_common import *

RULE = ("random histories of 2-5 batches with overlapping ordering values and duplicate sets (one column, list, all "
        "columns), compared with a keyed-dict oracle; nontrivial: at least one duplicate between batches")
COLS = ("t", "a", "b")


def gen(rng):
    ops = gen_history(rng, max_ops=4, max_rows=8, span=8, dup=0.4)
    on = rng.choice([["a"], ["a", "t"], "t", "a", []])
    # no duplicates inside a batch
    for o in ops:
        seen, rows = set(), []
        for r in o["rows"]:
            if on == []:
                r[2] = r[2] % 2
            k = key(r, on)
            if k not in seen:
                seen.add(k)
                rows.append(r)
        o["rows"] = rows
    enc = {"a": rng.choice(["int", "int", "big", "neg", "str", "float", "ts"]), "b": rng.choice(["int", "int", "big", "str", "ts", "float"])}
    return {"ops": ops, "on": on, "kind": rng.choice(["int", "ts", "float", "int32"]), "enc": enc, "ix": rng.random() < 0.2}


def key(r, on):
    if on == []:
        return tuple(r)
    cols = {"t"} | ({on} if isinstance(on, str) else set(on))
    return tuple(r[COLS.index(c)] for c in sorted(cols))


def valid(c):
    return all(x in "ab" and e in VALS for x, e in c["enc"].items()) and bool(c["ops"]) and c["on"] in (["a"], ["a", "t"], "t", "a", []) and all(
        o["rows"] and all(len(r) == 3 for r in o["rows"])
        and [r[0] for r in o["rows"]] == sorted(r[0] for r in o["rows"])
        and len({key(r, c["on"]) for r in o["rows"]}) == len(o["rows"])
        and (o["mrgs"] is None or o["mrgs"] > 0) and (o["nirgs"] is None or o["nirgs"] >= 0) for o in c["ops"])


def nontrivial(c):
    ks = [key(r, c["on"]) for o in c["ops"] for r in o["rows"]]
    return len(set(ks)) < len(ks)


def check(c):
    from oups.store.router import ParquetHandle
    from oups.store.writer import write

    kind = c["kind"]
    exp = []
    with Dir() as d:
        for i, o in enumerate(c["ops"]):
            on = list(c["on"]) if isinstance(c["on"], list) else c["on"]
            write(d, as_data(frame(o["rows"], kind, enc=c["enc"], ix=c["ix"]), o["vaex"]), ordered_on="t", duplicates_on=on,
                  max_row_group_size=o["mrgs"], max_nirgs=o["nirgs"])
            if on != c["on"]:
                return f"the caller's list of columns was changed to {on}"
            new = {key(r, c["on"]) for r in o["rows"]}
            exp = sorted([r for r in exp if key(r, c["on"]) not in new] + o["rows"], key=lambda r: r[0])
            got = rows_of(ParquetHandle(d).pdf, kind, enc=c["enc"])
            if got != exp:
                return f"after batch {i} (duplicates on {c['on']}): rows {got} instead of {exp}"
    return None
