"""C12: row-count bins hold the requested number of rows, whatever the way rows are provided."""
from agg_common import *

RULE = ("1-20 rows with increasing values, 1-7 rows per bin, left/right closed, one or two columns, in one or several "
        "calls sharing a buffer; nontrivial: several calls")


def gen(rng):
    n = rng.randint(1, 20)
    vals, v = [], 0
    for _ in range(n):
        v += rng.randint(1, 3)
        vals.append(v)
    k = rng.choice([0, 0, 1, 2, 3, 5])
    return {"vals": vals, "by": rng.randint(1, 7), "closed": rng.choice(["left", "right"]), "two": rng.random() < 0.3,
            "buf": rng.random() < 0.8, "splits": sorted({rng.randint(1, n) for _ in range(k)} | {n})}


def valid(c):
    return c["vals"] and c["vals"] == sorted(set(c["vals"])) and c["by"] > 0 and c["splits"] \
        and c["splits"] == sorted(set(c["splits"])) and c["splits"][0] > 0 and c["splits"][-1] == len(c["vals"])


def nontrivial(c):
    return len(c["splits"]) > 1


def check(c):
    from oups.aggstream.segmentby import by_x_rows

    vals, by, closed = c["vals"], c["by"], c["closed"]
    buf = {} if (c["buf"] or len(c["splits"]) > 1) else None
    s = 0
    for e in c["splits"]:
        on = pd.Series(vals[s:e])
        if c["two"]:
            on = pd.DataFrame({"x": range(e - s), "o": vals[s:e]})
        st, labels, nulls, cl, ends, unk = by_x_rows(on=on, by=by, closed=closed, buffer=buf)
        st, labels, ends = [int(x) for x in st], [int(x) for x in labels], [int(x) for x in ends]
        # oracle: bin of row r is r // by
        bins = sorted({r // by for r in range(s, e)})
        if s and bins[0] != (s - 1) // by:
            bins = [(s - 1) // by] + bins  # continuation (empty) of last bin
        est = [min((b + 1) * by, e) - s for b in bins]
        elab = [vals[b * by] for b in bins]
        if closed == "left":
            eends = [vals[(b + 1) * by] if (b + 1) * by < e else None for b in bins]
            eunk = True
        else:
            eends = [vals[min((b + 1) * by, e) - 1] for b in bins]
            eunk = (bins[-1] + 1) * by > e
        enull = 1 if est[0] == 0 else 0
        if st != est or labels != elab:
            return f"rows {s}-{e} of {vals}, {by} per bin: next starts {st}, labels {labels} instead of {est}, {elab}"
        if any(y is not None and x != y for x, y in zip(ends, eends)) or len(ends) != len(eends):
            return f"rows {s}-{e} of {vals}, {by} per bin, {closed} closed: ends {ends} instead of {eends}"
        if bool(unk) != eunk or cl != closed or nulls != enull:
            return f"rows {s}-{e} of {vals}, {by} per bin: end unknown {unk}, {nulls} empty instead of {eunk}, {enull}"
        s = e
    return None
