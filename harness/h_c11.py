"""C11: each row falls in the time segment its value belongs to, also when restarting."""
from agg_common import *

RULE = ("random sorted values segmented by time groupers, lists of ends or pairs (labels, ends), left/right closed, in "
        "one or several calls sharing a buffer; and the row search called directly; nontrivial: an empty segment or several calls")


def gen(rng):
    n = rng.randint(1, 10)
    span = rng.choice([5, 20, 60, 60, 6000])
    vals = sorted(rng.randint(0, span) for _ in range(n))
    kind = rng.choice(["tg", "tg", "series", "pair", "raw", "raw"])
    c = {**gen_unit(rng), "vals": vals, "kind": kind, "closed": rng.choice(["left", "right"]),
         "splits": sorted({rng.randint(1, n) for _ in range(rng.randint(0, 2))} | {n})}
    if kind == "tg":
        c.update(freq=rng.choice([1, 2, 3, 5, 7, 10, 15]) if span < 100 else rng.choice([300, 420, 500, 1440, 2160, 2880]), label=rng.choice(["left", "right"]))
    else:
        c["ends"] = sorted({rng.randint(-2, span + 4) for _ in range(rng.randint(1, 7))})
        if kind == "raw":
            c["ends"] = sorted(c["ends"] + ([rng.choice(c["ends"])] if rng.random() < 0.3 else []))
            c["float"] = rng.random() < 0.4
        elif rng.random() < 0.4:
            c["num"] = rng.choice(["int64", "float64"])
    return c


def valid(c):
    return valid_unit(c) and (not c.get("num") or "ends" in c and c["num"] in ("int64", "float64")) and c["vals"] and c["vals"] == sorted(c["vals"]) and c["splits"] == sorted(set(c["splits"])) and c["splits"] \
        and c["splits"][0] > 0 and c["splits"][-1] == len(c["vals"]) and \
        (("freq" in c and c["freq"] > 0 and max(c["vals"]) - min(c["vals"]) <= 1000 * c["freq"]) or ("ends" in c and c["ends"]
         and c["ends"] == sorted(c["ends"]) and (c["kind"] == "raw" or len(set(c["ends"])) == len(c["ends"]))))


def nontrivial(c):
    return len(c["splits"]) > 1 or len(c["vals"]) > 1


def oracle(c, vals):
    if c["kind"] == "tg":
        ed = tg_edges(vals[0], vals[-1], c["freq"], c["closed"])
        ends, labels = ed[1:], (ed[1:] if c["label"] == "right" else ed[:-1])
    else:
        ends = c["ends"]
        labels = ends if c["kind"] != "pair" else [1000 + i for i in range(len(ends))]
    return oracle_scale(vals, ends, labels, c["closed"])


def check(c):
    import numpy as np

    set_unit(c)
    vals, closed = c["vals"], c["closed"]
    if c["kind"] == "raw":
        from oups.aggstream.segmentby import _next_chunk_starts

        dt = "float64" if c.get("float") else "int64"
        starts, nulls, trav = _next_chunk_starts(np.array(vals, dtype=dt), np.array(c["ends"], dtype=dt), closed == "right")
        exp, etrav = oracle_scale(vals, c["ends"], c["ends"], closed)
        es = [k for _, k, _ in exp]
        en = sum(1 for a, b in zip([0] + es, es) if a == b)
        if list(starts) != es or bool(trav) != etrav or int(nulls) != en:
            return (f"values {vals}, ends {c['ends']}, {closed} closed: starts of next chunks {list(starts)}, {nulls} empty, "
                    f"traversed {trav} instead of {es}, {en}, {etrav}")
        return None
    from oups.aggstream.segmentby import by_scale

    def by():
        if c["kind"] == "tg":
            return pd.Grouper(freq=freq_of(c['freq']), closed=closed, label=c["label"])
        ends = pd.Series(pd.DatetimeIndex([ts(m) for m in c["ends"]]))
        if U["num"]:
            ends = pd.Series(c["ends"], dtype=U["num"])
        if c["kind"] == "pair":
            return pd.Series([1000 + i for i in range(len(ends))]), ends
        return ends

    def lab(x):
        return units(x) if isinstance(x, pd.Timestamp) else int(x)

    exp, etrav = oracle(c, vals)
    multi = len(c["splits"]) > 1
    buffer = {} if multi else None
    s = 0
    got_rows, got_labels = [], []
    for e in c["splits"]:
        on = pd.Series(vals[s:e], dtype=U["num"]) if U["num"] else pd.Series(pd.DatetimeIndex([ts(m) for m in vals[s:e]]))
        keep = on.copy()
        st, labels, nulls, cl, ends, unk = by_scale(on, by(), closed, buffer)
        if not on.equals(keep):
            return "values modified"
        st, labels = [int(x) for x in st], [lab(x) for x in labels]
        if len(st) != len(labels) or len(st) != len(ends):
            return f"{len(st)} starts, {len(labels)} labels, {len(ends)} ends"
        if not multi:
            ex = [(l, k, en) for l, k, en in exp]
            gx = list(zip(labels, st, [lab(x) for x in ends]))
            if gx != ex or cl != closed or unk:
                return f"values {vals}: segments (label, next start, end) {gx} instead of {ex}"
            en = sum(1 for a, b in zip([0] + st, st) if a == b)
            if nulls != en:
                return f"values {vals}: {nulls} empty segments counted instead of {en}"
        p = 0
        for k, l in zip(st, labels):
            got_rows += [l] * (k - p)
            p = k
            if not got_labels or got_labels[-1] != l:
                got_labels.append(l)
        got_rows += [None] * (e - s - p)
        s = e
    ex_rows, p = [], 0
    for l, k, _ in exp:
        ex_rows += [l] * (k - p)
        p = k
    ex_rows += [None] * (len(vals) - p)
    if got_rows != ex_rows:
        return f"values {vals} split at {c['splits']}: rows in segments {got_rows} instead of {ex_rows}"
    if got_labels != [l for l, _, _ in exp]:
        return f"values {vals} split at {c['splits']}: segments {got_labels} instead of {[l for l, _, _ in exp]}"
    return None
