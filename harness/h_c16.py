"""C16: a filter keeps the rows for which all conditions of at least one alternative hold."""
import operator

RULE = ("random frames of 0-8 rows (int, float, text, boolean columns), filters of 1-3 alternatives of 1-3 conditions "
        "with every operator, compared row by row; nontrivial: at least 2 conditions")
OPS = {"==": operator.eq, "=": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge, "<": operator.lt,
       "<=": operator.le}


def gen(rng):
    n = rng.randint(0, 8)
    rows = [[rng.randint(0, 4), rng.randint(0, 4), rng.choice("abc"), rng.random() < 0.5] for _ in range(n)]
    f = []
    for _ in range(rng.randint(1, 3)):
        part = []
        for _ in range(rng.randint(1, 3)):
            col = rng.choice(["i", "x", "s", "b"])
            if col == "b" and rng.random() < 0.6:
                part.append([col, "~", None])
                continue
            op = rng.choice(list(OPS) + ["in", "not in"] + (["??"] if rng.random() < 0.05 else []))
            v = {"i": lambda: rng.randint(0, 4), "x": lambda: rng.randint(0, 4), "s": lambda: rng.choice("abc"),
                 "b": lambda: rng.random() < 0.5}[col]
            part.append([col, op, [v() for _ in range(rng.randint(0, 3))] if op in ("in", "not in") else v()])
        f.append(part)
    return {"rows": rows, "f": f, "idx": rng.randint(0, 5), "flat": rng.random() < 0.05}


def valid(c):
    def okc(t):
        if len(t) != 3 or t[0] not in ("i", "x", "s", "b"):
            return False
        if t[1] == "~":
            return t[0] == "b"
        if t[1] in ("in", "not in"):
            return isinstance(t[2], list)
        ty = {"i": int, "x": int, "s": str, "b": bool}[t[0]]
        return not isinstance(t[2], list) and type(t[2]) is ty

    return c["f"] and all(p and all(okc(t) for t in p) for p in c["f"]) and all(len(r) == 4 for r in c["rows"])


def nontrivial(c):
    return sum(map(len, c["f"])) > 1


def check(c):
    import pandas as pd

    from oups.aggstream.utils import dataframe_filter

    rows = c["rows"]
    df = pd.DataFrame({
        "i": pd.Series([r[0] for r in rows], dtype="int64"), "x": pd.Series([r[1] / 2 for r in rows], dtype="float64"),
        "s": pd.Series([r[2] for r in rows], dtype="object"), "b": pd.Series([r[3] for r in rows], dtype="bool")})
    df.index = range(c["idx"], c["idx"] + len(rows))
    keep = df.copy()

    def val(t):
        if t[0] != "x" or t[1] == "~":
            return t[2]
        return [v / 2 for v in t[2]] if isinstance(t[2], list) else t[2] / 2

    filt = [[(t[0], t[1], val(t)) for t in p] for p in c["f"]]
    bad = any(t[1] == "??" for p in filt for t in p)
    if c["flat"]:
        filt, bad = filt[0], True
    try:
        got = dataframe_filter(df, filt)
    except ValueError as e:
        return None if bad else f"filter {filt} refused: {e}"
    if bad:
        return f"filter {filt} accepted"
    if not df.equals(keep):
        return "frame modified"

    def cond(r, t):
        v = {"i": r[0], "x": r[1] / 2, "s": r[2], "b": r[3]}[t[0]]
        if t[1] == "in":
            return v in t[2]
        if t[1] == "not in":
            return v not in t[2]
        if t[1] == "~":
            return not v
        return OPS[t[1]](v, t[2])

    exp = [any(all(cond(r, t) for t in p) for p in filt) for r in rows]
    if [bool(x) for x in got] != exp:
        return f"rows {rows}, filter {filt}: {[bool(x) for x in got]} instead of {exp}"
    return None
