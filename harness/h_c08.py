"""C08: plain column names expand to a column multi-index, rejected when it cannot be stored."""
from store_common import *

RULE = ("random lists of column names (plain text, texts of tuples of 0-4 items, other literals) and level names, "
        "expanded directly or at first write; random multi-indexes checked; nontrivial: at least one tuple text")
ITEMS = ["a", "b", "", "x y", "it's", "1", "("]
PLAIN = ["ts", "a", "1", "None", "[1]", "a b", "(", "open('x')", "1.5", "{}", "'q'", ""]


def gen(rng):
    mode = rng.choice(["midx", "midx", "write", "check", "conform"])
    if mode == "conform":
        nl = rng.randint(1, 3)
        pool = rng.choice([["a", "b", 1, 2.5, True], ["a", "b", "1"], [1, 2, 3], ["", "z", 7]])
        return {"mode": mode, "cols": [[rng.choice(pool) for _ in range(nl)] for _ in range(rng.randint(1, 4))],
                "names": [rng.choice([None, f"l{i}", f"l{i}"]) for i in range(nl)],
                "raw": rng.random() < 0.5}
    if mode == "check":
        nl = rng.randint(1, 3)
        cols = [[rng.choice(["a", "b", "c", 1, None, 2.5]) if rng.random() < 0.2 else rng.choice("abc")
                 for _ in range(nl)] for _ in range(rng.randint(1, 3))]
        return {"mode": mode, "cols": cols, "names": [rng.choice([None, "x"]) if rng.random() < 0.2 else f"l{i}"
                                                     for i in range(nl)]}
    cols = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            cols.append(rng.choice(PLAIN))
        else:
            cols.append([rng.choice(ITEMS) for _ in range(rng.randint(1, 4))])
    lv = rng.choice([None, None, ["k"], ["k", "m"], ["k", "m", "n", "o"]])
    return {"mode": mode, "cols": cols, "levels": lv}


def valid(c):
    if c["mode"] in ("check", "conform"):
        return bool(c["cols"]) and all(len(x) == len(c["names"]) for x in c["cols"]) and bool(c["names"])
    if not c["cols"] or any(x == [] for x in c["cols"]):
        return False
    n = max(len(x) if isinstance(x, list) else 1 for x in c["cols"])
    if c["mode"] == "write" and c["levels"] and len(c["levels"]) > n:
        return False
    if c["levels"] is not None and len(c["levels"]) > n:
        return False
    names = [repr(tuple(x)) if isinstance(x, list) else x for x in c["cols"]]
    if c["mode"] == "write" and (n < 2 or len({tuple((list(x) if isinstance(x, list) else [x]) + [""] * 4)[:4]
                                               for x in c["cols"]}) < len(c["cols"])):
        return False
    return len(set(names)) == len(names)


def nontrivial(c):
    return any(isinstance(x, list) for x in c["cols"])


def check(c):
    from oups.store.writer import check_cmidx, to_midx, write

    if c["mode"] == "conform":
        from oups.store.utils import conform_cmidx

        mi = pd.MultiIndex.from_tuples([tuple(x) for x in c["cols"]], names=c["names"])
        texts = [[str(v) for v in (x if isinstance(x, tuple) else (x,))] for x in mi.to_list()]  # labels as pandas holds them
        for lv in range(len(c["names"])):  # values of a level sharing a text: not claimed
            if len({str(x[lv]) for x in c["cols"]}) != len({(type(x[lv]), x[lv]) for x in c["cols"]}):
                return None
            if len({x[lv] for x in c["cols"]}) != len({(type(x[lv]), x[lv]) for x in c["cols"]}):
                return None  # equal values of two types (1, True)
        def index():
            """Levels in the order of sorting, or of first appearance."""
            if not c.get("raw"):
                return pd.MultiIndex.from_tuples([tuple(x) for x in c["cols"]], names=c["names"])
            lv = [list(dict.fromkeys(x[i] for x in c["cols"])) for i in range(len(c["names"]))]
            return pd.MultiIndex(levels=[pd.Index(x, dtype=object) if len({type(v) for v in x}) > 1 else x for x in lv],
                                 codes=[[x.index(y[i]) for y in c["cols"]] for i, x in enumerate(lv)], names=c["names"])

        mi = index()
        texts = [[str(v) for v in (x if isinstance(x, tuple) else (x,))] for x in mi.to_list()]
        df = pd.DataFrame([[10 * r + i for i in range(len(c["cols"]))] for r in range(3)], columns=index())
        conform_cmidx(df)
        got = [list(x) if isinstance(x, tuple) else [x] for x in df.columns]
        if got != texts:
            return f"columns {c['cols']} conformed to {got} instead of {texts}"
        if list(df.columns.names) != ["" if x is None else x for x in c["names"]]:
            return f"level names {c['names']} conformed to {list(df.columns.names)}"
        if df.values.tolist() != [[10 * r + i for i in range(len(c["cols"]))] for r in range(3)]:
            return f"values moved by conforming columns {c['cols']}"
        try:
            check_cmidx(df.columns)
        except (ValueError, TypeError) as e:
            return f"columns conformed from {c['cols']} are refused: {e}"
        return None
    if c["mode"] == "check":
        m = pd.MultiIndex.from_tuples([tuple(x) for x in c["cols"]], names=c["names"])
        bad = None in c["names"] or any(not isinstance(v, str) for x in c["cols"] for v in x if v is not None)
        if any(v is None for x in c["cols"] for v in x):
            return None  # a missing label: not claimed
        try:
            check_cmidx(m)
        except (ValueError, TypeError) as e:
            return None if bad else f"{m} refused: {e}"
        return f"{m} accepted" if bad else None
    names = [repr(tuple(x)) if isinstance(x, list) else x for x in c["cols"]]
    n = max(len(x) if isinstance(x, list) else 1 for x in c["cols"])
    exp = [tuple((list(x) if isinstance(x, list) else [x]) + [""] * n)[:n] for x in c["cols"]]
    lv = None if c["levels"] is None else list(c["levels"])
    exp_names = (c["levels"] or []) + [f"l{i}" for i in range(len(c["levels"] or []), n)]
    if c["mode"] == "midx":
        idx = pd.Index(names)
        m = to_midx(idx, lv)
        got, got_names = [x if isinstance(x, tuple) else (x,) for x in m], list(m.names)
        if list(idx) != names:
            return "index modified"
    else:
        from fastparquet import ParquetFile

        df = pd.DataFrame({k: [i, i + 1] for i, k in enumerate(names)})
        with Dir() as d:
            write(d, df, cmidx_expand=True, cmidx_levels=lv)
            p = ParquetFile(d).to_pandas()
            got, got_names = list(p.columns), list(p.columns.names)
            if got == exp and [list(p[k]) for k in exp] != [[i, i + 1] for i in range(len(exp))]:
                return f"columns {names}: values mixed up {p}"
    if lv != c["levels"]:
        return f"level names of the caller changed from {c['levels']} to {lv}"
    if got != exp:
        return f"{names} expanded to {got} instead of {exp}"
    if got_names != exp_names:
        return f"{names} with level names {c['levels']}: levels named {got_names} instead of {exp_names}"
    return None
