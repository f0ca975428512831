"""C15: every requested output column is the requested function of the requested input column."""
from agg_common import *

RULE = ("random aggregation requests of 1-10 outputs over 5 columns of 3 types, in any order, applied to frames whose "
        "columns are in any order, compared column by column with the oracle; requests on unknown columns or functions "
        "have to be refused; nontrivial: at least 3 outputs")
COLS = ["i", "j", "f", "g", "d", "e"]


def gen(rng):
    n = rng.randint(1, 6)
    cols = {c: [rng.randint(1, 99) for _ in range(n)] for c in COLS}
    ks = list(cols)
    rng.shuffle(ks)
    agg = {}
    for a in range(rng.randint(1, 10)):
        c = rng.choice(COLS)
        agg[rng.choice("abcdefgz") + str(a)] = [c, rng.choice(["first", "last", "min", "max"] if c in "de" else list(AGGF))]
    return {"vals": sorted(rng.randint(0, 9) for _ in range(n)), "bin": ["tg", 5, "left", "left"], "snap": None,
            "cols": {k: cols[k] for k in ks}, "order": ks, "agg": agg, "reuse": rng.random() < 0.3,
            "bad": rng.choice([None] * 6 + ["col", "func"])}


def valid(c):
    return valid_agg({**c, "agg": {k: [("d" if v[0] == "e" else v[0]), v[1]] for k, v in c["agg"].items()}}) \
        and sorted(c["cols"]) == sorted(COLS) and sorted(c["order"]) == sorted(COLS)


def nontrivial(c):
    return len(c["agg"]) > 2


def check(c):
    from oups.aggstream.cumsegagg import cumsegagg, setup_cumsegagg

    ren = {"g": "fg", "e": "de"}
    c = {**c, "cols": {ren.get(k, k): c["cols"][k] for k in c["order"]},
         "agg": {k: [ren.get(v[0], v[0]), v[1]] for k, v in c["agg"].items()}}
    df = df_of(c)
    agg = {k: tuple(v) for k, v in c["agg"].items()}
    if c["bad"]:
        k = list(agg)[-1]
        agg[k] = ("nowhere", "first") if c["bad"] == "col" else (agg[k][0], "median")
        try:
            setup_cumsegagg(agg, df.dtypes.to_dict())
        except ValueError:
            return None
        return f"aggregation request {agg} accepted"
    keep = dict(agg)
    cfg = setup_cumsegagg(agg, df.dtypes.to_dict())
    if agg != keep:
        return f"request changed from {keep} to {agg}"
    bb = bin_by_of(c["bin"])
    eb, _ = expected(c)
    for what in ([agg, cfg] if not c["reuse"] else [cfg, cfg]):
        res = cumsegagg(df.copy(), what, bb)
        if sorted(res.columns) != sorted(agg):
            return f"output columns {list(res.columns)} instead of {list(agg)}"
        for k, (inc, f) in agg.items():
            dt = str(res[k].dtype)
            ok = {"d": "datetime64[ns]", "f": "float64"}.get(inc[0], "Int64")
            if dt != ok:
                return f"column '{k}' from '{inc}' has type {dt} instead of {ok}"
        got = norm_res(res, agg, df)
        if got != eb:
            return f"request {agg}: {got} instead of {eb}"
    return None
