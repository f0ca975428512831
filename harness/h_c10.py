"""C10: each bin of a one-shot aggregation is the aggregation of the rows of this bin."""
from agg_common import *

RULE = ("random frames of 1-14 rows (int, float, datetime columns), time groupers and row-count bins, 1-6 aggregations, "
        "with or without observation points, plus the aggregation functions called directly on random blocks with or "
        "without an initial value; nontrivial: more than one bin or a direct call with rows")


def gen(rng):
    if rng.random() < 0.25:
        n, m = rng.randint(0, 5), rng.randint(1, 3)
        return {"direct": rng.choice(list(AGGF)), "float": rng.random() < 0.5, "use": rng.random() < 0.5,
                "rows": [[rng.randint(-9, 9) for _ in range(m)] for _ in range(n)],
                "init": [rng.randint(-9, 9) for _ in range(m)]}
    if rng.random() < 0.12:
        # bins of a function of the user: any labels (repeated ones too), empty bins
        n = rng.randint(1, 10)
        nb = rng.randint(1, 6)
        return {"labels": [rng.randint(0, 3) for _ in range(nb)], "ends": sorted(rng.randint(0, n) for _ in range(nb - 1)) + [n],
                "cols": {k: [rng.randint(1, 9) for _ in range(n)] for k in "if"},
                "agg": {f"o{i}": [rng.choice("if"), rng.choice(list(AGGF))] for i in range(rng.randint(1, 4))}}
    c = gen_case(rng, max_n=14)
    if rng.random() < 0.4:
        c["cols"] = {k: ([v - 5 for v in x] if k in "ijf" else x) for k, x in c["cols"].items()}
    return c


def valid(c):
    if "direct" in c:
        return bool(c["init"]) and all(len(r) == len(c["init"]) for r in c["rows"])
    if "labels" in c:
        n = len(c["cols"].get("i", ()))
        return (n > 0 and set(c["cols"]) == {"i", "f"} and all(len(v) == n for v in c["cols"].values()) and len(c["labels"]) == len(c["ends"]) > 0
                and c["ends"] == sorted(c["ends"]) and c["ends"][0] >= 0 and c["ends"][-1] == n and bool(c["agg"])
                and all(x[0] in c["cols"] and x[1] in AGGF for x in c["agg"].values()))
    return valid_agg(c)


def nontrivial(c):
    if "direct" in c:
        return len(c["rows"]) > 0
    if "labels" in c:
        return len(c["labels"]) > 1
    return len(oracle_bins(c["vals"], c["bin"])) > 1


def check(c):
    if "direct" in c:
        import numpy as np

        from oups.aggstream.jcumsegagg import AGG_FUNCS

        dt = "float64" if c["float"] else "int64"
        ar = np.array(c["rows"], dtype=dt).reshape(len(c["rows"]), len(c["init"]))
        init = np.array(c["init"], dtype=dt)
        got = AGG_FUNCS[c["direct"]](ar.copy(), init.copy(), c["use"])
        f = AGGF[c["direct"]]
        for j in range(len(c["init"])):
            seg = ([c["init"][j]] if c["use"] else []) + [r[j] for r in c["rows"]]
            exp = f(seg) if seg else 0
            if got[j] != exp:
                return (f"{c['direct']} of rows {c['rows']} with initial value {c['init'] if c['use'] else None}: "
                        f"{got[j]} instead of {exp} in column {j}")
        return None
    if "labels" in c:
        return own_bins(c)
    eb, _ = expected(c)
    gb, _ = run_cumsegagg(c)
    if gb != eb:
        return f"bins {gb} instead of {eb}"
    return None


def own_bins(c):
    import numpy as np

    from oups.aggstream.cumsegagg import cumsegagg

    df = df_of({"vals": list(range(len(c["cols"]["i"]))), "cols": c["cols"]})
    ends = c["ends"]

    def bin_by(on, buffer=None):
        n = len(ends)
        return (np.array(ends, dtype="int64"), pd.Series(c["labels"], dtype="int64"),
                sum(1 for s, e in zip([0] + ends, ends) if s == e), "left", pd.Series([ts(e) for e in ends]), True)

    res = cumsegagg(df, {k: tuple(v) for k, v in c["agg"].items()}, bin_by, bin_on="i", ordered_on="ts")
    exp = [(lab, agg_rows(c["cols"], c["agg"], s, e)) for lab, s, e in zip(c["labels"], [0] + ends, ends)]
    got = norm_res(res, c["agg"], df)
    if got != exp:
        return f"bins of a function ending at {ends}: {got} instead of {exp}"
    return None
