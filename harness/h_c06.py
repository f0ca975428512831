"""C06: splitting a dataframe in chunks is a partition, with bounded sizes and sharp boundaries."""
from store_common import *

RULE = ("random frames (0-30 rows, runs of equal ordering values), sizes 1-12 or unset, pandas or vaex, with/without "
        "sharp boundaries and duplicates; also row groups on disk after a first write and after an append; "
        "nontrivial: more than one chunk expected")


def gen(rng):
    n = rng.choice([0, 1, 2, rng.randint(3, 30), rng.randint(3, 30)])
    rows = gen_rows(rng, 0, rng.choice([2, 6, 20]), n, [0])
    return {"rows": rows, "mrgs": rng.choice([None, 1, 2, 3, 4, 5, 7, 12]),
            "mode": rng.choice(["pandas", "vaex", "sharp", "sharp", "dups", "dups_all", "dups_str", "disk", "disk"]),
            "cut": rng.randint(0, n)}


def valid(c):
    return all(len(r) == 3 for r in c["rows"]) and [r[0] for r in c["rows"]] == sorted(r[0] for r in c["rows"]) \
        and (c["mrgs"] is None or c["mrgs"] > 0) and 0 <= c["cut"] <= len(c["rows"]) \
        and not (c["mode"] in ("vaex", "sharp", "dups", "dups_all", "dups_str", "disk") and not c["rows"])


def nontrivial(c):
    return bool(c["mrgs"]) and len(c["rows"]) > c["mrgs"]


def check(c):
    from oups.store.writer import iter_dataframe, write
    import vaex

    rows, mrgs, mode = c["rows"], c["mrgs"], c["mode"]
    df = frame(rows)
    if mode == "disk":
        from fastparquet import ParquetFile

        with Dir() as d:
            first, second = df.iloc[: c["cut"]], df.iloc[c["cut"]:]
            n = 0
            for part in (first, second):
                if not len(part):
                    continue
                write(d, part, max_row_group_size=mrgs)
                n += len(part)
                pf = ParquetFile(d)
                if mrgs and any(rg.num_rows > mrgs for rg in pf.row_groups):
                    return f"row groups {[rg.num_rows for rg in pf.row_groups]} with a max size of {mrgs}"
                got = rows_of(pf.to_pandas())
                if got != rows[:n]:
                    return f"appended without ordering: {got} instead of {rows[:n]}"
        return None
    if mode == "pandas":
        chunks = [rows_of(x) for x in iter_dataframe(df, mrgs)]
        kw = {}
    else:
        kw = {"vaex": {}, "sharp": {"sharp_on": "t"}, "dups": {"sharp_on": "t", "duplicates_on": ["a"]},
              "dups_str": {"sharp_on": "t", "duplicates_on": "a"},
              "dups_all": {"sharp_on": "t", "duplicates_on": []}}[mode]
        before = repr(kw)
        chunks = [rows_of(x) for x in iter_dataframe(vaex.from_pandas(df), mrgs, **kw)]
        if repr(kw) != before:
            return f"arguments changed from {before} to {kw}"
    flat = [r for ch in chunks for r in ch]
    exp = rows
    if mode in ("dups", "dups_str"):
        last = {}
        for i, r in enumerate(rows):
            last[(r[0], r[1])] = i
        exp = [rows[i] for i in sorted(last.values())]
    if flat != exp:
        return f"chunks {chunks} (max size {mrgs}, {kw}) do not make up the rows {exp}"
    if rows and any(not ch for ch in chunks):
        return f"empty chunk in {chunks}"
    if mrgs and mode in ("pandas", "vaex"):
        if any(len(ch) > mrgs for ch in chunks):
            return f"chunk sizes {[len(x) for x in chunks]} with a max size of {mrgs}"
    if mrgs and mode == "sharp":
        for ch in chunks:
            run = sum(1 for r in ch if r[0] == ch[0][0])
            runs_last = sum(1 for r in ch if r[0] == ch[-1][0])
            if len(ch) > mrgs - 1 + max(run, runs_last):
                return f"chunk of {len(ch)} rows, first value repeated {run} times, max size {mrgs}"
    if "sharp_on" in kw:
        for x, y in zip(chunks, chunks[1:]):
            if x[-1][0] == y[0][0]:
                return f"value {y[0][0]} is split over two chunks: {chunks}"
    if not mrgs and len(chunks) > 1:
        return f"{len(chunks)} chunks for {len(rows)} rows with no max size"
    return None
