"""Histories of writes to one dataset, against a list-of-rows oracle."""
import os
import shutil
import tempfile

import pandas as pd


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        return os.path.join(self.d, "ds")

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


TS0 = pd.Timestamp("2020-01-01")


# how values of the columns are written: name -> (encode, type, decode)
BIG = 2**53 + 1
NS = pd.Timestamp("1969-12-31 23:00:00.000001001")
VALS = {
    "int": (lambda x: x, "int64", int),
    "big": (lambda x: BIG + x, "int64", lambda v: int(v) - BIG),
    "neg": (lambda x: -x, "int32", lambda v: -int(v)),
    "str": (lambda x: f"k,{x}'é", "object", lambda v: int(v[2:-2])),
    "float": (lambda x: x / 4 - 1, "float64", lambda v: int((float(v) + 1) * 4)),
    "nan": (lambda x: x + 0.5 if x else float("nan"), "float64", lambda v: int(v) if v == v else 0),
    "null": (lambda x: x if x else None, "Int64", lambda v: 0 if v is pd.NA or v != v else int(v)),
    "bignull": (lambda x: BIG + x - 1 if x else None, "Int64", lambda v: 0 if v is pd.NA or v != v else int(v) - BIG + 1),
    "ts": (lambda x: NS + pd.Timedelta(x, unit="s"), "datetime64[ns]", lambda v: int((pd.Timestamp(v) - NS) / pd.Timedelta(1, unit="s"))),
}


def frame(rows, kind="int", cols=("t", "a", "b"), enc=None, ix=0):
    """rows: list of lists of ints -> pandas dataframe; 't' column of given kind, others as said by 'enc'."""
    df = _frame(rows, kind, cols)
    for c, e in (enc or {}).items():
        f, t, _ = VALS[e]
        df[c] = pd.Series([f(x) for x in df[c].tolist()], dtype=t)
    if ix:
        df.index = [7 * i % 5 for i in range(len(df))]  # any index: not ordered, not unique
    return df


def _frame(rows, kind, cols):
    d = {}
    for i, c in enumerate(cols):
        v = [r[i] for r in rows]
        if c == "t" and kind == "ts":
            d[c] = pd.Series([TS0 + pd.Timedelta(x, unit="h") for x in v], dtype="datetime64[ns]")
        elif c == "t" and kind == "int32":
            d[c] = pd.Series([x - 10 for x in v], dtype="int32")
        elif c == "t" and kind == "float":
            d[c] = pd.Series([x / 2 for x in v], dtype="float64")
        else:
            d[c] = pd.Series(v, dtype="int64")
    return pd.DataFrame(d)


def rows_of(df, kind="int", cols=("t", "a", "b"), enc=None):
    out = []
    for r in zip(*[df[c] for c in cols]):
        r = list(r)
        for c, e in (enc or {}).items():
            r[cols.index(c)] = VALS[e][2](r[cols.index(c)])
        if kind == "int32":
            r[0] = int(r[0]) + 10
        if kind == "ts":
            r[0] = int((pd.Timestamp(r[0]) - TS0) / pd.Timedelta(1, unit="h"))
        elif kind == "float":
            r[0] = int(float(r[0]) * 2)
        out.append([int(x) for x in r])
    return out


def gen_rows(rng, lo, hi, n, counter, dup=0.4):
    ts = []
    for _ in range(n):
        if ts and rng.random() < dup:
            ts.append(rng.choice(ts))
        else:
            ts.append(rng.randint(lo, hi))
    ts.sort()
    out = []
    for t in ts:
        counter[0] += 1
        out.append([t, rng.randint(0, 2), counter[0]])
    return out


def gen_history(rng, max_ops=5, max_rows=12, span=20, dup=0.4):
    """Batches positioned in various ways w.r.t. what is already there."""
    counter = [0]
    ops = []
    lo, hi = 0, 0
    for k in range(rng.randint(1, max_ops)):
        n = rng.randint(1, max_rows)
        where = rng.choice(["after", "after", "before", "inside", "inside", "across", "touch", "wide"])
        if k == 0:
            a = rng.randint(0, span)
            b = a + rng.randint(0, span)
        elif where == "after":
            a = hi + 1 + rng.randint(0, 3)
            b = a + rng.randint(0, span)
        elif where == "before":
            b = lo - 1 - rng.randint(0, 3)
            a = b - rng.randint(0, span)
        elif where == "inside":
            a = rng.randint(lo, hi)
            b = min(hi, a + rng.randint(0, 4))
        elif where == "touch":
            a = rng.choice([lo, hi])
            b = a if rng.random() < 0.5 else a + rng.randint(0, 5)
        elif where == "wide":
            a, b = lo - rng.randint(0, 3), hi + rng.randint(0, 3)
        else:
            a = rng.randint(lo, hi)
            b = hi + rng.randint(0, span)
        rows = gen_rows(rng, a, b, n, counter, dup)
        # keep first batch's gaps: sparse values
        ops.append({"rows": rows, "vaex": int(rng.random() < 0.2),
                    "nirgs": rng.choice([None, None, 0, 1, 2, 3]),
                    "mrgs": rng.choice([None, 1, 2, 2, 3, 4, 5, 7, 10, 20])})
        lo = min([lo] + [r[0] for r in rows]) if k else rows[0][0]
        hi = max([hi] + [r[0] for r in rows]) if k else rows[-1][0]
    return ops


def as_data(df, vaex):
    if vaex:
        import vaex as vx

        return vx.from_pandas(df)
    return df
