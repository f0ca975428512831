"""Independent oracles for segmentation and aggregation (no code shared with oups)."""
from functools import partial

import pandas as pd

# values of the ordering column are counted in units from 08:00; origin of time groupers is midnight.
UNITS = {"T": pd.Timedelta(minutes=1), "S": pd.Timedelta(seconds=1), "L": pd.Timedelta(milliseconds=1), "H": pd.Timedelta(hours=1)}
DAYS = ["2020-01-01 08:00", "1969-12-30 08:00", "2024-02-28 08:00"]
U = {"u": "T"}


def set_unit(c):
    """Unit of time and day of a case."""
    U["u"] = c.get("unit", "T")
    U["num"] = c.get("num")  # ordering column of numbers
    U["t0"] = pd.Timestamp(DAYS[c.get("day", 0)])
    U["d"] = UNITS[U["u"]]
    U["off"] = int(pd.Timedelta(hours=8) / U["d"])
    U["per_day"] = int(pd.Timedelta(days=1) / U["d"])


set_unit({})


def ts(m):
    return U["t0"] + int(m) * U["d"]


def units(x):
    """Timestamp -> units."""
    q, r = divmod((pd.Timestamp(x) - U["t0"]).value, U["d"].value)
    return q if not r else q + r / U["d"].value


def freq_of(n):
    return f"{n}{U['u']}"


def gen_unit(rng):
    return {"unit": rng.choice("TTTTSLH"), "day": rng.choice([0, 0, 1, 2])}


def valid_unit(c):
    return c.get("unit", "T") in UNITS and c.get("day", 0) in range(len(DAYS))


def fdiv(a, b):
    return a // b


def tg_edges(first, last, freq, closed):
    """Edges (units) covering [first, last] for a fixed frequency, counted from midnight of the first day."""
    OFF, PD = U["off"], U["per_day"]
    day = (first + OFF) // PD * PD
    a, b = first + OFF - day, last + OFF - day
    if closed == "right":
        start = -((-a) // freq) * freq - freq
        end = -((-b) // freq) * freq
    else:
        start = (a // freq) * freq
        end = (b // freq) * freq + freq
    out = []
    e = start
    while e <= end:
        out.append(e - OFF + day)
        e += freq
    return out


def n_before(vals, end, closed):
    """Number of leading rows belonging to chunks ending at 'end'."""
    if closed == "right":
        return sum(1 for v in vals if v <= end)
    return sum(1 for v in vals if v < end)


def oracle_scale(vals, edges_ends, labels, closed):
    """-> list of (label, end_row, end_value), trimmed to data; traversed flag."""
    out = []
    n = len(vals)
    for lab, e in zip(labels, edges_ends):
        k = n_before(vals, e, closed)
        out.append((lab, k, e))
        if k == n:
            return out, True
    return out, False


def oracle_tg(vals, freq, closed, label):
    ed = tg_edges(vals[0], vals[-1], freq, closed)
    ends = ed[1:]
    labels = ends if label == "right" else ed[:-1]
    return oracle_scale(vals, ends, labels, closed)[0]


def oracle_bins(vals, spec):
    """-> list of (label, start_row, end_row, end_value or None)."""
    if spec[0] == "tg":
        _, freq, closed, label = spec
        res = oracle_tg(vals, freq, closed, label)
        out, s = [], 0
        for lab, e, ev in res:
            out.append((lab, s, e, ev))
            s = e
        return out
    if spec[0] == "scale":
        res, out, s = oracle_scale(vals, spec[1], spec[1], spec[2])[0], [], 0
        for lab, e, ev in res:
            out.append((lab, s, e, ev))
            s = e
        return out
    _, by, closed = spec
    out = []
    n = len(vals)
    for s in range(0, n, by):
        e = min(s + by, n)
        if closed == "left":
            ev = vals[e] if e < n else None
        else:
            ev = vals[e - 1] if e - s == by else None
        out.append((vals[s], s, e, ev))
    return out


def oracle_snaps(vals, bins, spec, closed):
    """-> list of (label, start_row, end_row)."""
    if spec[0] == "tg":
        res = oracle_tg(vals, spec[1], closed, spec[2])
    else:
        res = oracle_scale(vals, spec[1], spec[1], closed)[0]
    out = []
    for lab, k, e in res:
        # bin in progress at this observation point: the first one not ended before it.
        start = None
        for (_, s, en, ev) in bins:
            if ev is None or e < ev or (e == ev and k <= en):
                start = s
                break
        else:
            start = bins[-1][2]
        out.append((lab, start, max(k, start)))
    return out


AGGF = {
    "first": lambda x: x[0],
    "last": lambda x: x[-1],
    "min": min,
    "max": max,
    "sum": sum,
}


def agg_rows(cols, agg, s, e):
    row = {}
    for out, (inc, f) in agg.items():
        seg = cols[inc][s:e]
        row[out] = AGGF[f](seg) if seg else None
    return row


def bin_by_of(spec, key="ts"):
    if spec[0] == "tg":
        return pd.Grouper(freq=freq_of(spec[1]), closed=spec[2], label=spec[3], key=key)
    from oups.aggstream.segmentby import by_scale, by_x_rows

    if spec[0] == "scale":
        return partial(by_scale, by=points(spec[1]), closed=spec[2])
    return partial(by_x_rows, by=spec[1], closed=spec[2])


def points(ms):
    if U["num"]:
        return pd.Series(ms, dtype=U["num"])
    ix = pd.DatetimeIndex([ts(m) for m in ms])
    return pd.Series(ix) if sum(ms) % 2 else ix


def snap_by_of(spec, closed, key="ts"):
    if spec is None:
        return None
    if spec[0] == "tg":
        return pd.Grouper(freq=freq_of(spec[1]), closed=closed, label=spec[2], key=key)
    return points(spec[1])


def df_of(case):
    set_unit(case)
    d = {"ts": pd.DatetimeIndex([ts(m) for m in case["vals"]]).values}
    if U["num"]:
        d["ts"] = pd.Series(case["vals"], dtype=U["num"]).values
    for c, v in case["cols"].items():
        if c.startswith("d"):
            d[c] = pd.DatetimeIndex([ts(m) for m in v]).values
        elif c.startswith("f"):
            d[c] = pd.Series([x / 4 for x in v], dtype="float64").values
        else:
            d[c] = pd.Series(v, dtype="int64").values
    return pd.DataFrame(d)


def norm_res(df, agg, cols):
    """DataFrame of results -> list of (label, {col: value or None})."""
    out = []
    for lab, row in zip(df.index, df.to_dict("records")):
        r = {}
        for c in agg:
            v = row[c]
            src = agg[c][0]
            if v is None or v is pd.NA or v is pd.NaT or v != v:
                r[c] = None
            elif src.startswith("d"):
                r[c] = units(v)
            elif src.startswith("f"):
                r[c] = float(v) * 4
            else:
                r[c] = int(v)
        if isinstance(lab, pd.Timestamp):
            lab = units(lab)
        out.append((lab, r))
    return out


def gen_case(rng, max_n=12, snaps=True, rows_ok=True, dup_ok=True):
    if dup_ok is True and rng.random() < 0.03:
        max_n = 90
    n = rng.randint(1, max_n)
    long = rng.random() < 0.12  # several days, frequencies not dividing a day
    span = rng.choice([3000, 6000]) if long else rng.choice([6, 15, 40, 120])
    vals = sorted(rng.randint(0, span) for _ in range(n))
    kind = rng.choice(["tg", "tg", "rows", *(["scale"] if dup_ok is True else [])]) if rows_ok else "tg"
    closed = rng.choice(["left", "right"])
    if kind == "tg":
        b = ["tg", rng.choice([300, 420, 500, 2160, 2880, 1440]) if long else rng.choice([2, 3, 4, 5, 7, 10, 15, 30]), closed, rng.choice(["left", "right"])]
    elif kind == "scale":
        b = ["scale", sorted({rng.randint(-2, span + 5) for _ in range(rng.randint(0, 7))} | {vals[-1] + rng.randint(closed == "left", 4)}), closed]
    else:
        b = ["rows", rng.randint(1, 5), closed]
        if not dup_ok:
            vals = sorted(set(vals))
    s = None
    if snaps and rng.random() < 0.75:
        if rng.random() < 0.6:
            s = ["tg", rng.choice([300, 420, 720, 2160]) if long else rng.choice([1, 2, 3, 4, 5, 7, 10, 15]), rng.choice(["left", "right"])]
        else:
            k = rng.randint(1, 6)
            s = ["series", sorted({rng.randint(-2, span + 5) for _ in range(k)})]
    num = {"num": rng.choice(["int64", "float64"])} if kind != "tg" and (not s or s[0] == "series") and rng.random() < 0.4 else {}
    n = len(vals)
    lo, k = rng.choice([(1, 0), (1, 0), (1, 0), (-9, 0), (-9, 0), (-9, 2**53 + 3), (-9, -(2**53) - 8)])
    cols = {
        "i": [rng.randint(1, 9) for _ in range(n)],
        "j": [k + rng.randint(lo, 9) for _ in range(n)],
        "f": [rng.randint(lo, 9) for _ in range(n)],
        "d": [rng.randint(lo, 99) for _ in range(n)],
    }
    aggs = {}
    m = rng.randint(1, 6)
    for a in range(m):
        c = rng.choice(["i", "i", "j", "f", "d"])
        f = rng.choice(["first", "last", "min", "max"] if c == "d" else list(AGGF))
        aggs[f"o{a}"] = [c, f]
    return {"vals": vals, "bin": b, "snap": s, "cols": cols, "agg": aggs, **gen_unit(rng), **num}


def expected(case):
    set_unit(case)
    bins = oracle_bins(case["vals"], case["bin"])
    eb = [(lab, agg_rows(case["cols"], case["agg"], s, e)) for lab, s, e, _ in bins]
    es = None
    if case["snap"] is not None:
        closed = case["bin"][2]
        sn = oracle_snaps(case["vals"], bins, case["snap"], closed)
        es = [(lab, agg_rows(case["cols"], case["agg"], s, e)) for lab, s, e in sn]
    return eb, es


def run_cumsegagg(case, splits=None):
    """Run real code; splits: end rows of successive chunks (None: one shot)."""
    from oups.aggstream.cumsegagg import cumsegagg

    set_unit(case)
    df = df_of(case)
    agg = {k: tuple(v) for k, v in case["agg"].items()}
    bb = bin_by_of(case["bin"])
    closed = case["bin"][2]
    kw = {}
    if case["bin"][0] != "tg":
        kw["ordered_on"] = "ts"
        kw["bin_on"] = "ts"
    if splits is None:
        snap = snap_by_of(case["snap"], closed)
        res = cumsegagg(df, agg, bb, snap_by=snap, error_on_0=False, **kw)
        if case["snap"] is None:
            return norm_res(res, agg, df), None
        return norm_res(res[0], agg, df), norm_res(res[1], agg, df)
    buffer = {}
    s = 0
    rb, rs = [], []
    for e in splits:
        snap = snap_by_of(case["snap"], closed)
        if "ahead" in case and e != splits[-1]:
            snap = given_points(case, splits, e, closed)
        elif "ahead" in case and case["drop"]:
            snap = given_points(case, splits, e, closed, everything=True)
        res = cumsegagg(
            df.iloc[s:e].reset_index(drop=True), agg, bb, snap_by=snap, error_on_0=False,
            buffer=buffer, **kw
        )
        s = e
        b, sn = (res, None) if case["snap"] is None else res
        rb = rb[:-1] + norm_res(b, agg, df)
        if sn is not None:
            x = norm_res(sn, agg, df)
            # points given one by one: none may be in progress
            rs = (rs[:-1] if case["snap"][0] == "tg" or rs and x and rs[-1][0] == x[0][0] else rs) + x
    return rb, rs if case["snap"] is not None else None


def given_points(case, splits, e, closed, everything=False):
    """Observation points known at a call: up to some time after the last row; those of the past are dropped or not."""
    pts = case["snap"][1]
    known = lambda q: [p for p in pts if p <= case["vals"][splits[q] - 1] + case["ahead"][q]]  # noqa: E731
    q = splits.index(e)
    out = list(pts) if everything else known(q)
    for r in range(q):
        # points of an earlier call are known for ever
        out = sorted(set(out) | set(known(r)))
    if case["drop"] and q:
        prev = sorted(set().union(*(known(r) for r in range(q))))
        last = case["vals"][splits[q - 1] - 1]
        cover = [p for p in prev if (last <= p if closed == "right" else last < p)]
        restart = cover[0] if cover else prev[-1] if prev else None
        if restart is not None:
            out = [p for p in out if p >= restart]
    return points(out)


def valid_agg(c):
    n = len(c["vals"])
    if not valid_unit(c):
        return False
    if c.get("num") and (c["num"] not in ("int64", "float64") or c["bin"][0] == "tg" or (c["snap"] and c["snap"][0] == "tg")):
        return False
    if not n or not c["agg"] or c["vals"] != sorted(c["vals"]):
        return False
    if any(len(v) != n for v in c["cols"].values()):
        return False
    b, s = c["bin"], c["snap"]
    if b[0] == "rows":
        if len(b) != 3 or b[1] < 1:
            return False
    elif b[0] == "scale":
        if len(b) != 3 or not b[1] or b[1] != sorted(set(b[1])) or b[1][-1] < c["vals"][-1] + (b[2] == "left"):
            return False
    elif len(b) != 4 or b[1] < 1 or max(c["vals"]) - min(c["vals"]) > 1000 * b[1]:
        return False
    if s is not None:
        if len(s) < 2 or s[0] not in ("tg", "series"):
            return False
        if s[0] == "tg" and (len(s) != 3 or s[1] < 1 or max(c["vals"]) - min(c["vals"]) > 1000 * s[1]):
            return False
        if s[0] == "series" and (not s[1] or s[1] != sorted(set(s[1]))):
            return False
    return all(x[0] in c["cols"] and x[1] in AGGF and not (x[0] == "d" and x[1] == "sum") for x in c["agg"].values())
