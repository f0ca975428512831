"""C20: a segmentation or stream configuration is consolidated consistently, or refused."""
import os
import shutil
import tempfile

import pandas as pd

RULE = ("all combinations of grouper key, bin column, ordering column, observation rule for the segmentation set-up; random "
        "stream configurations of 1-3 keys with defaults, key-specific values, filters and mistakes; nontrivial: a value "
        "set at several places")


def enumerate_cases(seed):
    names = [None, "x", "y"]
    for kind in ("tg", "call", "bad"):
        for key in (names if kind == "tg" else [None]):
            for closed in (("left", "right") if kind == "tg" else ("left",)):
                for bin_on in names:
                    for ordered in names:
                        for snap in ([None, "series"] + [("tg", k, cl) for k in names for cl in ("left", "right")]):
                            yield {"seg": [kind, key, closed, bin_on, ordered, list(snap) if isinstance(snap, tuple) else snap]}


def gen(rng):
    nk = rng.randint(1, 3)
    keys = []
    for i in range(nk):
        k = {"both": rng.random() < 0.3, "snap": rng.choice([None, None, 5])}
        for p, vals in (("agg", [0, 1]), ("duplicates_on", ["p", ["p", "q"], None]), ("max_row_group_size", [7, 9]),
                        ("max_nirgs", [0, 3]), ("ordered_on", ["ts", "o"]), ("max_in_memory_size", [1, 0.5]),
                        ("post", [None, 1]), ("bin_on", ["ts", ["ts", "lab"]])):
            if rng.random() < 0.35:
                k[p] = rng.choice(vals)
        if rng.random() < 0.5:
            k["filt"] = rng.choice(["a", "b", "_"])
        if rng.random() < 0.3:
            k["call"] = 1
        keys.append(k)
    d = {}
    for p, vals in (("max_row_group_size", [11]), ("max_nirgs", [1]), ("duplicates_on", ["z", "z", None]), ("post", [1]),
                    ("max_in_memory_size", [2]), ("snap_by", [10])):
        if rng.random() < 0.3:
            d[p] = rng.choice(vals)
    return {"keys": keys, "def": d, "use_filt": rng.random() < 0.4,
            "bad": rng.choice([None] * 8 + ["param", "kwarg", "nobin", "nofilters", "extra_filter", "none_filter", "dup",
                                             "binout", "val_none"])}


def valid(c):
    if "seg" in c:
        return len(c["seg"]) == 6
    for k in c["keys"]:
        if k.get("ordered_on", "ts") not in ("ts", "o"):
            return False
        if "bin_on" in k and k["bin_on"] not in ("ts", ["ts", "lab"]):
            return False
        if isinstance(k.get("duplicates_on"), list) and not k["duplicates_on"]:
            return False
    return bool(c["keys"])


def nontrivial(c):
    return True


def tg(freq, key, closed):
    return pd.Grouper(freq=f"{freq}T", key=key, closed=closed, label=closed)


def check_seg(kind, key, closed, bin_on, ordered, snap):
    from oups.aggstream.segmentby import by_scale, setup_segmentby

    def f(on, buffer=None):
        return None

    bb = tg(2, key, closed) if kind == "tg" else f if kind == "call" else "nothing"
    sb = None if snap is None else pd.DatetimeIndex(["2020-01-01"]) if snap == "series" else tg(3, snap[1], snap[2])
    # oracle
    ok, b, o = True, bin_on, ordered
    if kind == "bad":
        ok = False
    elif kind == "tg":
        s = {x for x in (key, bin_on, ordered) if x}
        if len(s) > 1 or not (key or bin_on):
            ok = False
        else:
            b = o = next(iter(s))
    elif not (bin_on or ordered):
        ok = False
    if ok and snap is not None:
        if snap == "series":
            ok = o is not None
        else:
            if snap[1]:
                if o is None:
                    o = snap[1]
                elif o != snap[1]:
                    ok = False
            if kind == "tg" and snap[2] != closed:
                ok = False
            if ok and o is None:
                return None  # observations without any ordering column: not claimed
    try:
        r = setup_segmentby(bb, bin_on, ordered, sb)
    except ValueError as e:
        return f"refused: {e}" if ok else None
    if not ok:
        return f"accepted, giving {r}"
    cols = [b, o] if b and o and b != o else (b or o)
    if r["on_cols"] != cols or r["ordered_on"] != o or r["bin_on"] != b:
        return f"columns {r['on_cols']}, ordering {r['ordered_on']}, bin {r['bin_on']} instead of {cols}, {o}, {b}"
    if (r["snap_by"] is sb) != (snap is not None and snap != "series") and not (sb is None and r["snap_by"] is None):
        return f"observation rule {r['snap_by']}"
    if kind == "call" and r["bin_by"] is not bb:
        return "binning function replaced"
    if kind == "tg":
        on = pd.Series(pd.DatetimeIndex(["2020-01-01 00:00", "2020-01-01 00:02", "2020-01-01 00:03"]))
        x, y = r["bin_by"](on=on, buffer=None), by_scale(on, bb)
        if list(x[0]) != list(y[0]) or list(x[1]) != list(y[1]):
            return "binning function is not that of the time grouper"
    return None


def check(c):
    if "seg" in c:
        m = check_seg(*c["seg"])
        return f"set-up (rule, key, closed, bin column, ordering column, observations) {c['seg']}: {m}" if m else None
    from stream_common import K

    from oups import AggStream, ParquetSet

    kk = K()
    aggs = [{"v": ("i", "sum")}, {"w": ("i", "first"), "u": ("i", "last")}]

    def post(buffer, bin_res, snap_res=None):
        return bin_res

    def binner(on, buffer=None):
        return None

    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        ps = ParquetSet(d, kk)
        dft = dict(c["def"])
        dsnap = dft.pop("snap_by", None)
        if dsnap:
            dft["snap_by"] = tg(dsnap, None, "left")
        if "post" in dft:
            dft["post"] = post
        keys, exp, filt_of = {}, {}, {}
        for i, k in enumerate(c["keys"]):
            name = (kk(f"b{i}"), kk(f"s{i}")) if k["both"] else kk(f"b{i}")
            cfg = {"bin_by": binner if k.get("call") else tg(2, None, "left") if "bin_on" in k else tg(2, "ts", "left")}
            for p in ("duplicates_on", "max_row_group_size", "max_nirgs", "ordered_on", "max_in_memory_size"):
                if p in k:
                    cfg[p] = list(k[p]) if isinstance(k[p], list) else k[p]
            if "bin_on" in k:
                cfg["bin_on"] = tuple(k["bin_on"]) if isinstance(k["bin_on"], list) else k["bin_on"]
            if "agg" in k:
                cfg["agg"] = dict(aggs[k["agg"]])
            if k["snap"]:
                cfg["snap_by"] = tg(k["snap"], None, "left")
            if "post" in k:
                cfg["post"] = post if k["post"] else None
            keys[name] = cfg
            filt_of[name] = k.get("filt", "_") if c["use_filt"] else "_"
            out = "lab" if isinstance(cfg.get("bin_on"), tuple) else "ts" if "bin_on" in k or not k.get("call") else None
            ids = cfg["duplicates_on"] if "duplicates_on" in cfg else dft.get("duplicates_on")
            snap = bool(k["snap"] or dsnap)
            e = {
                "bin_on_out": out, "agg": cfg.get("agg", aggs[0]),
                "mem": int((k["max_in_memory_size"] if "max_in_memory_size" in k
                            else c["def"].get("max_in_memory_size", 140)) * 1048576),
                "post": cfg["post"] if "post" in cfg else dft.get("post"),
                "type": ("BOTH" if k["both"] else "SNAPS") if snap else "BINS",
                "w": {"ordered_on": k.get("ordered_on", "ts"),
                      "duplicates_on": ids if ids is not None else out or k.get("ordered_on", "ts")},
            }
            for p in ("max_row_group_size", "max_nirgs"):
                if p in cfg or p in dft:
                    e["w"][p] = cfg.get(p, dft.get(p))
            if e["type"] == "BOTH":
                m = e["w"].get("max_row_group_size")
                e["w"]["max_row_group_size"] = (m, m)
            exp[name] = e
        bad = c["bad"]
        first = next(iter(keys))
        kwargs = dict(dft)
        filters = None
        if c["use_filt"]:
            nested = {}
            for n, cfg in keys.items():
                nested.setdefault(filt_of[n], {})[n] = cfg
            filters = {f: [("i", ">", 3)] for f in nested if f != "_"}
            if bad == "val_none":
                filters["_"] = None
                bad = None
            elif bad == "nofilters":
                filters = None
            elif bad == "extra_filter":
                filters["zz"] = [("i", "<", 3)]
            elif bad == "none_filter":
                filters["_"] = [[("i", "<", 3)]]
            elif bad == "dup":
                nested["dup"] = {first: dict(keys[first])}
                filters["dup"] = [("i", "<", 3)]
            arg = nested
        else:
            arg = keys
        if not c["use_filt"] and bad in ("nofilters", "extra_filter", "none_filter", "dup", "val_none"):
            bad = None
        if bad == "param":
            keys[first]["max_rows"] = 3
        elif bad == "kwarg":
            kwargs["max_rows"] = 3
        elif bad == "nobin":
            del keys[first]["bin_by"]
        elif bad == "binout":
            if exp[first]["bin_on_out"] is None:
                bad = None
            else:
                keys[first]["agg"] = {exp[first]["bin_on_out"]: ("i", "sum")}

        def snapshot():
            return repr({k: {a: (id(b) if callable(b) or hasattr(b, "freq") else b) for a, b in v.items()}
                         for k, v in keys.items()}) + repr(filters)

        before = snapshot()
        try:
            st = AggStream(ordered_on="ts", store=ps, keys=arg, filters=filters, agg=dict(aggs[0]), **kwargs)
        except ValueError as e:
            return None if bad else f"configuration {c} refused: {e} {e.__context__}"
        if bad:
            return f"configuration with mistake '{bad}' accepted"
        if snapshot() != before:
            return f"configuration of the caller changed from {before} to {snapshot()}"
        for n, e in exp.items():
            g = st.keys_config[n]
            got = {"bin_on_out": g["bin_on_out"], "agg": st.agg_pd[n], "mem": g["max_in_memory_size_b"], "post": g["post"],
                   "type": g["agg_res_type"].name, "w": dict(g["write_config"])}
            if got != e:
                return f"key {n!r}: configuration {got} instead of {e}"
        apps = {f: sorted(map(repr, a.keys)) for f, a in st.filter_apps.items()}
        ex = {}
        for n in keys:
            ex.setdefault(filt_of[n], []).append(repr(n))
        if apps != {f: sorted(v) for f, v in ex.items()}:
            return f"keys per filter {apps} instead of {ex}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
