"""End-to-end streamed aggregation against the independent oracle."""
import os
import shutil
import tempfile

from agg_common import *

_K = []


def K():
    if not _K:
        from oups import toplevel

        _K.append(toplevel(type("K", (), {"__annotations__": {"a": str}, "__module__": __name__})))
    return _K[0]


def gen_stream(rng, sessions):
    while True:
        c = gen_case(rng, max_n=14, dup_ok=rng.choice([1, 1, 1, 0, 0]))
        c.pop("num", None)
        if c["bin"][0] == "rows" and len(set(c["vals"])) < len(c["vals"]):
            continue
        if not (c["snap"] and c["snap"][0] == "series"):
            break
    n = len(c["vals"])
    if min(c["cols"]["j"]) < -(2**50) or max(c["cols"]["j"]) > 2**50:
        c["cols"]["j"] = [v % 100 for v in c["cols"]["j"]]  # see the finding of C04
    # results equal to 0 are taken for a sign of a bug in default settings (documented)
    c["cols"] = {x: [abs(v) + 1 for v in vs] for x, vs in c["cols"].items()}
    k = rng.choice(sessions)
    c["cuts"] = sorted(rng.randint(0, n) for _ in range(k - 1)) + [n]
    c["third"] = None
    if rng.random() < 0.4:
        # one more key, with other bins and other results
        while True:
            o = gen_case(rng, snaps=False, dup_ok=1)
            b = o["bin"]
            if b[0] == "rows" and len(set(c["vals"])) == n or b[0] == "tg" and c["vals"][-1] - c["vals"][0] <= 100 * b[1]:
                break
        c["third"] = {"bin": b, "agg": {"x" + k: v for k, v in o["agg"].items()}}
    c["disc"] = rng.random() < 0.5
    c["mem"] = rng.choice([0, 0.0002, 0.001, 100])
    c["chunks"] = [rng.randint(1, 5) for _ in range(6)]
    c["filt"] = rng.random() < 0.35
    c["post"] = rng.choice([None, None, "copy"])
    c["pre"] = rng.random() < 0.4 and not c["disc"]
    c["rg"] = rng.choice([None, None, 2, 5])
    c["same"] = rng.random() < 0.3  # same object reused between sessions
    return c


def valid_stream(c):
    n = len(c["vals"])
    t = c["third"]
    if t and not (valid_agg({**c, "snap": None, **t}) and t["bin"][0] != "scale" and (t["bin"][0] == "tg" or len(set(c["vals"])) == n)):
        return False
    return not c.get("num") and c["bin"][0] != "scale" and all(0 < v < 2**50 for vs in c["cols"].values() for v in vs) and valid_agg(c) and not (c["bin"][0] == "rows" and len(set(c["vals"])) < n) and not (c["snap"] and c["snap"][0] == "series") and c["cuts"] and c["cuts"][-1] == n \
        and not (c["pre"] and c["disc"]) and c["cuts"] == sorted(c["cuts"]) and c["cuts"][0] >= 0 and c["chunks"] and min(c["chunks"]) > 0 and c["mem"] >= 0


def readback(ps, k, agg, cols):
    df = ps[k].pdf
    if len(df.columns) == 0:
        return []
    df = df.set_index("ts")[list(agg)]
    return norm_res(df, agg, cols)


def run_stream(c):
    """-> (results per dataset, expected per dataset, restart index or None, expected)."""
    from oups import AggStream, ParquetSet

    set_unit(c)
    kk = K()
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        df = df_of(c)
        agg = {k: tuple(v) for k, v in c["agg"].items()}
        closed = c["bin"][2]
        both = c["snap"] is not None
        s = 0
        st = None
        counts, problems = {}, []
        for end in c["cuts"]:
            data = df.iloc[0:end] if c["disc"] else df.iloc[s:end]
            if len(data) == 0:
                continue
            key = (kk("bin"), kk("snap")) if both else kk("bin")
            kw = dict(bin_on="ts") if c["bin"][0] == "rows" else {}

            def post_for(name):
                def post(buffer, bin_res, snap_res=None):
                    if buffer.get("n", 0) != counts.get(name, 0):
                        problems.append(f"post-processing buffer of '{name}' {buffer} instead of {counts.get(name, 0)} calls")
                    buffer["n"] = counts[name] = counts.get(name, 0) + 1
                    return (bin_res, snap_res) if both else bin_res
                return post if c["post"] else None

            def pre(on, buffer):
                if buffer.get("rows", 0) != counts.get("_pre", 0):
                    problems.append(f"pre-processing buffer {buffer} instead of {counts.get('_pre', 0)} rows seen")
                buffer["rows"] = counts["_pre"] = counts.get("_pre", 0) + len(on)

            if c["rg"]:
                kw["max_row_group_size"] = c["rg"]

            def mk(name):
                return dict(bin_by=bin_by_of(c["bin"]), agg=dict(agg), snap_by=snap_by_of(c["snap"], closed),
                            post=post_for(name), **kw)

            if st is None or not c["same"]:
                ps = ParquetSet(d, kk)
                third = {}
                if c["third"]:
                    third = {kk("bin3"): dict(bin_by=bin_by_of(c["third"]["bin"]), agg={k: tuple(v) for k, v in c["third"]["agg"].items()},
                                              **(dict(bin_on="ts") if c["third"]["bin"][0] == "rows" else {}))}
                if c["filt"]:
                    key2 = (kk("bin2"), kk("snap2")) if both else kk("bin2")
                    st = AggStream(ordered_on="ts", store=ps, keys={"pos": {key: mk("bin"), **third}, "_": {key2: mk("bin2")}},
                                   filters={"pos": [("i", ">", 3)]},
                                   pre=pre if c["pre"] else None, max_in_memory_size=c["mem"])
                else:
                    st = AggStream(ordered_on="ts", store=ps, keys={**third, key: mk("bin")}, pre=pre if c["pre"] else None, max_in_memory_size=c["mem"])
            ch, p, i = [], 0, 0
            while p < len(data):
                q = p + c["chunks"][i % len(c["chunks"])]
                i += 1
                ch.append(data.iloc[p:q].reset_index(drop=True))
                p = q
            st.agg(iter(ch), trim_start=c["disc"], discard_last=c["disc"])
            s = end
        ps = ParquetSet(d, kk)
        res = {k.a: readback(ps, k, c["third"]["agg"] if k.a == "bin3" else agg, df) for k in ps}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    idx = list(range(len(df)))
    if c["disc"]:
        last = c["vals"][c["cuts"][-1] - 1]
        idx = [i for i in idx if c["vals"][i] < last]

    def sub(ix):
        return {**c, "vals": [c["vals"][i] for i in ix], "cols": {k: [v[i] for i in ix] for k, v in c["cols"].items()}}

    exp = {}

    def put(nb, ns, ix):
        if ix:
            eb, es = expected(sub(ix))
            exp[nb] = eb
            if c["third"] and nb == "bin":
                exp["bin3"] = expected({**sub(ix), "snap": None, "bin": c["third"]["bin"], "agg": c["third"]["agg"]})[0]
            if es is not None:
                exp[ns] = es

    if c["filt"]:
        put("bin", "snap", [i for i in idx if c["cols"]["i"][i] > 3])
        put("bin2", "snap2", idx)
    else:
        put("bin", "snap", idx)
    res = {k: v for k, v in res.items() if v or k in exp}
    if problems:
        return problems[0], exp
    return res, exp
