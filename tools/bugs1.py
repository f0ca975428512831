"""Bugs planted to test the checks (see plant.py). Written from the statements of the properties."""
A = "oups/aggstream/"
S = "oups/store/"
STORE = """
import os, sys, shutil, tempfile
import numpy as np, pandas as pd
tmp = tempfile.mkdtemp(prefix="oupsdemo_")
import atexit; atexit.register(shutil.rmtree, tmp, True)
"""
KEYS = """
from oups import toplevel, sublevel, ParquetSet
@sublevel
class Sub:
    a: str
    b: int
@toplevel
class Key:
    x: str
    s: Sub
"""
BUGS = [
    dict(id="s01", prop="C02", file=S + "indexer.py",
         edits=[("field_as_str = str(field)\n", 'field_as_str = field if isinstance(field, str) else ""\n')],
         needs="a negative integer in a key whose separator is '-'",
         breaks="keys with a negative integer, whose text contains the separator, are accepted",
         demo=KEYS + """
import sys
for v in (-5, -1):
    try:
        k = Key("x", Sub("a", v))
    except ValueError:
        continue
    sys.exit("key accepted although a field contains the separator: " + str(k))
"""),
    dict(id="s02", prop="C03", file=S + "collection.py",
         edits=[("any((is_parquet_file(file) for file in files))", "all((is_parquet_file(file) for file in files))")],
         needs="a foreign file next to the files of a dataset, and the store opened again",
         breaks="a dataset with a foreign file in its directory disappears from the catalog",
         demo=STORE + KEYS + """
ps = ParquetSet(tmp, Key)
k = Key("x", Sub("a", 1))
ps[k] = pd.DataFrame({"a": [1, 2]})
d = os.path.join(tmp, k.to_path)
open(os.path.join(d, "notes.txt"), "w").write("hello")
ps2 = ParquetSet(tmp, Key)
assert list(ps2.keys) == [k], list(ps2.keys)
"""),
    dict(id="s03", prop="C04", file=S + "writer.py",
         edits=[("rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)", "rrg_start_idx = rrg_start_idx_tmp")],
         needs="coalescing of incomplete row groups triggered by data which overlaps an earlier, complete, row group",
         breaks="rows out of order after the update",
         demo=STORE + """
from oups.store.writer import write
from oups.store.router import ParquetHandle
d = tmp + "/ds"
write(d, pd.DataFrame({"ts": [0, 2, 4, 6, 8, 10, 12, 14], "id": range(8)}), max_row_group_size=4, ordered_on="ts")
write(d, pd.DataFrame({"ts": [20], "id": [8]}), max_row_group_size=4, ordered_on="ts")
write(d, pd.DataFrame({"ts": [11, 21], "id": [9, 10]}), max_row_group_size=4, ordered_on="ts", max_nirgs=1)
ts = ParquetHandle(d).pdf["ts"].tolist()
assert ts == sorted(ts), ts
assert sorted(ParquetHandle(d).pdf["id"]) == list(range(11))
"""),
    dict(id="s04", prop="C05", file=S + "writer.py",
         edits=[('(ordered_on, "<=", end)', '(ordered_on, "<", end)')],
         needs="a batch overlapping two row groups or more, whose last ordering value equals the first value of the next row group",
         breaks="the stale row of an identity is kept besides its replacement",
         demo=STORE + """
from oups.store.writer import write
from oups.store.router import ParquetHandle
d = tmp + "/ds"
write(d, pd.DataFrame({"ts": [0, 1, 2, 3, 4, 5], "c": [0, 1, 2, 3, 4, 5], "v": range(6)}), max_row_group_size=2, ordered_on="ts", duplicates_on="c")
write(d, pd.DataFrame({"ts": [1, 3, 4], "c": [1, 3, 4], "v": [10, 30, 40]}), max_row_group_size=2, ordered_on="ts", duplicates_on="c")
df = ParquetHandle(d).pdf
assert df["c"].tolist() == [0, 1, 2, 3, 4, 5], df
assert df["v"].tolist() == [0, 10, 2, 30, 40, 5], df
"""),
    dict(id="s05", prop="C09", file=S + "router.py",
         edits=[("files.sort(key=lambda x: int(x[5:-8]))", "files.sort()")],
         needs="a dataset with more than 10 row groups",
         breaks="rows read with vaex are not in the order of those read with pandas",
         demo=STORE + """
from oups.store.writer import write
from oups.store.router import ParquetHandle
d = tmp + "/ds"
write(d, pd.DataFrame({"ts": list(range(24))}), max_row_group_size=2, ordered_on="ts")
h = ParquetHandle(d)
assert h.vdf["ts"].tolist() == h.pdf["ts"].tolist(), h.vdf["ts"].tolist()
"""),
    dict(id="s06", prop="C10", file=A + "jcumsegagg.py",
         edits=[("        if len_ar > 1 or k == 0:\n            for row in ar[k:]:\n                for i, val in ndenumerate(row):\n                    if val < res[i]:",
                 "        if len_ar > 1:\n            for row in ar[k:]:\n                for i, val in ndenumerate(row):\n                    if val < res[i]:")],
         needs="a bin continued (from a snapshot, or a previous call) by a single row which holds the minimum",
         breaks="the minimum of the bin misses that row",
         demo="""
import numpy as np, pandas as pd
from oups.aggstream.cumsegagg import cumsegagg
from pandas.core.resample import TimeGrouper
ts = pd.to_datetime(["2020-01-01 08:00", "2020-01-01 08:10", "2020-01-01 08:40"])
df = pd.DataFrame({"ts": ts, "v": [5, 4, 1]})
b, s = cumsegagg(df, {"m": ("v", "min")}, bin_by=TimeGrouper(key="ts", freq="1H", closed="left", label="left"), ordered_on="ts",
                 snap_by=TimeGrouper(key="ts", freq="30T", closed="left", label="right"))
assert b["m"].tolist() == [1], b
"""),
    dict(id="s07", prop="C14", file=A + "segmentby.py",
         edits=[("                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (\n                    closed == LEFT and chunk_ends[0] <= last_on_value",
                 "                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (\n                    closed == LEFT and chunk_ends[0] < last_on_value")],
         needs="segmentation by given values, left-closed, where the last row of a call is exactly on the last bin end of that call, then a restart",
         breaks="the bins of the next call start with a spurious empty bin: differs from a single call",
         demo="""
import numpy as np, pandas as pd
from oups.aggstream.segmentby import by_scale
on = pd.Series([1, 2, 5, 6, 8])
buf = {}
r1 = by_scale(on.iloc[:3], pd.Series([3, 5]), closed="left", buffer=buf)
r2 = by_scale(on.iloc[3:].reset_index(drop=True), pd.Series([5, 7, 9]), closed="left", buffer=buf)
assert r2[0].tolist() == [1, 2], r2
assert r2[4].tolist() == [7, 9], r2
"""),
    dict(id="s08", prop="C12", file=A + "segmentby.py",
         edits=[("min(len_on, by - rows_in_prev_last_bin) if rows_in_prev_last_bin != by else 0",
                 "by - rows_in_prev_last_bin if rows_in_prev_last_bin != by else 0")],
         needs="a restart with a chunk of fewer rows than what the last bin still needs",
         breaks="the number of rows of the last bin handed over to the next call is wrong",
         demo="""
import pandas as pd
from oups.aggstream.segmentby import by_x_rows
buf, sizes = {}, []
vals = list(range(9))
pos = 0
ends = []
for n in (1, 1, 1, 6):
    on = pd.Series(vals[pos:pos + n])
    r = by_x_rows(on, by=4, closed="left", buffer=buf)
    ends += [pos + int(x) for x in r[0]]
    pos += n
assert [e for e in ends if e in (4, 8)] == [4, 8], ends
"""),
    dict(id="s09", prop="C16", file=A + "utils.py",
         edits=[("out |= and_part", "out ^= and_part")],
         needs="a row satisfying two alternatives of a filter",
         breaks="rows satisfying an even number of alternatives are dropped",
         demo="""
import pandas as pd
from oups.aggstream.utils import dataframe_filter
df = pd.DataFrame({"a": [1, 5, 9]})
m = dataframe_filter(df, [[("a", ">", 3)], [("a", ">", 7)]])
assert m.tolist() == [False, True, True], m
"""),
    dict(id="s10", prop="C17", file=A + "aggstream.py",
         edits=[("if seed_chunk.loc[:, ordered_on].iloc[-1] < restart_index:", "if seed_chunk.loc[:, ordered_on].iloc[-1] <= restart_index:")],
         needs="a session restarting with a chunk which ends exactly with the restart value",
         breaks="rows of the restart value are lost",
         demo="""
import pandas as pd
from oups.aggstream.aggstream import _iter_data, NO_FILTER_ID
seed = [pd.DataFrame({"ts": [1, 2, 3]}), pd.DataFrame({"ts": [4, 5]})]
out = [c["ts"].tolist() for *_, c in _iter_data(seed, "ts", 3, None, {}, {NO_FILTER_ID: None}, True, False)]
assert sum(out, []) == [3, 4, 5], out
"""),
    dict(id="s11", prop="C20", file=A + "aggstream.py",
         edits=[("if KEY_DUPLICATES_ON not in key_conf_in or key_conf_in[KEY_DUPLICATES_ON] is None:", "if KEY_DUPLICATES_ON not in key_conf_in:")],
         needs="'duplicates_on' explicitly None in the configuration of a key or of the stream",
         breaks="the set-up is not completed by the documented default",
         demo="""
from oups.aggstream.aggstream import _init_keys_config
from pandas.core.resample import TimeGrouper
d = {"snap_by": None, "agg": {"m": ("v", "min")}, "post": None, "ordered_on": "ts", "max_in_memory_size_b": 100}
conf, _ = _init_keys_config("ts", {"k": {"bin_by": TimeGrouper(key="ts", freq="1H"), "duplicates_on": None}}, d)
assert conf["k"]["write_config"]["duplicates_on"] == "ts", conf
"""),
    dict(id="s12", prop="C13", file=A + "segmentby.py",
         edits=[('sort_indices = argsort(concatenate(keys), kind="mergesort")', "sort_indices = argsort(concatenate(keys))")],
         needs="more than 16 bins and snapshots with ends at the same position",
         breaks="at equal ends, bins come before snapshots in places",
         demo="""
import numpy as np
from oups.aggstream.segmentby import mergesort
rng = np.random.default_rng(0)
for n in (20, 40, 100, 400):
    k1 = np.sort(rng.integers(0, n // 3, n))
    k2 = np.sort(rng.integers(0, n // 3, n))
    l1, l2 = np.arange(n), 1000 + np.arange(n)
    lab, ins = mergesort((l1, l2), (k1, k2))
    want = np.concatenate((l1, l2))[np.argsort(np.concatenate((k1, k2)), kind="stable")]
    assert (lab == want).all() and (lab[ins] == l2).all(), n
"""),
    dict(id="s13", prop="C15", file=A + "cumsegagg.py",
         edits=[("func_idx = agg_funcs.index(agg_func)", "func_idx = len(agg_funcs) - 1")],
         needs="a request naming functions f, g, f in this order on columns of the same type",
         breaks="an output is computed with another function than the one named",
         demo="""
import pandas as pd, numpy as np
from oups.aggstream.cumsegagg import cumsegagg
from pandas.core.resample import TimeGrouper
ts = pd.to_datetime(["2020-01-01 08:00", "2020-01-01 08:10", "2020-01-01 08:40"])
df = pd.DataFrame({"ts": ts, "v": [5, 4, 1], "w": [7, 9, 8]})
r = cumsegagg(df, {"a": ("v", "first"), "b": ("v", "max"), "c": ("w", "first")}, bin_by=TimeGrouper(key="ts", freq="1H"), ordered_on="ts")
assert r[["a", "b", "c"]].values.tolist() == [[5, 5, 7]], r
"""),
    dict(id="s14", prop="C07", file=S + "writer.py",
         edits=[("        del OUPS_METADATA[md_key]\n", "")],
         needs="two datasets written one after the other with the same key object in two stores, the second without metadata",
         breaks="the second dataset receives the metadata of the first",
         demo=STORE + """
from oups.store import writer
from fastparquet import ParquetFile
df = pd.DataFrame({"a": [1, 2]})
writer.OUPS_METADATA["k"] = {"m": 1}
writer.write(tmp + "/d1", df, md_key="k")
writer.write(tmp + "/d2", df, md_key="k")
assert "oups" in ParquetFile(tmp + "/d1").key_value_metadata
assert "oups" not in ParquetFile(tmp + "/d2").key_value_metadata
"""),
    dict(id="s15", prop="C06", file=S + "writer.py",
         edits=[("        n_parts = (n_rows - 1) // max_row_group_size + 1\n", "        n_parts = max(n_rows // max_row_group_size, 1)\n")],
         needs="a number of rows which is not a multiple of the maximum",
         breaks="chunks exceed the requested maximum",
         demo="""
import pandas as pd
from oups.store.writer import iter_dataframe
for n in range(1, 40):
    for m in range(1, 12):
        c = [len(x) for x in iter_dataframe(pd.DataFrame({"a": range(n)}), m)]
        assert max(c) <= m and sum(c) == n, (n, m, c)
"""),
    dict(id="s16", prop="C11", file=A + "segmentby.py",
         edits=[("                    buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]\n", "                    buffer[KEY_RESTART_KEY] = chunk_ends[0]\n")],
         needs="left-closed time segmentation, a call with 3 bins or more, then a restart",
         breaks="the next call restarts from a bin which is complete already",
         demo="""
import pandas as pd
from oups.aggstream.segmentby import by_scale
from pandas.core.resample import TimeGrouper
ts = pd.Series(pd.date_range("2020-01-01 08:00", periods=40, freq="30T"))
by = TimeGrouper(freq="1H", closed="left", label="left")
buf = {}
a = by_scale(ts.iloc[:11], by, buffer=buf)
b = by_scale(ts.iloc[11:].reset_index(drop=True), by, buffer=buf)
full = by_scale(ts, by)
got = a[1].tolist()[:-1] + b[1].tolist()
assert got == full[1].tolist(), got
"""),
    dict(id="s17", prop="C08", file=S + "utils.py",
         edits=[("        if level.to_list() != str_level:\n", "        if len(level) and not isinstance(level[0], str):\n")],
         needs="a level of the columns mixing strings (first) and other types",
         breaks="columns names which are not strings are left as they are",
         demo="""
import pandas as pd
from oups.store.utils import conform_cmidx
df = pd.DataFrame([[1, 2, 3]])
df.columns = pd.MultiIndex(levels=[["a", 3], ["x", "y"]], codes=[[0, 1, 1], [0, 0, 1]], names=["p", "q"])
conform_cmidx(df)
assert df.columns.tolist() == [("a", "x"), ("3", "x"), ("3", "y")], df.columns.tolist()
"""),
    dict(id="s18", prop="C19", file=A + "aggstream.py",
         edits=[("            if KEY_PRE_BUFFER in aggstream_md:\n", "            if KEY_PRE_BUFFER in aggstream_md and len(agg_buffers) > 1:\n")],
         needs="a stream with a single key, a pre-processing with state, and two sessions",
         breaks="the state of the pre-processing function is lost between sessions",
         demo=STORE + KEYS + """
from oups.aggstream.aggstream import AggStream
from pandas.core.resample import TimeGrouper
ps = ParquetSet(tmp, Key)
k = Key("x", Sub("a", 1))
seen = []
def pre(on, buffer):
    buffer["n"] = buffer.get("n", 0) + len(on)
    seen.append(buffer["n"])
ts = pd.date_range("2020-01-01 08:00", periods=8, freq="30T")
df = pd.DataFrame({"ts": ts, "v": range(1, 9)})
for part in (df.iloc[:4], df.iloc[4:].reset_index(drop=True)):
    a = AggStream(ordered_on="ts", store=ps, keys=k, pre=pre, agg={"s": ("v", "sum")}, bin_by=TimeGrouper(key="ts", freq="1H"))
    a.agg(seed=part, trim_start=False, discard_last=False)
    ps = ParquetSet(tmp, Key)
assert seen == [4, 8], seen
"""),
    dict(id="s19", prop="C18", file=A + "aggstream.py",
         edits=[("            agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1])\n",
                 "            agg_buffers[KEY_SNAP_RES_BUFFER] = [snap_res.iloc[:-1]]\n")],
         needs="bins and snapshots streamed over three chunks or more without a flush in between",
         breaks="snapshots of earlier chunks are lost",
         demo=STORE + KEYS + """
from oups.aggstream.aggstream import AggStream
from pandas.core.resample import TimeGrouper
ps = ParquetSet(tmp, Key)
k1, k2 = Key("x", Sub("a", 1)), Key("x", Sub("a", 2))
ts = pd.date_range("2020-01-01 08:00", periods=24, freq="10T")
df = pd.DataFrame({"ts": ts, "v": range(1, 25)})
a = AggStream(ordered_on="ts", store=ps, keys={(k1, k2): {"bin_by": TimeGrouper(key="ts", freq="1H", closed="left", label="left")}},
              snap_by=TimeGrouper(key="ts", freq="20T", closed="left", label="right"), agg={"s": ("v", "sum")},
              post=lambda buffer, bin_res, snap_res: (bin_res, snap_res))
a.agg(seed=[df.iloc[i:i + 6].reset_index(drop=True) for i in range(0, 24, 6)], discard_last=False)
assert len(ps[k2].pdf) == 12, ps[k2].pdf
"""),
]
