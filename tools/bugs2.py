"""Further bugs planted to test the checks (see plant.py). Written from the statements of the properties."""
A = "oups/aggstream/"
S = "oups/store/"
BUGS = [
    dict(id='s21', prop='C01', file='oups/store/indexer.py',
         edits=[('        to_str[-1] = str(fields_[-1])\n', '        to_str[-1] = str(fields_[-1] or "")\n')],
         needs='a last level made of a single integer field, which is 0',
         breaks='the text of the key lacks this field',
         demo='''
from oups import toplevel, sublevel
@sublevel
class Num:
    n: int
@toplevel
class Key:
    x: str
    s: Num
k = Key("x", Num(0))
assert Key.from_path(k.to_path) == k, k.to_path
'''),
    dict(id='s22', prop='C02', file='oups/store/indexer.py',
         edits=[('forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)', 'forbidden_chars = (DEFAULT_FIELDS_SEP, *FORBIDDEN_CHARS)')],
         needs='a schema with its own separator',
         breaks='keys containing the separator of their schema are accepted',
         demo='''
import sys
from oups import toplevel
@toplevel(fields_sep="+")
class K:
    a: str
    b: str
try:
    k = K("a+b", "c")
except ValueError:
    sys.exit(0)
sys.exit("accepted: " + str(k))
'''),
    dict(id='s23', prop='C03', file='oups/store/collection.py',
         edits=[('        write(dirpath=dirpath, data=data, md_key=key, **kwargs)\n        if key not in self:\n            # If no trouble from writing, add key.\n            self._keys.add(key)\n', '        if key not in self:\n            self._keys.add(key)\n        write(dirpath=dirpath, data=data, md_key=key, **kwargs)\n')],
         needs='the first write of a key which fails',
         breaks='the catalog lists a key without a dataset',
         demo='''
import os, sys, shutil, tempfile
import numpy as np, pandas as pd
tmp = tempfile.mkdtemp(prefix="oupsdemo_")
import atexit; atexit.register(shutil.rmtree, tmp, True)

from oups import toplevel, sublevel, ParquetSet
@sublevel
class Sub:
    a: str
    b: int
@toplevel
class Key:
    x: str
    s: Sub

ps = ParquetSet(tmp + "/st", Key)
k = Key("x", Sub("a", 1))
try:
    ps[k] = {"ordered_on": "nope"}, pd.DataFrame({"a": [1, 2]})
except ValueError:
    pass
assert list(ps.keys) == [], list(ps.keys)
'''),
    dict(id='s27', prop='C07', file='oups/store/writer.py',
         edits=[('                        existing_oups_spec_md[key] = value\n                elif', '                        existing_oups_spec_md[key] = (\n                            {**existing_oups_spec_md[key], **value}\n                            if isinstance(value, dict)\n                            and isinstance(existing_oups_spec_md[key], dict)\n                            else value\n                        )\n                elif')],
         needs='an entry holding a mapping, replaced by a mapping lacking some of its items',
         breaks='items of the previous value stay in the new one',
         demo='''
import os, sys, shutil, tempfile
import numpy as np, pandas as pd
tmp = tempfile.mkdtemp(prefix="oupsdemo_")
import atexit; atexit.register(shutil.rmtree, tmp, True)

from oups.store.writer import write, OUPS_METADATA
from oups.store.router import ParquetHandle
d = tmp + "/d1"
for v in ({"x": 1, "y": 2}, {"x": 3}):
    OUPS_METADATA["k"] = {"a": v}
    write(d, pd.DataFrame({"ts": [0, 2]}), md_key="k")
assert ParquetHandle(d)._oups_metadata == {"a": {"x": 3}}, ParquetHandle(d)._oups_metadata
'''),
    dict(id='s28', prop='C08', file='oups/store/writer.py',
         edits=[('levels.extend([f"l{i}" for i in range(len_lev, max_levels)])', 'levels.extend([f"l{i}" for i in range(diff)])')],
         needs='fewer level names than levels',
         breaks='the names given to the remaining levels are not numbered by their position',
         demo='''
import pandas as pd
from oups.store.writer import to_midx
m = to_midx(pd.Index(["('a','b','c')"]), ["l0"])
assert list(m.names) == ["l0", "l1", "l2"], m.names
'''),
    dict(id='s30', prop='C09', file='oups/store/router.py',
         edits=[('files.sort(key=lambda x: int(x[5:-8]))', 'files.sort(key=lambda x: (len(x) > 14, x))')],
         needs='more than a hundred row groups',
         breaks='the vaex frame has its rows in another order than the pandas frame',
         demo='''
import os, sys, shutil, tempfile
import numpy as np, pandas as pd
tmp = tempfile.mkdtemp(prefix="oupsdemo_")
import atexit; atexit.register(shutil.rmtree, tmp, True)

from oups.store.writer import write
from oups.store.router import ParquetHandle
d = tmp + "/ds"
write(d, pd.DataFrame({"a": range(104)}), max_row_group_size=1)
assert ParquetHandle(d).vdf.to_pandas_df()["a"].tolist() == list(range(104))
'''),
    dict(id='s34', prop='C17', file='oups/aggstream/aggstream.py',
         edits=[('            seed_remainder = seed_chunk.loc[~filter_main_chunk]\n', '            if filter_main_chunk.any():\n                seed_remainder = seed_chunk.loc[~filter_main_chunk]\n')],
         needs='a chunk all rows of which have the last ordering value of the previous chunk',
         breaks='these rows are lost',
         demo='''
import pandas as pd
from oups.aggstream.aggstream import _iter_data, NO_FILTER_ID
seed = [pd.DataFrame({"ts": t, "v": v}) for t, v in (([1, 2], [1, 2]), ([2, 2], [3, 4]), ([3], [5]))]
out = [c["v"].tolist() for _, _, _, c in _iter_data(seed, "ts", None, None, {}, {NO_FILTER_ID: None}, True, True)]
assert sum(out, []) == [1, 2, 3, 4], out
'''),
    dict(id='s36', prop='C18', file='oups/aggstream/aggstream.py',
         edits=[('            agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1])\n', '            agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1] if len(snap_res) > 1 else snap_res)\n')],
         needs='a chunk yielding a single snapshot which is not the last one',
         breaks='the snapshot appears twice',
         demo='''
import os, sys, shutil, tempfile
import numpy as np, pandas as pd
tmp = tempfile.mkdtemp(prefix="oupsdemo_")
import atexit; atexit.register(shutil.rmtree, tmp, True)

from oups import toplevel, sublevel, ParquetSet
@sublevel
class Sub:
    a: str
    b: int
@toplevel
class Key:
    x: str
    s: Sub

from oups.aggstream import AggStream
from oups.aggstream.segmentby import by_x_rows
ps = ParquetSet(tmp + "/st", Key)
k = Key("x", Sub("a", 1))
T = pd.Timestamp("2020-01-01")
M = pd.Timedelta(minutes=1)
seed = [pd.DataFrame({"ts": [T], "v": [1]}), pd.DataFrame({"ts": [T + M, T + 40 * M], "v": [2, 3]})]
s = AggStream(ordered_on="ts", agg={"v": ("v", "sum")}, store=ps, keys=k,
              bin_by=pd.Grouper(key="ts", freq="1H"), snap_by=pd.Grouper(key="ts", freq="30T"))
s.agg(iter(seed))
df = ps[k].pdf
assert len(df) == df["ts"].nunique() == 2, df
'''),
    dict(id='s40', prop='C16', file='oups/aggstream/utils.py',
         edits=[('                and_part &= ~df[name].values\n', '                and_part = ~df[name].values\n')],
         needs='a negated column after another condition of the same conjunction',
         breaks='the conditions before the negated column are ignored',
         demo='''
import pandas as pd
from oups.aggstream.utils import dataframe_filter
df = pd.DataFrame({"a": [1, 2, 3], "b": [True, False, False]})
r = dataframe_filter(df, [[("a", ">", 2), ("b", "~", None)]])
assert r.tolist() == [False, False, True], r
'''),
    dict(id='s42', prop='C15', file='oups/aggstream/cumsegagg.py',
         edits=[('            cols_res[func_idx].append(out_col_idx)\n', '            cols_res[func_idx].append(cols_res[func_idx][-1] + 1)\n')],
         needs='a function requested for two columns of a type, with another function requested in between',
         breaks='the second result is written in the column of the other request',
         demo='''
import pandas as pd
from oups.aggstream.cumsegagg import cumsegagg
df = pd.DataFrame({"ts": pd.date_range("2020-01-01", periods=3, freq="1T"), "a": [1, 2, 3], "b": [4, 5, 6]})
r = cumsegagg(df, {"sa": ("a", "sum"), "fa": ("a", "first"), "sb": ("b", "sum")}, bin_by=pd.Grouper(key="ts", freq="1H"))
assert r.iloc[0].tolist() == [6, 1, 15], r
'''),
]
