"""Settings of the checks. level: 'proof' where the deductive engine discharges the contracts that carry
the property, 'exploration' where the bounded run of the contracts on the real code decides it."""
COMMON_ASSUMPTIONS = [
    "CPython 3.12, numpy, pandas, fastparquet, vaex, numba behave as documented (versions installed in /opt/venv)",
    "single process: no concurrent writer to the same store",
]
CONF = {f"C{i:02d}": {"level": "exploration", "seconds": 25} for i in range(1, 21)}
for p, n in {"C10": 2, "C13": 2, "C14": 2, "C11": 1, "C12": 1, "C15": 1, "C18": 1, "C19": 1}.items():
    CONF[p]["jit"] = n
# what is proved (contracts on the real functions, discharged by z3/cvc5 on every run), and what is only run within bounds
PROVED = {
    "C01": ("text and path of a key, parsing of any text, round trip: _dataclass_instance_to_str, _dataclass_instance_from_str, _dataclass_fields_types_to_lists and toplevel, for keys of any number of levels and fields",
            "dataclass machinery of the standard library, str() and constructors of field values (assumed contracts); one-character separators; equality and order of keys; several key classes"),
    "C02": ("_validate_toplevel_instance and _dataclass_instance_to_lists: keys accepted only if their texts hold no separator and each level of directories has a name, for any number of levels and fields",
            "dataclass machinery, str() of field values (assumed contracts); sets of keys in one store"),
    "C03": ("ParquetSet: discovery of keys, __getitem__/set of one or several items, __delitem__, for any store content", "file system functions (assumed contracts); whole sessions"),
    "C09": ("ParquetHandle.pdf, vdf and min_max for any number of files and row groups", "fastparquet, vaex (assumed contracts); round trip of the data"),
    "C04": ("write() and iter_dataframe() for any stored row groups, any batch: rows merged are those of exactly the overlapping row groups, stored before new, sorted stably, and row groups end up in order",
            "fastparquet, vaex and pandas (assumed contracts); sequences of writes through ParquetSet; reading back"),
    "C05": ("write() and iter_dataframe() with duplicates_on, for any names and any data: identity columns, last one kept, arguments untouched",
            "fastparquet, vaex and pandas (assumed contracts); columns='all' form; reading back"),
    "C06": ("iter_dataframe() for any number of rows and any row group size (pandas, vaex, sharp cuts, duplicates)", "pandas/vaex slicing (assumed contracts)"),
    "C07": ("write_metadata() for any metadata and any store content", "fastparquet custom metadata and JSON (assumed contracts)"),
    "C08": ("to_midx() and check_cmidx() for any names and any number of levels", "conform_cmidx; pandas MultiIndex"),
    "C10": ("jfirst, jlast, jmin, jmax, jsum and the driver jcsagg for any data, bins and snapshots, plus the lemma that their steps compose to a fold over exactly the rows of the bin; setup_cumsegagg() for any requests; cumsegagg() without snapshots: arrays given to the driver, null values and columns of the result, for any rows and any bins",
            "numba compilation preserves Python semantics; arithmetic of float columns is abstract (any associative operation); error_on_0"),
    "C11": ("_next_chunk_starts() for any rows and ends; by_scale() for any rows, any grid of edges or any ends, both closed sides, any state left by previous calls: bins are those of a single call",
            "pandas gtre and date_range (assumed contracts: edges of one grid)"),
    "C12": ("by_x_rows() for any number of rows, any requested size, any buffer, both closed sides", "pandas Series construction (assumed contracts)"),
    "C13": ("mergesort(): positions of snapshots and bins for any inputs; setup_mainbuffer(), segmentby() and cumsegagg() with snapshots given by a grouper or by a list of points, for any rows, bins and snapshots; the driver jcsagg: a snapshot is the aggregation of the rows of its bin up to it",
            "numba compilation; error_on_0; types of requests are enumerated (grouper, series, none)"),
    "C15": ("setup_cumsegagg(): each request has its function from its column to its output, for any number of requests, columns, functions and types; cumsegagg(): columns of the input given to the aggregation, per type of data, and columns of the result, for any number of columns and any number of rows",
            "the second loop of setup_cumsegagg is followed for one record between two others; pandas DataFrame over its columns"),
    "C14": ("segmentby() and cumsegagg() with the state of a previous call: rows, bins and snapshots taken up where left, for any rows; by_scale(): bins given call by call are those of a single call, by the state left from one call to the next (induction on calls); by_x_rows(): see C12",
            "pandas gtre and date_range (assumed contracts); composition of these contracts over a whole session (bounded run)"),
    "C16": ("dataframe_filter() for any number of conjunctions and conditions", "pandas comparison operators (assumed contracts)"),
    "C17": ("_iter_data() for any seed chunks, any filters, trim/discard/restart/pre-processing variants", "pandas slicing and searchsorted (assumed contracts)"),
    "C18": ("agg_iter, _post_n_write_agg_chunks, _concat_agg_res, _reset_agg_buffers and AggStream.agg: what is written, with what metadata, for any number of chunks",
            "aggregation itself (C10-C15); store writes (C04, C05, C07); agreement of the whole pipeline with in-memory aggregation"),
    "C19": ("_init_buffers for any number of keys, _post_n_write_agg_chunks and AggStream.agg: state recorded, state resumed from", "store writes and metadata (C07); the whole pipeline over several sessions"),
    "C20": ("setup_segmentby() and _init_keys_config() for any number of keys and any settings, caller's objects unchanged", "AggStream.__init__, setup of functions for pre- and post-processing"),
}
for p, (what, rest) in PROVED.items():
    CONF[p].update(level="proof", technique="contracts on the real functions, obligations discharged by z3/cvc5 (pyvc); bounded run of the property's contract for the rest",
                   note=f"Proved: {what}. Bounded only, or assumed: {rest}.")
