"""Writes properties.jsonl (kept as a script so that statements stay readable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

I, W, C, U, R, IN = ("oups/store/indexer.py", "oups/store/writer.py", "oups/store/collection.py", "oups/store/utils.py", "oups/store/router.py", "oups/store/indexer.py")
AS, CS, J, SG = "oups/aggstream/aggstream.py", "oups/aggstream/cumsegagg.py", "oups/aggstream/jcumsegagg.py", "oups/aggstream/segmentby.py"

p("C01", "Keys and their textual/path forms are one-to-one",
  "Every dataset key with values of the declared field types has exactly one textual form and one relative path, turning either back gives an equal key, and two different keys never share a form or a path. A string which is not the form of some key is reported as not being one, rather than turned into some other key.",
  ["inputs", "configurations"], "For every indexer schema (fields, nesting depth, separators, nested indexers) and every tuple of field values, and for every string.",
  "Tests use a handful of schemas with short alphanumeric values; the claim is over all schemas and all strings, in particular values with separators, empty values, numbers and near-miss strings.",
  [I, U], [("key creation with forbidden-character validation", I + ":toplevel, _dataclass_instance_to_str, _dataclass_instance_from_str"), ("tree walk over nested keys", I + ":_dataclass_instance_to_lists, _dataclass_fields_types_to_lists")],
  ["str(key)", "key.to_path", "indexer.from_str(...)", "indexer.from_path(...)"])
p("C02", "Key creation accepts exactly the keys that map to a path inside the store",
  "Creating a key succeeds exactly when each field value, once rendered, is free of separators and forbidden characters and each directory level gets a non-empty name that is not a relative-directory marker. The path of an accepted key has exactly the number of levels of its schema and lies strictly inside the directory of the store.",
  ["inputs", "configurations"], "For every indexer schema and every tuple of field values, including empty strings, dots, slashes and separators.",
  "Tests try one or two rejected values per rule; the claim is about all strings at all field positions, where one missed character means data written or deleted outside the store.",
  [I, U], [("validation at key creation", I + ":_validate_toplevel_instance"), ("forbidden characters", "oups/store/defines.py"), ("path split and strip", U + ":strip_path_tail, files_at_depth")],
  ["indexer(...)", "key.to_path", "paths written on disk"])
p("C03", "The catalog equals what is on disk, and deletion removes only its dataset",
  "After any sequence of writes, reads, deletions and re-openings, the catalog of a store lists exactly the keys whose dataset exists on disk, and iterating, counting, membership and lookup agree with it. Deleting a key removes that dataset and the directories it leaves empty, and nothing else: never another dataset, a foreign file, or the root of the store.",
  ["histories", "inputs"], "For every history of set, delete, get and re-open operations over keys of any schema, with any spelling of the base directory.",
  "Tests run short fixed scenarios over one base directory; the claim covers every interleaving of operations, sibling keys with shared prefixes, foreign files and base directory spellings.",
  [C, U, R], [("catalog kept in step with disk", C + ":ParquetSet.__setitem__, __delitem__, __init__"), ("directory pruning", U + ":strip_path_tail and upward walk in __delitem__"), ("scan of the directory tree", U + ":files_at_depth")],
  ["keys(), len(), in, [] of the collection", "directory tree"],
  [{"name": "catalog", "meaning": "sorted set of keys", "where": C}])
p("C04", "An ordered update keeps every row exactly once, in ascending order",
  "After any sequence of ordered writes to a dataset, it holds exactly the rows of all batches, each once, in ascending order of the ordering column, rows with equal values keeping the order in which they were written. This holds wherever the batches overlap the stored row groups, whatever the row group size, and whether or not small row groups get merged on the way.",
  ["histories", "inputs", "configurations"], "For every sequence of ascending batches, every row-group size and every limit on the number of incomplete row groups.",
  "Tests cover a dozen overlap layouts with fixed row-group sizes; the claim is over all layouts (overlap, gap, adjacency, ties over several row groups, empty batch) and all histories.",
  [W], [("choice of the row groups to rewrite", W + ":write (rrg_start_idx, rrg_end_idx)"), ("coalescing of incomplete row groups", W + ":write (max_nirgs)"), ("cut into row groups", W + ":iter_dataframe")],
  ["rows of the dataset read back, in file order", "row-group statistics"],
  [{"name": "row groups", "meaning": "ordered, non-overlapping ranges of the ordering column", "where": "metadata of the dataset on disk"}])
p("C05", "An update with duplicate identification keeps the latest row of each identity",
  "When rows are identified by given columns plus the ordering column, updating a dataset with a batch keeps one row for each identity, the one of the most recent batch having it, and leaves all other stored rows unchanged and in order. The arguments supplied by the caller are not modified.",
  ["histories", "inputs", "configurations"], "For every sequence of batches free of internal duplicates, every choice of identifying columns and every row-group layout.",
  "Tests use a few batches where duplicates fall at known positions; the claim covers duplicates at and across every row-group boundary.",
  [W], [("duplicates dropped in the rewritten range, last kept", W + ":iter_dataframe / write"), ("row groups holding an equal ordering value are rewritten", W + ":write")],
  ["rows of the dataset read back", "argument objects after the call"])
p("C06", "Cutting data into chunks is an order-preserving partition with bounded sizes",
  "Cutting a dataframe for writing yields chunks whose concatenation is the dataframe itself (after removal of duplicates, if requested), and no chunk exceeds the requested maximum except by the run of equal ordering values that must stay together. Rows with the same value of the ordering column, within one write, never end in two different chunks.",
  ["inputs", "configurations"], "For every dataframe (empty, single row, runs of equal values longer than the maximum) and every maximum size.",
  "Tests use three or four sizes; off-by-one errors at chunk ends, on runs of ties and on the last partial chunk depend on the relation between length, size and run positions.",
  [W], [("chunk boundaries and shift to the start of a run", W + ":iter_dataframe")],
  ["chunks yielded", "row-group lengths on disk"])
p("C07", "Writing user metadata merges it key by key and preserves everything else",
  "After writing metadata to a dataset, each key provided with a value holds it (serialised values decoding to an equal object), each key provided as none is absent, and every other key keeps its value. The same holds for the metadata kept by the library itself, and the mapping passed by the caller is not modified.",
  ["inputs", "histories"], "For every existing metadata, every update mapping (present, absent, none, falsy values) and every sequence of updates.",
  "Tests update one or two keys with truthy values; the claim covers every combination of present/absent/none/falsy per key.",
  [W], [("merge", W + ":write_metadata"), ("decoding on read", R + ":ParquetHandle oups metadata")],
  ["key-value metadata of the dataset on disk", "argument objects after the call"])
p("C08", "Column multi-index expansion is faithful",
  "Expanding column names into a multi-index keeps the number, the order and the data of the columns, plain names becoming the first level with the remaining levels empty and textual tuples their components. Names which do not fit the requested levels are refused, and the caller's level names are not modified.",
  ["inputs", "configurations"], "For every list of column names and every number of levels.",
  "Tests expand two fixed sets of columns.",
  [W], [("expansion", W + ":to_midx, check_cmidx; " + U + ":conform_cmidx")],
  ["columns of the written dataset"])
p("C09", "All ways of reading a dataset agree",
  "For every stored dataset, the different read interfaces return the same rows in the same order, and the reported minimum and maximum of any column are the exact bounds of its stored values.",
  ["inputs", "histories"], "For every dataset content and row-group layout reachable by writes.",
  "Tests compare the read paths on one or two small datasets with one row group.",
  [R], [("handle to the dataset", R + ":ParquetHandle (pf, pdf, vdf, min_max)")],
  ["pandas, vaex and fastparquet reads", "min_max"])
p("C10", "Every bin aggregates exactly its own rows",
  "For every segmentation into bins, each result row holds, for each requested aggregation (first, last, min, max, sum), the value of that function over exactly the input rows of that bin, and a bin without rows holds the null value of its type. Counters of empty bins and their positions are exact, and no input is modified.",
  ["inputs", "configurations"], "For every data array, every sequence of bin ends including runs of empty bins at start, middle and end, every set of requested aggregations and column mappings.",
  "Tests hold a few dozen hand-computed arrays; the compiled single-pass kernel has per-row, per-bin and per-empty-run branches whose combinations depend on lengths.",
  [J, CS], [("aggregation kernels", J + ":jfirst, jlast, jmin, jmax, jsum"), ("single-pass loop", J + ":jcsagg")],
  ["dataframe of bins returned by cumsegagg"])
p("C11", "Time segmentation assigns each row to the bin covering its timestamp",
  "For every ascending series of timestamps and every frequency or series of bin ends, bins are contiguous, they cover all rows, and each row is in the bin whose interval (with the chosen closed side) contains its timestamp; labels and ends are those of the interval. Restarting on the next chunk of data gives the same bins as processing all the data at once.",
  ["inputs", "histories", "configurations"], "For every ascending ordering column, every frequency, series of bin ends, closed side, and every split into chunks.",
  "Tests use about ten series; rows equal to a bin end, empty bins, and splits right at a bin end are each a distinct case for each closed side.",
  [SG], [("search of chunk starts", SG + ":_next_chunk_starts"), ("segmentation by scale", SG + ":by_scale")],
  ["segmentation outputs", "bins returned by cumsegagg"])
p("C12", "Row-count segmentation makes bins of exactly the requested number of rows",
  "For every row count and every chunking of the data into successive calls, each bin but the last holds exactly the requested number of rows, bins follow the order of the rows, and the same bins result as if all data had been processed in one call.",
  ["inputs", "histories"], "For every number of rows per bin, every length of data and every split of it into successive chunks.",
  "Tests restart at two or three positions; remainders (exact multiple, one short, one over, several chunks within one bin) vary with lengths.",
  [SG], [("row-count segmentation with restart state", SG + ":by_x_rows")],
  ["segmentation outputs", "bins returned by cumsegagg"])
p("C13", "Each snapshot aggregates its bin from the bin start up to the snapshot",
  "With snapshots requested, each snapshot row holds the aggregation of the rows from the start of the current bin up to the snapshot and no row after it, and is null when there is none; bins are the same as without snapshots. Snapshots and bins are processed in the order of their ends, a snapshot at the same position as a bin end following the documented side.",
  ["inputs", "configurations"], "For every data array, every interleaving of bin ends and snapshot ends (ties, runs of empty snapshots, empty bins), closed sides and aggregations.",
  "Tests hold about a dozen hand-computed interleavings; orders of bins and snapshots at a same row are the difficult cases, and are combinatorial.",
  [J, CS, SG], [("single-pass loop with snapshots", J + ":jcsagg"), ("merge of the two orders", SG + ":mergesort, segmentby")],
  ["snapshot and bin dataframes returned by cumsegagg"])
p("C14", "Aggregating chunk by chunk equals aggregating in one go",
  "For every split of the seed data into successive non-empty chunks, aggregating chunk by chunk with the state handed over from call to call yields, once the last bin of each call is replaced by the first of the next, exactly the bins and snapshots obtained in a single call.",
  ["inputs", "histories", "configurations"], "For every data, segmentation (time, row count, series of ends), set of aggregations, and every split into chunks.",
  "Tests split three or four times at fixed positions; the number of splits is exponential and the state differs when a split falls in an empty bin, on a bin end, or on a snapshot.",
  [CS, SG, J], [("hand-over of the unfinished bin and chunk", CS + ":cumsegagg (buffer)"), ("hand-over of segmentation state", SG + ":segmentby, by_scale, by_x_rows (buffer)")],
  ["concatenated results over calls", "buffer content"])
p("C15", "Aggregation requests map each output to its input column and function",
  "For every valid aggregation request, each requested output column appears in the result with the aggregation of the column and function it names, with the type of the input, and independently of the order of the request; requests naming unknown columns or functions are refused. The result does not depend on which other outputs are requested.",
  ["inputs", "configurations"], "For every assignment of outputs to (column, function) pairs over columns of all supported types.",
  "Tests have four requests; permutations of columns, types and functions index several parallel arrays that must agree.",
  [CS], [("request set-up", CS + ":setup_cumsegagg, setup_chunk_res")],
  ["columns of the result of cumsegagg"])
p("C16", "Row filters select exactly the rows satisfying the disjunction of conjunctions",
  "Filtering a dataframe with a list of lists of conditions keeps exactly the rows that satisfy at least one list entirely, in their order and with their values, for each comparison and membership operator; the dataframe given is not modified.",
  ["inputs", "configurations"], "For every dataframe and every filter in disjunctive normal form.",
  "Tests apply two filters on one dataframe.",
  ["oups/aggstream/utils.py"], [("filter evaluation", "oups/aggstream/utils.py:dataframe_filter")],
  ["dataframe returned"])
p("C17", "Streaming seed data delivers each kept row exactly once, in order",
  "Over successive sessions with start trimming and discarding of the last ordering value enabled, the chunks delivered for aggregation contain, for each filter, each seed row once, in order, except rows of the last ordering value which are delivered by the next session. Seed data that is not ascending is refused, and the recorded restart point is the last value not delivered.",
  ["inputs", "histories", "configurations"], "For every seed, every split into chunks and sessions, and every set of filters.",
  "Tests stream two or three chunks; a session boundary inside a run of equal values, a chunk fully trimmed or made of one value are separate cases.",
  [AS], [("iteration over the seed", AS + ":_iter_data")],
  ["chunks yielded per filter", "recorded last index"])
p("C18", "Aggregation results are independent of when they are flushed to disk",
  "For every stream of seed chunks, the datasets written by a streamed aggregation equal the in-memory aggregation of the whole seed, whatever the maximum number of result rows kept in memory before writing, and whatever the cut of the seed into chunks.",
  ["inputs", "histories", "configurations"], "For every seed, cut into chunks, set of keys and filters, memory threshold and user processing function without state.",
  "Tests run one threshold per scenario; a result row lost or doubled when flushing shows only for some relation between chunk sizes and threshold.",
  [AS, W], [("results kept then concatenated or written", AS + ":_concat_agg_res, _post_n_write_agg_chunks"), ("last row superseded by the next chunk", AS + ":agg_iter, _post_n_write_agg_chunks")],
  ["datasets read back from the store"])
p("C19", "Interrupted aggregation resumes as if it had never stopped",
  "Splitting the seed over several sessions, each resuming from what the previous one recorded in the store, produces the same datasets as one session over the whole seed. State kept by user functions for pre- and post-processing is carried over likewise.",
  ["histories", "inputs", "configurations"], "For every seed, every split into sessions and every configuration of keys, filters and user buffers.",
  "Tests resume once or twice at fixed positions; resumption inside a bin, at its end, after an empty selection for one filter, or at index 0 are separate cases.",
  [AS, W, CS], [("recording of the aggregation state", AS + ":AggStream.agg, _post_n_write_agg_chunks; " + W + ":write_metadata"), ("recovery", AS + ":AggStream.__init__, _init_buffers")],
  ["datasets read back from the store after the last session"])
p("C20", "Aggregation set-ups are completed with defaults or refused, never altered",
  "For every combination of options of a segmentation or an aggregated stream, the effective set-up is the one given by each key, completed by the common one, then by the documented defaults, and invalid or ambiguous combinations are refused. The configuration objects of the caller are left unchanged.",
  ["configurations"], "For every combination of present, absent and inconsistent options for one or several keys and filters.",
  "Tests cover the error cases one at a time and few default combinations.",
  [AS, SG, CS], [("segmentation options", SG + ":setup_segmentby"), ("key options", AS + ":AggStream.__init__, _init_keys_config")],
  ["effective configuration", "exceptions raised", "argument objects after the call"])
p("C21", "Parallel aggregation gives the same results as sequential aggregation",
  "For every seed and every set of keys, aggregating keys in parallel produces the same datasets as aggregating them one after another.",
  ["schedules", "inputs"], "For every schedule of the parallel jobs and every set of keys.",
  "Tests run with one schedule, on two cores at most.",
  [AS], [("joblib pool over keys", AS + ":AggStream.agg")],
  ["datasets read back from the store"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
