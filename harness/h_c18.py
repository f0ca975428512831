"""C18: a streamed aggregation records the aggregation of all streamed rows, however results are buffered."""
from stream_common import *

RULE = ("one session over a random seed cut in random chunks, memory thresholds from 0 to never reached, with filters, bins "
        "or bins and observations, post-processing, row-group sizes; recorded datasets compared with the oracle on the whole "
        "seed; nontrivial: several chunks")


def gen(rng):
    return gen_stream(rng, [1])


def valid(c):
    return valid_stream(c) and len(c["cuts"]) == 1


def nontrivial(c):
    return len(c["vals"]) > c["chunks"][0]


def check(c):
    r, e = run_stream(c)
    if r != e:
        return f"recorded {r} instead of {e} (memory threshold {c['mem']} MB, chunks of {c['chunks']} rows)"
    return None
