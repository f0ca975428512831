"""C19: resuming a streamed aggregation in a later session gives the results of a single session."""
from stream_common import *

RULE = ("2-4 sessions over a growing seed, with a new or the same stream object, with or without discarding the last group "
        "and trimming the start; recorded datasets compared with the oracle on the whole seed; nontrivial: at least 2 "
        "sessions having rows")


def gen(rng):
    return gen_stream(rng, [2, 2, 3, 4])


def valid(c):
    return valid_stream(c)


def nontrivial(c):
    return len({x for x in c["cuts"] if x}) > 1


def check(c):
    r, e = run_stream(c)
    if r != e:
        return f"recorded {r} instead of {e} with sessions ending at rows {c['cuts']} (discarding last: {c['disc']})"
    return None
