"""C13: each observation point shows the bin in progress at that point, and leaves bins unchanged."""
from agg_common import *

RULE = ("random frames of 1-14 rows with a bin rule and observation points (time grouper or list), one shot; and merges of "
        "two sorted lists of ends; nontrivial: a point falling on a bin end or an empty observation")


def gen(rng):
    if rng.random() < 0.3:
        a = sorted(rng.randint(0, 9) for _ in range(rng.randint(0, 6)))
        b = sorted(rng.randint(0, 9) for _ in range(rng.randint(1, 6)))
        return {"a": a, "b": b, "force": rng.random() < 0.4}
    while True:
        c = gen_case(rng, max_n=14)
        if c["snap"] is not None:
            return c


def valid(c):
    if "a" in c:
        return c["a"] == sorted(c["a"]) and c["b"] == sorted(c["b"]) and bool(c["b"])
    return c.get("snap") is not None and valid_agg(c)


def nontrivial(c):
    if "a" in c:
        return bool(set(c["a"]) & set(c["b"]))
    return True


def check(c):
    if "a" in c:
        import numpy as np

        from oups.aggstream.segmentby import mergesort

        la = [("a", i) for i in range(len(c["a"]))]
        lb = [("b", i) for i in range(len(c["b"]))]
        it = [(k, 0, i) for i, k in enumerate(c["a"])] + [(k, 1, i) for i, k in enumerate(c["b"])]
        if c["force"]:
            last = it.pop()
            exp = sorted(it) + [last]
        else:
            exp = sorted(it)
        expl = [i if w == 0 else 100 + i for _, w, i in exp]
        expi = [p for p, (_, w, _) in enumerate(exp) if w == 1]
        gl, gi = mergesort(
            labels=(np.arange(len(la)), 100 + np.arange(len(lb))),
            keys=(np.array(c["a"], dtype="int64"), np.array(c["b"], dtype="int64")),
            force_last_from_second=c["force"],
        )
        if list(gl) != expl or list(gi) != expi:
            return f"merge of {c['a']} and {c['b']} (forced last: {c['force']}): {list(gl)}, {list(gi)} instead of {expl}, {expi}"
        return None
    eb, es = expected(c)
    gb, gs = run_cumsegagg(c)
    if gs != es:
        return f"observations {gs} instead of {es}"
    if gb != eb:
        return f"bins {gb} instead of {eb} when observation points are requested"
    return None
