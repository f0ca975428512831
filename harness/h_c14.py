"""C14: aggregating chunk by chunk gives the results of aggregating in one go."""
from agg_common import *

RULE = ("random frames of 1-14 rows, bins and observation points (time groupers or lists), split at random rows (including inside a "
        "group of equal values), results of successive calls the first bin of each call replacing the last of the previous one, compared with the oracle on "
        "the whole frame; nontrivial: at least one split")


def gen(rng):
    c = gen_case(rng, max_n=14)
    n = len(c["vals"])
    c["splits"] = sorted({rng.randint(1, n) for _ in range(rng.randint(0, 3))} | {n})
    if c["snap"] and c["snap"][0] == "series" and rng.random() < 0.6:
        # observation points made known call by call: those up to the last row, and perhaps some later ones
        c["ahead"] = [rng.choice([0, 0, 1, 3, 8, 30]) for _ in c["splits"]]
        c["drop"] = rng.random() < 0.5
        if rng.random() < 0.4:
            late = rng.randint(0, max(c["vals"]) + 10)
            c["snap"][1] = [p for p in c["snap"][1] if p >= late] or [late]
    return c


def valid(c):
    if "ahead" in c and (len(c["ahead"]) != len(c["splits"]) or not c["snap"] or c["snap"][0] != "series" or any(x < 0 for x in c["ahead"])):
        return False
    return valid_agg(c) and c["splits"] \
        and c["splits"][-1] == len(c["vals"]) and c["splits"] == sorted(set(c["splits"])) and c["splits"][0] > 0


def nontrivial(c):
    return len(c["splits"]) > 1


def check(c):
    eb, es = expected(c)
    gb, gs = run_cumsegagg(c, c["splits"])
    if gb != eb:
        return f"bins {gb} instead of {eb}, data being split at rows {c['splits']}"
    if es is not None and gs != es:
        return f"observations {gs} instead of {es}, data being split at rows {c['splits']}"
    return None
