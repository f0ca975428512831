"""C17: streaming seed data delivers each expected row exactly once, in order."""
import pandas as pd

RULE = ("random ordered seeds cut in random chunks, 1-3 sessions with or without trimming of the start and discarding of "
        "the last group, 0-2 filters, a pre-processing failing at a random chunk; rows delivered compared with the oracle; "
        "nontrivial: several chunks")


def gen(rng):
    n = rng.randint(1, 14)
    vals = sorted(rng.randint(0, rng.choice([3, 8, 30])) for _ in range(n))
    mode = rng.choice(["all", "last"])  # 'last': discard_last then trim_start at next session
    k = rng.randint(1, 3)
    cuts = sorted(rng.randint(1, n) for _ in range(k - 1)) + [n]
    return {"vals": vals, "i": [rng.randint(0, 9) for _ in range(n)], "mode": mode, "cuts": cuts,
            "chunks": [rng.randint(1, 5) for _ in range(5)], "filt": rng.choice([[], [4], [2, 7]]),
            "unf": rng.random() < 0.6, "fail": rng.choice([None] * 5 + [0, 1, 2]),
            "unordered": rng.random() < 0.08, "between": rng.random() < 0.08}


def valid(c):
    n = len(c["vals"])
    return n and c["vals"] == sorted(c["vals"]) and len(c["i"]) == n and c["cuts"] and c["cuts"][-1] == n and \
        c["cuts"] == sorted(c["cuts"]) and c["cuts"][0] > 0 and c["chunks"] and min(c["chunks"]) > 0 and (
            c["unf"] or c["filt"])


def nontrivial(c):
    return len(c["vals"]) > c["chunks"][0]


def check(c):
    from oups.aggstream.aggstream import NO_FILTER_ID, SeedPreException, _iter_data

    n = len(c["vals"])
    df = pd.DataFrame({"ts": pd.Series(c["vals"], dtype="int64"), "i": c["i"], "id": range(n)})
    filters = {}
    for j, x in enumerate(c["filt"]):
        filters[f"f{j}"] = [[("i", ">", x)]] if j == 0 else [[("i", "<=", x)]]
    if c["unf"]:
        filters[NO_FILTER_ID] = None

    def keeps(f, r):
        if f == NO_FILTER_ID:
            return True
        x = c["filt"][int(f[1:])]
        return c["i"][r] > x if f == "f0" else c["i"][r] <= x

    restart = None
    buf = {}
    s = 0
    for si, end in enumerate(c["cuts"]):
        last = c["mode"] == "last"
        lo = 0 if last else s
        if lo == end:
            continue
        chunks, p, k = [], lo, 0
        while p < end:
            q = min(p + c["chunks"][k % len(c["chunks"])], end)
            chunks.append((p, q))
            p, k = q, k + 1
        frames = [df.iloc[a:b].reset_index(drop=True) for a, b in chunks]
        stop = None
        if c["fail"] is not None and c["fail"] < len(chunks):
            stop = c["fail"]
        if c["unordered"]:
            for m, fr in enumerate(frames):
                if len(fr) > 1 and fr["ts"].iloc[0] < fr["ts"].iloc[-1]:
                    frames[m] = fr.iloc[::-1].reset_index(drop=True)
                    stop = m if stop is None else min(stop, m)
                    break
        if c.get("between") and len(frames) > 1 and not c["unordered"]:
            # a later chunk goes back before the end of the previous one
            for m in range(1, len(frames)):
                if stop is not None and stop < m:
                    break
                low = frames[m - 1]["ts"].iloc[-1]
                if frames[m]["ts"].iloc[0] >= low:
                    frames[m] = frames[m].copy()
                    frames[m].loc[0, "ts"] = low - 1
                    stop = m if stop is None else min(stop, m)
                    break
        calls = []

        def pre(on, buffer):
            if c["fail"] is not None and len(calls) == c["fail"]:
                raise RuntimeError("failing")
            calls.append(len(on))
            buffer["n"] = buffer.get("n", 0) + 1

        got = {f: [] for f in filters}
        raised = False
        last_idx = []
        try:
            for li, pb, f, ch in _iter_data(frames, "ts", restart, pre, buf, filters, last, last):
                got[f] += list(ch["id"])
                last_idx.append(li)
                if list(ch.columns) != ["ts", "i", "id"] or list(ch.index) != list(range(len(ch))):
                    return f"chunk delivered with columns {list(ch.columns)}, index {list(ch.index)}"
                if not len(ch):
                    return "empty chunk delivered"
                if pb is not buf:
                    return "another pre-processing buffer is delivered"
        except SeedPreException:
            raised = True
        if raised != (stop is not None):
            return f"stop of the stream: {raised}, expected at chunk {stop}"
        done = end if stop is None else (chunks[stop - 1][1] if stop else lo)
        rows = list(range(lo, done))
        if rows and last:
            v = c["vals"][rows[-1]]
            rows = [r for r in rows if c["vals"][r] < v and (restart is None or c["vals"][r] >= restart)]
        for f in filters:
            ex = [r for r in rows if keeps(f, r)]
            if got[f] != ex:
                return (f"session {si}, rows {lo}-{end} in chunks {chunks}, {'trimmed start and discarded last group' if last else 'all rows'}"
                        f", restart at {restart}: rows {got[f]} delivered for filter '{f}' instead of {ex}")
        if c["unf"] and last_idx:
            exp_last = c["vals"][done - 1]
            if last_idx[-1] != exp_last and last:
                return f"last seed index {last_idx[-1]} instead of {exp_last}"
        if last_idx:
            restart = last_idx[-1]
        if stop is not None:
            return None
        s = end
    return None
