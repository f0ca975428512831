"""C01: keys and their textual / path renderings are one-to-one."""
import cloudpickle
from keys_common import *

RULE = ("random schemas (1-3 levels, 1-3 text/integer fields per level, 18 separators), random field values, "
        "plus near-miss texts obtained by editing renderings; nontrivial: more than one field")


def gen(rng):
    desc = gen_desc(rng)
    sep = rng.choice(SEPS)
    v1 = gen_values(rng, desc, sep)
    v2 = gen_values(rng, desc, sep)
    s = "-" if sep is None else sep
    txt = rng.choice([oracle_path, oracle_str])(desc, sep, v1)
    for _ in range(rng.randint(1, 2)):
        k = rng.randint(0, 5)
        p = rng.randint(0, len(txt))
        if k == 0:
            txt = txt[:p] + s + txt[p:]
        elif k == 1:
            txt = txt[:p] + "/" + txt[p:]
        elif k == 2:
            txt = txt[:p] + rng.choice(["0", "_", " ", "a", "1"]) + txt[p:]
        elif k == 3 and txt:
            txt = txt[: max(0, p - 1)] + txt[p:]
        elif k == 4:
            txt = txt.replace("/", s, 1)
        else:
            txt = rng.choice(["x", "0", "1"]) + s + txt
    return {"desc": desc, "sep": sep, "v1": v1, "v2": v2, "text": txt}


def valid(c):
    return valid_values(c["desc"], c["sep"], c["v1"]) and valid_values(c["desc"], c["sep"], c["v2"])


def nontrivial(c):
    return sum(map(len, c["desc"])) > 1


def check(c):
    desc, sep = c["desc"], c["sep"]
    k1 = build(desc, sep, c["v1"])
    k2 = build(desc, sep, c["v2"])
    cls = type(k1)
    for k, v in ((k1, c["v1"]), (k2, c["v2"])):
        if k.to_path.count("/") != len(desc) - 1:
            return f"path {k.to_path!r} does not have one folder per level"
        if cls.from_path(k.to_path) != k:
            return f"path {k.to_path!r} of {k!r} parses back to {cls.from_path(k.to_path)!r}"
        if cls.from_str(str(k)) != k:
            return f"text {str(k)!r} of {k!r} parses back to {cls.from_str(str(k))!r}"
        got = cls.from_path(k.to_path)
        for a, b, t in zip(flat(got), flat(k), [t for lv in desc for t in lv]):
            if type(a) is not type(b):
                return f"field {b!r} of {k!r} comes back as {a!r}"
        if cloudpickle.loads(cloudpickle.dumps(k)) != k:
            return f"{k!r} does not survive serialization"
        if hash(got) != hash(k):
            return "equal keys have different hashes"
    if (k1 == k2) != (c["v1"] == c["v2"]):
        return "key equality differs from equality of fields"
    if (k1.to_path == k2.to_path) != (k1 == k2) or (str(k1) == str(k2)) != (k1 == k2):
        return f"{k1!r} and {k2!r} share a rendering"
    for f in (cls.from_path, cls.from_str):
        r = f(c["text"])
        if r is not None and c["text"] not in (r.to_path, str(r)):
            return f"text {c['text']!r} is not a rendering but parses to {r!r}"
    return None


def flat(k):
    from dataclasses import fields, is_dataclass

    out = []
    for f in fields(k):
        v = getattr(k, f.name)
        out.extend(flat(v) if is_dataclass(v) else [v])
    return out
