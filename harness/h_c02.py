"""C02: key creation succeeds exactly for well-formed keys, whose path stays in the store."""
from keys_common import *

RULE = ("random schemas and field values drawn from well-formed and malformed ones (forbidden characters, wrong "
        "types, sub-levels misplaced or alone); nontrivial: at least one malformed value or more than one field")

BAD = ["a/b", "a.b", "..", ".", "/", "", 1.5, None, True, ["x"], "SEP", "aSEPb", {"sub": 1}, b"x"]


def gen(rng):
    desc = gen_desc(rng)
    sep = rng.choice(SEPS)
    vals = gen_values(rng, desc, sep)
    bad = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 2)):
            lv = rng.randrange(len(desc))
            n = rng.randrange(len(desc[lv]))
            b = rng.choice(["slash", "dot", "dots", "sep", "insep", "empty", "float", "none", "bool", "list", "sub",
                            "negsep", "substr", "negint", "digitint", "bigint"])
            bad.append([lv, n, b])
    return {"desc": desc, "sep": sep, "vals": vals, "bad": bad, "alone": rng.random() < 0.08,
            "notlast": rng.random() < 0.08}


def valid(c):
    return valid_values(c["desc"], c["sep"], c["vals"]) and all(
        l < len(c["desc"]) and n < len(c["desc"][l])
        # a sub-level in place of the very last plain field: not a value of the declared type, not claimed
        and not (b == "sub" and l == len(c["desc"]) - 1 and n == len(c["desc"][l]) - 1)
        for l, n, b in c["bad"])


def nontrivial(c):
    return bool(c["bad"]) or sum(map(len, c["desc"])) > 1


class SubStr(str):
    pass


def check(c):
    from dataclasses import fields, make_dataclass
    from oups import sublevel, toplevel

    sep = "-" if c["sep"] is None else c["sep"]
    vals = [list(v) for v in c["vals"]]
    anysub = sublevel(type("Sub", (), {"__annotations__": {"u": str}, "__module__": __name__}))
    for lv, n, b in c["bad"]:
        vals[lv][n] = {
            "slash": "a/b", "dot": "a.b", "dots": "..", "sep": sep, "insep": f"a{sep}b", "empty": "",
            "float": 1, "none": None, "bool": True, "list": ["x"], "sub": anysub("k"), "negsep": f"{sep}1",
            "substr": SubStr("ok"), "negint": -5, "digitint": 15423, "bigint": 10**30,
        }[b]
        if b == "float":
            vals[lv][n] = 15e20  # no '.' in its text
    desc = [list(d) for d in c["desc"]]
    misplaced = False
    # oracle
    ok = True
    for i, lv in enumerate(vals):
        for v in lv:
            if type(v) not in (str, int):
                ok = False
            elif any(x in str(v) for x in (sep, "/", ".")):
                ok = False
        if lv == [""]:
            ok = False
    classes = schema(tuple(map(tuple, desc)), c["sep"])
    depth = len(desc)
    try:
        if c["alone"]:
            # a level made only of a sub-level
            ok = False
            top = type("Top", (), {"__annotations__": {"s": anysub}, "__module__": __name__})
            k = toplevel(top, fields_sep=sep)(anysub("u"))
        elif c["notlast"]:
            ok = False
            top = type("Top", (), {"__annotations__": {"s": anysub, "z": str}, "__module__": __name__})
            k = toplevel(top, fields_sep=sep)(anysub("u"), "k")
        else:
            k = build(desc, c["sep"], vals)
    except (ValueError, TypeError) as e:
        if ok:
            return f"well-formed key {vals} (separator {sep!r}) refused: {e}"
        return None
    if not ok:
        return f"malformed key accepted: {k!r} (separator {sep!r})"
    parts = k.to_path.split("/")
    if len(parts) != depth or type(k).depth != depth or any(p in ("", ".", "..") for p in parts):
        return f"path {k.to_path!r} does not denote a folder at depth {depth}"
    if parts != oracle_path(desc, c["sep"], vals).split("/"):
        return f"path {k.to_path!r} is not made of the fields of {k!r}"
    return None
