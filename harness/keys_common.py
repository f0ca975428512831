"""Key schemas built from descriptions, and independent oracle for keys."""
from functools import lru_cache

TYPES = {"s": str, "i": int}


@lru_cache(maxsize=None)
def schema(desc, sep):
    """desc: tuple of levels, each a tuple of 's'/'i' (own fields). -> list of classes, top first."""
    from oups import sublevel, toplevel

    cls = None
    out = []
    for lv in range(len(desc) - 1, -1, -1):
        ann = {f"f{lv}_{n}": TYPES[t] for n, t in enumerate(desc[lv])}
        if cls is not None:
            ann[f"f{lv}_sub"] = cls
        name = f"L{lv}_{len(globals())}"
        raw = type(name, (), {"__annotations__": ann, "__module__": __name__})
        if lv == 0:
            cls = toplevel(raw, fields_sep=sep) if sep is not None else toplevel(raw)
        else:
            cls = sublevel(raw)
        cls.__qualname__ = cls.__name__
        globals()[name] = cls  # importable, so that keys are serialized by reference
        out.insert(0, cls)
    return out


def build(desc, sep, values):
    """values: list of lists of field values (one per level)."""
    classes = schema(tuple(map(tuple, desc)), sep)
    obj = None
    for lv in range(len(desc) - 1, -1, -1):
        args = list(values[lv]) + ([obj] if obj is not None else [])
        obj = classes[lv](*args)
    return obj


def oracle_path(desc, sep, values):
    sep = "-" if sep is None else sep
    return "/".join(sep.join(map(str, lv)) for lv in values)


def oracle_str(desc, sep, values):
    sep = "-" if sep is None else sep
    return sep.join(str(v) for lv in values for v in lv)


def gen_desc(rng):
    depth = rng.choice([1, 1, 2, 2, 3])
    return [[rng.choice("ssi") for _ in range(rng.randint(1, 3))] for _ in range(depth)]


SEPS = [None, "-", "_", "+", "|", "||", "d", "#", "^", "$", "(", "--", " ", "\\", "w", "s", "*", "=", "5", "42"]
ALPH = ["a", "b", "0", "7", "x", "z", " ", "é", "[", "A", "~", "%", "\n", "q"]


def gen_value(rng, t, sep, lone):
    if t == "i":
        while True:
            v = rng.choice([0, 1, 7, 10, 42, 123456789012345678901, -1, -7, -120])
            if (sep or "-") not in str(v):
                return v
    while True:
        n = rng.choice([0, 1, 1, 2, 3, 5])
        v = "".join(rng.choice(ALPH) for _ in range(n))
        if (sep or "-") in v or (lone and not v):
            continue
        return v


def gen_values(rng, desc, sep):
    return [[gen_value(rng, t, sep, len(lv) == 1) for t in lv] for lv in desc]


def valid_values(desc, sep, values):
    s = "-" if sep is None else sep
    if len(desc) != len(values) or not desc:
        return False
    for lv, vs in zip(desc, values):
        if not lv or len(lv) != len(vs):
            return False
        for t, v in zip(lv, vs):
            if t not in TYPES or type(v) is not TYPES[t]:
                return False
            if any(c in str(v) for c in (s, "/", ".")):
                return False
        if len(vs) == 1 and vs[0] == "":
            return False
    # a separator overlapping with text around it makes splitting ambiguous
    if len(s) > 1:
        for txt in (oracle_str(desc, sep, values), oracle_path(desc, sep, values)):
            toks = [str(v) for lv in values for v in lv]
            parts = [p for x in txt.split("/") for p in x.split(s)]
            if parts != toks:
                return False
    return True
