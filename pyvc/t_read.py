"""Contracts of the read interfaces (C09)."""
import z3

import core
from core import Num, PathEnd, SBool, Unsupported, BOOL, INT, REAL, lit, new_int, zbool
from models import NS, Seq, Text
from target import Target

RM = "oups.store.router"


def handle(T, d):
    T.fn(RM, "ParquetHandle")
    cls = T.rt.load(RM).ns["ParquetHandle"]
    h = cls(d)
    return cls, h


class PF:
    """fastparquet.ParquetFile: the dataset in the directory given."""

    py = ("ParquetFile",)

    def __init__(self, path):
        if path is not STATE["dir"]:
            raise Unsupported("another directory is read")

    @property
    def statistics(self):
        return STATE["stats"]

    def to_pandas(self, *a, **k):
        if a or k:
            raise Unsupported("to_pandas with arguments")
        return STATE["rows"]


STATE = {}


def attr(T, cls, name):
    """Body of a property."""
    p = cls.__dict__.get(name)
    f = getattr(p, "fget", None) or getattr(p, "func", None) or p
    if f is None:
        raise Unsupported(f"{name} does not exist any more")
    return f


def min_max(T):
    c = core.CTX
    nm = "ParquetHandle.min_max"
    STATE.clear()
    d = STATE["dir"] = Text(object())
    n = new_int("row groups", 1)
    MIN, MAX = c.fresh_fun("MIN", INT, REAL), c.fresh_fun("MAX", INT, REAL)
    i = z3.Int("i!rg")
    c.assume(z3.ForAll([i], MIN(i) <= MAX(i), patterns=[MIN(i)]))
    col, other = "col", "other"
    seq = lambda f: Seq(n, lambda k: Num(f(lit(k))))  # noqa: E731
    oth = seq(c.fresh_fun("OTHER", INT, REAL))
    STATE["stats"] = {"min": {col: seq(MIN), other: oth}, "max": {col: seq(MAX), other: oth}}
    cls, h = handle(T, d)
    r = T.call(attr(T, cls, "min_max"), h, col)
    if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Num) for x in r)):
        raise Unsupported("another kind of result")
    lo, hi = r[0].e, r[1].e
    w = new_int("row group", 0)
    c.assume(w.e < n.e)
    # exact bounds: no value of a row group beyond them, and both reached
    c.prove(f"{nm}/post: no value is below the minimum or above the maximum", z3.And(lo <= MIN(w.e), MAX(w.e) <= hi), cut=False)
    c.prove(f"{nm}/post: the minimum is a value of the column", z3.Exists([i], z3.And(0 <= i, i < n.e, MIN(i) == lo)), cut=False)
    c.prove(f"{nm}/post: the maximum is a value of the column", z3.Exists([i], z3.And(0 <= i, i < n.e, MAX(i) == hi)), cut=False)


class EName(Text):
    """Name of an entry of the directory: 'part.<number>.parquet', or not ending with 'parquet'."""

    def __init__(self, k):
        self.k = k
        self.parts = [self]

    def part(self):
        return STATE["PART"](self.k)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("item of a file name")
        a, b = s.start, s.stop
        if b is None and isinstance(a, int) and -8 <= a < 0:
            return Piece(self, "part.0.parquet"[a:])
        if a == 5 and b == -8:
            return Digits(self)
        raise Unsupported("slice of a file name")

    def endswith(self, t):
        if isinstance(t, str) and t in ("parquet", ".parquet"):
            return SBool(self.part())
        raise Unsupported("another ending")

    def vc_len(self):
        return Num(STATE["LEN"](self.k))

    def ordered(self, o, f):
        return SBool(f(STATE["LEX"](self.k), STATE["LEX"](o.k)))

    def __lt__(self, o):
        return self.ordered(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self.ordered(o, lambda a, b: a > b)


class Piece:
    def __init__(self, name, lit_):
        self.name, self.lit = name, lit_

    def __eq__(self, o):
        if o == self.lit:
            return SBool(self.name.part())
        raise Unsupported("comparison of a part of a file name")

    def __ne__(self, o):
        return SBool(z3.Not(zbool(self == o)))

    __hash__ = None


class Digits:
    def __init__(self, name):
        self.name = name

    def vc_int(self):
        if not core.CTX.pure_depth:
            core.CTX.prove("ParquetHandle.vdf/file names read as numbers are those of parts", self.name.part())
        return Num(STATE["NUM"](self.name.k))


class Entry:
    def __init__(self, k):
        self.k = k
        self.name = EName(k)

    def is_file(self, **k):
        return SBool(STATE["FILE"](self.k))

    @property
    def path(self):
        return Text(STATE["dir"], "/", self.name)


def vdf(T):
    c = core.CTX
    nm = "ParquetHandle.vdf"
    STATE.clear()
    d = STATE["dir"] = Text(object())
    n = new_int("entries", 0)
    PART, NUM, LEX, FILE = c.fresh_fun("PART", INT, BOOL), c.fresh_fun("NUM", INT, INT), c.fresh_fun("LEX", INT, INT), c.fresh_fun("FILE", INT, BOOL)
    i, j = z3.Int("i!e"), z3.Int("j!e")
    c.assume(z3.ForAll([i], z3.Implies(PART(i), z3.And(FILE(i), NUM(i) >= 0)), patterns=[PART(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n.e, PART(i), PART(j)), z3.And(NUM(i) != NUM(j), LEX(i) != LEX(j))), patterns=[z3.MultiPattern(NUM(i), NUM(j))]))
    # length of the names: numbers are written without leading zeros; names of a length are in the order of their numbers
    LEN = c.fresh_fun("LEN", INT, INT)
    c.assume(z3.ForAll([i], z3.Implies(PART(i), z3.And(LEN(i) >= 14, *[(LEN(i) <= 13 + k) == (NUM(i) < 10 ** k) for k in range(1, 7)])), patterns=[LEN(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(PART(i), PART(j), LEN(i) == LEN(j)), (LEX(i) < LEX(j)) == (NUM(i) < NUM(j))), patterns=[z3.MultiPattern(LEN(i), LEN(j))]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(PART(i), PART(j), LEN(i) < LEN(j)), NUM(i) < NUM(j)), patterns=[z3.MultiPattern(LEN(i), LEN(j))]))
    opened = []

    def scandir(p):
        if p is not d:
            raise Unsupported("another directory is listed")
        return Seq(n, lambda k: Entry(lit(k)))

    def open_many(files):
        opened.append(files)
        return STATE["rows"]

    STATE.update(PART=PART, NUM=NUM, LEX=LEX, LEN=LEN, FILE=FILE, rows=object())
    cls, h = handle(T, d)
    ns = T.rt.load(RM).ns
    ns["scandir"], ns["open_many"] = scandir, open_many
    r = T.call(attr(T, cls, "vdf"), h)
    if len(opened) != 1 or r is not STATE["rows"]:
        raise Unsupported("files are not opened at once")
    f = opened[0]
    f = f.vc_iter() if hasattr(f, "vc_iter") else f
    if not hasattr(f, "vc_len"):
        raise Unsupported("another kind of list of files")
    a, b, w = new_int("a", 0), new_int("b", 0), new_int("w", 0)
    m = lit(f.vc_len())

    def name(x):
        t = f.vc_item(x)
        if not (isinstance(t, Text) and len(t.parts) == 3 and t.parts[0] is d.parts[0] and t.parts[1] == "/" and isinstance(t.parts[2], EName)):
            raise Unsupported(f"another kind of path")
        return t.parts[2].k

    at = f.rank(w.e) if hasattr(f, "rank") else None
    ka, kb = name(a), name(b)
    c.prove(f"{nm}/post: only files of parts are opened", z3.Implies(a.e < m, z3.And(PART(ka), 0 <= ka, ka < n.e)), cut=False)
    c.prove(f"{nm}/post: in the order of the row groups, each once", z3.Implies(z3.And(a.e < b.e, b.e < m), NUM(ka) < NUM(kb)), cut=False)
    c.prove(f"{nm}/post: every part is opened", z3.Implies(z3.And(w.e < n.e, PART(w.e)), z3.Exists([i], z3.And(0 <= i, i < m, name(Num(i)) == w.e))
                                                           if at is None else z3.And(0 <= at, at < m, name(Num(at)) == w.e)), cut=False)


def pdf(T):
    nm = "ParquetHandle.pdf"
    STATE.clear()
    d = STATE["dir"] = Text(object())
    STATE["rows"] = object()
    cls, h = handle(T, d)
    r = T.call(attr(T, cls, "pdf"), h)
    core.CTX.prove(f"{nm}/post: all rows of the dataset in the directory, as stored now", z3.BoolVal(r is STATE["rows"]), cut=False)


TAB = dict(os=dict(path=NS("os.path", dict(sep="/"))), fastparquet=dict(ParquetFile=PF), functools=dict(cached_property=property))
ASM = ["fastparquet: statistics give the exact bounds of each row group; to_pandas gives the rows of all row groups in order",
       "files of a dataset are named part.<number>.parquet, numbered in the order of the row groups (contract of write, C04)",
       "vaex.open_many: rows of the files in the order given"]
TARGETS = {"C09": [Target("ParquetHandle.min_max", [f"{RM}.ParquetHandle.min_max"], min_max, tables=TAB, assumptions=ASM),
                   Target("ParquetHandle.vdf", [f"{RM}.ParquetHandle.vdf"], vdf, tables=TAB, assumptions=ASM),
                   Target("ParquetHandle.pdf", [f"{RM}.ParquetHandle.pdf"], pdf, tables=TAB, assumptions=ASM)]}
