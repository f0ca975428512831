"""Contract of iter_dataframe (C06; C05: identity of rows within a chunk)."""
import z3

import core
from core import And, Iff, Implies, LoopSpec, Name, Not, Num, Obj, Or, PathEnd, SBool, SVal, Unsupported, BOOL, INT, REAL, VAL, lit, new_int, new_val, val_of, zbool
from models import Arr, DT_FLOAT, DT_INT, Enum, Mapped, Seq, SRange, Zip, new_int as _ni  # noqa: F401
from models_pd import PANDAS, Frame, Ser
from target import Target

UW = "oups.store.writer"


class VFrame:
    """vaex dataframe: rows by position."""

    py = ("vaex.DataFrame",)

    def __init__(self, fr, cols):
        self.fr, self.cols = fr, cols

    def extract(self):
        return self

    def vc_len(self):
        return self.fr.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return VFrame(self.fr.part(i), self.cols)
        if isinstance(i, SVal):
            return self.fr.col(i)
        raise Unsupported("selection in a vaex dataframe")

    def evaluate(self, name, i1=None, i2=None, array_type=None, **k):
        if k:
            raise Unsupported("evaluate with other arguments")
        return self.fr.col(name).a[slice(i1, i2)]

    def to_pandas_df(self):
        return PFrame(self.fr)

    def get_column_names(self):
        return self.cols

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a vaex dataframe")


VFrame.__name__ = "vaex.DataFrame"


class PFrame:
    py = ("DataFrame",)

    def __init__(self, fr, dedup=None):
        self.fr, self.dedup = fr, dedup

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        if inplace or self.dedup is not None:
            raise Unsupported("drop_duplicates in place or twice")
        return PFrame(self.fr, (subset, keep))

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a chunk")


def searchsorted(a, v, side="left", **k):
    """Position of the first value not below (left) / above (right) v, in ascending values."""
    if side not in ("left", "right") or k:
        raise Unsupported("searchsorted with other arguments")
    a = a.a if isinstance(a, Ser) else a
    f, n = a.snapshot(), lit(a.n)
    c = core.CTX
    i, j = z3.Int("i!ss"), z3.Int("j!ss")
    below = (lambda x, y: x < y) if side == "left" else (lambda x, y: x <= y)
    if isinstance(v, (Seq, Arr)):
        g = v.get if isinstance(v, Seq) else v.snapshot()
        s = c.fresh_fun("ssorted", INT, INT)
        at = lambda q: lit(f(Num(q)))  # noqa: E731
        val = lit(g(Num(i)))
        body = z3.And(s(i) >= 0, s(i) <= n, z3.Implies(s(i) >= 1, below(at(s(i) - 1), val)), z3.Implies(s(i) < n, z3.Not(below(at(s(i)), val))))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lit(v.n)), body), patterns=[s(i)]))
        c.__dict__.setdefault("ssorted", []).append((s, lit(v.n)))
        return Arr.of(lambda k: Num(s(lit(k))), v.n, DT_INT)
    raise Unsupported("searchsorted of a scalar")


def unique(a, **k):
    """Ascending distinct values; 'last': position of the last occurrence of each in the input."""
    if k:
        raise Unsupported("unique with arguments")
    f, n = a.snapshot(), lit(a.n)
    c = core.CTX
    u, z, last = c.fresh_fun("uniq", INT, INT), c.fresh_fun("uniqpos", INT, INT), c.fresh_fun("uniqlast", INT, INT)
    m = new_int("nuniq", 0)
    i, j = z3.Int("i!un"), z3.Int("j!un")
    at = lambda q: lit(f(Num(q)))  # noqa: E731
    c.assume(z3.And(m.e <= n, (m.e == 0) == (n <= 0)))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m.e), u(i) < u(j)), patterns=[z3.MultiPattern(u(i), u(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m.e), z3.And(last(i) >= 0, last(i) < n, at(last(i)) == u(i))), patterns=[u(i)]))
    c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z(j) >= 0, z(j) < m.e, u(z(j)) == at(j), j <= last(z(j)))), patterns=[at(j)]))
    r = Arr.of(lambda k: Num(u(lit(k))), m, DT_INT)
    r.buf.uniq = (u, z, last, at, n)
    st = core.CTX.__dict__.setdefault("uniqs", [])
    st.append(r.buf.uniq)
    return r


class Ghost(Obj):
    def __init__(self):
        super().__init__()
        self.havoc()
        self.upto = Num(z3.IntVal(0))

    def havoc(self):
        self.upto = new_int("upto")


def cut_target(kind, dup, default_max=False):
    """kind: 'pandas', 'vaex' (no sharp_on) or 'sharp'. dup: None, 'name', 'list', 'same'."""
    nm = f"iter_dataframe[{kind}{'' if dup is None else ',duplicates_on ' + dup}{',default size' if default_max else ''}]"
    st = {}

    def first(it, k):
        x = it.vc_item(k)
        while isinstance(x, tuple):
            x = [y for y in x if isinstance(y, Num)][0]
        return lit(x)

    def specs(L):
        if st.get("g") is None or L.it is None:
            return None

        def inv(S):
            k, n = S.k.e, lit(S.L.it.vc_len())
            p = z3.If(k < n, first(S.L.it, S.k), lit(st["N"]))
            return {"delivered so far": lit(st["g"].upto) == p}

        return LoopSpec(inv)

    def run(T):
        c = core.CTX
        c.uniqs, c.ranges, c.ssorted = [], [], []
        st.clear()
        f = T.fn(UW, "iter_dataframe")
        ns = T.rt.load(UW).ns
        N = new_int("N", 1 if kind == "sharp" else 0)
        KEY = c.fresh_fun("KEY", INT, REAL)
        on = Name(c.fresh("sharp_on", VAL)) if kind == "sharp" else None
        if default_max:
            mx, mxz = None, z3.IntVal(ns["MAX_ROW_GROUP_SIZE"])
        else:
            mx = new_int("max", 1)
            mxz = mx.e
        i, j = z3.Ints("ia ja")
        if kind == "sharp":
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < N.e), KEY(i) <= KEY(j)), patterns=[z3.MultiPattern(KEY(i), KEY(j))]))

        def cell(name, r):
            if on is not None and name is on:
                return Num(KEY(lit(r)))
            raise Unsupported("another column")

        fr = Frame(N, lambda k: k, cell)
        cname = c.fresh_fun("COL", INT, VAL)
        ncols = new_int("ncols", 1)
        allcols = Seq(ncols, lambda k: SVal(cname(lit(k))))
        data = fr if kind == "pandas" else VFrame(fr, allcols)
        g = Ghost()
        q = c.fresh("column", VAL)
        d = None
        want = None
        if dup == "name":
            d = Name(c.fresh("duplicates_on", VAL))
            want = z3.Or(q == d.e, q == on.e)
        elif dup == "same":
            d, want = on, q == on.e
        elif dup == "list":
            DN = c.fresh_fun("DUP", INT, VAL)
            nd = new_int("ndup", 0)
            d = Seq(nd, lambda k: SVal(DN(lit(k))))
            w = z3.Int("w!dup")
            listed = z3.Exists([w], z3.And(w >= 0, w < nd.e, DN(w) == q))
            w2 = z3.Int("w!cols")
            incols = z3.Exists([w2], z3.And(w2 >= 0, w2 < ncols.e, cname(w2) == q))
            c.assume(z3.Exists([w2], z3.And(w2 >= 0, w2 < ncols.e, cname(w2) == on.e)))
            want = z3.If(nd.e == 0, incols, z3.Or(listed, q == on.e))
            d0 = (d.n, d.get)
        st.update(g=g, N=N)
        it = iter(f(data, max_row_group_size=mx, sharp_on=on, duplicates_on=d))
        while True:
            ch = T.call(next, it, None)
            if ch is None:
                break
            dd = None
            if isinstance(ch, PFrame):
                dd, ch = ch.dedup, ch.fr
            if not isinstance(ch, Frame):
                raise Unsupported("chunk of another type")
            n, a = lit(ch.n), lit(g.upto)
            x = new_int("x", 0)
            c.prove(f"{nm}/chunk: its rows follow those of the chunk before, in order", z3.Implies(x.e < n, lit(ch.row(x)) == a + x.e))
            c.prove(f"{nm}/chunk: not empty, unless there is no row at all", z3.Or(n >= 1, N.e == 0))
            if kind != "sharp":
                c.prove(f"{nm}/chunk: not larger than the maximum", n <= mxz, cut=False)
            else:
                b = a + n
                if len(c.uniqs) == len(c.ranges) == len(c.ssorted) == len(c.active_loops) == 1:
                    # steps of the argument: last start moved to the start of this chunk, and the start after it
                    (u, z, last, at, un), R, (s, _), k = c.uniqs[0], c.ranges[0], c.ssorted[0], lit(c.active_loops[0].k)
                    i0 = last(k)
                    p = lambda q: lit(R.vc_item(Num(q)))  # noqa: E731
                    lem = lambda what, e: c.prove(f"{nm}/step: {what}", e)  # noqa: E731
                    c.assume(z3.Implies(z3.And(i0 + 1 >= 0, i0 + 1 < un), z3.And(z(i0 + 1) >= 0, z(i0 + 1) < lit(c.active_loops[0].n), u(z(i0 + 1)) == at(i0 + 1), i0 + 1 <= last(z(i0 + 1)))))
                    lem("last start moved to the start of this chunk", z3.And(i0 >= 0, i0 < un, s(i0) == a))
                    lem("it is in this run", z3.And(p(i0) >= a, p(i0) < N.e, KEY(p(i0)) == KEY(a)))
                    lem("the next one is not before the end of this chunk", z3.If(i0 + 1 < un, z3.And(s(i0 + 1) >= b, s(i0 + 1) <= p(i0 + 1), b <= p(i0 + 1)), b == N.e))
                    lem("starts are not farther apart than the maximum", b <= p(i0) + mxz)
                c.prove(f"{nm}/chunk: rows of equal value are not split", z3.Implies(z3.And(a > 0, n >= 1), KEY(a - 1) < KEY(a)), cut=False)
                c.prove(f"{nm}/chunk: larger than the maximum only by the rows of equal value it starts with",
                        z3.Implies(n > mxz, KEY(b - mxz) == KEY(a)), cut=False)
            if dup is None:
                c.prove(f"{nm}/chunk: no row is dropped", z3.BoolVal(dd is None), cut=False)
            else:
                c.prove(f"{nm}/chunk: the last row of each identity is kept", z3.BoolVal(dd is not None and dd[1] == "last"))
                sub = dd[0]
                if isinstance(sub, (str, SVal)):
                    got = q == val_of(sub)
                elif isinstance(sub, Seq):
                    w3 = z3.Int("w!sub")
                    got = z3.Exists([w3], z3.And(w3 >= 0, w3 < lit(sub.n), val_of(sub.get(Num(w3))) == q))
                elif isinstance(sub, (list, tuple)):
                    got = z3.Or(*[q == val_of(s) for s in sub])
                else:
                    raise Unsupported("columns of drop_duplicates")
                c.prove(f"{nm}/chunk: identity is given by the requested columns and the ordering column", got == want, cut=False)
            g.touch()
            g.upto = Num(z3.simplify(a + n))
        c.prove(f"{nm}/post: all rows are delivered", lit(g.upto) == N.e, cut=False)
        if dup == "list":
            c.prove(f"{nm}/post: the list of the caller is not modified", z3.BoolVal(d.n is d0[0] and d.get is d0[1]), cut=False)

    return Target(nm, [f"{UW}.iter_dataframe"], run, specs,
                  tables=dict(pandas=PANDAS, vaex__dataframe=dict(DataFrame=VFrame), numpy=dict(searchsorted=searchsorted, unique=unique)),
                  assumptions=["vaex: slicing, evaluate and extract act by row position", "numpy.searchsorted and numpy.unique: documented contracts",
                               "pandas drop_duplicates(keep='last') keeps the last row of each identity, in order",
                               "data has rows and is sorted by 'sharp_on', when given (contract of its caller)"])


CUT = [cut_target("pandas", None), cut_target("pandas", None, True), cut_target("vaex", None), cut_target("sharp", None)]
CUTDUP = [cut_target("sharp", d) for d in ("name", "list", "same")]
TARGETS = {"C06": CUT + CUTDUP, "C05": CUTDUP, "C04": CUT}
