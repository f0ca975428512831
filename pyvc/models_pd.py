"""Assumed contracts of the pandas objects used position-wise: Series, Index."""
import z3

import core
from core import And, Eq, Num, SBool, Unsupported, ite, lit, new_int
from models import Arr, DT_BOOL, DT_INT, DT_TIME, DType, Seq, n_concatenate


ISIN = z3.Function("isin", core.VAL, core.VAL, core.BOOL)
ROW = z3.DeclareSort("Row")


class Iloc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if isinstance(i, (slice, Arr)):
            return type(self.s).wrap(self.s.a[i])
        return self.s.a[i]

    def __setitem__(self, i, v):
        self.s.a[i] = v


class Ser:
    """pandas Series / Index: values by position. Index labels of a Series are not modelled: selection by
    label of a Series is outside the subset."""

    py = ("Series",)

    def __init__(self, a=None, dtype=None, index=None, name=None, copy=None):
        if isinstance(a, Ser):
            a = a.a.copy()
        elif isinstance(a, Arr):
            pass
        elif isinstance(a, (list, tuple)):
            xs = list(a)
            def get(k):
                if not xs:
                    raise Unsupported("item of an empty series")
                v = xs[-1]
                for j in reversed(range(len(xs) - 1)):
                    v = ite(lit(k) == j, xs[j], v)
                return v

            a = Arr.of(get, len(xs), DT_INT)
        elif isinstance(a, Seq):
            a = Arr.of(a.get, a.n, DT_INT)
        else:
            raise Unsupported(f"Series of {type(a).__name__}")
        self.a = a

    @classmethod
    def wrap(cls, a):
        return cls(a)

    def vc_len(self):
        return self.a.n

    def vc_item(self, k):
        return self.a.at(k)

    @property
    def iloc(self):
        return Iloc(self)

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def empty(self):
        return SBool(lit(self.a.n) == 0)

    @property
    def values(self):
        return self.a

    @property
    def is_monotonic_increasing(self):
        f = self.a.snapshot()
        n = lit(self.a.n)
        i, j = core.CTX.fresh("mi", core.INT), core.CTX.fresh("mj", core.INT)
        return SBool(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), lit(f(Num(i))) <= lit(f(Num(j))))))

    def any(self):
        return self.a.any()

    def all(self):
        return self.a.all()

    @property
    def size(self):
        return self.a.n

    def to_numpy(self, *a, **k):
        return self.a

    def reset_index(self, drop=False, **k):
        if drop is not True:
            raise Unsupported("reset_index keeping the index")
        return type(self).wrap(self.a.copy())

    def copy(self, *a, **k):
        return type(self).wrap(self.a.copy())

    def __getitem__(self, i):
        if isinstance(i, Arr) and i.dtype == DT_BOOL:
            return type(self).wrap(self.a[i])
        raise Unsupported("selection by label in a Series")

    def _cmp(self, o, f):
        return f(self.a, o.a if isinstance(o, Ser) else o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __invert__(self):
        return ~self.a

    def __and__(self, o):
        return self._cmp(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._cmp(o, lambda a, b: a | b)

    def isin(self, values):
        """isin(values): membership by position; the set given is opaque."""
        f = self.a.snapshot()
        return Ser(Arr.of(lambda k: SBool(ISIN(core.val_of(f(k)), core.val_of(values))), self.a.n, DT_BOOL))

    __hash__ = object.__hash__

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a Series")


Ser.__name__ = "Series"


class Idx(Ser):
    """pandas Index: selection is by position."""

    py = ("Index", "DatetimeIndex")

    def __getitem__(self, i):
        if isinstance(i, slice) or isinstance(i, Arr):
            return type(self).wrap(self.a[i])
        return self.a[i]


Idx.__name__ = "Index"


def pconcat(parts, **kw):
    parts = list(parts)
    if not all(isinstance(p, Ser) for p in parts):
        raise Unsupported("concat of other than Series")
    return Ser(n_concatenate([p.a for p in parts]))


PANDAS = dict(Series=Ser, Index=Idx, concat=pconcat)


class Frame:
    """pandas DataFrame as a sequence of rows (opaque identities); cell(name, row) gives values. Operations on
    positions never look at row labels."""

    py = ("DataFrame",)

    def __init__(self, n, row, cell, cols=None, find=None):
        self.n, self.row, self.cell, self.cols, self.find = n, row, cell, cols, find

    def like(self, n, row, find=None):
        return Frame(n, row, self.cell, self.cols, find)

    def has(self, r):
        """Is row r among the rows (find: witness of its position)?"""
        u = self.find(r)
        return And(u >= 0, u < self.n, Eq(self.row(u), r))

    def vc_len(self):
        return self.n

    def vc_iter(self):
        raise Unsupported("iteration over the columns of a dataframe")

    def col(self, name):
        r, cell = self.row, self.cell
        return Ser(Arr.of(lambda k: cell(name, r(k)), self.n, DT_BOOL if False else DT_INT))

    def pick(self, m):
        """Rows at the positions where the mask holds, in order."""
        m = m.a if isinstance(m, Ser) else m
        if core.CTX.branch(lit(m.n) != lit(self.n)):
            raise ValueError("mask of another length")
        idx = Arr.of(lambda k: k if isinstance(k, Num) else Num(lit(k)), self.n, DT_INT)[m]
        g, r = idx.snapshot(), self.row
        inv, find = idx.buf.sel[1], self.find
        out = self.like(idx.n, lambda k: r(g(k)), find and (lambda x: Num(inv(lit(find(x))))))
        out.sel = idx.buf.sel
        out.mask = m
        return out

    def part(self, s):
        from models import norm_slice

        lo, hi = norm_slice(s, self.n)
        r = self.row
        find = self.find
        return self.like(Num(z3.simplify(hi.e - lo.e)), lambda k: r(Num(z3.simplify(lit(k) + lo.e))),
                         find and (lambda x: Num(lit(find(x)) - lo.e)))

    def __getitem__(self, i):
        if isinstance(i, (Ser, Arr)):
            return self.pick(i)
        if isinstance(i, slice):
            return self.part(i)
        if isinstance(i, (str, core.SVal)):
            return self.col(i)
        raise Unsupported("selection in a dataframe")

    @property
    def loc(self):
        return FLoc(self)

    @property
    def iloc(self):
        return FIloc(self)

    @property
    def empty(self):
        return SBool(lit(self.n) == 0)

    @property
    def shape(self):
        return (self.n, None)

    def reset_index(self, drop=False, inplace=False, **k):
        if drop is not True or inplace:
            raise Unsupported("reset_index keeping the index")
        return self

    def copy(self, *a, **k):
        return self

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")) or a in ("sel", "mask"):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a dataframe")


Frame.__name__ = "DataFrame"


class FLoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            r, c = i
            s = self.f.col(c)
            if isinstance(r, slice) and r == slice(None):
                return s
            if isinstance(r, (Ser, Arr)):
                return s[r.a if isinstance(r, Ser) else r]
            raise Unsupported("loc by labels")
        if isinstance(i, (Ser, Arr)):
            return self.f.pick(i)
        raise Unsupported("loc by labels")


class FIloc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.f.part(i)
        if isinstance(i, Arr) and i.dtype == DT_BOOL:
            return self.f.pick(i)
        raise Unsupported("iloc of a row")


def fconcat(parts, **kw):
    parts = list(parts)
    if all(isinstance(p, Ser) for p in parts):
        return pconcat(parts, **kw)
    if not all(isinstance(p, Frame) for p in parts):
        raise Unsupported("concat of other objects")
    ns = [lit(p.n) for p in parts]
    rs = [p.row for p in parts]

    def row(k):
        k = lit(k)
        v = rs[-1](Num(z3.simplify(k - sum(ns[:-1], z3.IntVal(0)))))
        for j in reversed(range(len(parts) - 1)):
            off = z3.simplify(sum(ns[:j], z3.IntVal(0)))
            v = ite(k < off + ns[j], rs[j](Num(z3.simplify(k - off))), v)
        return v

    def find(x):
        off = sum(ns[:-1], z3.IntVal(0))
        v = Num(lit(parts[-1].find(x)) + off)
        for j in reversed(range(len(parts) - 1)):
            off = sum(ns[:j], z3.IntVal(0))
            v = ite(parts[j].has(x), Num(lit(parts[j].find(x)) + off), v)
        return v

    return parts[0].like(Num(z3.simplify(sum(ns[1:], ns[0]))), row, find if all(p.find for p in parts) else None)


PANDAS = dict(Series=Ser, Index=Idx, concat=fconcat, DataFrame=Frame)
