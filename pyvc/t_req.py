"""Contract of setup_cumsegagg (C10, C13, C14, C15): for any number of requests, over any columns, functions and types, each
request has its column among those of its type, and its function applied from its column to its output, and nothing else is."""
import z3

import core
import models
from core import LoopSpec, Num, Obj, SVal, Unsupported, BOOL, INT, VAL, lit, new_int, val_lit, val_of, zbool
from models import Mapped, Seq, VList
from target import Target

CM = "oups.aggstream.cumsegagg"
JM = "oups.aggstream.jcumsegagg"
FUNCS = {"first": "jfirst", "last": "jlast", "min": "jmin", "max": "jmax", "sum": "jsum"}
ST = {}


class Inner:
    """One list of a list of lists of positions, in place."""

    py = ("list",)

    def __init__(self, o, j):
        self.o, self.j = o, j

    def append(self, v):
        self.o.add(self.j, v)

    def vc_len(self):
        return Num(self.o.ln(lit(self.j)))

    def vc_item(self, p):
        return Num(self.o.at(lit(self.j), lit(p)))

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")) or a == "rank":
            raise AttributeError(a)
        raise Unsupported(f"'{a}' of a list of positions")


class Lists(Obj):
    """List of lists of positions: number of lists, their lengths and items, total number of items."""

    py = ("list",)

    def __init__(self, name):
        super().__init__()
        c = core.CTX
        self.n, self.tot = new_int(name + " lists", 0).e, new_int(name + " total", 0).e
        ln, at = c.fresh_fun(name + " length", INT, INT), c.fresh_fun(name + " item", INT, INT, INT)
        self.ln, self.at = (lambda j: ln(j)), (lambda j, p: at(j, p))
        self.last = None
        ST.setdefault("lists", []).append(self)

    def add(self, j, v):
        self.touch()
        j, v, ln, at = lit(j), lit(v), self.ln, self.at
        self.last = (j, ln(j))
        self.ln = lambda x: z3.If(x == j, ln(x) + 1, ln(x))
        self.at = lambda x, p: z3.If(z3.And(x == j, p == ln(j)), v, at(x, p))
        self.tot = self.tot + 1

    def append(self, xs):
        if not isinstance(xs, list) or getattr(xs, "s", None) is not None:
            raise Unsupported("another list added")
        self.touch()
        n, ln, at, xs = self.n, self.ln, self.at, [lit(x) for x in xs]
        self.last = (n, z3.IntVal(0))
        self.ln = lambda x: z3.If(x == n, z3.IntVal(len(xs)), ln(x))

        def item(x, p):
            r = at(x, p)
            for q in reversed(range(len(xs))):
                r = z3.If(z3.And(x == n, p == q), xs[q], r)
            return r

        self.at = item
        self.tot = self.tot + len(xs)
        self.n = n + 1

    def vc_len(self):
        return Num(self.n)

    def vc_item(self, j):
        return Inner(self, j)

    def __getitem__(self, j):
        if isinstance(j, slice):
            raise Unsupported("slice of a list of lists")
        j = lit(j)
        if z3.is_int_value(j) and j.as_long() < 0:
            j = self.n + j
        if core.CTX.branch(z3.Or(j < 0, j >= self.n)):
            raise IndexError("list index out of range")
        return Inner(self, Num(j))

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")) or a == "rank":
            raise AttributeError(a)
        raise Unsupported(f"'{a}' of a list of lists")


class Junk:
    """List of the record of another type: nothing is known of it, and nothing written there matters here."""

    py = ("list",)

    def append(self, v):
        pass

    extend = append

    def vc_len(self):
        return new_int("of another type", 0)

    def vc_contains(self, x):
        return core.CTX.branch(core.CTX.fresh("in another type", BOOL))

    def index(self, x):
        return new_int("of another type", 0)

    def __getitem__(self, i):
        return Junk()

    vc_item = __getitem__

    def __setitem__(self, i, v):
        pass


def lists_of(x):
    """(number, length of the j-th, item, total, last added) of a list of lists."""
    if isinstance(x, Lists):
        return x.n, x.ln, x.at, x.tot, x.last
    if isinstance(x, list) and getattr(x, "s", None) is None:
        rows = []
        for r in list.__iter__(x):
            if not isinstance(r, list) or getattr(r, "s", None) is not None:
                raise Unsupported("another list of lists")
            rows.append([lit(v) for v in list.__iter__(r)])

        def ln(j):
            r = z3.IntVal(0)
            for q, row in enumerate(rows):
                r = z3.If(j == q, z3.IntVal(len(row)), r)
            return r

        def at(j, p):
            r = z3.IntVal(-1)
            for q, row in enumerate(rows):
                for t, v in enumerate(row):
                    r = z3.If(z3.And(j == q, p == t), v, r)
            return r

        i = z3.IntVal
        return i(len(rows)), ln, at, i(sum(map(len, rows))), (i(len(rows) - 1), i(len(rows[-1]) - 1)) if rows and rows[-1] else None
    raise Unsupported("another list of lists")


def names_of(x):
    if isinstance(x, list):
        x = x.s if getattr(x, "s", None) is not None else models.join_seqs([list(x)])
    if not hasattr(x, "vc_item"):
        raise Unsupported("another list of names")
    n, g = lit(x.vc_len()), x.vc_item
    if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
        return z3.IntVal(0), lambda k: val_lit("no name")
    return n, lambda k: val_of(core.merge(core.CTX.pure(lambda: g(Num(k)))))


class Rec:
    """What a record says: columns, outputs, functions and lists of positions."""

    def __init__(self, ins, outs, funcs, data, res):
        (self.nd, self.IN), (self.nr, self.OUT) = names_of(ins), names_of(outs)
        self.nf, self.F = funcs
        self.nfd, self.LD, self.CD, _, self.last = lists_of(data) if not isinstance(data, tuple) else data
        self.nfr, self.LR, self.CR, self.tot, _ = lists_of(res) if not isinstance(res, tuple) else res

    def slot(self, j, p, i):
        """position p of function j is that of request i"""
        R = ST
        return z3.And(0 <= j, j < self.nf, 0 <= p, p < self.LD(j), self.F(j) == R["FUN"](R["FN"](i)), 0 <= self.CD(j, p), self.CD(j, p) < self.nd,
                      self.IN(self.CD(j, p)) == R["IN"](i), self.CR(j, p) == R["RANK"](i))

    def has(self, i):
        j, p = z3.Ints("j!s p!s")
        f = z3.Exists([j, p], self.slot(j, p, i))
        return z3.Or(f, self.slot(*self.last, i)) if self.last else f

    def asked(self, j, p, hint=None):
        i = z3.Int("i!s")
        N = ST["N"].e
        ok = lambda x: z3.And(0 <= x, x < N, ST["MINE"](x), self.slot(j, p, x))  # noqa: E731
        f = z3.Exists([i], z3.And(ok(i), *([i < hint] if hint is not None else [])))
        return z3.Or(f, z3.And(ok(hint - 1), hint >= 1)) if hint is not None else f


def sound(rec, k, w, J, P):
    """Invariant: the record of the type, once the first k requests are treated."""
    RANK, MINE = ST["RANK"], ST["MINE"]
    if rec is None:
        return {"no record without a request": RANK(k) == 0, "rank of a request": z3.Implies(z3.And(w < k, MINE(w)), RANK(w) < RANK(k)),
                "one output per request": z3.BoolVal(True), "output of a request": z3.BoolVal(True), "as many lists of positions as functions": z3.BoolVal(True),
                "as many outputs as columns": z3.BoolVal(True), "function and column of a request": z3.BoolVal(True), "position of a request": z3.BoolVal(True),
                "total": z3.BoolVal(True)}
    r = Rec(rec[0], rec[1], names_of(rec[2]), rec[3], rec[4])
    mine = z3.And(w < k, MINE(w))
    return {"no record without a request": RANK(k) > 0,
            "rank of a request": z3.Implies(mine, RANK(w) < RANK(k)),
            "one output per request": r.nr == RANK(k),
            "output of a request": z3.Implies(mine, r.OUT(RANK(w)) == ST["OUT"](w)),
            "as many lists of positions as functions": z3.And(r.nf == r.nfd, r.nf == r.nfr),
            "as many outputs as columns": z3.Implies(z3.And(0 <= J, J < r.nf), r.LD(J) == r.LR(J)),
            "as many outputs as columns, for each function": z3.ForAll([z3.Int("x!l")], z3.Implies(z3.And(0 <= z3.Int("x!l"), z3.Int("x!l") < r.nf),
                                                                      z3.And(r.LD(z3.Int("x!l")) == r.LR(z3.Int("x!l")), r.LD(z3.Int("x!l")) >= 0))),
            "function and column of a request": z3.Implies(mine, r.has(w)),
            "position of a request": z3.Implies(z3.And(0 <= J, J < r.nf, 0 <= P, P < r.LD(J)), r.asked(J, P, k)),
            "total": r.tot == RANK(k)}


def lookup(d):
    r = d.find(SVal(ST["D0"]))
    if r is models.GONE:
        return None
    return r


def recs(d):
    c = core.CTX
    H, has = c.fresh("has a record", BOOL), c.fresh_fun("other record", VAL, BOOL)
    val = lambda k: SVal(k)  # noqa: E731

    def names(n):
        def mk():
            f = c.fresh_fun(n, INT, VAL)
            return lambda k: SVal(f(lit(k)))

        x = VList()
        x.s = Seq(new_int(n + "s", 0), mk(), mk)
        return x

    mine = VList([names("column"), names("output"), names("function"), Lists("columns"), Lists("outputs")])

    def rec(e):
        if e.eq(ST["D0"]) or c.branch(e == ST["D0"]):
            return mine
        return Junk()

    return (lambda e: z3.If(e == ST["D0"], H, has(e))), rec


def specs(L):
    if L.it is not ST.get("items"):
        return None

    def inv(S):
        k = S.k.e
        ds = [x for n, x in S._l.items() if isinstance(x, models.VDict)]
        if len(ds) != 1:
            raise Unsupported("records are kept otherwise")
        core.CTX.branch(ST["MINE"](k - 1)) if S.L.mode == "step" else None
        d = sound(lookup(ds[0]), k, ST["w"], ST["J"], ST["P"])
        d["requests so far are known"] = z3.Implies(ST["w"] < k, ST["OK"](ST["w"]))
        return d

    return LoopSpec(inv, recs=recs, unfold=lambda S: [z3.Implies(S.k.e < ST["N"].e, ST["RANK"](S.k.e + 1) == ST["RANK"](S.k.e) + z3.If(ST["MINE"](S.k.e), 1, 0)),
                                                     ST["RANK"](S.k.e) >= 0])


class Functions:
    """AGG_FUNCS, by the name of a function."""

    py = ("dict", "Mapping")

    def vc_contains(self, k):
        return SVal_known(k)

    def __contains__(self, k):
        return bool(SVal_known(k))

    def __getitem__(self, k):
        if not SVal_known(k):
            raise KeyError(k)
        return SVal(ST["FUN"](val_of(k)))

    def get(self, k, d=None):
        return self[k] if SVal_known(k) else d


def SVal_known(k):
    return core.CTX.branch(z3.Or(*[val_of(k) == val_lit(f) for f in FUNCS]))


class Types:
    """Types of the columns of the data."""

    py = ("dict", "Mapping")

    def vc_contains(self, k):
        return core.CTX.branch(ST["KNOWN"](val_of(k)))

    def __contains__(self, k):
        return self.vc_contains(k)

    def __getitem__(self, k):
        if not self.vc_contains(k):
            raise KeyError(k)
        return SVal(ST["D"](val_of(k)))

    def get(self, k, d=None):
        return self[k] if self.vc_contains(k) else d


class Request:
    py = ("dict", "Mapping")

    def items(self):
        return ST["items"]

    def vc_len(self):
        return ST["N"]


class Array:
    def __init__(self, x):
        if isinstance(x, (Inner,)):
            n, j = x.o, lit(x.j)
            ln, at = n.ln, n.at
            self.n, self.at = ln(j), lambda p: at(j, p)
        elif isinstance(x, list):
            v = [lit(y) for y in x]
            self.n = z3.IntVal(len(v))

            def at(p):
                r = z3.IntVal(-1)
                for q, y in enumerate(v):
                    r = z3.If(p == q, y, r)
                return r

            self.at = at
        else:
            raise Unsupported("array of another kind")

    def __vc_ite__(self, c, o):
        r = Array([])
        r.n, (f, g) = z3.If(c, self.n, o.n), (self.at, o.at)
        r.at = lambda p: z3.If(c, f(p), g(p))
        return r


def total(x, start=0):
    """sum(): of the lengths of a list of lists, their total."""
    c = core.CTX
    if not hasattr(x, "vc_len"):
        return sum(list(x), start)
    n, j = lit(x.vc_len()), c.fresh("j", INT)
    item = lit(core.merge(c.pure(lambda: x.vc_item(Num(j)))))
    for o in reversed(ST.get("lists", [])):
        if c.prover.prove(c.assumptions, z3.And(n == o.n, z3.Implies(z3.And(0 <= j, j < n), item == o.ln(j))))[0] == "discharged":
            return Num(o.tot)
    raise Unsupported("sum of other values")


def values(d):
    r = lookup(d)
    ST["rec"] = r
    other = lambda x: VList([VList(["a", "b"]), VList(["x", "y", "z"]), VList([SVal(core.CTX.fresh("f", VAL))] if x else [SVal(core.CTX.fresh("f", VAL)), SVal(core.CTX.fresh("f", VAL))]),  # noqa: E731
                             VList([VList([0, 1, 0])] if x else [VList([0, 1]), VList([1])]), VList([VList([0, 1, 2])] if x else [VList([0, 2]), VList([1])])])
    if r is not None and not (isinstance(r, list) and len(r) == 5):
        raise Unsupported("another kind of record")
    return [other(True)] + ([r] if r is not None else []) + [other(False)]


def run(T):
    c = core.CTX
    nm = "setup_cumsegagg"
    ST.clear()
    f = T.fn(CM, "setup_cumsegagg")
    ns = T.rt.load(CM).ns
    af = ns["AGG_FUNCS"]
    jns = T.rt.load(JM).ns
    if not isinstance(af, dict):
        raise Unsupported("aggregation functions are kept otherwise")
    c.prove(f"{nm}/functions: each name is that of its function", z3.BoolVal({k: v for k, v in dict.items(af)} == {k: jns.get(v) for k, v in FUNCS.items()}), cut=False)
    N = new_int("requests", 0)
    IN, OUT, FN, D = c.fresh_fun("IN", INT, VAL), c.fresh_fun("OUT", INT, VAL), c.fresh_fun("FN", INT, VAL), c.fresh_fun("type", VAL, VAL)
    KNOWN, FUN, RANK = c.fresh_fun("known", VAL, BOOL), c.fresh_fun("FUN", VAL, VAL), c.fresh_fun("RANK", INT, INT)
    D0 = c.fresh("a type", VAL)
    w, J, P = c.fresh("w", INT), c.fresh("J", INT), c.fresh("P", INT)
    MINE = lambda i: D(IN(i)) == D0  # noqa: E731
    OK = lambda i: z3.And(KNOWN(IN(i)), z3.Or(*[FN(i) == val_lit(x) for x in FUNCS]))  # noqa: E731
    c.assume(z3.And(RANK(0) == 0, 0 <= w, w < N.e, RANK(w) >= 0))
    items = Mapped(N, lambda k: (core.Name(OUT(lit(k))), (core.Name(IN(lit(k))), core.Name(FN(lit(k))))))
    ST.update(N=N, IN=IN, OUT=OUT, FN=FN, D=D, KNOWN=KNOWN, FUN=FUN, RANK=RANK, D0=D0, w=w, J=J, P=P, MINE=MINE, OK=OK, items=items)
    ns.update(AGG_FUNCS=Functions(), array=Array, sum=total)
    models.SYM_VALUES[0] = values
    try:
        try:
            r = T.call(f, Request(), Types(), expect=(ValueError,))
        except ValueError:
            i = z3.Int("i!r")
            ok = c.active_loops[-1].k.e if c.active_loops else None
            c.prove(f"{nm}/post: a request is refused only for a column or a function which is unknown", z3.Exists([i], z3.And(0 <= i, i < N.e, z3.Not(OK(i))))
                    if ok is None else z3.Or(z3.Not(OK(ok)), z3.Exists([i], z3.And(0 <= i, i < N.e, z3.Not(OK(i))))), cut=False)
            return
        c.prove(f"{nm}/post: requests on unknown columns or functions are refused", OK(w), cut=False)
        if not isinstance(r, models.VDict):
            raise Unsupported("another kind of result")
        x = lookup(r)
        if x is None:
            c.prove(f"{nm}/post: a type with a request has a record", z3.Not(MINE(w)), cut=False)
            return
        if not isinstance(x, (list, tuple)) or len(x) != 4:
            raise Unsupported("another kind of record")
        ins, outs, aggs, n = x
        q = models.join_seqs([list(aggs)]) if isinstance(aggs, (list, tuple)) and getattr(aggs, "s", None) is None else aggs
        nf = lit(q.vc_len())
        trip = lambda j: core.merge(c.pure(lambda: q.vc_item(Num(j))))  # noqa: E731
        if z3.is_int_value(z3.simplify(nf)) and z3.simplify(nf).as_long() == 0:
            c.prove(f"{nm}/post: a function at least", False)
            return
        data = (nf, lambda j: trip(j)[1].n, lambda j, p: trip(j)[1].at(p), None, None)
        res = (nf, lambda j: trip(j)[2].n, lambda j, p: trip(j)[2].at(p), None, None)
        rec = Rec(ins, outs, (nf, lambda j: val_of(trip(j)[0])), data, res)
        RN = RANK(N.e)
        c.prove(f"{nm}/post: an output per request of the type", z3.And(rec.nr == RN, lit(n) == RN), cut=False)
        c.prove(f"{nm}/post: outputs named as requested, in order", z3.Implies(MINE(w), z3.And(RANK(w) < RN, rec.OUT(RANK(w)) == OUT(w))), cut=False)
        c.prove(f"{nm}/post: each request has its function from its column to its output", z3.Implies(MINE(w), rec.has(w)), cut=False)
        inn = z3.And(0 <= J, J < nf)
        c.prove(f"{nm}/post: as many outputs as columns for each function", z3.Implies(inn, rec.LD(J) == rec.LR(J)), cut=False)
        c.prove(f"{nm}/post: nothing else is computed", z3.Implies(z3.And(inn, 0 <= P, P < rec.LD(J)), rec.asked(J, P)), cut=False)
    finally:
        models.SYM_VALUES[0] = None


REQ = Target("setup_cumsegagg", [f"{CM}.setup_cumsegagg"], run, specs, tables=__import__("t_csa").TAB, assumptions=[
    "numpy.array keeps the items of a list", "the sum of the lengths of lists is their total number of items",
    "second loop of setup_cumsegagg: a record does not depend on those of other types (the record of an arbitrary type is followed between two others)",
    "columns and functions of a request are hashable, a type equals itself only"])
TARGETS = {p: [REQ] for p in ("C15", "C10", "C13", "C14")}
