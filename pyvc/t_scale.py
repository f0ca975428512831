"""Contract of by_scale (C11, C14): chunks of rows by the values of a scale, in one or several calls.

Time groupers: the edges are those of a grid GR(g, k), ascending in k; which grid is decided by the frequency,
the offset, the origin and, for some origins, the first value (assumed contract of pandas).  The state left in
the buffer says which bin is in progress, so that bins of successive calls are those of a single call."""
import z3

import core
from core import And, Eq, Implies, Num, Unsupported, SBool, lit, new_bool, new_int, zbool, INT
from models import Arr, DT_INT, DT_TIME, DT_BOOL
from models_pd import PANDAS, Ser, Idx
from target import Target

SM = "oups.aggstream.segmentby"
ST = {}


class TNum(Num):
    """A timestamp."""

    __slots__ = ()
    py = ("Timestamp",)

    @property
    def unit(self):
        return "ns"

    def normalize(self):
        return TNum(ST["DAY"](self.e))

    __hash__ = Num.__hash__


class TIloc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        r = Ser.iloc.fget(self.s)[i]
        return TNum(r.e) if isinstance(r, Num) else r


class TSer(Ser):
    @property
    def iloc(self):
        return TIloc(self)


TSer.__name__ = "Series"


class SIdx(Idx):
    """Index: a mask which holds for a suffix of the positions selects this suffix (a fact about masks)."""

    def __getitem__(self, i):
        m = i.a if isinstance(i, Ser) else i
        if isinstance(m, Arr) and m.dtype == DT_BOOL:
            c = core.CTX
            f = m.snapshot()
            n = lit(self.a.n)
            if not c.branch(lit(m.n) == n):
                raise IndexError("boolean index of another length")
            a, b = new_int("sfx", 0), new_int("sfx", 0)
            if c.check_quiet(z3.Implies(z3.And(a.e < b.e, b.e < n, zbool(f(a))), zbool(f(b)))):
                k = new_int("cut", 0)
                i = z3.Int("i!sx")
                c.assume(k.e <= n)
                c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), zbool(f(Num(i))) == (i >= k.e))))
                c.assume(z3.Implies(k.e < n, zbool(f(k))))
                c.assume(z3.Implies(k.e > 0, z3.Not(zbool(f(Num(k.e - 1))))))
                return type(self).wrap(self.a[k:])
        return Idx.__getitem__(self, i)


SIdx.__name__ = "Index"


class Freq:
    """Frequency of a time grouper: a fixed duration (Tick) or a calendar one."""

    def __init__(self, tick):
        self.py = ("Tick",) if tick else ("DateOffset",)
        self.tick = tick


class Delta:
    def __init__(self, v, u=None):
        if (v, u) not in ((1, "D"), ("1D", None), (1, "d")):
            raise Unsupported("another duration")

    def __mod__(self, o):
        if o is not ST["freq"]:
            raise Unsupported("remainder by another frequency")
        # nothing remains if the frequency divides a day
        return SBool(z3.Not(ST["divides"]))


class Grouper:
    py = ("TimeGrouper",)

    def __init__(self, **k):
        self.__dict__.update(k)


class Edge:
    def __init__(self, g, k, freq):
        self.g, self.k, self.freq = g, k, freq


def GR(g, k):
    return ST["GR"](g, k)


def IX(closed, g, x):
    """Which bin of the grid a value is in: bin k goes from edge k - 1 to edge k."""
    return ST["IX" + closed](g, x)


def gtre(first, last, freq, closed="right", unit="ns", origin="start_day", offset=None):
    """pandas: edges around first and last, on the grid of the frequency."""
    if freq is not ST["freq"] or not isinstance(first, Num) or not isinstance(last, Num) or closed not in ("left", "right"):
        raise Unsupported("edges of another kind")
    if offset is not ST["offset"]:
        raise Unsupported("another offset")
    if freq.tick:
        if isinstance(origin, Num):
            g = ST["ANCH"](origin.e)
        elif origin == "start":
            g = ST["ANCH"](first.e)
        elif origin == "start_day":
            g = z3.If(ST["divides"], ST["G0"], ST["ANCH"](ST["DAY"](first.e)))
        elif origin == "epoch":
            g = ST["EPOCH"]
        else:
            raise Unsupported("another origin")
    else:
        g = ST["H"](first.e)
    return Edge(g, IX(closed, g, first.e) - 1, freq), Edge(g, IX(closed, g, last.e), freq)


def date_range(start=None, end=None, freq=None, **k):
    if not isinstance(start, Edge) or not isinstance(end, Edge) or freq is not ST["freq"] or k:
        raise Unsupported("another range of dates")
    g, a = start.g, start.k
    c = core.CTX
    c.prove("by_scale/range of dates from edges of one grid", z3.And(end.g == g, end.k >= a))
    return SIdx(Arr.of(lambda i: Num(GR(g, a + lit(i))), Num(z3.simplify(end.k - a + 1)), DT_TIME))


def grids():
    c = core.CTX
    for n in ("ANCH", "H", "DAY"):
        ST[n] = c.fresh_fun(n, INT, INT)
    for n in ("GR", "IXleft", "IXright"):
        ST[n] = c.fresh_fun(n, INT, INT, INT)
    ST["divides"] = new_bool("divides_day").e
    ST["G0"], ST["EPOCH"] = new_int("G0").e, new_int("EPOCH").e
    ST["offset"] = core.NVal(c.fresh("offset", core.VAL))
    g, i, j, x = z3.Ints("g! i! j! x!")
    G, L, R, H = ST["GR"], ST["IXleft"], ST["IXright"], ST["H"]
    c.assume(z3.ForAll([g, i, j], z3.Implies(i < j, G(g, i) < G(g, j)), patterns=[z3.MultiPattern(G(g, i), G(g, j))]))
    c.assume(z3.ForAll([g, x], z3.And(G(g, L(g, x) - 1) <= x, x < G(g, L(g, x))), patterns=[L(g, x)]))
    c.assume(z3.ForAll([g, x], z3.And(G(g, R(g, x) - 1) < x, x <= G(g, R(g, x))), patterns=[R(g, x)]))
    # to look for counterexamples: an instance of these functions (edges every 2 units, days of 3 units)
    a, b = z3.Var(0, INT), z3.Var(1, INT)
    c.instances = [(G, a + 2 * b), (L, (b - a) / 2 + 1), (R, (b - a + 1) / 2), (ST["ANCH"], a % 2), (H, a % 2), (ST["DAY"], a - a % 3)]
    # calendar frequencies: starting from an edge of a grid gives this grid
    if not ST["freq"].tick:
        c.assume(z3.ForAll([g, i], z3.Implies(g == H(ST["v0"].e), H(G(g, i)) == g), patterns=[G(g, i)]))


def next_chunk_starts(data, edges, right):
    """Contract of _next_chunk_starts (its own target proves it)."""
    c = core.CTX
    n, E = lit(data.n), lit(edges.n)
    X = (lambda f: (lambda i: lit(f(Num(i)))))(data.snapshot())
    W = (lambda f: (lambda i: lit(f(Num(i)))))(edges.snapshot())
    i, j = new_int("pi", 0), new_int("pj", 0)
    c.prove("by_scale/_next_chunk_starts: ends of chunks ascend", z3.Implies(z3.And(i.e < j.e, j.e < E), W(i.e) <= W(j.e)), cut=False)
    c.prove("by_scale/_next_chunk_starts: rows ascend", z3.Implies(z3.And(i.e < j.e, j.e < n), X(i.e) <= X(j.e)), cut=False)
    c.prove("by_scale/_next_chunk_starts: there are rows", n >= 1)
    r = zbool(right)
    within = lambda i, b: z3.If(r, X(i) <= W(b), X(i) < W(b))  # noqa: E731
    P, NN = c.fresh_fun("P", INT, INT), c.fresh_fun("nn", INT, INT)
    b, k = z3.Ints("b! k!")
    c.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < E), z3.And(
        P(b) >= 0, P(b) <= n, z3.Implies(P(b) < n, z3.Not(within(P(b), b))), z3.Implies(P(b) > 0, within(P(b) - 1, b)))), patterns=[P(b)]))
    c.assume(z3.ForAll([b, k], z3.Implies(z3.And(b >= 0, b < E, k >= 0, k < n), within(k, b) == (k < P(b)))))
    m, trav = new_int("m", 0), new_bool("trav")
    c.assume(m.e <= E)
    c.assume(z3.If(trav.e, z3.And(m.e >= 1, P(m.e - 1) == n), z3.And(m.e == E, z3.Or(m.e == 0, P(m.e - 1) < n))))
    c.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < m.e - 1), P(b) < n), patterns=[P(b)]))
    ST["ncs"] = (P, NN, m, trav)
    return Arr.of(lambda k: Num(P(lit(k))), m, DT_INT), Num(NN(m.e)), trav


OVER = {(SM, "_next_chunk_starts"): next_chunk_starts}
TAB = {"pandas": dict(PANDAS, Index=SIdx, Timedelta=Delta, date_range=date_range),
       "pandas.core.resample": dict(TimeGrouper=type("TimeGrouper", (), {}), _get_timestamp_range_edges=gtre),
       "pandas.tseries.offsets": dict(Tick=type("Tick", (), {}))}


def pick(c, name, *xs):
    for x in xs[:-1]:
        if c.branch(new_bool(name).e):
            return x
    return xs[-1]


def ascending(a):
    f = a.snapshot()
    i, j = z3.Ints("i!a j!a")
    n = lit(a.n)
    core.CTX.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), lit(f(Num(i))) <= lit(f(Num(j))))))


def result(out, nm):
    if not (isinstance(out, tuple) and len(out) == 6 and isinstance(out[0], Arr) and isinstance(out[1], Ser) and isinstance(out[4], Ser)):
        raise Unsupported("result of another shape")
    return out


def grouper_target(tick, state):
    """state: what the buffer is (no: none, new: empty, restart: left by a previous call)."""
    nm = f"by_scale[{'fixed duration' if tick else 'calendar'},{state}]"

    def run(T):
        c = core.CTX
        c.instances = []
        ST.clear()
        ST["freq"] = Freq(tick)
        ST["v0"] = new_int("v0")
        f = T.fn(SM, "by_scale")
        m = T.rt.load(SM).ns
        grids()
        closed, label = pick(c, "closed", "left", "right"), pick(c, "label", "left", "right")
        given = pick(c, "given", False, True)
        origin = pick(c, "origin", "start_day", "start", "epoch", TNum(new_int("origin").e)) if tick else "start_day"
        n = new_int("n", 1)
        on = TSer(Arr.fresh("on", n, DT_TIME))
        ON = (lambda g: (lambda i: lit(g(Num(i)))))(on.a.snapshot())
        ascending(on.a)
        other = "left" if closed == "right" else "right"
        by = Grouper(closed=other if given else closed, origin=origin, freq=ST["freq"], offset=ST["offset"], label=label)
        # first value of the stream: it decides the grid
        v0 = ST["v0"].e if state == "restart" else ON(z3.IntVal(0))
        if state != "restart":
            c.assume(ST["v0"].e == v0)
        if tick:
            if isinstance(origin, Num):
                g = ST["ANCH"](origin.e)
            else:
                g = {"start": ST["ANCH"](v0), "epoch": ST["EPOCH"], "start_day": z3.If(ST["divides"], ST["G0"], ST["ANCH"](ST["DAY"](v0)))}[origin]
        else:
            g = ST["H"](v0)
        idx = lambda x: IX(closed, g, x)  # noqa: E731
        K, KO = m["KEY_RESTART_KEY"], m["KEY_ORIGIN"]

        def state_ok(buf, last, what):
            """State left after a last value."""
            out = {"value recorded is in the bin in progress": lambda: idx(lit(buf[K])) == idx(last)}
            if tick and origin == "start":
                out["origin of the grid is recorded"] = lambda: ST["ANCH"](lit(buf[KO])) == g
            if tick and isinstance(origin, str) and origin == "start_day":
                out["origin of the grid is recorded"] = lambda: (z3.Or(ST["divides"], ST["ANCH"](lit(buf[KO])) == g) if KO in buf else ST["divides"])
            if not tick:
                out["value recorded is on the grid, or the first one"] = lambda: ST["H"](lit(buf[K])) == g
            for k, v in out.items():
                if K not in buf and "value" in k:
                    c.prove(f"{nm}/{what}: {k}", False)
                    raise core.PathEnd()
                try:
                    c.prove(f"{nm}/{what}: {k}", v(), cut=False)
                except KeyError:
                    c.prove(f"{nm}/{what}: {k}", False)

        buffer = {"no": None, "new": {}, "restart": {}}[state]
        B0 = idx(ON(z3.IntVal(0)))
        if state == "restart":
            rk, lv = new_int("restart"), new_int("last")
            c.assume(lv.e <= ON(z3.IntVal(0)))
            c.assume(ST["v0"].e <= lv.e)
            c.assume(idx(rk.e) == idx(lv.e))
            buffer[K] = TNum(rk.e)
            if tick and origin == "start":
                oo = new_int("org")
                c.assume(ST["ANCH"](oo.e) == g)
                buffer[KO] = TNum(oo.e)
            if tick and isinstance(origin, str) and origin == "start_day":
                if c.branch(z3.Not(ST["divides"])):
                    oo = new_int("org")
                    c.assume(ST["ANCH"](oo.e) == g)
                    buffer[KO] = TNum(oo.e)
            if not tick:
                c.assume(ST["H"](rk.e) == g)
            B0 = idx(lv.e)
        out = T.call(f, on, by, closed if given else None, buffer)
        ncs, labels, nnull, cl, ends, unk = result(out, nm)
        last = ON(n.e - 1)
        j, i = new_int("j", 0), new_int("i", 0)
        L = lit(ncs.n)
        c.assume(i.e < n.e)
        c.prove(f"{nm}/post: bins from the one in progress to that of the last row", L == idx(last) - B0 + 1, cut=False)
        c.assume(j.e < L)
        c.prove(f"{nm}/post: rows up to the end of a bin are those in this bin or before",
                z3.And(lit(ncs.at(j)) <= n.e, lit(ncs.at(j)) >= 0, (i.e < lit(ncs.at(j))) == (idx(ON(i.e)) <= B0 + j.e)), cut=False)
        c.prove(f"{nm}/post: one label and one end per bin", z3.And(lit(labels.a.n) == L, lit(ends.a.n) == L), cut=False)
        c.prove(f"{nm}/post: end of a bin", Eq(ends.a.at(j), GR(g, B0 + j.e)), cut=False)
        c.prove(f"{nm}/post: label of a bin", Eq(labels.a.at(j), GR(g, B0 + j.e - (0 if label == "right" else 1))), cut=False)
        c.prove(f"{nm}/post: number of empty bins", Eq(nnull, ST["ncs"][1](L)), cut=False)
        c.prove(f"{nm}/post: closed side", z3.BoolVal(cl == closed))
        c.prove(f"{nm}/post: last end is known", z3.Not(zbool(unk)))
        if buffer is not None:
            state_ok(buffer, last, "post: state for the next call")
            c.prove(f"{nm}/post: no value awaiting further ends", z3.BoolVal(m["KEY_LAST_ON_VALUE"] not in buffer))
        q = new_int("q", 0)
        c.prove(f"{nm}/post: rows are not modified", Eq(on.a.at(q), ON(q.e)), cut=False)

    asm = ["edges given by pandas for a frequency are those of one grid, which depends on the origin (fixed durations) or on the first value, any edge of the grid giving it again (calendar frequencies)",
           "rows ascend (precondition, checked by segmentby)", "_next_chunk_starts meets its contract (target of its own)"]
    return Target(nm, [f"{SM}.by_scale"], run, {}, tables=TAB, overrides=OVER, assumptions=asm)


def series_target(form, state):
    """form: one series of ends, or (labels, ends). state: no, new, in progress (the last row was in a chunk),
    beyond (it was after the last end), nothing (no end so far, some rows)."""
    nm = f"by_scale[{form},{state}]"

    def run(T):
        c = core.CTX
        c.instances = []
        ST.clear()
        f = T.fn(SM, "by_scale")
        m = T.rt.load(SM).ns
        closed = pick(c, "closed", "left", "right")
        dt = pick(c, "dtype", DT_TIME, DT_INT)
        n, E = new_int("n", 1), new_int("E", 0)
        on = TSer(Arr.fresh("on", n, dt))
        ON = (lambda g: (lambda i: lit(g(Num(i)))))(on.a.snapshot())
        ascending(on.a)
        ends_in, labels_in = Ser(Arr.fresh("ends", E, dt)), Ser(Arr.fresh("labels", E, dt))
        W = (lambda g: (lambda i: lit(g(Num(i)))))(ends_in.a.snapshot())
        LB = (lambda g: (lambda i: lit(g(Num(i)))))(labels_in.a.snapshot()) if form == "labels and ends" else W
        i_, j_ = z3.Ints("i!w j!w")
        c.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < E.e), W(i_) < W(j_))))
        by = (labels_in, ends_in) if form == "labels and ends" else ends_in
        within = (lambda x, b: x <= W(b)) if closed == "right" else (lambda x, b: x < W(b))
        K, KL = m["KEY_RESTART_KEY"], m["KEY_LAST_ON_VALUE"]
        buffer = None if state == "no" else {}
        b0 = z3.IntVal(0)
        lv = new_int("last")
        refused = z3.BoolVal(False)
        if state in ("in progress", "beyond", "nothing"):
            c.assume(lv.e <= ON(z3.IntVal(0)))
        if state in ("in progress", "beyond"):
            r = new_int("r", 0)
            c.assume(r.e < E.e)
            buffer[K] = Num(W(r.e))
            if state == "in progress":
                c.assume(z3.And(within(lv.e, r.e), z3.Implies(r.e > 0, z3.Not(within(lv.e, r.e - 1)))))
                b0 = r.e
            else:
                c.assume(z3.Not(within(lv.e, r.e)))
                buffer[KL] = Num(lv.e)
                b0 = r.e + 1
                refused = z3.And(r.e + 1 < E.e, z3.Not(within(lv.e, r.e + 1)))
        if state == "nothing":
            buffer[KL] = Num(lv.e)
            b0 = z3.If(z3.And(E.e >= 1, z3.Not(within(lv.e, z3.IntVal(0)))), z3.IntVal(1), z3.IntVal(0))
            refused = z3.And(E.e >= 2, z3.Not(within(lv.e, z3.IntVal(1))))
        try:
            out = T.call(f, on, by, closed, buffer, expect=(ValueError,))
        except ValueError:
            c.prove(f"{nm}/post: refused only if rows already given are beyond the 2nd end", refused, cut=False)
            return
        c.prove(f"{nm}/post: rows already given beyond the 2nd end are refused", z3.Not(refused), cut=False)
        ncs, labels, nnull, cl, ends, unk = result(out, nm)
        last = ON(n.e - 1)
        j, i = new_int("j", 0), new_int("i", 0)
        L = lit(ncs.n)
        c.assume(i.e < n.e)
        c.prove(f"{nm}/post: one label and one end per chunk", z3.And(lit(labels.a.n) == L, lit(ends.a.n) == L), cut=False)
        left = E.e - b0
        c.prove(f"{nm}/post: chunks up to that of the last row, or all",
                z3.And(L <= left, z3.Implies(left > 0, L >= 1), z3.Implies(L < left, within(last, b0 + L - 1)),
                       z3.Implies(z3.And(j.e >= 0, j.e < L - 1), z3.Not(within(last, b0 + j.e)))), cut=False)
        c.assume(j.e < L)
        c.prove(f"{nm}/post: rows up to the end of a chunk are those within its end",
                z3.And(lit(ncs.at(j)) <= n.e, lit(ncs.at(j)) >= 0, (i.e < lit(ncs.at(j))) == within(ON(i.e), b0 + j.e)), cut=False)
        c.prove(f"{nm}/post: end of a chunk", Eq(ends.a.at(j), W(b0 + j.e)), cut=False)
        c.prove(f"{nm}/post: label of a chunk", Eq(labels.a.at(j), LB(b0 + j.e)), cut=False)
        if "ncs" in ST:
            c.prove(f"{nm}/post: number of empty chunks", Eq(nnull, ST["ncs"][1](L)), cut=False)
        c.prove(f"{nm}/post: closed side", z3.BoolVal(cl == closed))
        c.prove(f"{nm}/post: last end is known", z3.Not(zbool(unk)))
        if buffer is not None:
            w = "post: state for the next call"
            if KL in buffer:
                c.prove(f"{nm}/{w}: the last row is beyond the ends", z3.Or(left <= 0, z3.Not(within(last, E.e - 1))), cut=False)
                c.prove(f"{nm}/{w}: last row", Eq(buffer[KL], last), cut=False)
                if K in buffer:
                    c.prove(f"{nm}/{w}: last end", Eq(buffer[K], W(E.e - 1)), cut=False)
                else:
                    c.prove(f"{nm}/{w}: there is no end yet", E.e == 0)
            else:
                if K not in buffer:
                    c.prove(f"{nm}/{w}: end of the chunk in progress is recorded", False)
                else:
                    c.prove(f"{nm}/{w}: end of the chunk of the last row",
                            z3.And(L >= 1, lit(buffer[K]) == W(b0 + L - 1), within(last, b0 + L - 1),
                                   z3.Implies(L >= 2, z3.Not(within(last, b0 + L - 2)))), cut=False)
        q = new_int("q", 0)
        c.prove(f"{nm}/post: arguments are not modified", z3.And(Eq(on.a.at(q), ON(q.e)), Eq(ends_in.a.at(q), W(q.e)),
                                                                 Eq(labels_in.a.at(q), LB(q.e)) if LB is not W else z3.BoolVal(True)), cut=False)

    return Target(nm, [f"{SM}.by_scale"], run, {}, tables=TAB, overrides=OVER,
                  assumptions=["chunk ends strictly ascend, rows ascend (preconditions)", "pandas Index: selection by position and by mask",
                               "on restart, ends given contain the one recorded", "_next_chunk_starts meets its contract (target of its own)"])


GT = [grouper_target(t, s) for t in (True, False) for s in ("no", "new", "restart")]
SS = [series_target(f, s) for f in ("ends", "labels and ends") for s in ("no", "new", "in progress", "beyond", "nothing")]
TARGETS = {"C11": GT + SS, "C14": GT + SS}
