"""Contract of the delivery of seed data (C17)."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Not, Num, Or, Unsupported, lit, new_int, new_real, new_bool, new_val, zbool, INT, BOOL, REAL, VAL, SVal, SBool, val_lit
from models import Arr, Seq, Obj, SDict, Mapped, DT_BOOL
from models_pd import PANDAS, Frame
from target import Target

AM = "oups.aggstream.aggstream"


class Deliveries(Obj):
    """Ghost: deliveries of an arbitrary row w for an arbitrary filter t, last row delivered for it."""

    def __init__(self):
        super().__init__()
        self.cnt, self.last = Num(z3.IntVal(0)), Num(z3.IntVal(-1))

    def havoc(self):
        self.cnt, self.last = new_int("cnt"), new_int("lastrow")


def iter_target(trim, discard, restart, pre):
    st = {}
    nm = f"_iter_data[{'trim' if trim else 'no trim'},{'discard' if discard else 'keep'},{'restart' if restart else 'new'},{'pre' if pre else 'no pre'}]"
    trimming = trim and restart

    def specs(L):
        if L.it is st.get("seed"):
            def mk_rem():
                if not discard:
                    return None
                if core.CTX.branch(st["consumed_yet"]()):
                    n = new_int("rem", 0)
                    r = core.CTX.fresh_fun("remrow", INT, INT)
                    fi = core.CTX.fresh_fun("remfind", INT, INT)
                    return Frame(n, lambda k: Num(r(lit(k))), st["cell"], None, lambda x: Num(fi(lit(x))))
                return None

            def inv(S):
                k = S.k.e
                off, C, KEY, w = st["off"], st["consumed"], st["KEY"], st["w"]
                d = {}
                tr = S.trim_start
                trz = zbool(tr)
                if not trimming:
                    d["no trimming"] = z3.Not(trz)
                else:
                    d["trimming until restart is reached"] = trz == (z3.Or(k == 0, KEY(off(k) - 1) < st["restart"].e))
                rem = S.seed_remainder
                if not discard:
                    d["no remainder"] = z3.BoolVal(rem is None)
                elif rem is None:
                    d["no remainder before any chunk is used"] = z3.Or(k == 0, trz)
                elif isinstance(rem, Frame):
                    x = st["x"].e
                    d["remainder: after some chunk is used"] = z3.And(k >= 1, z3.Not(trz))
                    d["remainder: rows not delivered yet"] = core.forall("i", lambda i: And(rem.row(i) >= C(k), rem.row(i) < off(k)), 0, rem.n)
                    d["remainder: in order"] = core.forall("i", lambda i: core.forall("j", lambda j: rem.row(i) < rem.row(j), Num(i.e + 1), rem.n), 0, rem.n)
                    d["remainder: all of them"] = core.forall("i", lambda i: rem.has(i), C(k), off(k))
                g = st["g"]
                li = S.last_seed_index
                d["last value"] = (k == 0) if li is None else z3.And(k >= 1, lit(li) == KEY(off(k) - 1))
                d["delivered once each"] = Eq(g.cnt, z3.If(z3.And(w.e < C(k), st["keep"](st["t"].e, w.e)), z3.IntVal(1), z3.IntVal(0)))
                d["delivered in order"] = g.last < C(k)
                return d

            def mk_last():
                return new_real("last")

            return LoopSpec(inv, kinds={"seed_remainder": mk_rem, "last_seed_index": mk_last}, peel=True,
                            unfold=lambda S: st["facts"](S.k.e, S.L.mode != "exit"))
        if isinstance(L.it, Mapped) and getattr(L.it, "tag", None) == "filters":
            outer = [x for x in core.CTX.active_loops if x.it is st["seed"]][-1]
            ok = lit(outer.k)

            def inv(S):
                C, w, t, g = st["consumed"], st["w"], st["t"], st["g"]
                j = S.k.e
                upto = z3.If(t.e < j, C(ok + 1), C(ok))
                return {
                    "delivered once each (filters)": Eq(g.cnt, z3.If(z3.And(w.e < upto, st["keep"](t.e, w.e)), z3.IntVal(1), z3.IntVal(0))),
                    "delivered in order (filters)": g.last < upto,
                }

            return LoopSpec(inv)
        return None

    def run(T):
        c = core.CTX
        f = T.fn(AM, "_iter_data")
        ns = T.rt.load(AM).ns
        C, F = new_int("C", 0), new_int("F", 0)
        off = c.fresh_fun("off", INT, INT)
        KEY = c.fresh_fun("KEY", INT, REAL)
        KEEP = c.fresh_fun("KEEP", INT, INT, BOOL)
        FID = c.fresh_fun("FID", INT, VAL)
        P = c.fresh_fun("P", INT, INT)
        N = off(C.e)
        on = new_val("ordered_on")
        i, j = z3.Ints("ia ja")
        c.assume(off(0) == 0)
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < N), KEY(i) <= KEY(j)), patterns=[z3.MultiPattern(KEY(i), KEY(j))]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= C.e), off(i) < off(j)), patterns=[z3.MultiPattern(off(i), off(j))]))
        rs = new_real("restart")
        t, w = new_int("t", 0), new_int("w", 0)
        c.assume(t.e < F.e)
        c.assume(w.e < N)
        # rows of the prefix of k chunks which are before its last value: the first P(k)
        c.assume(P(0) == 0)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i <= C.e), z3.And(P(i) >= 0, P(i) < off(i))), patterns=[P(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 1, i <= C.e, 0 <= j, j < off(i)), (KEY(j) < KEY(off(i) - 1)) == (j < P(i))),
                           patterns=[z3.MultiPattern(P(i), KEY(j))]))
        consumed = (lambda k: P(k)) if discard else (lambda k: off(k))
        nofilt = val_lit(ns["NO_FILTER_ID"])

        def keep(q, r):
            base = z3.Or(FID(q) == nofilt, KEEP(q, r))
            return z3.And(base, KEY(r) >= rs.e) if trimming else base

        def cell(name, r):
            if name is on:
                return Num(KEY(lit(r)))
            raise Unsupported("another column of the seed")

        def chunk(k):
            k = lit(k)
            return Frame(Num(off(k + 1) - off(k)), lambda q: Num(off(k) + lit(q)), cell, None, lambda x: Num(lit(x) - off(k)))

        seed = Mapped(C, chunk)
        filters = SDict(F, lambda k: SVal(FID(lit(k))), lambda k: Filt(k))
        items = filters.items

        def tagged():
            m = items()
            m.tag = "filters"
            return m

        filters.items = tagged

        class Filt:
            def __init__(self, k):
                self.k = lit(k)

        def dataframe_filter(df, filters_):
            if not isinstance(df, Frame) or not isinstance(filters_, Filt):
                raise Unsupported("filter of another object")
            r = df.row
            c.wits.append(df.find(w))
            return Arr.of(lambda q: SBool(KEEP(filters_.k, lit(r(q)))), df.n, DT_BOOL)

        ns["dataframe_filter"] = dataframe_filter
        g = Deliveries()

        def facts(k, more=True):
            """Instances of the definitions at chunk k."""
            r = [off(k) >= 0, P(k) >= 0, P(k) <= off(k)]
            if more:  # k is not past the last chunk
                r += [off(k) < off(k + 1), off(k + 1) <= N, KEY(off(k + 1) - 1) >= KEY(off(k)), z3.Implies(k >= 1, KEY(off(k) - 1) <= KEY(off(k))),
                      P(k + 1) >= 0, P(k + 1) < off(k + 1), P(k) <= P(k + 1)]
            return r

        # lemma: the number of rows before the last value does not decrease
        q = c.fresh("q", INT)
        c.assume(z3.And(q >= 0, q < C.e))
        c.prove(f"{nm}/lemma: rows before the last value, from chunk to chunk",
                z3.Implies(z3.And(P(q) >= 1, KEY(P(q) - 1) <= KEY(P(q) - 1), KEY(off(q) - 1) <= KEY(off(q + 1) - 1)), P(q) <= P(q + 1)), cut=False)
        st.update(seed=seed, off=off, consumed=consumed, KEY=KEY, w=w, t=t, keep=keep, g=g, restart=rs, cell=cell, facts=facts, x=new_int("x", 0),
                  consumed_yet=lambda: c.fresh("used", BOOL))
        buf = {}
        calls = Obj()
        pref = None
        if pre:
            def pref(on, buffer):
                if not isinstance(on, Frame) or buffer is not buf:
                    raise Unsupported("pre called with other arguments")

        gen = f(seed, on, rs if restart else None, pref, buf, filters, trim, discard)
        it = iter(gen)
        while True:
            try:
                ev = T.call(next, it, None)
            except ns["SeedPreException"]:
                c.prove(f"{nm}/post: ascending seed data is not refused", False)
                raise core.PathEnd()
            if ev is None:
                break
            if not (isinstance(ev, tuple) and len(ev) == 4 and isinstance(ev[3], Frame)):
                raise Unsupported("delivery of another shape")
            li, pb, fid, fr = ev
            Ls = [x for x in c.active_loops if x.it is seed]
            Fs = [x for x in c.active_loops if getattr(x.it, "tag", None) == "filters"]
            if not Ls or not Fs:
                raise Unsupported("delivery outside the loops over chunks and filters")
            k, jf = lit(Ls[-1].k), lit(Fs[-1].k)
            c.prove(f"{nm}/delivery: last value of the seed so far", Eq(li, Num(KEY(off(k + 1) - 1))), cut=False)
            c.prove(f"{nm}/delivery: the buffer of pre-processing", z3.BoolVal(pb is buf), cut=False)
            c.prove(f"{nm}/delivery: identifier of the filter", Eq(fid, SVal(FID(jf))), cut=False)
            c.prove(f"{nm}/delivery: not empty", fr.n > 0)
            u, v = new_int("u", 0), new_int("v", 0)
            c.prove(f"{nm}/delivery: rows kept by the filter, in the range of this chunk",
                    Implies(u < fr.n, z3.And(lit(fr.row(u)) >= consumed(k), lit(fr.row(u)) < consumed(k + 1), keep(jf, lit(fr.row(u))))))
            c.prove(f"{nm}/delivery: rows in order", Implies(And(u < v, v < fr.n), fr.row(u) < fr.row(v)), cut=False)
            # ghost update, if this filter is the one observed
            if c.branch(jf == t.e):
                c.prove(f"{nm}/delivery: after those delivered before", z3.And(lit(fr.row(Num(z3.IntVal(0)))) > lit(g.last)), cut=False)
                g.touch()
                g.cnt = Num(lit(g.cnt) + z3.If(zbool(fr.has(w)), z3.IntVal(1), z3.IntVal(0)))
                g.last = fr.row(Num(lit(fr.n) - 1))
                c.assume(z3.And(lit(g.last) >= consumed(k), lit(g.last) < consumed(k + 1)))
        want = z3.And(z3.Or(FID(t.e) == nofilt, KEEP(t.e, w.e)), KEY(w.e) >= rs.e if trimming else z3.BoolVal(True),
                      KEY(w.e) < KEY(N - 1) if discard else z3.BoolVal(True))
        for x in facts(C.e - 1):
            c.assume(z3.Implies(C.e >= 1, x))
        c.prove(f"{nm}/post: each kept row is delivered exactly once, no other row", Eq(g.cnt, z3.If(want, z3.IntVal(1), z3.IntVal(0))), cut=False)

    return Target(nm, [f"{AM}._iter_data"], run, specs, tables=dict(pandas=PANDAS), unrollable=False,
                  assumptions=["dataframe_filter: contract proved under C16", "pandas selections and concat act by position (models_pd.py)",
                               "the pre-processing function of the user does not change the rows of the chunk"])


def refusal_target(discard, restart, pre):
    """Any seed: completes only if the whole of it is ascending; refused only if it is not, or if 'pre' refuses it."""
    st = {}
    nm = f"_iter_data refusals[{'discard' if discard else 'keep'},{'restart' if restart else 'new'},{'pre' if pre else 'no pre'}]"

    def asc(hi, lo=0):
        KEY = st["KEY"]
        i, j = core.CTX.fresh("ai", INT), core.CTX.fresh("aj", INT)
        return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i <= j, j < hi), KEY(i) <= KEY(j)), patterns=[z3.MultiPattern(KEY(i), KEY(j))])

    def specs(L):
        if L.it is st.get("seed"):
            def mk_rem():
                if not discard:
                    return None
                if core.CTX.branch(core.CTX.fresh("used", BOOL)):
                    n, r = new_int("rem", 0), core.CTX.fresh_fun("remrow", INT, INT)
                    return Frame(n, lambda k: Num(r(lit(k))), st["cell"])
                return None

            def inv(S):
                k, off, KEY = S.k.e, st["off"], st["KEY"]
                li = S.last_seed_index
                d = {} if restart else {"no trimming": z3.Not(zbool(S.trim_start))}
                return d | {"ascending so far": asc(off(k)), "?ascending so far, at two positions": z3.Implies(z3.And(0 <= st["p"].e, st["p"].e <= st["q"].e, st["q"].e < off(k)), KEY(st["p"].e) <= KEY(st["q"].e)),
                        "last value": (k == 0) if li is None else z3.And(k >= 1, lit(li) == KEY(off(k) - 1))}

            return LoopSpec(inv, kinds={"seed_remainder": mk_rem, "last_seed_index": lambda: new_real("last")}, peel=True,
                            unfold=lambda S: st["facts"](S.k.e))
        if isinstance(L.it, Mapped) and getattr(L.it, "tag", None) == "filters":
            return LoopSpec(lambda S: {})
        return None

    def run(T):
        c = core.CTX
        f = T.fn(AM, "_iter_data")
        ns = T.rt.load(AM).ns
        C, F = new_int("C", 0), new_int("F", 0)
        off, KEY, FID = c.fresh_fun("off", INT, INT), c.fresh_fun("KEY", INT, REAL), c.fresh_fun("FID", INT, VAL)
        KEEP = c.fresh_fun("KEEP", INT, INT, BOOL)
        i, j = z3.Ints("ia ja")
        c.assume(off(0) == 0)
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= C.e), off(i) < off(j)), patterns=[z3.MultiPattern(off(i), off(j))]))
        on = new_val("ordered_on")
        rs = new_real("restart")
        buf, said = {}, []

        def cell(name, r):
            if name is on:
                return Num(KEY(lit(r)))
            raise Unsupported("another column of the seed")

        seed = Mapped(C, lambda k: Frame(Num(off(lit(k) + 1) - off(lit(k))), lambda q: Num(off(lit(k)) + lit(q)), cell))
        filters = SDict(F, lambda k: SVal(FID(lit(k))), lambda k: Flt(lit(k)))
        items = filters.items

        def tagged():
            m = items()
            m.tag = "filters"
            return m

        filters.items = tagged
        Flt = type("Flt", (), {"__init__": lambda s, k: setattr(s, "k", k)})
        ns["dataframe_filter"] = lambda df, fl: Arr.of(lambda q: SBool(KEEP(fl.k, lit(df.row(q)))), df.n, DT_BOOL)
        st.update(seed=seed, KEY=KEY, off=off, cell=cell, p=new_int("p", 0), q=new_int("q", 0),
                  facts=lambda k: [z3.Implies(k < C.e, off(k) < off(k + 1)), off(k) >= 0, z3.Implies(k >= 1, off(k) > off(k - 1))])
        pref = None
        if pre:
            def pref(on, buffer):
                if c.branch(c.fresh("refused by pre", BOOL)):
                    said.append(1)
                    raise ValueError("refused by pre")
        it = iter(f(seed, on, rs if restart else None, pref, buf, filters, restart, discard))
        try:
            while T.call(next, it, None) is not None:
                pass
        except ns["SeedPreException"]:
            if not said:
                c.prove(f"{nm}/post: refused only if not ascending", z3.Not(asc(off(C.e))), cut=False)
            return
        c.prove(f"{nm}/post: what 'pre' refuses is refused", z3.BoolVal(not said), cut=False)
        p, q = st["p"].e, st["q"].e
        c.prove(f"{nm}/post: completes only on ascending seed data", z3.Implies(z3.And(0 <= p, p <= q, q < off(C.e)), KEY(p) <= KEY(q)), cut=False)

    return Target(nm, [f"{AM}._iter_data"], run, specs, tables=dict(pandas=PANDAS))


ITER = [iter_target(tr, di, re, pr) for tr, di, re, pr in ((False, False, False, False), (False, True, False, True), (True, True, True, False),
                                                         (True, False, True, False), (True, True, False, False))]
REFUSE = [refusal_target(False, False, True), refusal_target(True, True, False)]
TARGETS = {"C17": ITER + REFUSE}
