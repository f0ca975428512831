"""Contracts of the segmentation functions."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Not, Num, Or, PathEnd, Unsupported, lit, new_bool, new_int, new_real, wrap, zbool, forall, INT, REAL, ite
from models import Arr, Mat, NDEnum, Seq, Obj, DT_FLOAT, DT_INT, DT_TIME
from models_pd import PANDAS, Ser, Idx
from target import Target, lemma

SM = "oups.aggstream.segmentby"


# ---- _next_chunk_starts ------------------------------------------------------------------------------
def ncs_target():
    st = {}

    def specs(L):
        it = L.it
        if not isinstance(it, NDEnum):
            return None
        n, P, within, nn = (st[x] for x in ("n", "P", "within", "nn"))
        if it.a.buf is st["edges"]:
            def inv(S):
                k = S.k.e
                cur = z3.If(k == 0, z3.IntVal(0), P(k - 1))
                t = st["t"].e
                d = {
                    "position": Eq(S._d_idx, cur),
                    "previous position": Eq(S.prev_d_idx, cur),
                    "not traversed": z3.And(cur >= 0, cur < n),
                    "number of empty chunks": Eq(S.n_null_chunks, nn(k)),
                    "chunk start": z3.Implies(t < k, z3.And(Eq(S.next_chunk_starts.at(Num(t)), P(t)), P(t) < n)),
                    "length": Eq(S.next_chunk_starts.n, st["E"]),
                }
                return d

            return LoopSpec(inv, unfold=lambda S: st["facts"](S.k.e) + [nn(S.k.e + 1) == nn(S.k.e) + z3.If(
                P(S.k.e) == z3.If(S.k.e == 0, z3.IntVal(0), P(S.k.e - 1)), z3.IntVal(1), z3.IntVal(0))])
        if it.a.buf is st["data"]:
            outer = [L for L in core.CTX.active_loops if isinstance(L.it, NDEnum) and L.it.a.buf is st["edges"]]
            if not outer:
                return None
            b = outer[-1].k.e
            off = lit(it.a.off)

            def inv(S):
                return {"rows so far in chunk": S.k.e + off <= P(b)} | ({"still in chunk": zbool(S.prev_bin)} if S.has("prev_bin") else {})

            return LoopSpec(inv, unfold=lambda S: st["def"](b, off + S.k.e))
        return None

    def run(T):
        c = core.CTX
        f = T.fn(SM, "_next_chunk_starts")
        n, E = new_int("n", 1), new_int("E", 0)
        data, edges = Arr.fresh("data", n, DT_FLOAT), Arr.fresh("edges", E, DT_FLOAT)
        df, ef = data.snapshot(), edges.snapshot()
        right = new_bool("right")
        P = c.fresh_fun("P", INT, INT)  # number of rows up to the end of chunk b
        nn = c.fresh_fun("nn", INT, INT)
        t = new_int("t", 0)
        X = lambda i: lit(df(Num(i)))  # noqa: E731
        W = lambda i: lit(ef(Num(i)))  # noqa: E731
        within = lambda i, b: z3.If(right.e, X(i) <= W(b), X(i) < W(b))  # noqa: E731

        def define(b, i):
            """P(b) is the number of rows within edge b or before (rows ascending: they are the first ones)."""
            return [z3.Implies(z3.And(b >= 0, b < E.e), z3.And(P(b) >= 0, P(b) <= n.e)),
                    z3.Implies(z3.And(b >= 0, b < E.e, i >= 0, i < n.e), within(i, b) == (i < P(b)))]

        def facts(k):
            out = []
            for i in (z3.IntVal(0), n.e - 1, P(k), P(k - 1), P(k) - 1, P(k - 1) - 1):
                out += define(k, i) + define(k - 1, i)
            out.append(z3.Implies(z3.And(k >= 1, k < E.e), W(k - 1) <= W(k)))
            return out

        c.assume(nn(0) == 0)
        st.update(n=n.e, E=E, t=t, P=P, nn=nn, within=within, edges=edges.buf, data=data.buf, facts=facts)
        st["def"] = define
        st["facts"] = facts
        for x in facts(E.e):
            c.assume(x)
        r = T.call(f, data, edges, right)
        if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Arr)):
            raise Unsupported("result of another shape")
        res, nnull, trav = r
        trav = zbool(trav)
        m = lit(res.n)
        c.assume(t.e < m)  # an arbitrary chunk among those returned (if none, the facts below are vacuous)
        for x in define(t.e, z3.IntVal(0)):
            c.assume(x)
        c.prove("_next_chunk_starts/post: next start of each chunk is the number of rows up to its end", Eq(res.at(t), P(t.e)), cut=False)
        c.prove("_next_chunk_starts/post: no row beyond", z3.And(P(t.e) >= 0, P(t.e) <= n.e), cut=False)

    def run2(T):
        """Same call, postconditions on counts."""
        c = core.CTX
        f = T.fn(SM, "_next_chunk_starts")
        n, E = new_int("n", 1), new_int("E", 0)
        data, edges = Arr.fresh("data", n, DT_FLOAT), Arr.fresh("edges", E, DT_FLOAT)
        df, ef = data.snapshot(), edges.snapshot()
        right = new_bool("right")
        P, nn = c.fresh_fun("P", INT, INT), c.fresh_fun("nn", INT, INT)
        t = new_int("t", 0)
        X = lambda i: lit(df(Num(i)))  # noqa: E731
        W = lambda i: lit(ef(Num(i)))  # noqa: E731
        within = lambda i, b: z3.If(right.e, X(i) <= W(b), X(i) < W(b))  # noqa: E731

        def define(b, i):
            return [z3.Implies(z3.And(b >= 0, b < E.e), z3.And(P(b) >= 0, P(b) <= n.e)),
                    z3.Implies(z3.And(b >= 0, b < E.e, i >= 0, i < n.e), within(i, b) == (i < P(b)))]

        def facts(k):
            out = []
            for i in (z3.IntVal(0), n.e - 1, P(k), P(k - 1), P(k) - 1, P(k - 1) - 1):
                out += define(k, i) + define(k - 1, i)
            out.append(z3.Implies(z3.And(k >= 1, k < E.e), W(k - 1) <= W(k)))
            return out

        c.assume(nn(0) == 0)
        st.update(n=n.e, E=E, t=t, P=P, nn=nn, within=within, edges=edges.buf, data=data.buf, facts=facts)
        st["def"] = define
        st["facts"] = facts
        for x in facts(E.e):
            c.assume(x)
        r = T.call(f, data, edges, right)
        if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Arr)):
            raise Unsupported("result of another shape")
        res, nnull, trav = r
        trav = zbool(trav)
        m = lit(res.n)
        c.prove("_next_chunk_starts/post: data traversed iff the last chunk returned holds the last row",
                z3.And(z3.Implies(trav, z3.And(m >= 1, P(m - 1) == n.e)), z3.Implies(z3.Not(trav), z3.And(m == E.e, z3.Or(m == 0, P(m - 1) < n.e)))))
        c.prove("_next_chunk_starts/post: chunks returned are the first ones", z3.And(m >= 0, m <= E.e))
        c.prove("_next_chunk_starts/post: chunks before the last do not hold the last row", z3.Implies(z3.And(t.e < m - 1), P(t.e) < n.e))
        c.prove("_next_chunk_starts/post: number of empty chunks", Eq(nnull, nn(m)))
        q = new_int("q", 0)
        c.prove("_next_chunk_starts/post: data and chunk ends are not modified", z3.And(Eq(data.at(q), X(q.e)), Eq(edges.at(q), W(q.e))))

    mk = lambda name, r: Target(name, [f"{SM}._next_chunk_starts"], r, specs, unrollable=False,  # noqa: E731
                                assumptions=["rows and chunk ends ascend (precondition, guaranteed by the callers' contract)", "values are compared as mathematical numbers"])
    return [mk("_next_chunk_starts (positions)", run), mk("_next_chunk_starts (counts)", run2)]


# ---- by_x_rows -----------------------------------------------------------------------------------------
def bxr_target(closed, restart):
    def run(T):
        c = core.CTX
        f = T.fn(SM, "by_x_rows")
        m = T.rt.load(SM).ns
        N, by = new_int("N", 1), new_int("by", 1)
        on = Ser(Arr.fresh("on", N, DT_FLOAT))
        onf = on.a.snapshot()
        ON = lambda i: lit(onf(Num(i)))  # noqa: E731
        r = z3.IntVal(0)
        buffer = None
        lab, lend = new_real("last_label"), new_real("last_end")
        if restart == "empty":
            buffer = {}
        if restart == "restart":
            rr = new_int("rows_in_prev", 1)
            c.assume(rr.e <= by.e)
            r = rr.e
            buffer = {m["KEY_RESTART_KEY"]: rr, m["KEY_LAST_BIN_LABEL"]: lab}
            if closed == "right":
                buffer[m["KEY_LAST_BIN_END"]] = lend
        re = restart == "restart"
        b, n = by.e, N.e
        out = T.call(f, on, by, closed, buffer)
        if not (isinstance(out, tuple) and len(out) == 6 and isinstance(out[0], Arr)):
            raise Unsupported("result of another shape")
        ncs, labels, nnull, cl, ends, unk = out
        # specification: bins of exactly `by` rows counted from the start of the stream
        # first end of bin in this chunk; an empty bin comes first if the previous one was full
        full = z3.And(z3.BoolVal(re), r == b)
        first = z3.If(full, z3.IntVal(0), b - r)
        end = lambda j: z3.If(first + j * b > n, n, first + j * b)  # noqa: E731
        L = lit(ncs.n)
        j = new_int("j", 0)
        c.assume(j.e < L)
        jb = j.e * b
        # products with `by` at the positions at stake (instances of arithmetic laws)
        for x in (L - 1, L - 2, j.e, j.e - 1):
            c.assume((x + 1) * b == x * b + b)
            c.assume(z3.Implies(x >= 0, x * b >= 0))
        c.assume(z3.Implies(j.e < L - 1, (L - 2) * b >= jb))
        nm = f"by_x_rows[{closed},{restart}]"
        c.prove(f"{nm}/post: at least one bin", L >= 1)
        c.prove(f"{nm}/post: the last bin ends with the data", Eq(ncs.at(Num(L - 1)), n), cut=False)
        c.prove(f"{nm}/post: as many bins as needed, no more", z3.And(first + (L - 1) * b >= n, z3.Implies(L >= 2, first + (L - 2) * b < n)))
        c.prove(f"{nm}/post: ends of bins are every `by` rows from the start of the stream", Eq(ncs.at(j), end(j.e)), cut=False)
        st = z3.If(j.e == 0, z3.IntVal(0), end(j.e - 1))
        cont = z3.And(z3.BoolVal(re), j.e == 0)
        c.prove(f"{nm}/post: one label per bin", Eq(labels.a.n, L))
        c.prove(f"{nm}/post: label of a bin is its first value (kept for a continued bin)",
                Eq(labels.a.at(j), z3.If(cont, lab.e, ON(st))), cut=False)
        c.prove(f"{nm}/post: number of empty bins", Eq(nnull, z3.If(full, z3.IntVal(1), z3.IntVal(0))), cut=False)
        c.prove(f"{nm}/post: one end per bin", Eq(ends.a.n, L))
        last = z3.If(L == 1, z3.If(full, r, r + n), n - end(L - 2))
        if closed == "right":
            c.prove(f"{nm}/post: end of a bin is its last value", Eq(ends.a.at(j), z3.If(z3.And(full, j.e == 0), lend.e, ON(end(j.e) - 1))), cut=False)
            c.prove(f"{nm}/post: last end is known iff the last bin is complete", Iff(unk, last != b), cut=False)
        else:
            c.prove(f"{nm}/post: end of a bin (but the last) is the first value after it",
                    z3.Implies(j.e < L - 1, Eq(ends.a.at(j), ON(end(j.e)))), cut=False)
            c.prove(f"{nm}/post: last end is unknown", zbool(unk), cut=False)
        c.prove(f"{nm}/post: closed side", z3.BoolVal(cl == closed))
        if buffer is not None:
            c.prove(f"{nm}/post: rows of the last bin are recorded for the next call", Eq(buffer[m["KEY_RESTART_KEY"]], last), cut=False)
            c.prove(f"{nm}/post: recorded number of rows is that of a non-empty bin", And(buffer[m["KEY_RESTART_KEY"]] >= 1, buffer[m["KEY_RESTART_KEY"]] <= by), cut=False)
            c.prove(f"{nm}/post: label of the last bin is recorded", Eq(buffer[m["KEY_LAST_BIN_LABEL"]], labels.a.at(Num(L - 1))), cut=False)
            if closed == "right":
                c.prove(f"{nm}/post: end of the last bin is recorded", Eq(buffer[m["KEY_LAST_BIN_END"]], ON(n - 1)), cut=False)
        q = new_int("q", 0)
        c.prove(f"{nm}/post: data not modified", Eq(on.a.at(q), ON(q.e)), cut=False)

    return Target(f"by_x_rows[{closed},{restart}]", [f"{SM}.by_x_rows"], run, {}, tables=dict(pandas=PANDAS),
                  assumptions=["pandas Series: iloc, reset_index(drop), concat act by position (models_pd.py)"])


# ---- mergesort -----------------------------------------------------------------------------------------
def mergesort_target(force, sub):
    def run(T):
        c = core.CTX
        f = T.fn(SM, "mergesort")
        n1, n2 = new_int("n1", 0), new_int("n2", 1 if force else 0)
        k1, k2 = Arr.fresh("k1", n1, DT_FLOAT), Arr.fresh("k2", n2, DT_FLOAT)
        l1, l2 = Arr.fresh("l1", n1, DT_FLOAT), Arr.fresh("l2", n2, DT_FLOAT)
        s1, s2 = Arr.fresh("s1", n1, DT_INT), Arr.fresh("s2", n2, DT_INT)
        K1, K2, L1, L2, S1, S2 = ((lambda g: (lambda i: lit(g(Num(i)))))(x.snapshot()) for x in (k1, k2, l1, l2, s1, s2))
        a, b = n1.e, n2.e
        c.assume(forall("i", lambda i: forall("j", lambda j: K1(i.e) <= K1(j.e), i, n1), 0, n1))
        c.assume(forall("i", lambda i: forall("j", lambda j: K2(i.e) <= K2(j.e), i, n2), 0, n2))
        if sub:
            c.assume(forall("i", lambda i: forall("j", lambda j: S1(i.e) <= S1(j.e), i, n1), 0, n1))
            c.assume(forall("i", lambda i: forall("j", lambda j: S2(i.e) <= S2(j.e), i, n2), 0, n2))
            out = T.call(f, (l1, l2), (k1, k2), force, (s1, s2))
        else:
            out = T.call(f, (l1, l2), (k1, k2), force)
        if not (isinstance(out, tuple) and len(out) == 2 and all(isinstance(x, Arr) for x in out)):
            raise Unsupported("result of another shape")
        lab, ins = out
        nm = f"mergesort[{'forced' if force else 'plain'}{',sub-keys' if sub else ''}]"
        tot = a + b
        c.prove(f"{nm}/post: as many labels", Eq(lab.n, tot))
        idx = lambda q: lit(ins.at(Num(q)))  # noqa: E731
        u, v = new_int("u", 0), new_int("v", 0)
        c.prove(f"{nm}/post: insertion positions within the result", Implies(And(u < ins.n), z3.And(idx(u.e) >= 0, idx(u.e) < tot)))
        c.prove(f"{nm}/post: insertion positions ascend", Implies(And(u < v, v < ins.n), idx(u.e) < idx(v.e)))
        # witness of the permutation, given by the sort
        perm = [x for x in c.heap if hasattr(x, "perm")]
        if len(perm) != 1:
            raise Unsupported("no single sort: the witness of the permutation is not available")
        p, q = perm[0].perm
        if force:
            p0, q0 = p, q
            p = lambda i: z3.If(i == tot - 1, tot - 1, p0(i))  # noqa: E731
            q = lambda i: z3.If(i == tot - 1, tot - 1, q0(i))  # noqa: E731
        i, j = new_int("i", 0), new_int("j", 0)
        cat = lambda x, A, B: z3.If(x < a, A(x), B(x - a))  # noqa: E731
        c.prove(f"{nm}/post: each label of the inputs once (position is a bijection)",
                Implies(And(i < tot), z3.And(p(i.e) >= 0, p(i.e) < tot, q(p(i.e)) == i.e, p(q(i.e)) == i.e)), cut=False)
        c.assume(i.e < tot)
        c.assume(j.e < tot)
        c.prove(f"{nm}/post: labels are those of the inputs", Eq(lab.at(Num(i.e)), cat(p(i.e), L1, L2)), cut=False)
        ki, kj = cat(p(i.e), K1, K2), cat(p(j.e), K1, K2)
        si, sj = cat(p(i.e), S1, S2), cat(p(j.e), S1, S2)
        tie = p(i.e) < p(j.e)
        if sub:
            tie = z3.Or(si < sj, z3.And(si == sj, tie))
        c.prove(f"{nm}/post: keys ascend, then sub-keys, then the first input comes first",
                z3.Implies(z3.And(i.e < j.e, z3.BoolVal(not force) if not force else j.e < tot - 1),
                           z3.Or(ki < kj, z3.And(ki == kj, tie))), cut=False)
        c.prove(f"{nm}/post: insertion positions are those of the second input",
                z3.And(z3.Implies(z3.And(u.e < lit(ins.n)), p(idx(u.e)) >= a)), cut=False)
        if force:
            c.prove(f"{nm}/post: the last label of the second input comes last", Eq(lab.at(Num(tot - 1)), L2(b - 1)), cut=False)
        sel = [x for x in [ins.buf] if hasattr(x, "sel")]
        if sel:
            pos, inv = sel[0].sel
            c.prove(f"{nm}/post: every item of the second input has an insertion position",
                    z3.Implies(p(i.e) >= a, z3.And(inv(i.e) >= 0, inv(i.e) < lit(ins.n), idx(inv(i.e)) == i.e)), cut=False)

    return Target(f"mergesort[{'forced' if force else 'plain'}{',sub-keys' if sub else ''}]", [f"{SM}.mergesort"], run, {}, tables=dict(pandas=PANDAS),
                  assumptions=["numpy.lexsort is a stable sorting permutation, its last key being the first one compared", "numpy.nonzero lists positions in ascending order"])


NCS = ncs_target()
BXR = [bxr_target(cl, r) for cl in ("left", "right") for r in ("none", "empty", "restart")]
MS = [mergesort_target(f, s) for f in (False, True) for s in (False, True)]
TARGETS = {"C11": NCS, "C12": BXR, "C14": BXR, "C13": MS}
