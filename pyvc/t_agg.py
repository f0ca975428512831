"""Contracts of the aggregation functions and of the single-pass aggregation loop."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Not, Num, Or, Unsupported, lit, new_bool, new_int, wrap, zbool, forall, INT, REAL, ite
from models import Arr, Mat, NDEnum, Seq, Obj, DT_FLOAT, DT_INT, fresh_buf
from target import Target, lemma

JM = "oups.aggstream.jcumsegagg"
OPS = {
    "jfirst": lambda x, y: x,
    "jlast": lambda x, y: y,
    "jmax": lambda x, y: z3.If(y > x, y, x),
    "jmin": lambda x, y: z3.If(y < x, y, x),
    "jsum": lambda x, y: x + y,
}


def agg_target(fname):
    op = OPS[fname]
    st = {}

    def specs(L):
        J, a0, G = st["J"], st["a0"], st["G"]
        if isinstance(L.it, Mat):
            k0 = lit(L.it.roff)

            def inv(S):
                i = k0 + S.k.e
                return {
                    "fold": Eq(S.res.at(J), G(i)),
                    "rows to come unchanged": forall("i", lambda i: Eq(L.it.at(i, J), a0(lit(i) + k0, J.e)), 0, L.it.n),
                }

            return LoopSpec(inv, unfold=lambda S: [G(k0 + S.k.e + 1) == op(G(k0 + S.k.e), a0(k0 + S.k.e, J.e))])
        if isinstance(L.it, (NDEnum, Arr)):
            ar = L.it.a if isinstance(L.it, NDEnum) else L.it
            row = lit(ar.row) if ar.row is not None else None
            if row is None:
                return None
            outer = core.CTX.active_loops[-1] if core.CTX.active_loops else None

            def inv(S):
                d = {"fold of this row": Eq(S.res.at(J), z3.If(S.k.e > J.e, op(G(row), a0(row, J.e)), G(row)))}
                if outer is not None and isinstance(outer.it, Mat):
                    k0 = lit(outer.it.roff)
                    d["rows to come unchanged"] = forall("i", lambda i: Eq(outer.it.at(i, J), a0(lit(i) + k0, J.e)), 0, outer.it.n)
                return d

            return LoopSpec(inv)
        return None

    def run(T):
        c = core.CTX
        f = T.fn(JM, fname)
        n, m = new_int("n", 0), new_int("m", 0)
        ar = Mat.fresh("ar", n, m)
        a = ar.snapshot()
        initial = Arr.fresh("initial", m, DT_FLOAT)
        use = new_bool("use_init")
        J = new_int("J", 0)
        c.assume(J.e < m.e)
        G = c.fresh_fun("fold", INT, REAL)
        st.update(J=J, G=G, a0=lambda i, j: lit(a(Num(i), Num(j))))
        i0 = lit(initial.at(J))
        c.assume(z3.If(use.e, G(0) == i0, G(1) == lit(a(Num(lit(0)), J))))
        # unfolding of the fold at the last row
        un = lambda i: z3.Implies(z3.And(i >= z3.If(use.e, z3.IntVal(0), z3.IntVal(1)), i < n.e), G(i + 1) == op(G(i), st["a0"](i, J.e)))  # noqa: E731
        if fname == "jlast":
            c.assume(un(n.e - 1))
        if fname == "jfirst":
            # lemma (induction): the fold of 'first' is its initial value
            s = z3.If(use.e, z3.IntVal(0), z3.IntVal(1))
            h = c.fresh("h", INT)
            c.prove("jfirst/lemma: fold of first is constant (base)", G(s) == G(s))
            c.prove("jfirst/lemma: fold of first is constant (step)",
                    z3.Implies(z3.And(h >= s, h < n.e, G(h) == G(s), un(h)), G(h + 1) == G(s)))
            c.assume(z3.Implies(n.e >= s, G(n.e) == G(s)))
        res = T.call(f, ar, initial, use)
        if not isinstance(res, Arr):
            raise Unsupported("result of another kind")
        c.prove(f"{fname}/post: one result per column", Eq(res.n, m))
        want = z3.If(z3.Or(use.e, n.e > 0), G(n.e), z3.RealVal(0))
        model_case = lambda mod: concretize(mod, fname, n, m, a, initial, i0, use, J)  # noqa: E731
        c.prove(f"{fname}/post: result is the fold over the rows (and the initial value, if used)", Eq(res.at(J), want), case=None)
        _ = model_case

    return Target(fname, [f"{JM}.{fname}"], run, specs,
                  assumptions=["floats are mathematical reals (no NaN, no rounding)", "parallel=True of numba does not change the meaning of the loops"])


def concretize(*a):
    return None


# ---- lemma: folding [s,m) then [m,e) is folding [s,e) ---------------------------------------------
def comb_run(T):
    c = core.CTX
    V = REAL
    F = c.fresh_fun("FOLD", V, INT, INT, V)  # FOLD(x, s, e)
    op = c.fresh_fun("op", V, V, V)
    a = c.fresh_fun("a", INT, V)
    x = c.fresh("x", V)
    s, m, e = (c.fresh(n, INT) for n in "sme")
    unf = lambda x, s, e: z3.Implies(s <= e, F(x, s, e + 1) == op(F(x, s, e), a(e)))  # noqa: E731
    base = lambda x, s: F(x, s, s) == x  # noqa: E731
    c.assume(z3.And(s <= m, m <= e))
    c.assume(base(F(x, s, m), m))
    c.prove("fold composition/base", z3.Implies(e == m, F(F(x, s, m), m, e) == F(x, s, e)), cut=False)
    c.assume(unf(F(x, s, m), m, e))
    c.assume(unf(x, s, e))
    c.prove("fold composition/step", z3.Implies(F(F(x, s, m), m, e) == F(x, s, e), F(F(x, s, m), m, e + 1) == F(x, s, e + 1)), cut=False)


# ---- jcsagg -----------------------------------------------------------------------------------------
class AggF:
    """Contract of the aggregation functions (proved by the targets above), function g of the request."""

    def __init__(self, g, st):
        self.g, self.st = g, st

    def __call__(self, ar, initial, use):
        c = core.CTX
        st = self.st
        if not isinstance(ar, Mat) or ar.origin is None or not isinstance(initial, Arr):
            raise Unsupported("aggregation function called on other than columns of a block of data")
        buf, roff, cols = ar.origin
        c.prove("jcsagg/call of an aggregation function: on the data", z3.BoolVal(buf is st["data"].buf))
        c.prove("jcsagg/call of an aggregation function: initial values, one per column", Eq(initial.n, ar.m))
        FOL, data = st["FOL"], st["d0"]
        n, s = lit(ar.n), lit(roff)
        init = initial.snapshot()
        u = zbool(use)
        g = lit(self.g)

        def get(j):
            col = lit(cols(j))
            return Num(z3.If(u, FOL(g, lit(init(j)), s, s + n, col),
                             z3.If(n > 0, FOL(g, data(s, col), s + 1, s + n, col), z3.RealVal(0))))

        # the function may work in place: its arguments are lost
        for b in (ar.buf, initial.buf):
            b.touch()
            b.havoc()
        # instances of the laws of the fold for the tracked column
        D = st["D"]
        x = lit(init(st["p"]))
        c.assume(FOL(g, x, s, s, D) == x)
        return Arr.of(get, ar.m, DT_FLOAT)


def jcsagg_target():
    st = {}

    def setup_specs(L):
        c = core.CTX
        if isinstance(L.it, NDEnum) and L.it.a.buf is st["NSbuf"]:
            def unfold(S):
                return st["unfold"](S.k.e) + st["comb_inst"](S.k.e) + st["mono"](S.k.e) + st["inst"](S.k.e)

            return LoopSpec(lambda S: st["inv"](S), unfold=unfold)
        if isinstance(L.it, Seq) and L.it is st["aggs"]:
            return LoopSpec(lambda S: st["inv_agg"](S), ghost=lambda S: lit(S.chunk_res.at(st["cst"])))
        return None

    def run(T):
        c = core.CTX
        f = T.fn(JM, "jcsagg")
        R, m, w = new_int("nrows", 0), new_int("ncols", 0), new_int("nres", 0)
        data = Mat.fresh("data", R, m)
        dsn = data.snapshot()
        d0 = lambda i, j: lit(dsn(Num(i), Num(j)))  # noqa: E731
        N = new_int("nchunks", 0)
        ns = Arr.fresh("next_chunk_starts", N)
        nsf = ns.snapshot()
        NS = lambda k: lit(nsf(Num(k)))  # noqa: E731
        # precondition: for all i, ascending chunk starts within the data (used by instances at the positions at stake)
        preNS = lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < N.e), z3.And(NS(i) >= 0, NS(i) <= R.e)),  # noqa: E731
                                 z3.Implies(z3.And(i >= 0, i + 1 < N.e), NS(i) <= NS(i + 1)))
        B = new_int("nbinidx", 0)
        bi = Arr.fresh("bin_indices", B)
        bif = bi.snapshot()
        BI = lambda k: lit(bif(Num(k)))  # noqa: E731
        # precondition: for all i, strictly ascending indices of bins among the chunks
        preBI = lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < B.e), z3.And(BI(i) >= 0, BI(i) < N.e)),  # noqa: E731
                                 z3.Implies(z3.And(i >= 0, i + 1 < B.e), z3.And(BI(i) < BI(i + 1), z3.Implies(i < B.e - 1, BI(i) < BI(B.e - 1)))))
        c.assume(z3.And(preBI(lit(0)), preBI(B.e - 1)))
        nsr, nbr = new_int("len_snap_res", 0), new_int("len_bin_res", 0)
        snap_res, bin_res = Mat.fresh("snap_res", nsr, w), Mat.fresh("bin_res", nbr, w)
        sr0, br0 = snap_res.snapshot(), bin_res.snapshot()
        lnb, lns = new_int("len_null_bin", 0), new_int("len_null_snap", 0)
        nbi, nsi = Arr.fresh("null_bin_indices", lnb), Arr.fresh("null_snap_indices", lns)
        nbi0, nsi0 = nbi.snapshot(), nsi.snapshot()
        chunk_res = Arr.fresh("chunk_res", w, DT_FLOAT)
        pres = new_bool("preserve_res")
        # aggregation request
        nG = new_int("naggs", 0)
        ncol = c.fresh_fun("ncol", INT, INT)
        CD, CR = c.fresh_fun("cols_data", INT, INT, INT), c.fresh_fun("cols_res", INT, INT, INT)
        i, j = z3.Int("i!q"), z3.Int("j!q")
        rngg = z3.And(i >= 0, i < nG.e, j >= 0, j < ncol(i))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nG.e), ncol(i) >= 0), patterns=[ncol(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(rngg, z3.And(CD(i, j) >= 0, CD(i, j) < m.e)), patterns=[CD(i, j)]))
        c.assume(z3.ForAll([i, j], z3.Implies(rngg, z3.And(CR(i, j) >= 0, CR(i, j) < w.e)), patterns=[CR(i, j)]))
        gst, pst, cst = (new_int(x, 0) for x in ("g", "p", "c"))
        c.assume(z3.And(gst.e < nG.e, pst.e < ncol(gst.e), CR(gst.e, pst.e) == cst.e))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(rngg, CR(i, j) == cst.e), z3.And(i == gst.e, j == pst.e)), patterns=[CR(i, j)]))
        D = CD(gst.e, pst.e)
        cdb, crb = core, core
        from models import Buf
        cdb = Buf(lambda g, k: Num(CD(lit(g), lit(k))), INT, 2)
        crb = Buf(lambda g, k: Num(CR(lit(g), lit(k))), INT, 2)
        aggs = Seq(nG, lambda g: (AggF(g, st), Arr(cdb, Num(ncol(lit(g))), 0, DT_INT, row=g), Arr(crb, Num(ncol(lit(g))), 0, DT_INT, row=g)))
        FOL = c.fresh_fun("FOLD", INT, REAL, INT, INT, INT, REAL)  # (function, x, s, e, column)
        # ghost counters
        nb, bs, nnb, nns = (c.fresh_fun(x, INT, INT) for x in ("nb", "bs", "nnb", "nns"))
        some = nsr.e != 0
        isb = lambda k: z3.Or(z3.Not(some), z3.And(nb(k) < B.e, BI(nb(k)) == k))  # noqa: E731
        null = lambda k: bs(k) == NS(k)  # noqa: E731
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))  # noqa: E731
        c.assume(z3.And(nb(0) == 0, bs(0) == z3.If(pres.e, z3.IntVal(-1), z3.IntVal(0)), nnb(0) == 0, nns(0) == 0))
        # room in the outputs (what the caller allocates)
        T_ = new_int("T", 0)  # an arbitrary chunk
        c.assume(T_.e < N.e)
        Q1, Q2 = new_int("Q1", 0), new_int("Q2", 0)  # arbitrary positions of the null index arrays
        c.assume(z3.And(Q1.e < lnb.e, Q2.e < lns.e) if False else z3.BoolVal(True))

        def unfold(k):
            return [z3.Implies(z3.And(k >= 0, k < N.e), z3.And(
                nb(k + 1) == nb(k) + one(isb(k)),
                bs(k + 1) == z3.If(isb(k), NS(k), bs(k)),
                nnb(k + 1) == nnb(k) + one(z3.And(isb(k), null(k))),
                nns(k + 1) == nns(k) + one(z3.And(z3.Not(isb(k)), null(k))),
                nb(k + 1) <= nbr.e, k + 1 - nb(k + 1) <= nsr.e, nnb(k + 1) <= lnb.e, nns(k + 1) <= lns.e))]

        for h in unfold(T_.e):
            c.assume(h)

        def inst(k):
            return [preNS(k - 1), preNS(k), preNS(k + 1), preBI(nb(k) - 1), preBI(nb(k)), preBI(nb(k) + 1)]

        for h in inst(T_.e):
            c.assume(h)
        # lemma (induction on j): the counters do not decrease
        hi, hj = c.fresh("i", INT), c.fresh("j", INT)
        cnt = {"bins": lambda k: nb(k), "snapshots": lambda k: k - nb(k), "empty bins": lambda k: nnb(k), "empty snapshots": lambda k: nns(k)}
        for nm, q in cnt.items():
            c.prove(f"jcsagg/lemma: counter of {nm} does not decrease", z3.Implies(
                z3.And(0 <= hi, hi <= hj, hj < N.e, q(hi) <= q(hj), *unfold(hj)), q(hi) <= q(hj + 1)), cut=False)

        def mono(k):
            t = T_.e
            out = []
            for q in cnt.values():
                for u, v in ((k + 1, t), (k, t), (t + 1, k), (t + 1, k + 1), (t, k)):
                    out.append(z3.Implies(z3.And(0 <= u, u <= v, v <= N.e), q(u) <= q(v)))
            return out
        cr0 = lit(chunk_res.at(cst))
        g = gst.e
        c.assume(FOL(g, cr0, 0, 0, D) == cr0)
        val = lambda b, e: z3.If(b == -1, FOL(g, cr0, 0, e, D), FOL(g, d0(b, D), b + 1, e, D))  # noqa: E731
        RES = lambda k: val(bs(k), NS(k))  # noqa: E731
        cs = lambda k: z3.If(k == 0, z3.IntVal(0), NS(k - 1))  # noqa: E731

        def comb_inst(k):
            b, mid, e = bs(k), cs(k), NS(k)
            return [FOL(g, FOL(g, cr0, 0, mid, D), mid, e, D) == FOL(g, cr0, 0, e, D),
                    z3.Implies(z3.And(0 <= b, b + 1 <= mid), FOL(g, FOL(g, d0(b, D), b + 1, mid, D), mid, e, D) == FOL(g, d0(b, D), b + 1, e, D)),
                    FOL(g, cr0, 0, 0, D) == cr0]

        def done(k, tag_bin, tag_snap, nbiA, nsiA):
            """What is recorded for the arbitrary chunk T once it is processed."""
            t = T_.e
            return {
                "bin result": z3.Implies(z3.And(k > t, isb(t), z3.Not(null(t))), lit(tag_bin.at(Num(nb(t)), cst)) == RES(t)),
                "snapshot result": z3.Implies(z3.And(k > t, z3.Not(isb(t)), z3.Not(null(t))), lit(tag_snap.at(Num(t - nb(t)), cst)) == RES(t)),
                "empty bin left as is": z3.Implies(z3.And(isb(t), null(t)), lit(tag_bin.at(Num(nb(t)), cst)) == lit(br0(Num(nb(t)), cst))),
                "empty snapshot left as is": z3.Implies(z3.And(z3.Not(isb(t)), null(t)), lit(tag_snap.at(Num(t - nb(t)), cst)) == lit(sr0(Num(t - nb(t)), cst))),
                "empty bin listed": z3.Implies(z3.And(k > t, isb(t), null(t)), lit(nbiA.at(Num(nnb(t)))) == nb(t)),
                "empty snapshot listed": z3.Implies(z3.And(k > t, z3.Not(isb(t)), null(t)), lit(nsiA.at(Num(nns(t)))) == t - nb(t)),
                "unused part of list of empty bins": z3.Implies(Q1.e >= nnb(k), lit(nbiA.at(Q1)) == lit(nbi0(Q1))),
                "unused part of list of empty snapshots": z3.Implies(Q2.e >= nns(k), lit(nsiA.at(Q2)) == lit(nsi0(Q2))),
            }

        def inv(S):
            k = S.k.e
            t = T_.e
            d = {
                "counters ordered": z3.And(
                    nb(k) >= 0, nb(k) <= k, nnb(k) >= 0, nns(k) >= 0, nnb(k) <= nb(k), nns(k) <= k - nb(k),
                    ),
                "bin start bounds": z3.And(bs(k) >= -1, bs(k) <= cs(k)),
                "chunk_start": Eq(S.chunk_start, cs(k)),
                "bin_start": Eq(S.bin_start, bs(k)),
                "bin counter": Eq(S.bin_res_idx, nb(k)),
                "snap counter": Eq(S.snap_res_idx, z3.If(some, k - nb(k), z3.IntVal(0))),
                "null bin counter": Eq(S.null_bin_idx, nnb(k)),
                "null snap counter": Eq(S.null_snap_idx, nns(k)),
                "preserve": Iff(S.preserve_res, z3.Or(bs(k) == -1, bs(k) < cs(k))),
                "running result": z3.Implies(z3.Or(bs(k) == -1, bs(k) < cs(k)), lit(chunk_res.at(cst)) == val(bs(k), cs(k))),
                "last result": z3.Implies(z3.And(k >= 1, z3.Not(null(k - 1))), lit(chunk_res.at(cst)) == RES(k - 1)),
                "no snapshot": z3.Implies(z3.Not(some), z3.And(nb(k) == k, nns(k) == 0)),
            }
            if S.has("is_update"):
                d["update flag"] = z3.Implies(z3.Not(some), Not(S.is_update))
            d["flag of snapshots"] = Iff(S.some_snaps, some)
            if S.has("next_bin_idx"):
                d["next bin"] = z3.Implies(B.e > 0, z3.And(
                    z3.Implies(nb(k) < B.e, z3.And(BI(nb(k)) >= k, Eq(S.next_bin_idx, BI(nb(k))))),
                    z3.Implies(nb(k) >= 1, BI(nb(k) - 1) < k),
                    z3.Implies(nb(k) == B.e, Eq(S.next_bin_idx, BI(B.e - 1))),
                    nb(k) <= B.e))
                d["no bin"] = z3.Implies(B.e == 0, z3.And(Eq(S.next_bin_idx, -1), nb(k) == 0))
            if S.has("iter_bin_indices"):
                d["bin iterator"] = Eq(S.iter_bin_indices.pos, z3.If(nb(k) < B.e, nb(k) + 1, B.e))
            d.update(done(k, bin_res, snap_res, nbi, nsi))
            return d

        def inv_agg(S):
            k = S.k.e
            outer = [L for L in c.active_loops if L.fname == "jcsagg" and isinstance(L.it, NDEnum)]
            if not outer:
                raise Unsupported("aggregation loop outside the loop over chunks")
            q = outer[-1].k.e
            s, e = cs(q), NS(q)
            new = z3.If(zbool(S.preserve_res), FOL(g, S.g, s, e, D), FOL(g, d0(s, D), s + 1, e, D))
            return {"column result": lit(S.chunk_res.at(cst)) == z3.If(k > g, new, S.g)}

        st.update(mono=mono, inst=inst, NSbuf=ns.buf, aggs=aggs, FOL=FOL, d0=d0, D=D, data=data, p=pst, cst=cst, unfold=unfold, comb_inst=comb_inst, inv=inv, inv_agg=inv_agg)
        T.call(f, data, aggs, ns, bi, pres, chunk_res, bin_res, snap_res, nbi, nsi)
        n = N.e
        for nm, fo in done(n, bin_res, snap_res, nbi, nsi).items():
            c.prove(f"jcsagg/post: {nm}", fo)
        c.prove("jcsagg/post: chunk_res holds the result of the last chunk (for the next call)",
                z3.Implies(z3.And(n >= 1, z3.Not(null(n - 1))), lit(chunk_res.at(cst)) == RES(n - 1)))
        r, q = new_int("r"), new_int("q")
        c.prove("jcsagg/post: data is not modified", Eq(data.at(r, q), d0(r.e, q.e)))
        c.prove("jcsagg/post: chunk starts are not modified", Eq(ns.at(r), NS(r.e)))
        c.prove("jcsagg/post: bin indices are not modified", Eq(bi.at(r), BI(r.e)))

    return Target("jcsagg", [f"{JM}.jcsagg"], run, setup_specs,
                  assumptions=["callers of the aggregation loop pass ascending chunk starts within the data, ascending bin indices, outputs with room for all bins and snapshots (stated as precondition)"])


JCS = jcsagg_target()
TARGETS = {
    "C10": [agg_target(f) for f in OPS] + [lemma("fold composition", comb_run), JCS],
    "C13": [JCS], "C14": [JCS],
}
