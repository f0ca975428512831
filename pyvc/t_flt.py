"""Contract of the row filters (C16)."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Not, Num, Or, Unsupported, lit, new_int, new_val, zbool, INT, BOOL, VAL, SVal, SBool, val_lit
from models import Arr, Seq
from models_pd import PANDAS, Frame, ROW, ISIN
from target import Target

UM = "oups.aggstream.utils"


def filter_target():
    st = {}

    def specs(L):
        it = L.it
        if it is st.get("filters"):
            DISJ, CONJ = st["DISJ"], st["CONJ"]

            def inv(S):
                out = [v for v in S._l.values() if isinstance(v, Arr)]
                d = {"length": Eq(S.out.n, st["n"]), "disjunction so far": Iff(S.out.at(st["i"]), DISJ(S.k.e))}
                return d

            return LoopSpec(inv, unfold=lambda S: [DISJ(S.k.e + 1) == z3.Or(DISJ(S.k.e), CONJ(S.k.e, lit(st["nc"](S.k))))])
        if isinstance(it, Seq) and hasattr(it, "orpart"):
            o, CONJ = it.orpart, st["CONJ"]

            def inv(S):
                d = {"length": Eq(S.and_part.n, st["n"]), "conjunction so far": Iff(S.and_part.at(st["i"]), CONJ(o, S.k.e))}
                return d

            return LoopSpec(inv, unfold=lambda S: [CONJ(o, S.k.e + 1) == z3.And(CONJ(o, S.k.e), st["sat"](o, S.k.e))])
        return None

    def run(T):
        c = core.CTX
        f = T.fn(UM, "dataframe_filter")
        n, F = new_int("n", 0), new_int("F", 1)
        CELL = c.fresh_fun("cell", VAL, ROW, VAL)
        R = c.fresh_fun("row", INT, ROW)
        df = Frame(n, lambda k: core.SVal(R(lit(k))), lambda nm, r: SVal(CELL(core.val_of(nm), r.e)))
        NC = c.fresh_fun("nconds", INT, INT)
        NAME, OP, V = (c.fresh_fun(x, INT, INT, VAL) for x in ("name", "op", "val"))
        DISJ, CONJ = c.fresh_fun("disj", INT, BOOL), c.fresh_fun("conj", INT, INT, BOOL)
        i = new_int("i", 0)
        c.assume(i.e < n.e)
        TRUTH = c.fresh_fun("truth", VAL, BOOL)

        def orpart(k):
            o = lit(k)
            m = Num(NC(o))
            c.assume(m.e >= 0)
            s = Seq(m, lambda q: (SVal(NAME(o, lit(q))), SVal(OP(o, lit(q))), SVal(V(o, lit(q)))))
            s.orpart = o
            return s

        filters = Seq(F, orpart)
        LT, LE = core.VAL_LT, core.VAL_LE

        def sat(o, q):
            op, x, v = OP(o, q), CELL(NAME(o, q), R(i.e)), V(o, q)
            is_ = lambda *ss: z3.Or(*[op == val_lit(s) for s in ss])  # noqa: E731
            r = z3.If(is_("~"), z3.Not(TRUTH(x)), z3.BoolVal(False))
            for s, g in (("in", ISIN(x, v)), ("not in", z3.Not(ISIN(x, v))), ("==", x == v), ("=", x == v), ("!=", x != v),
                         ("<", LT(x, v)), (">", LT(v, x)), ("<=", LE(x, v)), (">=", LE(v, x))):
                r = z3.If(is_(s), g, r)
            return r

        core.SVal.truth = TRUTH
        c.assume(z3.Not(DISJ(0)))
        o = z3.Int("o!f")
        c.assume(z3.ForAll([o], CONJ(o, 0)))
        st.update(n=n, filters=filters, DISJ=DISJ, CONJ=CONJ, i=i, nc=lambda k: NC(lit(k)), sat=sat)
        try:
            out = T.call(f, df, filters, expect=(ValueError,))
        except ValueError as e:
            # refused: some operator is unknown
            ops_ = ("in", "not in", "==", "=", "!=", "<", ">", "<=", ">=", "~")
            loops = [L for L in core.CTX.__dict__.get("last_loops", [])]
            k = st.get("at")
            o_, q_ = st.get("pos", (None, None))
            oo, qq = z3.Ints("oo qq")
            known = z3.ForAll([oo, qq], z3.Implies(z3.And(oo >= 0, oo < F.e, qq >= 0, qq < NC(oo)), z3.Or(*[OP(oo, qq) == val_lit(s) for s in ops_])))
            c.prove("dataframe_filter/post: refused only if an operator is unknown", z3.Not(known), cut=False)
            return
        if not isinstance(out, Arr):
            raise Unsupported("result of another kind")
        c.prove("dataframe_filter/post: one flag per row", Eq(out.n, n))
        c.prove("dataframe_filter/post: a row is kept iff it satisfies all conditions of one list at least", Iff(out.at(i), DISJ(F.e)), cut=False)
        nm, q = new_val("nm"), new_int("q", 0)
        c.prove("dataframe_filter/post: the dataframe is not modified", And(Eq(df.n, n), df.col(nm).a.at(q).e == CELL(nm.e, R(q.e))), cut=False)

    return Target("dataframe_filter", [f"{UM}.dataframe_filter"], run, specs, tables=dict(pandas=PANDAS),
                  assumptions=["values of columns are opaque: comparisons are those of numpy elementwise (order uninterpreted), isin by position",
                               "zeros, ones, and in-place and / or act elementwise (models.py)"])


TARGETS = {"C16": [filter_target()]}
