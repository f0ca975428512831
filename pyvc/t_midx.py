"""Contracts of to_midx and check_cmidx (C08)."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Name, Not, Num, Obj, Or, PathEnd, SBool, SVal, Unsupported, BOOL, INT, REAL, VAL, lit, new_int, new_val, val_lit, val_of, zbool
from models import FMT, Mapped, Seq, VList
from models_pd import PANDAS
from target import Target

UW = "oups.store.writer"


class MIdx:
    """pandas MultiIndex made from tuples."""

    def __init__(self, tuples, names):
        self.tuples, self.vnames = tuples, names


class Tup(Seq):
    """tuple of symbolic length."""

    py = ("tuple",)

    def __init__(self, n, get):
        super().__init__(n, get)


def seq_of(x):
    if hasattr(x, "vc_item"):
        return x.vc_len(), x.vc_item
    if isinstance(x, (tuple, list)):
        from models import join_seqs

        s = join_seqs([x])
        return s.n, s.get
    raise Unsupported("not a sequence")


def midx_target(given):
    nm = f"to_midx[{'levels given' if given else 'no levels'}]"
    st = {}

    def mk_elem():
        c = core.CTX
        ln, it = c.fresh_fun("tlen", INT, INT), c.fresh_fun("titem", INT, INT, VAL)
        return lambda k: Tup(Num(ln(lit(k))), lambda j: SVal(it(lit(k), lit(j))))

    def specs(L):
        if L.it is not st.get("idx"):
            return None

        def inv(S):
            k, M, TL, TI, w, v = S.k.e, st["M"], st["TL"], st["TI"], st["w"], st["v"]
            d = {}
            ls = [x for x in S._l.values() if isinstance(x, VList) and x.birth in core.CTX.havoc_sets.get(S.L.hkey, ())]
            for q, x in enumerate(ls):
                n = x.vc_len() if x.s is not None else len(x)
                d[f"one tuple per name ({q})"] = Eq(n, S.k)
                if x.s is None:
                    continue
                tn, tg = seq_of(x.vc_item(Num(w)))
                d[f"number of parts of a name ({q})"] = z3.Implies(w < k, lit(tn) == TL(w))
                d[f"parts of a name ({q})"] = z3.Implies(z3.And(w < k, v < TL(w)), val_of(tg(Num(v))) == TI(w, v))
            for x in ("max_levels",):
                if S.has(x):
                    d["largest number of parts so far"] = Eq(S.max_levels, Num(M(k)))
            d["not below the number of parts of a name"] = z3.Implies(w < k, TL(w) <= M(k))
            return d

        return LoopSpec(inv, elem=mk_elem, unfold=lambda S: st["facts"](S.k.e))

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(UW, "to_midx")
        ns = T.rt.load(UW).ns
        N = new_int("N", 0)
        NAME, ERR, ISTUP = c.fresh_fun("NAME", INT, VAL), c.fresh_fun("not a literal", VAL, BOOL), c.fresh_fun("tuple literal", VAL, BOOL)
        LEN, ITEM = c.fresh_fun("parts", VAL, INT), c.fresh_fun("part", VAL, INT, VAL)
        TL = lambda i: z3.If(z3.And(z3.Not(ERR(NAME(i))), ISTUP(NAME(i))), LEN(NAME(i)), z3.IntVal(1))  # noqa: E731
        TI = lambda i, j: z3.If(z3.And(z3.Not(ERR(NAME(i))), ISTUP(NAME(i))), ITEM(NAME(i), j), NAME(i))  # noqa: E731
        M = c.fresh_fun("most parts", INT, INT)
        w, v = c.fresh("w", INT), c.fresh("v", INT)  # any name, any level
        x = z3.Const("x!lit", VAL)
        c.assume(z3.ForAll([x], LEN(x) >= 0, patterns=[LEN(x)]))
        c.assume(z3.And(0 <= w, w < N.e, v >= 0))
        c.assume(M(0) == 0)

        def facts(k):
            return [z3.Implies(k < N.e, M(k + 1) == z3.If(M(k) < TL(k), TL(k), M(k))), M(k) >= 0]

        idx = Mapped(N, lambda k: Name(NAME(lit(k))))

        def literal_eval(s):
            s = val_of(s)
            if c.branch(ERR(s)):
                if c.branch(c.fresh("which error", BOOL)):
                    raise SyntaxError("not a literal")
                raise ValueError("not a literal")
            if c.branch(ISTUP(s)):
                return Tup(Num(LEN(s)), lambda j: SVal(ITEM(s, lit(j))))
            return SVal(c.fresh("other literal", VAL))

        made = []

        class MultiIndex:
            @staticmethod
            def from_tuples(tuples, sortorder=None, names=None):
                n, g = seq_of(tuples)
                made.append((n, g, seq_of(names)))
                return MIdx(tuples, names)

        ns.update(literal_eval=literal_eval, MultiIndex=MultiIndex)
        LV = c.fresh_fun("LEVEL", INT, VAL)
        nl = new_int("nlevels", 0)
        lv = Seq(nl, lambda k: SVal(LV(lit(k)))) if given else None
        l0 = (lv.n, lv.get) if given else None
        st.update(idx=idx, N=N, M=M, TL=TL, TI=TI, w=w, v=v, facts=facts)
        r = T.call(f, idx, lv)
        c.prove(f"{nm}/post: a multi-index is made from tuples, once", z3.BoolVal(isinstance(r, MIdx) and len(made) == 1))
        n, g, (nn, ng) = made[0]
        c.prove(f"{nm}/post: as many columns as names", lit(n) == N.e, cut=False)
        tn, tg = seq_of(g(Num(w)))
        c.prove(f"{nm}/post: every tuple has as many parts as the longest name", lit(tn) == M(N.e), cut=False)
        val = val_of(tg(Num(v)))
        c.prove(f"{nm}/post: parts of a name in order, the others empty",
                z3.Implies(v < M(N.e), val == z3.If(v < TL(w), TI(w, v), val_lit(""))), cut=False)
        given_n = nl.e if given else z3.IntVal(0)
        c.prove(f"{nm}/post: a name for each level, at least", lit(nn) == z3.If(given_n < M(N.e), M(N.e), given_n), cut=False)
        lname = val_of(ng(Num(v)))
        if given:
            c.prove(f"{nm}/post: names of levels as given", z3.Implies(v < nl.e, lname == LV(v)), cut=False)
            c.prove(f"{nm}/post: the list of the caller is not modified", z3.BoolVal(lv.n is l0[0] and lv.get is l0[1]), cut=False)
        from models import fstr

        c.prove(f"{nm}/post: names of the other levels", z3.Implies(z3.And(given_n <= v, v < M(N.e)), lname == val_of(fstr(((False, "l"), (True, Num(v)))))), cut=False)

    return Target(nm, [f"{UW}.to_midx"], run, specs, tables=dict(pandas=PANDAS), unrollable=False,
                  assumptions=["ast.literal_eval: value of a literal, or ValueError / SyntaxError",
                               "pandas MultiIndex.from_tuples keeps tuples and names, and refuses names not matching the length of the tuples"])


def check_target():
    st = {}

    def specs(L):
        c = core.CTX
        if L.it is st.get("levels"):
            return LoopSpec(lambda S: {"levels before have only texts": z3.Implies(st["a"] < S.k.e, st["TEXT"](st["a"], st["b"]))})
        if isinstance(L.it, Mapped) and hasattr(L.it, "lev"):
            a = L.it.lev
            return LoopSpec(lambda S: {"names before are texts": z3.Implies(z3.And(st["a"] == a, st["b"] < S.k.e), st["TEXT"](st["a"], st["b"])),
                                       "levels before have only texts": z3.Implies(st["a"] < a, st["TEXT"](st["a"], st["b"]))})
        return None

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(UW, "check_cmidx")
        L = new_int("L", 0)
        LEN, VALU, TEXT = c.fresh_fun("size", INT, INT), c.fresh_fun("name", INT, INT, VAL), c.fresh_fun("is text", INT, INT, BOOL)
        NM = c.fresh_fun("level name", INT, VAL)
        a, b = c.fresh("a", INT), c.fresh("b", INT)
        c.assume(z3.And(0 <= a, a < L.e, 0 <= b, b < LEN(a)))

        class Item(SVal):
            __slots__ = ("t",)

            @property
            def py(self):
                return ("str",) if c.branch(self.t) else ("int",)

        def item(i, j):
            x = Item(VALU(i, j))
            x.t = TEXT(i, j)
            return x

        def level(k):
            k = lit(k)
            m = Mapped(Num(LEN(k)), lambda j: item(k, lit(j)))
            m.lev = k
            c.assume(LEN(k) >= 0)
            return m

        class CM:
            names = Seq(L, lambda k: core.NVal(NM(lit(k))))
            levels = Mapped(L, level)

        st.update(levels=CM.levels, a=a, b=b, TEXT=TEXT)
        none = z3.Exists([z3.Int("q!n")], z3.And(z3.Int("q!n") >= 0, z3.Int("q!n") < L.e, NM(z3.Int("q!n")) == val_lit(None)))
        try:
            T.call(f, CM(), expect=(ValueError, TypeError))
        except ValueError:
            c.prove("check_cmidx/post: names of levels refused only if one is missing", none, cut=False)
            return
        except TypeError:
            i, j = z3.Ints("i!t j!t")
            c.prove("check_cmidx/post: names refused only if one is not a text",
                    z3.Exists([i, j], z3.And(0 <= i, i < L.e, 0 <= j, j < LEN(i), z3.Not(TEXT(i, j)))), cut=False)
            return
        c.prove("check_cmidx/post: accepted only if all levels are named", z3.Not(none), cut=False)
        c.prove("check_cmidx/post: accepted only if all names are texts", TEXT(a, b), cut=False)

    return Target("check_cmidx", [f"{UW}.check_cmidx"], run, specs, tables=dict(pandas=PANDAS))


MIDX = [midx_target(False), midx_target(True), check_target()]
TARGETS = {"C08": MIDX}
