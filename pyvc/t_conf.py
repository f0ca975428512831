"""Contracts of the consolidation of settings (C20)."""
import z3

import core
from core import And, Eq, Implies, LoopSpec, NVal, Name, Not, Num, Or, PathEnd, SBool, SVal, Unsupported, BOOL, INT, VAL, lit, new_int, val_lit, val_of, zbool
from models import GONE, Mapped, SDict, SMap, VDict, key_expr
from models_pd import PANDAS
from target import Target

AM = "oups.aggstream.aggstream"
GM = "oups.aggstream.segmentby"


# ---- setup_segmentby -------------------------------------------------------------------------------
class TG:
    py = ("TimeGrouper",)

    def __init__(self, key, closed):
        self.key, self.closed = key, closed


def partial(f, **k):
    def g(**kk):
        raise Unsupported("call of the binning function")

    g.partial = (f, k)
    return g


def seg_target(kind):
    nm = f"setup_segmentby[{kind}]"

    def run(T):
        c = core.CTX
        f = T.fn(GM, "setup_segmentby")
        ns = T.rt.load(GM).ns
        ns["partial"] = partial
        opt = lambda n: Name(c.fresh(n, VAL)) if c.branch(c.fresh(n + " given", BOOL)) else None  # noqa: E731
        fun = lambda on, buffer=None: None  # noqa: E731
        K = opt("bin_by.key") if kind == "grouper" else None
        C1, C2 = Name(c.fresh("closed", VAL)), Name(c.fresh("snap closed", VAL))
        bb = TG(K, C1) if kind == "grouper" else fun if kind == "callable" else "something else"
        B, O = opt("bin_on"), opt("ordered_on")
        sk = c.choose(3)
        SK = opt("snap_by.key") if sk == 2 else None
        sb = None if sk == 0 else type("Series", (), {"py": ("Series",)})() if sk == 1 else TG(SK, C2)
        eq = lambda a, b: a.e == b.e  # noqa: E731
        # what is expected
        bad = []
        b, o = B, O
        if kind == "grouper":
            names = [x for x in (K, B, O) if x is not None]
            bad += [z3.Not(eq(x, y)) for i, x in enumerate(names) for y in names[:i]]
            if K is None and B is None:
                bad.append(z3.BoolVal(True))
            b = o = names[0] if names else None
        elif kind == "callable":
            if B is None and O is None:
                bad.append(z3.BoolVal(True))
        else:
            bad.append(z3.BoolVal(True))
        undecided = False
        if sk == 1 and o is None:
            bad.append(z3.BoolVal(True))
        if sk == 2:
            if SK is not None:
                if o is None:
                    o = SK
                else:
                    bad.append(z3.Not(eq(o, SK)))
            elif o is None:
                undecided = True  # snapshots without any ordering column: nothing claimed
            if kind == "grouper":
                bad.append(z3.Not(eq(C1, C2)))
        bad = z3.Or(*bad) if bad else z3.BoolVal(False)
        try:
            r = T.call(f, bb, B, O, sb, expect=(ValueError,))
        except ValueError:
            if not undecided:
                c.prove(f"{nm}/post: only contradictory or incomplete settings are refused", bad, cut=False)
            return
        c.prove(f"{nm}/post: contradictory or incomplete settings are refused", z3.Not(bad), cut=False)

        def is_(x, y):
            if x is None or y is None:
                return z3.BoolVal(x is None and y is None)
            return eq(x, y) if isinstance(x, SVal) else z3.BoolVal(False)

        c.prove(f"{nm}/post: bin column", is_(r[ns["KEY_BIN_ON"]], b), cut=False)
        c.prove(f"{nm}/post: ordering column", is_(r[ns["KEY_ORDERED_ON"]], o), cut=False)
        cols = r[ns["KEY_ON_COLS"]]
        if isinstance(cols, (list, tuple)):
            c.prove(f"{nm}/post: columns read by the binning function, two of them",
                    z3.BoolVal(False) if b is None or o is None or len(cols) != 2 else z3.And(is_(cols[0], b), is_(cols[1], o), z3.Not(eq(b, o))), cut=False)
        else:
            c.prove(f"{nm}/post: column read by the binning function",
                    is_(cols, b if b is not None else o) if b is None or o is None else z3.And(is_(cols, b), eq(b, o)), cut=False)
        c.prove(f"{nm}/post: observation rule", z3.BoolVal(r[ns["KEY_SNAP_BY"]] is (sb if sk == 2 else None)), cut=False)
        g = r[ns["KEY_BIN_BY"]]
        if kind == "callable":
            c.prove(f"{nm}/post: binning function of the caller", z3.BoolVal(g is bb), cut=False)
        else:
            p = getattr(g, "partial", None)
            if p is None:
                raise Unsupported("binning function of another kind")
            c.prove(f"{nm}/post: binning by time, with the grouper of the caller", z3.BoolVal(p[0] is ns["by_scale"] and set(p[1]) == {"by"} and p[1]["by"] is bb), cut=False)

    return Target(nm, [f"{GM}.setup_segmentby"], run, tables=dict(pandas=PANDAS, pandas__core__resample=dict(TimeGrouper=type("TimeGrouper", (), {}))),
                  assumptions=["functools.partial fixes the keyword arguments it is given"])


# ---- _init_keys_config -----------------------------------------------------------------------------
PAIR = z3.Function("pair", VAL, VAL, VAL)
ISPAIR = z3.Function("is a pair", VAL, BOOL)
FST, SND = z3.Function("first", VAL, VAL), z3.Function("second", VAL, VAL)
HASNAME = z3.Function("names an output", VAL, VAL, BOOL)
TIMES = z3.Function("megabytes", VAL, VAL)
TOINT = z3.Function("int of", VAL, VAL)


class PVal(NVal):
    """Value of a setting: any object, possibly None, possibly a pair."""

    __slots__ = ()

    @property
    def py(self):
        return ("tuple",) if core.CTX.branch(ISPAIR(self.e)) else ("object",)

    def __iter__(self):
        if not core.CTX.branch(ISPAIR(self.e)):
            raise Unsupported("iteration over a setting which is not a pair")
        return iter([PVal(FST(self.e)), PVal(SND(self.e))])

    def __getitem__(self, i):
        return list(self)[i]

    def __mul__(self, k):
        if not (isinstance(k, int) and k == 1048576):
            raise Unsupported("multiple of a setting")
        return PVal(TIMES(self.e))

    __rmul__ = __mul__

    def vc_int(self):
        return PVal(TOINT(self.e))

    def vc_contains(self, x):
        return SBool(HASNAME(self.e, val_of(x)))

    __hash__ = SVal.__hash__


class PMap(SMap):
    """Settings by name. Those of the caller must not change."""

    def __init__(self, has, val, n=None, key=None, pos=None, mkval=None):
        super().__init__(has, val, n, key, pos, PVal)
        self.owner = None

    def enc(self, v):
        if isinstance(v, tuple) and len(v) == 2:
            a, b = self.enc(v[0]), self.enc(v[1])
            p = PAIR(a, b)
            core.CTX.assume(z3.And(ISPAIR(p), FST(p) == a, SND(p) == b))
            return p
        return val_of(v)

    def touch(self):
        if self.owner:
            core.CTX.prove("_init_keys_config/frame: {self.owner} are not modified", False)
            raise PathEnd()
        super().touch()


class Marker:
    """State of a key at an earlier iteration: right, or not."""

    def __init__(self, ok):
        self.ok = ok


def conf_target(part):
    """Case analysis of the step of the loop over keys: the parts cover all keys."""
    nm = f"_init_keys_config[{part}]"
    st = {}

    class Key(SVal):
        __slots__ = ()

        @property
        def py(self):
            return ("tuple",) if core.CTX.branch(st["TWO"](self.e)) else ("Indexer",)

        __hash__ = SVal.__hash__

    def E(w):
        """Effective settings of the key at position w."""
        ns, H, V, HD, D = st["ns"], st["H"], st["V"], st["HD"], st["D"]
        L = lambda n: val_lit(ns[n])  # noqa: E731
        MB, MIB = L("KEY_MAX_IN_MEMORY_SIZE_MB"), L("KEY_MAX_IN_MEMORY_SIZE_B")

        def own(q):
            return z3.And(z3.If(q == MIB, z3.Or(H(w, q), H(w, MB)), H(w, q)), q != MB, q != L("KEY_BIN_BY"))

        def ownval(q):
            return z3.If(z3.And(q == MIB, H(w, MB)), TOINT(TIMES(V(w, MB))), V(w, q))

        has = lambda q: z3.Or(own(q), HD(q))  # noqa: E731
        val = lambda q: z3.If(own(q), ownval(q), D(q))  # noqa: E731
        bo = z3.If(has(L("KEY_BIN_ON")), val(L("KEY_BIN_ON")), val_lit(None))
        bin_on = z3.If(ISPAIR(bo), FST(bo), bo)
        out0 = z3.If(ISPAIR(bo), SND(bo), val_lit(None))
        args = (V(w, L("KEY_BIN_BY")), bin_on, st["seedon"].e, val(L("KEY_SNAP_BY")))
        sbo = st["SEGON"](*args)
        out = z3.If(z3.And(core.VAL_TRUTH(sbo), out0 == val_lit(None)), sbo, out0)
        return has, val, args, out

    def bad(w):
        has, val, args, out = E(w)
        ns, H = st["ns"], st["H"]
        q = z3.Const("q!bad", VAL)
        known = lambda q: z3.Or(*[q == val_lit(p) for p in sorted(ns["KEY_CONF_IN_PARAMS"])])  # noqa: E731
        return z3.Or(z3.Not(H(w, val_lit(ns["KEY_BIN_BY"]))), z3.Exists([q], z3.And(has(q), z3.Not(known(q)))), st["REFUSE"](*args),
                     HASNAME(val(val_lit(ns["KEY_AGG"])), out))

    def rec_ok(r, w):
        """Is the record the one expected for the key at position w?"""
        c, ns = core.CTX, st["ns"]
        if isinstance(r, Marker):
            return r.ok
        if not isinstance(r, VDict) or r.m is not None:
            return z3.BoolVal(False)
        has, val, args, out = E(w)
        L = lambda n: val_lit(ns[n])  # noqa: E731
        two = st["TWO"](st["KEY"](w))
        snap = st["SEGSNAP"](*args) != val_lit(None)
        try:
            sc, oo, mib, post, wc, ty = (r[ns[x]] for x in ("KEY_SEG_CONFIG", "KEY_BIN_ON_OUT", "KEY_MAX_IN_MEMORY_SIZE_B", "KEY_POST", "KEY_WRITE_CONFIG", "KEY_AGG_RES_TYPE"))
        except KeyError:
            return z3.BoolVal(False)
        fs = []
        if not isinstance(sc, Seg) or not isinstance(wc, PMap) or not all(x is None or isinstance(x, SVal) for x in (oo, mib, post)):
            return z3.BoolVal(False)
        fs += [a == b for a, b in zip(sc.args, args)]
        fs.append(val_of(oo) == out)
        fs.append(val_of(mib) == val(L("KEY_MAX_IN_MEMORY_SIZE_B")))
        fs.append(val_of(post) == val(L("KEY_POST")))
        T = ns["AggResType"]
        fs.append({T.BINS: z3.Not(snap), T.BOTH: z3.And(snap, two), T.SNAPS: z3.And(snap, z3.Not(two))}.get(ty, z3.BoolVal(False)))
        both = z3.And(snap, two)
        q = st["q"]
        away = [L(x) for x in ("KEY_BIN_BY", "KEY_MAX_IN_MEMORY_SIZE_MB", "KEY_BIN_ON", "KEY_SNAP_BY", "KEY_AGG", "KEY_MAX_IN_MEMORY_SIZE_B", "KEY_POST")]
        dup, mrg = L("KEY_DUPLICATES_ON"), L("KEY_MAX_ROW_GROUP_SIZE")
        fs.append(zbool(wc.has(q)) == z3.Or(z3.And(has(q), *[q != a for a in away]), q == dup, z3.And(both, q == mrg)))
        v = wc.val(q)
        dflt = z3.If(core.VAL_TRUTH(out), out, val(L("KEY_ORDERED_ON")))
        none = val_lit(None)
        fs.append(z3.Implies(z3.And(q == dup), v == z3.If(z3.And(has(dup), val(dup) != none), val(dup), dflt)))
        m = val(mrg)
        one = z3.If(has(mrg), m, none)
        fs.append(z3.Implies(z3.And(q == mrg, both), z3.And(ISPAIR(v), z3.If(z3.And(has(mrg), ISPAIR(m)), v == m, z3.And(FST(v) == one, SND(v) == one)))))
        fs.append(z3.Implies(z3.And(zbool(wc.has(q)), q != dup, z3.Not(z3.And(q == mrg, both))), v == val(q)))
        return z3.And(*fs)

    def agg_ok(r, w):
        if isinstance(r, Marker):
            return r.ok
        has, val, args, out = E(w)
        return r.e == val(val_lit(st["ns"]["KEY_AGG"])) if isinstance(r, SVal) else z3.BoolVal(False)

    class Seg:
        def __init__(self, args):
            self.args = args

        def __getitem__(self, k):
            ns = st["ns"]
            f = {ns["KEY_BIN_ON"]: "SEGON", ns["KEY_SNAP_BY"]: "SEGSNAP"}.get(k)
            if f is None:
                raise Unsupported("another item of the segmentation")
            return PVal(st[f](*self.args))

    def recs(d):
        c = core.CTX
        H, OK = c.fresh_fun("has", VAL, BOOL), c.fresh_fun("right", VAL, BOOL)
        return (lambda e: H(e)), (lambda e: Marker(OK(e)))

    def entry_ok(d, w):
        r = d.find(Key(st["KEY"](w)))
        if r is GONE:
            return z3.BoolVal(False)
        if isinstance(r, Marker):
            return r.ok
        return rec_ok(r, w) if isinstance(r, (VDict, dict)) else agg_ok(r, w)

    def specs(L):
        c = core.CTX
        if getattr(L.it, "tag", None) == "keys":
            def inv(S):
                k, w = S.k.e, st["w"]
                d = {}
                changed = c.havoc_sets.get(S.L.hkey, ())
                if c.branch(w < k):
                    ds = [(n, x) for n, x in S._l.items() if isinstance(x, VDict) and (x.birth in changed or x.m is not None)]
                    for j, (n, x) in enumerate(ds):
                        d[f"settings of a key ({j})"] = entry_ok(x, w)
                    d["settings of a key are sound"] = z3.Not(bad(w))
                return d

            def case(S):
                has, val, args, _ = E(S.k.e)
                ns = st["ns"]
                fs = dict(zip("2smbd", (st["TWO"](st["KEY"](S.k.e)), args[3] == val_lit(None), st["H"](S.k.e, val_lit(ns["KEY_MAX_IN_MEMORY_SIZE_MB"])),
                                        z3.And(has(val_lit(ns["KEY_BIN_ON"])), ISPAIR(val(val_lit(ns["KEY_BIN_ON"])))))))
                return [z3.And(*[f if x in part else z3.Not(f) for x, f in fs.items()])]

            return LoopSpec(inv, recs=recs, unfold=case)
        if type(L.it).__name__ == "MapView":
            m = L.it.m

            def inv(S):
                q, ns = st["q"], st["ns"]
                known = z3.Or(*[q == val_lit(p) for p in sorted(ns["KEY_CONF_IN_PARAMS"])])
                x = z3.Const("x!p", VAL)
                knownx = z3.Or(*[x == val_lit(p) for p in sorted(ns["KEY_CONF_IN_PARAMS"])])
                return {"parameters before are known": z3.ForAll([x], z3.Implies(z3.And(zbool(m.has(x)), m.pos(x) < S.k.e), knownx), patterns=[m.pos(x)])}

            c.assume(m.facts_key(st["q"]))
            x = z3.Const("x!mf", VAL)
            c.assume(z3.ForAll([x], m.facts_key(x), patterns=[m.pos(x)]))
            c.assume(z3.ForAll([x], z3.Implies(zbool(m.has(x)), z3.And(m.pos(x) >= 0, m.pos(x) < lit(m.n)))))
            return LoopSpec(inv, unfold=lambda S: [m.facts_pos(S.k.e)])
        return None

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(AM, "_init_keys_config")
        ns = T.rt.load(AM).ns
        N = new_int("N", 0)
        KEY, POS = c.fresh_fun("KEY", INT, VAL), c.fresh_fun("POS", VAL, INT)
        H, V = c.fresh_fun("H", INT, VAL, BOOL), c.fresh_fun("V", INT, VAL, VAL)
        HD, D = c.fresh_fun("HD", VAL, BOOL), c.fresh_fun("D", VAL, VAL)
        TWO = c.fresh_fun("TWO", VAL, BOOL)
        SEGON, SEGSNAP = c.fresh_fun("SEGON", VAL, VAL, VAL, VAL, VAL), c.fresh_fun("SEGSNAP", VAL, VAL, VAL, VAL, VAL)
        REFUSE = c.fresh_fun("REFUSE", VAL, VAL, VAL, VAL, BOOL)
        w, q = c.fresh("w", INT), c.fresh("q", VAL)
        c.assume(z3.And(0 <= w, w < N.e))
        i = z3.Int("i!keys")
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N.e), POS(KEY(i)) == i), patterns=[KEY(i)]))
        x = z3.Const("x!n", VAL)
        c.assume(z3.ForAll([x], z3.Not(HASNAME(x, val_lit(None))), patterns=[HASNAME(x, val_lit(None))]))
        c.assume(z3.Not(ISPAIR(val_lit(None))))
        c.assume(z3.Not(core.VAL_TRUTH(val_lit(None))))
        seedon = Name(c.fresh("seed ordered_on", VAL))
        # defaults: those AggStream sets, and parameters of write
        for n in ("KEY_SNAP_BY", "KEY_AGG", "KEY_POST", "KEY_ORDERED_ON", "KEY_MAX_IN_MEMORY_SIZE_B"):
            c.assume(HD(val_lit(ns[n])))
        for n in ("KEY_MAX_IN_MEMORY_SIZE_MB",):
            c.assume(z3.Not(HD(val_lit(ns[n]))))
        c.assume(z3.Not(HD(val_lit(ns["KEY_BIN_BY"]))))
        st.update(ns=ns, N=N, KEY=KEY, H=H, V=V, HD=HD, D=D, TWO=TWO, SEGON=SEGON, SEGSNAP=SEGSNAP, REFUSE=REFUSE, w=w, q=q, seedon=seedon)

        def conf(k):
            k = lit(k)
            m = PMap(lambda p: H(k, p), lambda p: V(k, p))
            m.owner = "the settings of the caller"
            return m

        default = PMap(lambda p: HD(p), lambda p: D(p))
        default.owner = "the defaults"

        class Keys(SDict):
            def tagged(self, m):
                m.tag = "keys"
                return m

            def keys(self):
                return self.tagged(super().keys())

            def items(self):
                return self.tagged(super().items())

            def __getitem__(self, k):
                return conf(POS(key_expr(k)))

        keys = Keys(N, lambda k: Key(KEY(lit(k))), conf)

        def setup_segmentby(bin_by=None, bin_on=None, ordered_on=None, snap_by=None):
            args = tuple(val_of(a) for a in (bin_by, bin_on, ordered_on, snap_by))
            if c.branch(REFUSE(*args)):
                raise ValueError("refused")
            return Seg(args)

        ns["setup_segmentby"] = setup_segmentby
        a = z3.Int("a!bad")
        try:
            r = T.call(f, seedon, keys, default, expect=(ValueError,))
        except ValueError:
            ks = [L.k.e for L in c.active_loops if getattr(L.it, "tag", None) == "keys"]
            c.prove(f"{nm}/post: refused only if settings of a key are not sound", bad(ks[-1]) if ks else z3.Exists([a], z3.And(0 <= a, a < N.e, bad(a))), cut=False)
            return
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, VDict) for x in r)):
            raise Unsupported("another kind of result")
        c.prove(f"{nm}/post: settings which are not sound are refused", z3.Not(bad(w)), cut=False)
        c.prove(f"{nm}/post: settings of each key, completed by defaults", entry_ok(r[0], w), cut=False)
        c.prove(f"{nm}/post: aggregation of each key", entry_ok(r[1], w), cut=False)

    return Target(nm, [f"{AM}._init_keys_config"], run, specs, tables=dict(pandas=PANDAS),
                  assumptions=["setup_segmentby: contract above", "values of settings are opaque; a pair is told from other values"])


SEG = [seg_target(k) for k in ("grouper", "callable", "other")]
TARGETS = {"C20": SEG + [conf_target(a + b + m + p) for a in "2-" for b in "s-" for m in "m-" for p in "b-"]}
