"""Contract of _init_buffers: what a session resumes from (C19)."""
import z3

import core
from core import And, Eq, Implies, LoopSpec, Not, Num, Or, PathEnd, SBool, SVal, Unsupported, BOOL, INT, VAL, lit, new_int, zbool
from models import Mapped, SDict, VDict, VSet, key_expr
from models_pd import PANDAS
from target import Target

AM = "oups.aggstream.aggstream"


def target():
    st = {}
    nm = "_init_buffers"

    class Key(SVal):
        """Key of one dataset, or of two (bins, snapshots)."""

        __slots__ = ()

        @property
        def py(self):
            return ("tuple",) if core.CTX.branch(st["TWO"](self.e)) else ("Indexer",)

        def __getitem__(self, i):
            if not (isinstance(i, int) and i in (0, 1, -1, -2)):
                raise IndexError("tuple index out of range")
            if not core.CTX.branch(st["TWO"](self.e)):
                raise TypeError("a key of one dataset is not subscriptable")
            return Key((st["FIRST"], st["SECOND"])[i % 2](self.e))

        def __iter__(self):
            return iter([self[0], self[1]])

        __hash__ = SVal.__hash__

    class MD:
        def __init__(self, e):
            self.e = e

        def vc_contains(self, k):
            ns = st["ns"]
            if k == ns["KEY_PRE_BUFFER"]:
                return SBool(st["HASPRE"](self.e))
            return k in (ns["KEY_RESTART_INDEX"], ns["KEY_SEGAGG_BUFFER"], ns["KEY_POST_BUFFER"])

        def __getitem__(self, k):
            ns = st["ns"]
            if k == ns["KEY_PRE_BUFFER"]:
                if not core.CTX.branch(st["HASPRE"](self.e)):
                    raise KeyError(k)
                return core.NVal(st["PRE"](self.e))
            f = {ns["KEY_RESTART_INDEX"]: "RI", ns["KEY_SEGAGG_BUFFER"]: "SEG", ns["KEY_POST_BUFFER"]: "POST"}.get(k)
            if f is None:
                raise KeyError(k)
            return (SVal if f == "RI" else core.NVal)(st[f](self.e))

        def get(self, k, d=None):
            r = self.vc_contains(k)
            return self[k] if (r is True or (r is not False and core.CTX.branch(r.e))) else d

    class Handle:
        def __init__(self, e):
            self.e = e

        @property
        def metadata(self):
            e = self.e

            class M:
                def vc_contains(s, k):
                    if k != st["ns"]["OUPS_METADATA_KEY"]:
                        raise Unsupported("another metadata")
                    return SBool(st["OWNMD"](e))

            return M()

        @property
        def _oups_metadata(self):
            e = self.e
            if not core.CTX.branch(st["OWNMD"](e)):
                return None

            class M:
                def vc_contains(s, k):
                    if k != st["ns"]["KEY_AGGSTREAM"]:
                        raise Unsupported("another metadata")
                    return SBool(st["AGG"](e))

                def __getitem__(s, k):
                    if k != st["ns"]["KEY_AGGSTREAM"]:
                        raise Unsupported("another metadata")
                    if not core.CTX.branch(st["AGG"](e)):
                        raise KeyError(k)
                    return MD(e)

            return M()

    class Store:
        def vc_contains(self, k):
            return SBool(st["EX"](key_expr(k)))

        def __getitem__(self, k):
            e = key_expr(k)
            if not core.CTX.branch(st["EX"](e)):
                raise KeyError(k)
            return Handle(e)

    def good(field, want_e, ex):
        """Field of the state of a key: what is recorded, or empty."""
        tr = core.VAL_TRUTH(want_e)
        if isinstance(field, SVal):
            return z3.And(ex, tr, field.e == want_e)
        if isinstance(field, dict) and not (isinstance(field, VDict) and field.m is not None):
            return z3.Or(z3.Not(ex), z3.Not(tr)) if not field else z3.BoolVal(False)
        return z3.BoolVal(False)

    def record_ok(rec, i):
        ns, e = st["ns"], st["MAIN"](i)
        d = rec
        if not isinstance(d, VDict) or d.m is not None:
            return z3.BoolVal(False)
        const = {ns["KEY_AGG_IN_MEMORY_SIZE"]: 0, ns["KEY_BIN_RES"]: None, ns["KEY_SNAP_RES"]: None, ns["KEY_BIN_RES_BUFFER"]: [], ns["KEY_SNAP_RES_BUFFER"]: []}
        if not set(d) >= set(const) | {ns["KEY_SEGAGG_BUFFER"], ns["KEY_POST_BUFFER"]}:
            return z3.BoolVal(False)
        for k, v in const.items():
            x = d[k]
            if not (x is None if v is None else (list(x) == [] if v == [] else isinstance(x, int) and x == 0)):
                return z3.BoolVal(False)
        lists = [d[ns["KEY_BIN_RES_BUFFER"]], d[ns["KEY_SNAP_RES_BUFFER"]], d[ns["KEY_SEGAGG_BUFFER"]], d[ns["KEY_POST_BUFFER"]]]
        if len({id(x) for x in lists}) != 4:
            return z3.BoolVal(False)  # shared between fields
        return z3.And(good(d[ns["KEY_SEGAGG_BUFFER"]], st["SEG"](e), st["EX"](e)), good(d[ns["KEY_POST_BUFFER"]], st["POST"](e), st["EX"](e)))

    def recs(d):
        c = core.CTX
        H = c.fresh_fun("has", VAL, BOOL)
        E1, E2 = c.fresh_fun("segempty", VAL, BOOL), c.fresh_fun("postempty", VAL, BOOL)
        F1, F2 = c.fresh_fun("segval", VAL, VAL), c.fresh_fun("postval", VAL, VAL)
        ns = st["ns"]

        def rec(e):
            r = VDict({ns["KEY_AGG_IN_MEMORY_SIZE"]: 0, ns["KEY_BIN_RES"]: None, ns["KEY_SNAP_RES"]: None, ns["KEY_BIN_RES_BUFFER"]: [], ns["KEY_SNAP_RES_BUFFER"]: []})
            dict.__setitem__(r, ns["KEY_SEGAGG_BUFFER"], VDict() if c.branch(E1(e)) else core.NVal(F1(e)))
            dict.__setitem__(r, ns["KEY_POST_BUFFER"], VDict() if c.branch(E2(e)) else core.NVal(F2(e)))
            return r

        return (lambda e: H(e)), rec

    def buffers_ok(d, i):
        r = d.find(Key(st["KEY"](i)))
        from models import GONE

        return z3.BoolVal(False) if r is GONE else record_ok(r, i)

    def resumable(e):
        return z3.Implies(st["EX"](e), z3.And(st["OWNMD"](e), st["AGG"](e)))

    def pre_ok(p, k):
        i = z3.Int("i!pre")
        some = z3.Exists([i], z3.And(0 <= i, i < k, st["EX"](st["MAIN"](i)), st["HASPRE"](st["MAIN"](i))))
        if isinstance(p, dict):
            return z3.Not(some) if not p else z3.BoolVal(False)
        return z3.Exists([i], z3.And(0 <= i, i < k, st["EX"](st["MAIN"](i)), st["HASPRE"](st["MAIN"](i)), st["PRE"](st["MAIN"](i)) == p.e))

    def specs(L):
        if L.it.tag != "keys" if hasattr(L.it, "tag") else True:
            return None
        c = core.CTX

        def mk_pre():
            return VDict() if c.branch(c.fresh("no pre yet", BOOL)) else core.NVal(c.fresh("pre", VAL))

        def inv(S):
            k, w, KEY, MAIN = S.k.e, st["w"], st["KEY"], st["MAIN"]
            d = {}
            changed = core.CTX.havoc_sets.get(S.L.hkey, ())
            i = z3.Int("i!inv")
            d["existing results are of an AggStream (any)"] = z3.Implies(w < k, resumable(MAIN(w)))
            sets = [x for x in S._l.values() if isinstance(x, VSet) and (x.birth in changed or x.p is not None)]
            for s in sets[:1]:
                p = s.sym()
                d["indices of existing results"] = z3.Implies(z3.And(w < k, st["EX"](MAIN(w))), p(st["RI"](MAIN(w))))
                x = z3.Const("x!inv", VAL)
                d["indices are those of existing results"] = z3.ForAll([x], z3.Implies(p(x), z3.Exists([i], z3.And(0 <= i, i < k, st["EX"](MAIN(i)), st["RI"](MAIN(i)) == x))), patterns=[p(x)] if z3.is_app(p(x)) and p(x).decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
            if S.has("pre_buffer"):
                d["state of the pre-processing"] = pre_ok(S.pre_buffer, k)
            for b in [x for x in S._l.values() if isinstance(x, VDict) and (x.birth in changed or x.m is not None)][:1]:
                if core.CTX.branch(w < k):
                    d["state of a key"] = buffers_ok(b, w)
            return d

        return LoopSpec(inv, kinds={"pre_buffer": mk_pre}, recs=recs)

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(AM, "_init_buffers")
        ns = T.rt.load(AM).ns
        N = new_int("N", 0)
        st.update(ns=ns, **{x: c.fresh_fun(x, VAL, BOOL) for x in ("TWO", "EX", "OWNMD", "AGG", "HASPRE")},
                  **{x: c.fresh_fun(x, VAL, VAL) for x in ("FIRST", "SECOND", "RI", "PRE", "SEG", "POST")})
        KEY, POS = c.fresh_fun("KEY", INT, VAL), c.fresh_fun("POS", VAL, INT)
        MAIN = lambda i: z3.If(st["TWO"](KEY(i)), st["FIRST"](KEY(i)), KEY(i))  # noqa: E731
        i = z3.Int("i!keys")
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N.e), POS(KEY(i)) == i), patterns=[KEY(i)]))
        w = c.fresh("w", INT)
        c.assume(z3.And(0 <= w, w < N.e))
        v = c.fresh("v", INT)
        st.update(KEY=KEY, MAIN=MAIN, w=w)

        class Keys(SDict):
            def keys(self):
                m = super().keys()
                m.tag = "keys"
                return m

            def items(self):
                m = super().items()
                m.tag = "keys"
                return m

        def conf(k):
            raise Unsupported("settings of a key")

        keys = Keys(N, lambda k: Key(KEY(lit(k))), conf)
        EX, RI = st["EX"], st["RI"]
        a, b = z3.Ints("a!r b!r")
        rng = lambda x: z3.And(0 <= x, x < N.e)  # noqa: E731
        differ = z3.Exists([a, b], z3.And(rng(a), rng(b), EX(MAIN(a)), EX(MAIN(b)), RI(MAIN(a)) != RI(MAIN(b))))
        foreign = z3.Exists([a], z3.And(rng(a), EX(MAIN(a)), z3.Not(z3.And(st["OWNMD"](MAIN(a)), st["AGG"](MAIN(a))))))
        try:
            r = T.call(f, Store(), keys, expect=(ValueError,))
        except ValueError:
            c.prove(f"{nm}/post: refused only if existing results are not of an AggStream, or end at different indices", z3.Or(foreign, differ), cut=False)
            return
        if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], VDict)):
            raise Unsupported("another kind of result")
        ri, pb, ab = r
        c.prove(f"{nm}/post: accepted only if existing results are of an AggStream", resumable(MAIN(w)), cut=False)
        if ri is None:
            c.prove(f"{nm}/post: no restart only without existing result", z3.Not(EX(MAIN(w))), cut=False)
        else:
            c.prove(f"{nm}/post: restarts where each existing result ends", z3.Implies(EX(MAIN(w)), RI(MAIN(w)) == ri.e), cut=False)
            c.prove(f"{nm}/post: restarts only if there is an existing result", z3.Exists([a], z3.And(rng(a), EX(MAIN(a)), RI(MAIN(a)) == ri.e)), cut=False)
        c.prove(f"{nm}/post: state of the pre-processing is a recorded one, or empty", pre_ok(pb, N.e), cut=False)
        c.prove(f"{nm}/post: state of each key is the one recorded for its main dataset, or empty", buffers_ok(ab, w), cut=False)

    return Target(nm, [f"{AM}._init_buffers", f"{AM}._is_aggstream_result", f"{AM}._reset_agg_buffers"], run, specs, tables=dict(pandas=PANDAS),
                  assumptions=["membership in a store and metadata of a dataset: contracts of C03, C07"])


TARGETS = {"C19": [target()]}
