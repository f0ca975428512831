"""Contract of write_metadata (C07)."""
import z3

import core
from core import And, Iff, Implies, LoopSpec, Not, NVal, Obj, Or, PathEnd, SBool, SVal, Unsupported, BOOL, VAL, INT, lit, new_val, val_lit, val_of, zbool
from models import SMap
from target import Target

UW = "oups.store.writer"
PHAS = z3.Function("pickled has", VAL, VAL, BOOL)
PVAL = z3.Function("pickled value", VAL, VAL, VAL)


def as_map(m):
    if isinstance(m, SMap):
        return m
    if isinstance(m, dict):
        return SMap(lambda q: z3.BoolVal(False), lambda q: val_lit(None)) | m
    raise Unsupported(f"mapping of type {type(m).__name__}")


class Key(SVal):
    """md_key: a key object, always true."""

    __slots__ = ()

    def __bool__(self):
        return True


class Outer(Obj):
    """OUPS_METADATA: key of dataset -> mapping recorded for it."""

    py = ("dict",)

    def __init__(self, has, inner):
        super().__init__()
        self.has, self.inner = has, inner

    def vc_contains(self, k):
        return SBool(self.has(val_of(k)))

    def __bool__(self):
        q = z3.Const("q!outer", VAL)
        return core.CTX.branch(z3.Exists([q], self.has(q)))

    def vc_len(self):
        raise Unsupported("size of OUPS_METADATA")

    def __getitem__(self, k):
        if not core.CTX.branch(self.has(val_of(k))):
            raise KeyError(k)
        return self.inner(val_of(k))

    def get(self, k, default=None):
        return self[k] if core.CTX.branch(self.has(val_of(k))) else default

    def __delitem__(self, k):
        e = val_of(k)
        if not core.CTX.branch(self.has(e)):
            raise KeyError(k)
        self.touch()
        h = self.has
        self.has = lambda q: z3.And(q != e, h(q))

    def pop(self, k, *default):
        if not core.CTX.branch(self.has(val_of(k))):
            if default:
                return default[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v


class PF(Obj):
    py = ("ParquetFile",)

    def __init__(self, m, q):
        super().__init__()
        self.m, self.q, self.saved = m, q, []

    @property
    def key_value_metadata(self):
        return self.m

    def _write_common_metadata(self, *a, **k):
        if a or k:
            raise Unsupported("_write_common_metadata with arguments")
        self.saved.append((self.m.has, self.m.val))


def metadata_target(user, keyed):
    nm = f"write_metadata[{'user metadata' if user else 'no user metadata'},{'key' if keyed else 'no key'}]"
    st = {}

    def merged(q, old, new):
        """(has, value) of key q once 'new' is merged into 'old'."""
        h = z3.If(zbool(new.has(q)), new.val(q) != val_lit(None), zbool(old.has(q)))
        return h, z3.If(zbool(new.has(q)), new.val(q), old.val(q))

    def specs(L):
        new = st.get("new")
        if new is not None and getattr(L.it, "m", None) is new:
            def inv(S):
                r, old = st["r"], st["old"]
                tgt = [v for v in S._l.values() if isinstance(v, SMap) and v.birth in st["loaded"]]
                if len(tgt) != 1:
                    raise Unsupported("the mapping being merged is not found")
                tgt = tgt[0]
                done = z3.And(zbool(new.has(r)), new.pos(r) < S.k.e)
                h, v = merged(r, old, new)
                return {"merged so far (presence)": zbool(tgt.has(r)) == z3.If(done, h, zbool(old.has(r))),
                        "merged so far (value)": z3.Implies(zbool(tgt.has(r)), tgt.val(r) == z3.If(done, v, old.val(r)))}

            return LoopSpec(inv, unfold=lambda S: [new.facts_pos(S.k)] if S.L.mode != "exit" else [])
        return None

    def run(T):
        c = core.CTX
        f = T.fn(UW, "write_metadata")
        ns = T.rt.load(UW).ns
        oups = val_lit(ns["OUPS_METADATA_KEY"])
        r, q, m = (c.fresh(x, VAL) for x in ("r", "q", "m"))
        kvm0 = SMap.fresh("kvm", nullable=False)
        H0, V0 = kvm0.has, kvm0.val
        md = SMap.fresh("metadata") if user else None
        new = SMap.fresh("recorded")
        for x in (kvm0, md, new):
            if x is not None:
                for k in (q, r, oups):
                    c.assume(x.facts_key(k))
        c.assume(V0(oups) != val_lit(None))
        c.assume(V0(q) != val_lit(None))
        loaded = set()
        old = SMap(lambda k: PHAS(V0(oups), k), lambda k: PVAL(V0(oups), k))

        def loads(v):
            v = val_of(v)
            x = SMap(lambda k: PHAS(v, k), lambda k: PVAL(v, k))
            loaded.add(x.birth)
            return x

        def dumps(x):
            x = as_map(x)
            t = c.fresh("pickle", VAL)
            c.assume(t != val_lit(None))
            c.assume(PHAS(t, r) == zbool(x.has(r)))
            c.assume(z3.Implies(zbool(x.has(r)), PVAL(t, r) == x.val(r)))
            return SVal(t)

        def update_custom_metadata(pf, x):
            x = as_map(x)
            h, v = pf.m.has, pf.m.val
            pf.touch()
            pf.m = SMap(lambda k: z3.If(zbool(x.has(k)), x.val(k) != val_lit(None), zbool(h(k))), lambda k: z3.If(zbool(x.has(k)), x.val(k), v(k)),
                        mkval=SVal)

        mdk = Key(c.fresh("md_key", VAL)) if keyed else None
        OH = c.fresh_fun("recorded for", VAL, BOOL)

        def inner(k):
            if mdk is None or not k.eq(mdk.e):
                raise Unsupported("lookup of another key in OUPS_METADATA")
            return new

        outer = Outer(lambda k: OH(k), inner)
        ns.update(OUPS_METADATA=outer, loads=loads, dumps=dumps, update_custom_metadata=update_custom_metadata)
        st.update(new=new, r=r, old=old, loaded=loaded)
        pf = PF(kvm0, q)
        md0 = (md.has, md.val) if user else None
        T.call(f, pf, metadata=md, md_key=mdk)
        rec = OH(mdk.e) if keyed else z3.BoolVal(False)
        hadold = zbool(H0(oups))
        # what the file holds now
        H1, V1 = pf.m.has, pf.m.val
        wantH = lambda k: z3.If(zbool(md0[0](k)), md0[1](k) != val_lit(None), zbool(H0(k))) if user else zbool(H0(k))  # noqa: E731
        wantV = lambda k: z3.If(zbool(md0[0](k)), md0[1](k), V0(k)) if user else V0(k)  # noqa: E731
        plain = z3.Or(q != oups, z3.Not(rec))
        c.prove(f"{nm}/post: user keys present", z3.Implies(plain, zbool(H1(q)) == wantH(q)), cut=False)
        c.prove(f"{nm}/post: user keys values", z3.Implies(z3.And(plain, zbool(H1(q))), V1(q) == wantV(q)), cut=False)
        oldH = z3.And(hadold, PHAS(V0(oups), r))
        wh = z3.If(zbool(new.has(r)), new.val(r) != val_lit(None), oldH)
        wv = z3.If(zbool(new.has(r)), new.val(r), PVAL(V0(oups), r))
        c.prove(f"{nm}/post: library metadata is written", z3.Implies(rec, zbool(H1(oups))), cut=False)
        c.prove(f"{nm}/post: library keys present", z3.Implies(rec, PHAS(V1(oups), r) == wh), cut=False)
        c.prove(f"{nm}/post: library keys values", z3.Implies(z3.And(rec, wh), PVAL(V1(oups), r) == wv), cut=False)
        c.prove(f"{nm}/post: recorded metadata of this key is consumed, of others kept",
                outer.has(m) == (z3.And(OH(m), m != mdk.e) if keyed else OH(m)), cut=False)
        c.prove(f"{nm}/post: metadata of the caller not modified",
                And(zbool(md.has(q)) == zbool(md0[0](q)), md.val(q) == md0[1](q)) if user else z3.BoolVal(True), cut=False)
        c.prove(f"{nm}/post: written to disk, once everything is merged", z3.BoolVal(len(pf.saved) >= 1), cut=False)
        if pf.saved:
            h, v = pf.saved[-1]
            for k in (q, oups):
                c.prove(f"{nm}/post: what is written to disk is what is merged", And(zbool(h(k)) == zbool(H1(k)), z3.Implies(zbool(H1(k)), v(k) == V1(k))), cut=False)

    return Target(nm, [f"{UW}.write_metadata"], run, specs,
                  assumptions=["fastparquet.update_custom_metadata: sets each key given with a value, removes each key given as None, keeps the others",
                               "pickle.loads(pickle.dumps(x)) == x"])


META = [metadata_target(u, k) for u in (True, False) for k in (True, False)]
TARGETS = {"C07": META}
