"""Contract of AggStream.agg: which chunks are aggregated for which keys, what is written and recorded (C17, C18, C19)."""
import z3

import core
from core import And, Eq, Implies, LoopSpec, Not, Num, Or, PathEnd, SBool, SVal, Name, Unsupported, BOOL, INT, VAL, lit, new_int, zbool
from models import Mapped, Obj, VDict, key_expr
from models_pd import PANDAS, Frame
from target import Target

AM = "oups.aggstream.aggstream"


class Of:
    """What a table holds for a key (and a field of it)."""

    def __init__(self, what, key, field=None):
        self.what, self.key, self.field = what, key, field
        self.updates = None

    def __getitem__(self, f):
        if self.field is not None:
            raise Unsupported("nested settings")
        return Of(self.what, self.key, f)

    def update(self, o):
        core.CTX.prove("AggStream.agg/step: the state of a key is the one of this key", self.same(o, self.what, self.key), cut=False)

    @staticmethod
    def same(o, what, key, field=None):
        if not isinstance(o, Of) or o.what != what or o.field != field:
            return z3.BoolVal(False)
        return o.key == key


class Table:
    def __init__(self, what, n=None, key=None):
        self.what, self.n, self.key = what, n, key

    def __getitem__(self, k):
        return Of(self.what, key_expr(k))

    def __bool__(self):
        return True

    def vc_len(self):
        return self.n

    def vc_iter(self):
        return self.keys()

    def keys(self):
        m = Mapped(self.n, lambda i: Name(self.key(lit(i))))
        m.tag = self.what
        return m

    def items(self):
        m = Mapped(self.n, lambda i: (Name(self.key(lit(i))), Of(self.what, self.key(lit(i)))))
        m.tag = self.what
        return m


class Thunk:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k


def delayed(f):
    return lambda *a, **k: Thunk(f, a, k)


class SeedConfig(Obj):
    py = ("dict",)

    def __init__(self, d, ns):
        super().__init__()
        self.d, self.ns = d, ns

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.touch()
        self.d = dict(self.d)
        self.d[k] = v

    def get(self, k, x=None):
        return self.d.get(k, x)

    def havoc(self):
        c = core.CTX
        self.d = dict(self.d)
        self.d[self.ns["KEY_RESTART_INDEX"]] = core.NVal(c.fresh("restart", VAL))
        self.d[self.ns["KEY_PRE_BUFFER"]] = core.NVal(c.fresh("prebuf", VAL))


class Count(Obj):
    def __init__(self):
        super().__init__()
        self.n = Num(z3.IntVal(0))

    def havoc(self):
        self.n = new_int("runs")


def target(trim, discard, final, first):
    st = {}
    nm = f"AggStream.agg[{'trim' if trim else 'no trim'},{'discard' if discard else 'keep'},{'final write' if final else 'no final write'}{',first call' if first else ''}]"

    def ve(x):
        return core.val_of(x)

    def specs(L):
        c = core.CTX
        if L.it is st.get("deliveries"):
            def inv(S):
                k, ns = S.k.e, st["ns"]
                sc = st["self"].seed_config
                d = {"one round of aggregation for each delivery": lit(st["runs"].n) == k}
                d["restart index: end of the seed at the latest delivery"] = ve(sc[ns["KEY_RESTART_INDEX"]]) == z3.If(k == 0, st["R0"], st["LAST"](k - 1))
                d["state of the pre-processing at the latest delivery"] = ve(sc[ns["KEY_PRE_BUFFER"]]) == z3.If(k == 0, st["P0"], st["PB"](k - 1))
                return d

            return LoopSpec(inv)
        if getattr(L.it, "tag", None) in ("results", "keys_config"):
            return LoopSpec(lambda S: {})
        return None

    def run(T):
        c = core.CTX
        st.clear()
        cls = T.fn(AM, "AggStream")
        ns = T.rt.load(AM).ns
        me = object.__new__(cls)
        D = new_int("deliveries", 0)
        LAST, PB, FID = c.fresh_fun("LAST", INT, VAL), c.fresh_fun("PB", INT, VAL), c.fresh_fun("FID", INT, VAL)
        NK, KEYOF, JOBS = c.fresh_fun("NKEYS", VAL, INT), c.fresh_fun("KEYOF", VAL, INT, VAL), c.fresh_fun("JOBS", VAL, INT)
        x = z3.Const("x!f", VAL)
        c.assume(z3.ForAll([x], NK(x) >= 0, patterns=[NK(x)]))
        ALL, NALL = c.fresh_fun("ALLKEYS", INT, VAL), new_int("NALL", 0)
        R0, P0 = c.fresh("restart0", VAL), c.fresh("prebuf0", VAL)
        store, pre, filters, seed = object(), object(), object(), None
        K = {k: ns[k] for k in ("KEY_ORDERED_ON", "KEY_PRE", "KEY_PRE_BUFFER", "KEY_FILTERS", "KEY_RESTART_INDEX", "KEY_AGG_RES_TYPE", "KEY_WRITE_CONFIG",
                                "KEY_BIN_ON_OUT", "KEY_POST", "KEY_MAX_P_JOBS")}
        sc = SeedConfig({K["KEY_ORDERED_ON"]: "on", K["KEY_PRE"]: pre, K["KEY_PRE_BUFFER"]: core.NVal(P0), K["KEY_FILTERS"]: filters,
                         K["KEY_RESTART_INDEX"]: core.NVal(R0)}, ns)
        state = dict(at=None, refused=False, writes=0, iters=0)

        class Chunk:
            def __init__(self, k):
                self.k = k

        class Deliveries:
            """What _iter_data delivers; it may also refuse the seed at any point."""

            def vc_len(self):
                return D

            def vc_item(self, k):
                k = lit(k)
                if c.branch(c.fresh("seed refused", BOOL)):
                    state["refused"] = True
                    raise ns["SeedPreException"]("refused")
                state["at"] = k
                return SVal(LAST(k)), SVal(PB(k)), SVal(FID(k)), Chunk(k)

        dl = Deliveries()
        whole = object()

        class Seed:
            """Iterable of chunks."""

            py = ("list",)

            def __bool__(self):
                return True

            def vc_iter(self):
                return It()

        class It:
            pos = 0

            def vc_next(self, *d):
                if self.pos:
                    raise Unsupported("more of the seed")
                self.pos = 1
                return First()

        class First:
            @property
            def dtypes(self):
                class DD:
                    def to_dict(s):
                        return "dtypes"

                return DD()

        def chain(*parts):
            if (len(parts) == 2 and isinstance(parts[0], list) and len(parts[0]) == 1 and isinstance(parts[0][0], First)
                    and isinstance(parts[1], It) and parts[1].pos == 1):
                return whole
            return ("another seed", parts)

        ns["chain"] = chain
        ns["iter"] = lambda x: It() if isinstance(x, Seed) else iter(x)
        ns["next"] = lambda x, *d: x.vc_next(*d) if hasattr(x, "vc_next") else next(x, *d)
        seed = Seed()

        def iter_data(seed=None, ordered_on=None, restart_index=None, pre=None, pre_buffer=None, filters=None, trim_start=None, discard_last=None):
            state["iters"] += 1
            c.prove(f"{nm}/call: the whole seed is streamed", z3.BoolVal(seed is (whole if first else st["seed"])), cut=False)
            c.prove(f"{nm}/call: streaming starts from what is recorded",
                    z3.BoolVal(restart_index is st["sc0"][K["KEY_RESTART_INDEX"]] and pre_buffer is st["sc0"][K["KEY_PRE_BUFFER"]] and ordered_on == "on"
                               and pre is st["sc0"][K["KEY_PRE"]] and filters is st["sc0"][K["KEY_FILTERS"]]), cut=False)
            c.prove(f"{nm}/call: options of the caller", z3.BoolVal(trim_start is trim and discard_last is discard), cut=False)
            return dl

        ns["_iter_data"] = iter_data

        def setup_cumsegagg(agg, dtypes):
            c.prove(f"{nm}/call: requests set up with the types of the seed", z3.BoolVal(isinstance(agg, Of) and agg.what == "agg_pd" and dtypes == "dtypes"), cut=False)
            return Of("agg_cs", agg.key)

        ns["setup_cumsegagg"] = setup_cumsegagg

        class App:
            def __init__(self, f):
                self.n_jobs = Num(JOBS(f))
                m = Mapped(Num(NK(f)), lambda i: Name(KEYOF(f, lit(i))))
                m.tag = "keys"
                self.keys = m

        class Apps:
            def __getitem__(self, f):
                return App(key_expr(f))

        def arg(t, name):
            if t.a:
                raise Unsupported("positional arguments")
            return t.k.get(name)

        class Par:
            def __call__(self, gen):
                n = gen.vc_len()
                i = new_int("i", 0)
                c.assume(z3.And(i.e < lit(n)) if c.feasible(lit(n) > 0) else z3.BoolVal(True))
                if not c.feasible(lit(n) > 0):
                    raise PathEnd()
                t = core.merge(c.pure(lambda: gen.vc_item(i)))
                if not isinstance(t, Thunk):
                    raise Unsupported("parallel run of another object")
                if t.f is ns["agg_iter"]:
                    k = state["at"]
                    f = FID(k)
                    ke = KEYOF(f, i.e)
                    P = lambda what, g: c.prove(f"{nm}/round: {what}", g, cut=False)  # noqa: E731
                    P("each key of the filter, once", lit(n) == NK(f))
                    P("key of the filter", key_expr(arg(t, "key")) == ke)
                    P("the chunk delivered", z3.BoolVal(isinstance(arg(t, "seed_chunk"), Chunk)) if not isinstance(arg(t, "seed_chunk"), Chunk) else arg(t, "seed_chunk").k == k)
                    P("store", z3.BoolVal(arg(t, "store") is store))
                    P("settings of the key", Of.same(arg(t, "keys_config"), "keys_config", ke))
                    P("aggregation of the key", Of.same(arg(t, "agg_config"), "agg_cs", ke))
                    P("state of the key", Of.same(arg(t, "agg_buffers"), "agg_buffers", ke))
                    st["runs"].touch()
                    st["runs"].n = Num(z3.simplify(lit(st["runs"].n) + 1))
                    m = Mapped(n, lambda j: (Name(KEYOF(f, lit(j))), Of("agg_buffers", KEYOF(f, lit(j)))))
                    m.tag = "results"
                    return m
                if t.f is ns["_post_n_write_agg_chunks"]:
                    ke = ALL(i.e)
                    P = lambda what, g: c.prove(f"{nm}/final write: {what}", g, cut=False)  # noqa: E731
                    P("each key, once", lit(n) == NALL.e)
                    P("key", key_expr(arg(t, "key")) == ke)
                    P("store", z3.BoolVal(arg(t, "store") is store))
                    P("state of the key", Of.same(arg(t, "agg_buffers"), "agg_buffers", ke))
                    P("last results included", z3.BoolVal(arg(t, "append_last_res") is True))
                    for a, b in (("agg_res_type", "KEY_AGG_RES_TYPE"), ("write_config", "KEY_WRITE_CONFIG"), ("index_name", "KEY_BIN_ON_OUT"), ("post", "KEY_POST")):
                        P(f"setting '{a}' of the key", Of.same(arg(t, a), "keys_config", ke, K[b]))
                    done = st["runs"].n.e
                    li, pb = arg(t, "last_seed_index"), arg(t, "pre_buffer")
                    P("recorded index: end of the seed at the latest delivery", ve(li) == z3.If(done == 0, R0, LAST(done - 1)))
                    P("recorded state of the pre-processing", ve(pb) == z3.If(done == 0, P0, PB(done - 1)))
                    state["writes"] += 1
                    return []
                raise Unsupported("parallel run of another function")

        class Jobs:
            def __getitem__(self, k):
                return Par()

        me.seed_config, me.filter_apps, me.p_jobs, me.store = sc, Apps(), Jobs(), store
        me.keys_config = Table("keys_config", NALL, lambda i: ALL(i))
        me.agg_pd = Table("agg_pd")
        me.agg_buffers = Table("agg_buffers", NALL, lambda i: ALL(i))

        class CS(Table):
            def __bool__(self):
                return not first

            def __setitem__(self, k, v):
                c.prove(f"{nm}/step: the aggregation of a key is the one requested for it", Of.same(v, "agg_cs", key_expr(k)), cut=False)

        me.agg_cs = CS("agg_cs")
        st.update(deliveries=dl, ns=ns, self=me, LAST=LAST, PB=PB, R0=R0, P0=P0, runs=Count(), seed=seed, sc0=dict(sc.d))
        c.assume(NALL.e >= 1)
        try:
            T.call(me.agg, seed, trim_start=trim, discard_last=discard, final_write=final)
            raised = False
        except ns["SeedPreException"]:
            raised = True
        c.prove(f"{nm}/post: refused seed data is reported", z3.BoolVal(raised == state["refused"]), cut=False)
        c.prove(f"{nm}/post: written once, when asked for", z3.BoolVal(state["writes"] == (1 if final else 0)), cut=False)
        c.prove(f"{nm}/post: streamed once", z3.BoolVal(state["iters"] == 1), cut=False)
        done = st["runs"].n.e
        if not raised:
            c.prove(f"{nm}/post: every delivery is aggregated", done == D.e, cut=False)
        c.prove(f"{nm}/post: index from which the next call restarts", ve(me.seed_config[K["KEY_RESTART_INDEX"]]) == z3.If(done == 0, R0, LAST(done - 1)), cut=False)
        c.prove(f"{nm}/post: state of the pre-processing for the next call", ve(me.seed_config[K["KEY_PRE_BUFFER"]]) == z3.If(done == 0, P0, PB(done - 1)), cut=False)

    return Target(nm, [f"{AM}.AggStream.agg", f"{AM}.AggStream._init_agg_cs"] if first else [f"{AM}.AggStream.agg"], run, specs, unrollable=False,
                  tables=dict(pandas=PANDAS, joblib=dict(delayed=delayed)),
                  assumptions=["joblib runs every task given and returns results in their order (schedules: C21)", "_iter_data: contract proved under C17",
                               "agg_iter, _post_n_write_agg_chunks: contracts proved under C18"])


RUN = [target(True, True, True, False), target(True, False, True, False), target(False, False, False, False), target(False, True, True, True)]
TARGETS = {"C18": RUN, "C19": RUN}
