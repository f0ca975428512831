"""Contract of cumsegagg (C10, C13, C14, C15): what the aggregation loop is called on, which results are returned
under which names, types, labels, what is null, and the state kept for the next call. Any rows, bins, snapshots;
requests with columns of the three types. segmentby, jcsagg, setup_* by their contracts (targets of their own)."""
import z3

import core
from core import And, Eq, Num, Unsupported, SBool, lit, new_bool, new_int, zbool, INT, REAL, BOOL
from models import Arr, Mat, DT_FLOAT, DT_INT, DT_TIME, DT_BOOL, SORT
from models_pd import PANDAS, Ser
from t_sby import pick
from target import Target

CM = "oups.aggstream.cumsegagg"
ST = {}
NA, NAN, NAT = (type(x, (), {"__repr__": lambda s: type(s).__name__})() for x in ("NA", "NaN", "NaT"))
INT64 = type("Int64Dtype", (), {})()


class Col:
    """A column: values, where it is null and with which null value, type it was converted to."""

    def __init__(self, a, null=None, type=None):
        self.a, self.null, self.type = a, null or [], type


class Index:
    def __init__(self, labels):
        self.labels, self.name = labels, None


class Res:
    """pandas DataFrame of results, over its columns (assumed contract)."""

    py = ("DataFrame",)

    def __init__(self, data=None, index=None, copy=None):
        if not isinstance(data, dict):
            raise Unsupported("dataframe of another object")
        self.cols = {}
        for k, v in data.items():
            if isinstance(v, Ser):
                v = v.a
            if isinstance(v, Col):
                self.cols[k] = v
            elif isinstance(v, Arr):
                self.cols[k] = Col(v if copy is False or copy is None else v.copy())
            else:
                raise Unsupported("column of another kind")
        self.index = Index(index) if index is not None else None

    def __getitem__(self, k):
        if isinstance(k, list):
            r = Res({x: self.cols[x] for x in k})
            r.index = self.index
            return r
        raise Unsupported("selection in results")

    def __setitem__(self, k, v):
        if isinstance(k, list) and isinstance(v, Res) and len(k) == len(v.cols):
            for x, y in zip(k, v.cols.values()):
                self.cols[x] = y
            return
        raise Unsupported("assignment in results")

    def astype(self, t):
        if isinstance(t, dict):
            r = Res({k: Col(v.a, v.null, t.get(k, v.type)) for k, v in self.cols.items()})
        else:
            r = Res({k: Col(v.a, v.null, t) for k, v in self.cols.items()})
        r.index = self.index
        return r

    @property
    def loc(self):
        return RLoc(self)

    def to_numpy(self, copy=False, **k):
        xs = [v.a for v in self.cols.values()]
        if any(v.null for v in self.cols.values()) or len({x.dtype.name for x in xs}) != 1:
            raise Unsupported("array of columns of several types")
        fs = [x.snapshot() for x in xs]

        def get(i, j):
            v = fs[-1](i)
            for q in reversed(range(len(fs) - 1)):
                v = core.ite(lit(j) == q, fs[q](i), v)
            return v

        return Mat.of(get, xs[0].n, Num(z3.IntVal(len(xs))), xs[0].dtype)

    def vc_len(self):
        return next(iter(self.cols.values())).a.n

    @property
    def dtypes(self):
        return Dtypes({k: v.a.dtype for k, v in self.cols.items()})

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of results")


Res.__name__ = "DataFrame"


class Dtypes:
    def __init__(self, d):
        self.d = d

    def to_dict(self):
        return dict(self.d)


class RLoc:
    def __init__(self, r):
        self.r = r

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None) and isinstance(i[1], list):
            return self.r[i[1]]
        raise Unsupported("selection in results")

    def __setitem__(self, i, v):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], Arr) and i[0].dtype == DT_BOOL and isinstance(i[1], list):
            f = i[0].snapshot()
            core.CTX.prove(f"{ST['nm']}/nulls: one flag per row", lit(i[0].n) == lit(self.r.vc_len()))
            for k in i[1]:
                c = self.r.cols[k]
                self.r.cols[k] = Col(c.a, c.null + [(f, v)], c.type)
            return
        raise Unsupported("assignment in results")


def nisin(a, v):
    if not isinstance(v, int):
        raise Unsupported("membership of another kind")
    return a == v


def segmentby(data, bin_by, bin_on=None, ordered_on=None, snap_by=None, buffer=None):
    c, nm = core.CTX, ST["nm"]
    # the set-up says what bins are over
    setup = bin_by is ST["setup"] or bin_by is ST["raw"] and bin_on == "bin_on" and ordered_on == ST["ordered_on"]
    c.prove(f"{nm}/segments: of these data, as requested", z3.BoolVal(data is ST["data"] and setup and snap_by is ST["snap_by"]))
    c.prove(f"{nm}/segments: state", z3.BoolVal(buffer is ST["buffer"]))
    c.prove(f"{nm}/segments: once", z3.BoolVal(not ST.get("seg")))
    ST["seg"] = True
    if buffer is not None:
        buffer[ST["KL"]] = Num(ST["last_label"])
    return ST["starts"], ST["bin_idx"], ST["labels"], ST["nmax_b"], ST["snap_labels"], ST["nmax_s"]


def jcsagg(data, aggs, next_chunk_starts, bin_indices, preserve_res, chunk_res, bin_res, snap_res, null_bin_indices, null_snap_indices):
    c, nm = core.CTX, ST["nm"]
    d = [k for k, v in ST["agg"].items() if v[2] is aggs]
    if not d or not isinstance(data, Mat) or not isinstance(chunk_res, Arr) or not isinstance(bin_res, Mat) or not isinstance(snap_res, Mat):
        raise Unsupported("aggregation of another kind")
    d = d[0]
    cin, cout, _, w = ST["agg"][d]
    P = lambda s, f: c.prove(f"{nm}/aggregation: {s}", f, cut=False)  # noqa: E731
    P("once for each type", z3.BoolVal(d.name not in ST["done"]))
    ST["done"].append(d.name)
    r = new_int("r", 0)
    n = ST["n"]
    P("over the columns requested", z3.And(lit(data.n) == n, lit(data.m) == len(cin), *[
        z3.Implies(r.e < n, lit(data.at(r, Num(z3.IntVal(j)))) == lit(ST["X"][k](r))) for j, k in enumerate(cin)]))
    P("with these segments", z3.BoolVal(next_chunk_starts is ST["starts"] and (bin_indices is ST["bin_idx"])))
    P("results of the previous call are continued if and only if its last bin is", zbool(preserve_res) == z3.BoolVal(ST["continued"]))
    P("one running result per output", lit(chunk_res.n) == w)
    if ST["continued"]:
        P("starting from the results of the previous call", z3.And(*[lit(chunk_res.at(Num(z3.IntVal(j)))) == lit(ST["prev"][k].at(Num(z3.IntVal(0)))) for j, k in enumerate(cout)]))
    P("room for bins", z3.And(lit(bin_res.n) == ST["B"], lit(bin_res.m) == w))
    q = new_int("q", 0)
    P("room for the list of empty bins", lit(null_bin_indices.n) >= ST["nmax_b"].e)
    if d.name == ST["first"]:
        P("list of empty bins is blank", z3.Implies(q.e < lit(null_bin_indices.n), lit(null_bin_indices.at(q)) == -1))
    if ST["snap_by"] is not None:
        P("room for snapshots", z3.And(lit(snap_res.n) == ST["S"], lit(snap_res.m) == w))
        P("room for the list of empty snapshots", lit(null_snap_indices.n) >= ST["nmax_s"].e)
        if d.name == ST["first"]:
            P("list of empty snapshots is blank", z3.Implies(q.e < lit(null_snap_indices.n), lit(null_snap_indices.at(q)) == -1))
    else:
        P("no snapshot", z3.And(lit(snap_res.n) == 0))
    # what it leaves
    RB, RS, CH = ST["RB"][d.name], ST["RS"][d.name], ST["CH"][d.name]
    for i in range(len(cout)):
        pass
    bin_res.buf.touch()
    bg, ro = bin_res.buf.get, lit(bin_res.roff)
    nullb, nulls = ST["nullb"], ST["nulls"]
    bin_res.buf.get = lambda i, j: core.ite(nullb(lit(i)), bg(i, j), Num(RB(lit(i), lit(j))))
    if ST["snap_by"] is not None:
        sg = snap_res.buf.get
        snap_res.buf.touch()
        snap_res.buf.get = lambda i, j: core.ite(nulls(lit(i)), sg(i, j), Num(RS(lit(i), lit(j))))
        null_snap_indices.put(lambda k: lit(k) < ST["cs"], lambda k: Num(ST["NSI"](lit(k))))
    chunk_res.put(lambda k: True, lambda k: Num(CH(lit(k))))
    null_bin_indices.put(lambda k: lit(k) < ST["cb"], lambda k: Num(ST["NBI"](lit(k))))


def setup_cumsegagg(agg, data_dtype):
    c, nm = core.CTX, ST["nm"]
    if not isinstance(data_dtype, dict):
        raise Unsupported("types of another kind")
    c.prove(f"{nm}/request: as given, with the types of these data", z3.BoolVal(agg is ST["raw_agg"] and data_dtype == {k: v.a.dtype for k, v in ST["data"].cols.items()}))
    return ST["agg"]


def setup_segmentby(bin_by, bin_on=None, ordered_on=None, snap_by=None):
    c, nm = core.CTX, ST["nm"]
    c.prove(f"{nm}/set-up from the arguments", z3.BoolVal(bin_by is ST["raw"] and bin_on == "bin_on" and ordered_on == ST["ordered_on"] and snap_by is ST["snap_by"]))
    return ST["setup"]


OVER = {(CM, "segmentby"): segmentby, (CM, "jcsagg"): jcsagg, (CM, "setup_cumsegagg"): setup_cumsegagg, (CM, "setup_segmentby"): setup_segmentby}
TAB = {"pandas": dict(PANDAS, DataFrame=Res, NA=NA, NaT=NAT, Int64Dtype=lambda: INT64, DatetimeIndex=type("DatetimeIndex", (), {})),
       "numpy": dict(NaN=NAN, isin=nisin), "pandas.core.resample": dict(TimeGrouper=type("TimeGrouper", (), {}))}


def listing(c, name, n, room):
    """Positions listed as null: each null one, once, among the first of a list."""
    f, inv, null = c.fresh_fun(name, INT, INT), c.fresh_fun(name + "_at", INT, INT), c.fresh_fun(name + "_null", INT, BOOL)
    cnt = new_int(name + "_count", 0)
    k = z3.Int("k!ls")
    c.assume(z3.And(cnt.e <= room))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cnt.e), z3.And(f(k) >= 0, f(k) < n, null(f(k)))), patterns=[f(k)]))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, null(k)), z3.And(inv(k) >= 0, inv(k) < cnt.e, f(inv(k)) == k)), patterns=[null(k)]))
    return f, null, cnt.e


def csa_target(snap, state):
    """snap: no, grouper, series. state: no buffer, new one, left by a previous call."""
    nm = f"cumsegagg[snapshots: {snap}; buffer: {state}]"

    def run(T):
        c = core.CTX
        ST.clear()
        ST["nm"], ST["done"] = nm, []
        f = T.fn(CM, "cumsegagg")
        m = T.rt.load(CM).ns
        n = new_int("n", 0)
        dts = {"f1": DT_FLOAT, "f2": DT_FLOAT, "i1": DT_INT, "t1": DT_TIME}
        data = Res({k: Arr.fresh(k, n, d) for k, d in dts.items()})
        ST.update(data=data, n=n.e, X={k: v.a.snapshot() for k, v in data.cols.items()})
        outs = {DT_INT: (["i1"], ["oi"]), DT_FLOAT: (["f1", "f2"], ["of1", "of2", "of3"]), DT_TIME: (["t1"], ["ot"])}
        some = pick("types", (DT_FLOAT, DT_INT, DT_TIME), (DT_FLOAT,), (DT_INT,))
        agg = {d: [outs[d][0], outs[d][1], object(), len(outs[d][1])] for d in some}
        ST.update(agg=agg, first=some[0].name)
        B, S = new_int("B", 1), new_int("S", 0)
        N = B.e + (S.e if snap != "no" else 0)
        nmb, nms = new_int("nmax_b", 0), new_int("nmax_s", 0)
        ST.update(B=B.e, S=S.e, nmax_b=nmb, nmax_s=nms if snap != "no" else 0, starts=Arr.fresh("starts", Num(N)), bin_idx=Arr.fresh("bin_idx", B if snap != "no" else 0),
                  labels=Ser(Arr.fresh("labels", B)), snap_labels=Ser(Arr.fresh("snap_labels", S)) if snap != "no" else None)
        ST["NBI"], ST["nullb"], ST["cb"] = listing(c, "empty_bins", B.e, nmb.e)
        ST["NSI"], ST["nulls"], ST["cs"] = listing(c, "empty_snaps", S.e, nms.e)
        for k, ar in (("RB", (INT, INT)), ("RS", (INT, INT)), ("CH", (INT,))):
            ST[k] = {d.name: c.fresh_fun(k + d.name[:3], *ar, SORT[d.name]) for d in some}
        ordered = "ordered" if snap != "no" else pick("ordered_on", "ordered", None)
        grouper, points = type("TimeGrouper", (), {"py": ("TimeGrouper",)})(), Ser(Arr.fresh("points", new_int("points", 0)))
        ST.update(ordered_on=ordered, snap_by={"no": None, "grouper": grouper, "series": points}[snap])
        ST["raw"], ST["raw_agg"] = object(), {"o": ("f1", "sum")}
        ST["setup"] = {"bin_by": object(), "on_cols": "bin_on", "ordered_on": ordered, "bin_on": "bin_on", "snap_by": grouper if snap == "grouper" else None}
        for k in ("KEY_ORDERED_ON", "KEY_SNAP_BY", "KEY_BIN_ON"):
            if m.get(k) not in ST["setup"]:
                raise Unsupported("set-up of another shape")
        KL, KR = m["KEY_LAST_BIN_LABEL"], m["KEY_LAST_CHUNK_RES"]
        ST["KL"] = KL
        ST["last_label"] = lit(ST["labels"].a.at(Num(B.e - 1)))
        ST["prev"] = {k: Arr.fresh("prev_" + k, Num(z3.IntVal(1)), d) for d in some for k in outs[d][1]}
        # same label: what segmentby accepts
        buffer = {"no": None, "new": {}, "restart": {KL: Num(lit(ST["labels"].a.at(Num(z3.IntVal(0))))), KR: Res(dict(ST["prev"])), "bin": {}}}[state]
        ST["prev"] = {k: v.copy() for k, v in ST["prev"].items()}
        ST.update(buffer=buffer, continued=state == "restart")
        before = dict(buffer) if buffer is not None else None
        given = pick("set-up given", True, False)
        if given:
            out = T.call(f, data, agg, ST["setup"], buffer=buffer, snap_by=ST["snap_by"] if snap == "series" else None, error_on_0=False)
        else:
            out = T.call(f, data, ST["raw_agg"], ST["raw"], "bin_on", buffer, ordered, ST["snap_by"], False)
        if out is None:
            c.prove(f"{nm}/post: no result only without rows", n.e == 0)
            c.prove(f"{nm}/post: without rows the state is as it was", z3.BoolVal(buffer is None or (set(buffer) == set(before) and all(buffer[k] is before[k] for k in before))))
            return
        if not ST["done"] or set(ST["done"]) != {d.name for d in some}:
            c.prove(f"{nm}/post: each type is aggregated", False)
            return
        if snap == "no":
            res = [("bin", out, ST["labels"], ordered or "bin_on", ST["RB"], ST["nullb"], B.e)]
        else:
            if not isinstance(out, tuple) or len(out) != 2:
                raise Unsupported("result of another shape")
            res = [("bin", out[0], ST["labels"], ordered, ST["RB"], ST["nullb"], B.e), ("snapshot", out[1], ST["snap_labels"], ordered, ST["RS"], ST["nulls"], S.e)]
        r = new_int("r", 0)
        for what, fr, lab, name, R, null, size in res:
            if not isinstance(fr, Res):
                raise Unsupported("result of another shape")
            c.prove(f"{nm}/post: one column per output ({what})", z3.BoolVal(set(fr.cols) == {k for d in some for k in outs[d][1]}))
            c.prove(f"{nm}/post: labels ({what})", z3.BoolVal(fr.index is not None and fr.index.labels is lab))
            c.prove(f"{nm}/post: name of the index ({what})", z3.BoolVal(fr.index is not None and fr.index.name == name))
            for d in some:
                for j, k in enumerate(outs[d][1]):
                    col = fr.cols[k]
                    rng = r.e < size
                    is_null = z3.Or(*[zbool(g(r)) for g, _ in col.null]) if col.null else z3.BoolVal(False)
                    c.prove(f"{nm}/post: a {what} without rows is null, the others are not", z3.Implies(rng, is_null == null(r.e)), cut=False)
                    right = {"int64": NA, "float64": NAN, "datetime64[ns]": NAT}[d.name]
                    c.prove(f"{nm}/post: null value of the type ({what})", z3.BoolVal(all(v is right for _, v in col.null)))
                    c.prove(f"{nm}/post: value of the {what}", z3.Implies(z3.And(rng, z3.Not(null(r.e))), lit(col.a.at(r)) == R[d.name](r.e, j)), cut=False)
                    c.prove(f"{nm}/post: type of the output ({what})", z3.BoolVal(col.a.dtype == d and col.type is (INT64 if d == DT_INT else None)))
                    c.prove(f"{nm}/post: one value per {what}", lit(col.a.n) == size)
        if buffer is not None:
            nr = buffer.get(KR)
            if not isinstance(nr, Res):
                c.prove(f"{nm}/post: results of the last segment are kept for the next call", False)
                return
            c.prove(f"{nm}/post: results of the last segment are kept for each output", z3.BoolVal(set(nr.cols) == {k for d in some for k in outs[d][1]}))
            z = Num(z3.IntVal(0))
            c.prove(f"{nm}/post: results of the last segment are kept for the next call", z3.And(*[
                lit(nr.cols[k].a.at(z)) == ST["CH"][d.name](j) for d in some for j, k in enumerate(outs[d][1])]))
            c.prove(f"{nm}/post: nothing else in the state is changed", z3.BoolVal(set(buffer) == set(before) | {KL, KR} and all(buffer[k] is before[k] for k in before if k not in (KL, KR))))
        q = new_int("q", 0)
        c.prove(f"{nm}/post: data are not modified", z3.And(*[z3.Implies(q.e < n.e, lit(data.cols[k].a.at(q)) == lit(ST["X"][k](q))) for k in dts]))

    return Target(nm, [f"{CM}.cumsegagg", f"{CM}.setup_chunk_res"], run, {}, tables=TAB, overrides=OVER,
                  assumptions=["pandas DataFrame over its columns: construction, selection, assignment of nulls, change of type (t_csa.py)",
                               "requests enumerated: one or two inputs and one to three outputs per type; rows, bins and snapshots unbounded",
                               "segmentby, jcsagg, setup_cumsegagg, setup_segmentby meet their contracts", "error_on_0 is not asked for"])


CSA = [csa_target(s, b) for s in ("no", "grouper", "series") for b in ("no", "new", "restart")]
TARGETS = {"C15": CSA, "C10": [t for t in CSA if "snapshots: no" in t.name], "C13": [t for t in CSA if "snapshots: no" not in t.name], "C14": [t for t in CSA if "restart" in t.name or "new" in t.name]}
