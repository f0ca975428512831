"""Contracts of the flushing of aggregation results (C18) and of the state recorded for resumption (C19)."""
import z3

import core
from core import And, Eq, Implies, LoopSpec, Not, Num, Or, PathEnd, SBool, Unsupported, BOOL, INT, VAL, SVal, lit, new_int, new_val, zbool
from models import Mapped, Obj, VDict, VList
from models_pd import PANDAS, Frame
from target import Target

AM = "oups.aggstream.aggstream"


class RFrame(Frame):
    """Aggregation results: rows in order; memory use opaque."""

    py = ("DataFrame",)

    def __init__(self, n, row, index_name=None, as_columns=False):
        super().__init__(n, row, None)
        self.iname, self.as_columns = index_name, as_columns

    def like(self, n, row, find=None):
        return RFrame(n, row, self.iname, self.as_columns)

    def copy(self, deep=True):
        return RFrame(self.n, self.row, self.iname, self.as_columns)

    def memory_usage(self, *a, **k):
        class MU:
            def sum(s):
                return new_int("mem", 0)

        return MU()

    @property
    def index(self):
        f = self

        class I:
            @property
            def name(s):
                return f.iname

            @name.setter
            def name(s, v):
                f.iname = v

        return I()

    def reset_index(self, drop=False, inplace=False, **k):
        if drop:
            raise Unsupported("index dropped")
        r = self if inplace else self.copy()
        r.as_columns = True
        return None if inplace else r


RFrame.__name__ = "DataFrame"


def empty():
    return RFrame(Num(z3.IntVal(0)), lambda k: Num(z3.IntVal(0)))


def cat(a, b):
    n, ra, rb = lit(a.n), a.row, b.row
    return RFrame(Num(z3.simplify(n + lit(b.n))), lambda k: core.ite(lit(k) < n, ra(k), rb(Num(z3.simplify(lit(k) - n)))))


def same(a, b, at):
    """Same rows in the same order (at: any position)."""
    return z3.And(lit(a.n) == lit(b.n), z3.Implies(z3.And(at >= 0, at < lit(a.n)), lit(a.row(Num(at))) == lit(b.row(Num(at)))))


class Frames(Obj):
    """list of frames: how many, and the rows of all of them in order."""

    py = ("list",)

    def __init__(self, cnt, all_):
        super().__init__()
        self.cnt, self.all = cnt, all_

    def vc_len(self):
        return self.cnt

    def append(self, f):
        if not isinstance(f, Frame):
            raise Unsupported("append of another object")
        self.touch()
        self.all = cat(self.all, f)
        self.cnt = Num(z3.simplify(lit(self.cnt) + 1))

    def vc_display(self, kind, parts):
        r = empty()
        cnt = z3.IntVal(0)
        for st, v in parts:
            v = as_frames(v) if st else v
            r = cat(r, v.all if st else v)
            cnt = cnt + (lit(v.cnt) if st else 1)
        return Frames(Num(z3.simplify(cnt)), r)

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            if core.CTX.branch(lit(self.cnt) == 0):
                raise IndexError("list index out of range")
            if core.CTX.branch(lit(self.cnt) == 1):
                return self.all
        raise Unsupported("one frame of several")

    def __iter__(self):
        raise Unsupported("iteration over the buffered frames")

    def __bool__(self):
        return core.CTX.branch(lit(self.cnt) > 0)


def as_frames(v):
    if isinstance(v, Frames):
        return v
    if isinstance(v, (list, tuple)) and not (isinstance(v, VList) and v.s is not None):
        r = empty()
        for x in list(v):
            r = cat(r, x)
        return Frames(Num(z3.IntVal(len(list(v)))), r)
    raise Unsupported("buffer of another kind")


def pconcat(parts, **kw):
    if kw.get("ignore_index") or kw.get("axis"):
        raise Unsupported("concat dropping the index")
    parts = as_frames(parts)
    if core.CTX.branch(lit(parts.cnt) == 0):
        raise ValueError("No objects to concatenate")
    return parts.all.copy()


def data_frame(*a, **k):
    if a or k:
        raise Unsupported("construction of a dataframe")
    return empty()


class DF(type):
    def __call__(cls, *a, **k):
        return data_frame(*a, **k)


PD = dict(PANDAS, concat=pconcat, DataFrame=DF("DataFrame", (), {}))


class Store:
    """Ghost: rows written to each key, in order."""

    def __init__(self, keys, exists):
        self.W = {k: self.start(i) for i, k in enumerate(keys)}
        self.W0 = dict(self.W)
        self.writes, self.exists, self.meta, self.on_write = [], exists, [], None

    @staticmethod
    def start(i):
        f = core.CTX.fresh_fun(f"written{i}", INT, INT)
        return RFrame(new_int(f"nwritten{i}", 0), lambda k: Num(f(lit(k))))

    def __setitem__(self, key, v):
        conf, df = v if isinstance(v, tuple) else ({}, v)
        if key not in self.W:
            raise Unsupported("write to another key")
        if not isinstance(df, Frame):
            raise Unsupported("write of another object")
        if self.on_write:
            self.on_write(key)
        self.writes.append((key, conf, df))
        self.W[key] = cat(self.W[key], df)

    def __getitem__(self, key):
        if key not in self.W:
            raise Unsupported("read of another key")
        st = self

        class H:
            @property
            def pf(s):
                if not st.exists:
                    raise FileNotFoundError(key)
                return ("pf", key)

        return H()


def fresh_frame(nm, lo=0):
    f = core.CTX.fresh_fun(nm, INT, INT)
    return RFrame(new_int("n" + nm, lo), lambda k: Num(f(lit(k))))


class State:
    """Any state between two calls: buffers of any content, unless nothing is in progress."""

    def __init__(self, ns, snaps, running):
        c = core.CTX
        self.bin = fresh_frame("binres", 1) if running else None
        self.snap = fresh_frame("snapres") if running and snaps else None
        if running:
            cnt = new_int("buffered", 0)
            self.bb = Frames(cnt, fresh_frame("binbuf"))
            self.sb = Frames(cnt, fresh_frame("snapbuf")) if snaps else VList()
            c.assume(z3.Implies(cnt.e == 0, lit(self.bb.all.n) == 0))
            if snaps:
                c.assume(z3.Implies(cnt.e == 0, lit(self.sb.all.n) == 0))
            size = new_int("size", 0)
        else:
            self.bb, self.sb, size = VList(), VList(), 0
        self.B0, self.S0 = as_frames(self.bb).all, as_frames(self.sb).all
        self.seg, self.post = {"seg": 1}, {"post": 1}
        self.d = VDict({ns["KEY_AGG_IN_MEMORY_SIZE"]: size, ns["KEY_BIN_RES"]: self.bin, ns["KEY_SNAP_RES"]: self.snap,
                        ns["KEY_BIN_RES_BUFFER"]: self.bb, ns["KEY_SNAP_RES_BUFFER"]: self.sb,
                        ns["KEY_SEGAGG_BUFFER"]: self.seg, ns["KEY_POST_BUFFER"]: self.post})


class Post:
    """Ghost for the post-processing of the user: rows passed to it, in order; its results are arbitrary."""

    def __init__(self, kind, buffer):
        self.B, self.S, self.kind, self.buffer, self.calls, self.out = empty(), empty(), kind, buffer, [], ([], [])

    def __call__(self, buffer, bin_res, snap_res=None):
        self.calls.append((buffer, bin_res.iname, bin_res.as_columns, snap_res is not None))
        self.B = cat(self.B, bin_res)
        if snap_res is not None:
            self.S = cat(self.S, snap_res)
        a, b = fresh_frame("postbin"), fresh_frame("postsnap")
        self.out[0].append(a)
        self.out[1].append(b)
        return (a, b) if self.kind == "BOTH" else a


class WC:
    """Value of the setting of row group sizes when bins and snapshots are both kept."""


def setup(T, kind, running, post, ext=True):
    c = core.CTX
    ns = T.rt.load(AM).ns
    main, snap = object(), object()
    key = (main, snap) if kind == "BOTH" else main
    store = Store([main, snap], ext)
    snaps = kind != "BINS"
    s = State(ns, snaps, running)
    p = Post(kind, s.post) if post else None
    a, b = new_val("rgs0"), new_val("rgs1")
    wc = VDict({ns["KEY_ORDERED_ON"]: "on", ns["KEY_MAX_ROW_GROUP_SIZE"]: (a, b) if kind == "BOTH" else a})
    wc0 = dict(wc)
    return ns, main, snap, key, store, s, p, wc, wc0


def logical(kind, store, main, snap, post, B, S):
    """Rows of bins and of snapshots handed over so far (written, or passed to the post-processing)."""
    if post:
        return post.B, post.S if kind != "BINS" else None
    return (None if kind == "SNAPS" else store.W[main]), {"BINS": None, "SNAPS": store.W[main], "BOTH": store.W[snap]}[kind]


def check_writes(nm, ns, kind, store, main, snap, wc, wc0, iname, post, given_name):
    c = core.CTX
    c.prove(f"{nm}/post: the settings of the caller are not modified", z3.BoolVal(dict(wc) == wc0 or same_conf(wc, wc0)))
    K = ns["KEY_MAX_ROW_GROUP_SIZE"]
    for key, conf, df in store.writes:
        want = dict(wc0)
        if kind == "BOTH":
            want[K] = wc0[K][0 if key is main else 1]
        c.prove(f"{nm}/write: with the settings of its key", z3.BoolVal(same_conf(conf, want)), cut=False)
        if not post:
            c.prove(f"{nm}/write: labels of bins are a column", z3.BoolVal(df.as_columns), cut=False)
            c.prove(f"{nm}/write: name of this column", z3.BoolVal(df.iname is given_name), cut=False)


def same_conf(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or (isinstance(a[k], SVal) and isinstance(b[k], SVal) and a[k].e.eq(b[k].e)) for k in a)


def iter_target(kind, running, post):
    nm = f"agg_iter[{kind},{'results in progress' if running else 'no result yet'}{',post' if post else ''}]"

    def run(T):
        c = core.CTX
        f = T.fn(AM, "agg_iter")
        ns, main, snap, key, store, s, p, wc, wc0 = setup(T, kind, running, post)
        snaps = kind != "BINS"
        R, S = fresh_frame("newbin", 1), fresh_frame("newsnap") if snaps else None
        chunk, agg, seg = object(), object(), object()
        calls = []

        def cumsegagg(data=None, agg=None, bin_by=None, buffer=None, **k):
            calls.append((data, agg, bin_by, buffer, k))
            return (R, S) if snaps else R

        ns["cumsegagg"] = cumsegagg
        name = core.Name(c.fresh("bin_on_out", VAL)) if running else None
        limit = new_int("limit")
        OM = ns["OUPS_METADATA"]
        om0 = dict(OM)
        conf = {ns["KEY_SEG_CONFIG"]: seg, ns["KEY_BIN_ON_OUT"]: name, ns["KEY_MAX_IN_MEMORY_SIZE_B"]: limit, ns["KEY_POST"]: p,
                ns["KEY_WRITE_CONFIG"]: wc, ns["KEY_AGG_RES_TYPE"]: ns["AggResType"][kind]}
        pre = logical(kind, store, main, snap, p, s.B0, s.S0)
        r = T.call(f, seed_chunk=chunk, store=store, key=key, keys_config=conf, agg_config=agg, agg_buffers=s.d)
        c.prove(f"{nm}/post: returns the key and its state", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[0] is key and r[1] is s.d))
        d = r[1]
        c.prove(f"{nm}/post: the chunk is aggregated once, with the state carried over",
                z3.BoolVal(len(calls) == 1 and calls[0][:4] == (chunk, agg, seg, s.seg)
                           and calls[0][3] is s.seg and d[ns["KEY_SEGAGG_BUFFER"]] is s.seg))
        c.prove(f"{nm}/post: state of the post-processing carried over", z3.BoolVal(d[ns["KEY_POST_BUFFER"]] is s.post))
        c.prove(f"{nm}/post: the latest results are in progress", z3.BoolVal(d[ns["KEY_BIN_RES"]] is R and d[ns["KEY_SNAP_RES"]] is S))
        now = logical(kind, store, main, snap, p, None, None)
        at = c.fresh("at", INT)
        for what, w0, w1, b0, key_b, res in (("bins", pre[0], now[0], s.B0, "KEY_BIN_RES_BUFFER", s.bin), ("snapshots", pre[1], now[1], s.S0, "KEY_SNAP_RES_BUFFER", s.snap)):
            if w0 is None:
                continue
            done = res.iloc[:-1] if res is not None else empty()
            want = cat(cat(w0, b0), done)
            have = cat(w1, as_frames(d[ns[key_b]]).all)
            c.prove(f"{nm}/post: complete {what} are handed over or kept, each once, in order, whatever the size allowed in memory", same(have, want, at), cut=False)
        if p is not None:
            for buf, iname, ascol, withsnap in p.calls:
                c.prove(f"{nm}/post-processing: with its own state", z3.BoolVal(buf is s.post and withsnap == snaps and ascol), cut=False)
            i0 = 0
            for i, (a, b) in enumerate(zip(*p.out)):
                ws = [(k, df) for k, _, df in store.writes]
                c.prove(f"{nm}/post-processing: its results are written",
                        z3.BoolVal([k for k, _ in ws] == ([main, snap] if kind == "BOTH" else [main]) and ws[0][1] is a and (kind != "BOTH" or ws[1][1] is b)), cut=False)
        check_writes(nm, ns, kind, store, main, snap, wc, wc0, None, p, name)
        c.prove(f"{nm}/post: nothing recorded for resumption", z3.BoolVal(dict(OM) == om0 and not store.meta), cut=False)
        # shape of the state for the next call
        b = as_frames(d[ns["KEY_BIN_RES_BUFFER"]])
        c.prove(f"{nm}/post: no rows without a frame", z3.Implies(lit(b.cnt) == 0, lit(b.all.n) == 0), cut=False)
        if snaps:
            q = as_frames(d[ns["KEY_SNAP_RES_BUFFER"]])
            c.prove(f"{nm}/post: as many frames of snapshots as of bins", lit(b.cnt) == lit(q.cnt), cut=False)

    return Target(nm, [f"{AM}.agg_iter", f"{AM}._post_n_write_agg_chunks", f"{AM}._concat_agg_res", f"{AM}._reset_agg_buffers"], run, tables=dict(pandas=PD),
                  assumptions=["cumsegagg returns at least one bin for a non-empty chunk (contracts of C10-C14)",
                               "store[key] = config, df adds the rows (contracts of C04, C05)", "pandas concat keeps rows in the order of the frames"])


def final_target(kind, running, post, last, exists, append=True):
    nm = (f"_post_n_write_agg_chunks[{kind},{'results' if running else 'no result'}{',post' if post else ''}{',recorded' if last else ''}"
          f"{',complete bins only' if not append else ''}{'' if exists else ',new dataset'}]")

    def run(T):
        c = core.CTX
        f = T.fn(AM, "_post_n_write_agg_chunks")
        ns, main, snap, key, store, s, p, wc, wc0 = setup(T, kind, running, post, exists)
        snaps = kind != "BINS"
        if not append and running:
            c.assume(lit(as_frames(s.bb).cnt) >= 1)
        name = core.Name(c.fresh("bin_on_out", VAL)) if append else None
        OM = ns["OUPS_METADATA"]
        om0 = dict(OM)
        li = new_val("last") if last else None
        pb = {"pre": 1}
        seen = []

        def recorded():
            m = OM.get(main)
            if not isinstance(m, dict) or set(m) != {ns["KEY_AGGSTREAM"]}:
                return False
            m = m[ns["KEY_AGGSTREAM"]]
            return (set(m) == {ns["KEY_RESTART_INDEX"], ns["KEY_PRE_BUFFER"], ns["KEY_SEGAGG_BUFFER"], ns["KEY_POST_BUFFER"]}
                    and m[ns["KEY_RESTART_INDEX"]] is li and m[ns["KEY_PRE_BUFFER"]] is pb
                    and m[ns["KEY_SEGAGG_BUFFER"]] is s.seg and m[ns["KEY_POST_BUFFER"]] is s.post)

        store.on_write = lambda k: seen.append((k, recorded()))

        def write_metadata(pf=None, metadata=None, md_key=None):
            store.meta.append((pf, metadata, md_key))
            seen.append((md_key, recorded()))

        ns["write_metadata"] = write_metadata
        pre = logical(kind, store, main, snap, p, s.B0, s.S0)
        k = dict(agg_buffers=s.d, agg_res_type=ns["AggResType"][kind], append_last_res=append, store=store, key=key, write_config=wc, index_name=name, post=p)
        if last:
            k.update(last_seed_index=li, pre_buffer=pb)
        r = T.call(f, **k)
        d = s.d
        at = c.fresh("at", INT)
        now = logical(kind, store, main, snap, p, None, None)
        for what, w0, w1, b0, res in (("bins", pre[0], now[0], s.B0, s.bin), ("snapshots", pre[1], now[1], s.S0, s.snap)):
            if w0 is None:
                continue
            want = cat(cat(w0, b0), res if res is not None and append else empty())
            c.prove(f"{nm}/post: all {what} are handed over, each once, in order", same(w1, want, at), cut=False)
        if p is not None and running:
            ws = [(k, df) for k, _, df in store.writes]
            c.prove(f"{nm}/post-processing: once, with its own state", z3.BoolVal(len(p.calls) == 1 and p.calls[0][0] is s.post and p.calls[0][2] and p.calls[0][3] == snaps), cut=False)
            c.prove(f"{nm}/post-processing: its results are written",
                    z3.BoolVal([k for k, _ in ws] == ([main, snap] if kind == "BOTH" else [main]) and ws[0][1] is p.out[0][0] and (kind != "BOTH" or ws[1][1] is p.out[1][0])), cut=False)
        if running:
            check_writes(nm, ns, kind, store, main, snap, wc, wc0, None, p, name)
            c.prove(f"{nm}/post: nothing left in progress",
                    z3.BoolVal(d[ns["KEY_BIN_RES"]] is None and d[ns["KEY_SNAP_RES"]] is None and not d[ns["KEY_BIN_RES_BUFFER"]] and not d[ns["KEY_SNAP_RES_BUFFER"]]), cut=False)
        else:
            n = lit(store.W[main].n) == lit(store.W0[main].n)
            c.prove(f"{nm}/post: no row is written without results", z3.And(n, lit(store.W[snap].n) == lit(store.W0[snap].n)), cut=False)
        c.prove(f"{nm}/post: state for the next call is kept", z3.BoolVal(d[ns["KEY_SEGAGG_BUFFER"]] is s.seg and d[ns["KEY_POST_BUFFER"]] is s.post), cut=False)
        if last:
            c.prove(f"{nm}/post: the state for resumption is recorded before the write of the main key", z3.BoolVal((main, True) in seen and (main, False) not in seen), cut=False)
            others = {k: v for k, v in OM.items() if k is not main}
            c.prove(f"{nm}/post: nothing recorded for another key", z3.BoolVal(others == om0), cut=False)
            if not running:
                if exists:
                    c.prove(f"{nm}/post: recorded in the existing dataset", z3.BoolVal(len(store.meta) == 1 and store.meta[0] == (("pf", main), None, main) and not store.writes), cut=False)
                else:
                    c.prove(f"{nm}/post: recorded in a new empty dataset", z3.BoolVal([k for k, _, _ in store.writes] == [main]), cut=False)
        else:
            c.prove(f"{nm}/post: nothing recorded for resumption", z3.BoolVal(dict(OM) == om0 and not store.meta), cut=False)

    return Target(nm, [f"{AM}._post_n_write_agg_chunks", f"{AM}._concat_agg_res", f"{AM}._reset_agg_buffers"], run, tables=dict(pandas=PD),
                  assumptions=["store[key] = config, df adds the rows and writes the recorded metadata (contracts of C04, C05, C07)",
                               "pandas concat keeps rows in the order of the frames"])


FLUSH = [iter_target(k, r, p) for k in ("BINS", "SNAPS", "BOTH") for r, p in ((True, False), (False, False), (True, True))]
FLUSH += [final_target(k, True, p, False, True, append=False) for k in ("BINS", "SNAPS", "BOTH") for p in (False, True)]
FINAL = [final_target(k, True, p, True, True) for k in ("BINS", "SNAPS", "BOTH") for p in (False, True)]
FINAL += [final_target(k, False, False, True, e) for k in ("BINS", "BOTH") for e in (True, False)]
TARGETS = {"C18": FLUSH + FINAL, "C19": FINAL}
