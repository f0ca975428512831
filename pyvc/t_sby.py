"""Contract of segmentby and setup_mainbuffer (C13, C14): which rows, sides, ends and states bins and snapshots are
made from, what is refused, and how bins and snapshots are ordered. Bins come from any function meeting the
documented contract of 'bin_by'; by_scale, mergesort and setup_segmentby by their contracts (targets of their own)."""
import z3

import core
from core import And, Eq, Num, Unsupported, SBool, lit, new_bool, new_int, zbool, INT
from models import Arr, DT_INT, DT_TIME, n_nonzero
from models_pd import PANDAS, Ser
from target import Target

SM = "oups.aggstream.segmentby"
ST = {}


class DIloc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        return DSer(Ser.iloc.fget(self.s)[i].a) if isinstance(i, slice) else Ser.iloc.fget(self.s)[i]


class DSer(Ser):
    def diff(self, periods=1):
        if periods != 1:
            raise Unsupported("difference over several rows")
        f = self.a.snapshot()
        first = core.CTX.fresh("no_difference", INT)
        return DSer(Arr.of(lambda k: Num(z3.If(lit(k) == 0, first, lit(f(k)) - lit(f(Num(lit(k) - 1))))), self.a.n, self.a.dtype))

    @property
    def iloc(self):
        return DIloc(self)

    @property
    def is_monotonic_increasing(self):
        return SBool(ascends(self.a))


DSer.__name__ = "Series"


def ascends(a):
    f = a.snapshot()
    i, j = z3.Ints("i!as j!as")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lit(a.n)), lit(f(Num(i))) <= lit(f(Num(j)))))


class Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
            return self.f[i[1]]
        raise Unsupported("loc by labels")


class SFrame:
    py = ("DataFrame",)

    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    def vc_len(self):
        return self.n

    def __getitem__(self, c):
        if isinstance(c, str):
            return self.cols[c]
        if isinstance(c, list):
            return SFrame(self.n, {k: self.cols[k] for k in c})
        raise Unsupported("selection in a dataframe")

    @property
    def loc(self):
        return Loc(self)

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a dataframe")


SFrame.__name__ = "DataFrame"


class TIndex:
    """What is neither a Series nor a dataframe."""

    def __init__(self, n):
        self.n = n

    def vc_len(self):
        return self.n


def delta(v=0, *a):
    if not isinstance(v, int) or v != 0 or a:
        raise Unsupported("another duration")
    return 0


def nonzero(m):
    if not isinstance(m, Arr):
        raise Unsupported("nonzero of another object")
    r = n_nonzero(m if m.dtype.name == "bool" else (m != 0))
    ST["sel"].append((r[0].buf.sel, r[0].n))
    return r


def ndiff(a, n=1, axis=-1, prepend=None, append=None):
    if n != 1 or prepend is not None or not isinstance(a, Arr):
        raise Unsupported("difference of another kind")
    f = a.snapshot()
    m = lit(a.n)
    if append is None:
        return Arr.of(lambda k: Num(lit(f(Num(lit(k) + 1))) - lit(f(k))), Num(z3.If(m > 0, m - 1, z3.IntVal(0))), DT_INT)
    x = lit(append)
    return Arr.of(lambda k: Num(z3.If(lit(k) == m - 1, x, lit(f(Num(lit(k) + 1)))) - lit(f(k))), a.n, DT_INT)


def by_scale(on, by, closed=None, buffer=None):
    """Contract of by_scale (t_scale.py)."""
    c, nm = core.CTX, ST["nm"]
    if not isinstance(on, Ser):
        raise Unsupported("scale of another object")
    q = new_int("q", 0)
    on0 = ST["data"].cols[ST["ordered_on"]].a
    c.prove(f"{nm}/snapshots: over the ordered column", z3.And(lit(on.a.n) == lit(ST["data"].n), z3.Implies(q.e < lit(on.a.n), lit(on.a.at(q)) == lit(on0.at(q)))))
    c.prove(f"{nm}/snapshots: at the points requested", z3.BoolVal(by is ST["snap_by"]))
    c.prove(f"{nm}/snapshots: closed as bins are", z3.BoolVal(closed == ST["closed"] and isinstance(closed, str)))
    c.prove(f"{nm}/snapshots: state of snapshots", z3.BoolVal(buffer is None if ST["buffer"] is None else buffer is ST["buffer"].get("snap") and buffer is not None))
    c.prove(f"{nm}/snapshots: made once", z3.BoolVal("snaps" not in ST))
    K = new_int("K", 0)
    ns, se, sl = Arr.fresh("NS", K, DT_INT), Ser(Arr.fresh("SE", K, DT_INT)), Ser(Arr.fresh("SL", K, DT_INT))
    X = ST["X"]
    n = lit(ST["data"].n)
    NS, SE = (lambda i: lit(ns.at(Num(i)))), (lambda i: lit(se.a.at(Num(i))))
    k = z3.Int("k!bs")
    ok = (lambda x, e: x <= e) if ST["closed"] == "right" else (lambda x, e: x < e)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < K.e), z3.And(NS(k) >= 0, NS(k) <= n, z3.Implies(NS(k) < n, z3.Not(ok(X(NS(k)), SE(k)))),
                                                                       z3.Implies(NS(k) > 0, ok(X(NS(k) - 1), SE(k)))))))
    i, j = z3.Ints("i!bs j!bs")
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < K.e), z3.And(NS(i) <= NS(j), SE(i) < SE(j)))))
    nn = new_int("NN", 0)
    ST["snaps"] = (ns, se, sl, K, NS, SE, nn)
    return ns, sl, nn, ST["closed"], se, False


def mergesort(labels, keys, force_last_from_second=False, sub_keys=None):
    """Contract of mergesort (t_seg.py)."""
    c, nm = core.CTX, ST["nm"]
    arr = lambda x: x.a if isinstance(x, Ser) else x  # noqa: E731
    l1, l2 = map(arr, labels)
    k1, k2 = map(arr, keys)
    if not all(isinstance(x, Arr) for x in (l1, l2, k1, k2)):
        raise Unsupported("sort of other objects")
    a, b = lit(l1.n), lit(l2.n)
    if c.branch(z3.Or(lit(k1.n) != a, lit(k2.n) != b)):
        raise ValueError("not possible to have arrays of different length")
    force = force_last_from_second
    force = force if isinstance(force, bool) else c.branch(zbool(force))
    c.prove(f"{nm}/sort: something comes last", z3.BoolVal(True) if not force else b >= 1)
    i, j = new_int("i", 0), new_int("j", 0)
    F = lambda x: (lambda g: (lambda p: lit(g(Num(p)))))(x.snapshot())  # noqa: E731
    L1, L2, K1, K2 = F(l1), F(l2), F(k1), F(k2)
    c.prove(f"{nm}/sort: keys ascend", z3.Implies(i.e < j.e, z3.And(z3.Implies(j.e < a, K1(i.e) <= K1(j.e)), z3.Implies(j.e < b - (1 if force else 0), K2(i.e) <= K2(j.e)))))
    if sub_keys is not None:
        s1, s2 = map(arr, sub_keys)
        S1, S2 = F(s1), F(s2)
        c.prove(f"{nm}/sort: sub-keys ascend", z3.And(lit(s1.n) == a, lit(s2.n) == b, z3.Implies(i.e < j.e, z3.And(
            z3.Implies(j.e < a, S1(i.e) <= S1(j.e)), z3.Implies(j.e < b - (1 if force else 0), S2(i.e) <= S2(j.e))))))
    p, q = c.fresh_fun("p", INT, INT), c.fresh_fun("q", INT, INT)  # which item comes at a position, and where it comes
    tot = a + b
    cat = lambda x, A, B: z3.If(x < a, A(x), B(x - a))  # noqa: E731
    u, v = z3.Ints("u!ms v!ms")
    c.assume(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < tot), z3.And(p(u) >= 0, p(u) < tot, q(p(u)) == u)), patterns=[p(u)]))
    c.assume(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < tot), z3.And(q(u) >= 0, q(u) < tot, p(q(u)) == u)), patterns=[q(u)]))
    end = tot - 1 if force else tot
    if force:
        c.assume(z3.And(p(tot - 1) == tot - 1, q(tot - 1) == tot - 1))
    tie = p(u) < p(v)
    if sub_keys is not None:
        su, sv = cat(p(u), S1, S2), cat(p(v), S1, S2)
        tie = z3.Or(su < sv, z3.And(su == sv, tie))
    ku, kv = cat(p(u), K1, K2), cat(p(v), K1, K2)
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(0 <= u, u < v, v < end), z3.Or(ku < kv, z3.And(ku == kv, tie))), patterns=[z3.MultiPattern(p(u), p(v))]))
    # positions of items of the second input ascend, as do those of the first
    ins = Arr.of(lambda k: Num(q(a + lit(k))), l2.n, DT_INT)
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(0 <= u, u < v, v < tot, (u < a) == (v < a)), q(u) < q(v)), patterns=[z3.MultiPattern(q(u), q(v))]))
    ST["merge"] = (p, q, a, b)
    return Arr.of(lambda k: Num(cat(p(lit(k)), L1, L2)), Num(tot), DT_INT), ins


def setup(bin_by, bin_on=None, ordered_on=None, snap_by=None):
    c, nm = core.CTX, ST["nm"]
    c.prove(f"{nm}/set-up from the arguments", z3.BoolVal(bin_by is ST["raw"] and bin_on == "bin_on" and ordered_on == ST["oo_arg"] and snap_by is ST["snap_arg"]))
    return ST["setup"]


OVER = {(SM, "by_scale"): by_scale, (SM, "mergesort"): mergesort, (SM, "setup_segmentby"): setup}
TAB = {"pandas": dict(PANDAS, Timedelta=delta), "numpy": dict(diff=ndiff, nonzero=nonzero)}


def pick(name, *xs):
    for x in xs[:-1]:
        if core.CTX.branch(new_bool(name).e):
            return x
    return xs[-1]


def sby_target(snap, state):
    """snap: no, grouper, series. state: no buffer, new one, left by a previous call."""
    nm = f"segmentby[snapshots: {snap}; buffer: {state}]"

    def run(T):
        c = core.CTX
        ST.clear()
        ST["nm"], ST["sel"] = nm, []
        f = T.fn(SM, "segmentby")
        m = T.rt.load(SM).ns
        n = new_int("n", 1)
        odd = pick("odd", "nothing", "closed", "labels", "lengths")
        variant = odd == "nothing" and pick("variant", True, False)
        dt = DT_TIME if variant else DT_INT
        cols = {k: DSer(Arr.fresh(k, n, d)) for k, d in (("bin_on", DT_INT), ("ordered", dt))}
        data = SFrame(n, cols)
        X = (lambda g: (lambda i: lit(g(Num(i)))))(cols["ordered"].a.snapshot())
        ordered = "ordered" if snap != "no" else "ordered" if variant else None
        on_cols = ["bin_on", "ordered"] if ordered and not variant else "bin_on"
        ST.update(data=data, X=X, ordered_on=ordered, oo_arg=ordered, closed="other" if odd == "closed" else pick("closed", "left", "right"))
        # results of bin_by
        B, Bl, Be = new_int("B", 1), new_int("Bl", 1), new_int("Be", 0)
        same = odd != "lengths"
        if same:
            Bl = Be = B
        ncs, ends = Arr.fresh("NB", B, DT_INT), Ser(Arr.fresh("BE", Be, DT_INT))
        series = odd != "labels"
        labels = Ser(Arr.fresh("BL", Bl, DT_INT)) if series else TIndex(Bl)
        NB, BE = (lambda i: lit(ncs.at(Num(i)))), (lambda i: lit(ends.a.at(Num(i))))
        unk, nnb = new_bool("unknown_end"), new_int("nnb", 0)
        ok_before = (lambda x, e: x <= e) if ST["closed"] == "right" else (lambda x, e: x < e)
        k, i, j = z3.Ints("k!bb i!bb j!bb")
        known = z3.If(unk.e, B.e - 1, B.e)
        # documented contract of 'bin_by': starts ascend within the rows; ends are those of the ordered column
        c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < B.e), z3.And(NB(k) >= 0, NB(k) <= n.e))))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < B.e), NB(i) <= NB(j))))
        if snap != "no":
            known = z3.If(known < Be.e, known, Be.e)
            c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < known), z3.And(z3.Implies(NB(k) < n.e, X(NB(k)) >= BE(k)), z3.Implies(NB(k) > 0, ok_before(X(NB(k) - 1), BE(k)))))))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < known), BE(i) <= BE(j))))
            # a last bin having no known end is made of all rows left
            c.assume(z3.Implies(z3.And(unk.e, B.e == Be.e), NB(B.e - 1) == n.e))
        calls = []

        def bin_by(on, buffer=None):
            calls.append(buffer)
            q = new_int("q", 0)
            if isinstance(on_cols, str):
                if not isinstance(on, Ser):
                    raise Unsupported("bins over another object")
                c.prove(f"{nm}/bins: over their column", z3.And(lit(on.a.n) == n.e, z3.Implies(q.e < n.e, lit(on.a.at(q)) == lit(cols["bin_on"].a.at(q)))))
            else:
                if not isinstance(on, SFrame):
                    raise Unsupported("bins over another object")
                c.prove(f"{nm}/bins: over their columns", z3.BoolVal(list(on.cols) == on_cols and all(on.cols[x] is cols[x] for x in on_cols) and on.n is n))
            c.prove(f"{nm}/bins: state of bins", z3.BoolVal(buffer is None if ST["buffer"] is None else buffer is not None and buffer is ST["buffer"].get("bin")))
            return ncs, labels, nnb, ST["closed"], ends, unk

        grouper, snaps = (type("TimeGrouper", (), {"py": ("TimeGrouper",)})(), Ser(Arr.fresh("points", new_int("points", 0), dt)))
        ST["snap_by"] = {"no": None, "grouper": grouper, "series": snaps}[snap]
        ST["setup"] = {m["KEY_BIN_BY"]: bin_by, m["KEY_ON_COLS"]: on_cols, m["KEY_ORDERED_ON"]: ordered, m["KEY_BIN_ON"]: "bin_on",
                       m["KEY_SNAP_BY"]: grouper if snap == "grouper" else None}
        ST["snap_arg"] = ST["snap_by"]
        given = variant
        ST["raw"] = object()
        KL = m["KEY_LAST_BIN_LABEL"]
        last_label = new_int("last_label")
        buffer = {"no": None, "new": {}, "restart": {m["KEY_BIN"]: {}, KL: last_label}}[state]
        if state == "restart" and snap != "no":
            buffer[m["KEY_SNAP"]] = {}
        ST["buffer"] = buffer
        before = None if buffer is None else dict(buffer)
        # what has to be refused
        x = new_int("row", 0)
        z = z3.Int("z!o")
        unordered = z3.Exists([z], z3.And(z >= 1, z < n.e, X(z) < X(z - 1))) if ordered else z3.BoolVal(False)
        o = ST["closed"] == "other"
        bad = [z3.BoolVal(o or not series or (state == "no" and False))]
        if not same:
            bad.append(z3.Or(B.e != Bl.e, B.e != Be.e))
        if state != "no":
            bad.append(NB(B.e - 1) != n.e)
            bad.append(z3.And(B.e > 1, NB(B.e - 2) == n.e))
        if state == "restart" and series:
            bad.append(lit(labels.a.at(Num(0))) != last_label.e)
        bad = z3.Or(*bad)
        try:
            if given:
                out = T.call(f, data, ST["setup"], buffer=buffer, snap_by=snaps if snap == "series" else None, expect=(ValueError, TypeError))
            else:
                out = T.call(f, data, ST["raw"], "bin_on", ordered, ST["snap_arg"], buffer, expect=(ValueError, TypeError))
        except (ValueError, TypeError) as e:
            if isinstance(e, TypeError) and not calls:
                raise Unsupported(f"TypeError: {e}")
            c.prove(f"{nm}/post: refused only for rows not ordered, or results of 'bin_by' not allowed", z3.Or(unordered, bad) if calls else unordered, cut=False)
            return
        c.prove(f"{nm}/post: results of 'bin_by' not allowed are refused", z3.Not(bad), cut=False)
        if ordered:
            c.prove(f"{nm}/post: rows not ordered are refused", z3.Implies(z3.And(x.e >= 1, x.e < n.e), X(x.e - 1) <= X(x.e)), cut=False)
        c.prove(f"{nm}/post: bins made once", z3.BoolVal(len(calls) == 1))
        if not (isinstance(out, tuple) and len(out) == 6 and isinstance(out[0], Arr) and isinstance(out[1], Arr)):
            raise Unsupported("result of another shape")
        starts, bi, bl, nn, sl, nmax = out
        q = new_int("q", 0)
        c.prove(f"{nm}/post: labels of bins", z3.BoolVal(bl is labels) if bl is labels else z3.And(lit(bl.a.n) == B.e, z3.Implies(q.e < B.e, lit(bl.a.at(q)) == lit(labels.a.at(q)))))
        c.prove(f"{nm}/post: number of empty bins", Eq(nn, nnb))
        if snap == "no":
            c.prove(f"{nm}/post: starts are those of bins", z3.And(lit(starts.n) == B.e, z3.Implies(q.e < B.e, lit(starts.at(q)) == NB(q.e))))
            c.prove(f"{nm}/post: no snapshot", z3.And(lit(bi.n) == 0, z3.BoolVal(sl is None), Eq(nmax, 0)))
        else:
            if "snaps" not in ST or "merge" not in ST:
                c.prove(f"{nm}/post: snapshots are made and sorted with bins", False)
                return
            ns, se, sl0, K, NS, SE, nns = ST["snaps"]
            p, qq, a, b = ST["merge"]
            tot = K.e + B.e
            c.prove(f"{nm}/post: labels of snapshots", z3.BoolVal(sl is sl0) if sl is sl0 else z3.And(lit(sl.a.n) == K.e, z3.Implies(q.e < K.e, lit(sl.a.at(q)) == lit(sl0.a.at(q)))))
            c.prove(f"{nm}/post: bins and snapshots, each once", z3.And(lit(starts.n) == tot, lit(bi.n) == B.e, a == K.e, b == B.e))
            kb, ks = new_int("kb", 0), new_int("ks", 0)
            c.assume(kb.e < B.e)
            c.assume(ks.e < K.e)
            pb, ps = lit(bi.at(kb)), qq(ks.e)
            S = lambda t: lit(starts.at(Num(t)))  # noqa: E731
            c.prove(f"{nm}/post: start at the position of a bin", z3.And(pb >= 0, pb < tot, S(pb) == NB(kb.e), pb == qq(K.e + kb.e)), cut=False)
            c.prove(f"{nm}/post: start at the position of a snapshot", z3.And(ps >= 0, ps < tot, S(ps) == NS(ks.e)), cut=False)
            e, e2 = BE(kb.e), SE(ks.e)
            lastk = z3.And(unk.e, kb.e == B.e - 1)
            after = z3.Or(e < e2, z3.And(e == e2, NB(kb.e) < NS(ks.e)))  # the snapshot comes after the end of the bin
            c.prove(f"{nm}/post: a snapshot comes after a bin if and only if the bin ended before (or at the same end with less rows)",
                    (pb < ps) == z3.And(z3.Not(lastk), after), cut=False)
            c.prove(f"{nm}/post: an unknown end comes last", z3.Implies(lastk, pb == tot - 1), cut=False)
            # rows ascend: adjacent ones do (above), hence all (induction)
            c.assume(ascends(cols["ordered"].a))
            pair = z3.And(z3.Implies(pb < ps, NB(kb.e) <= NS(ks.e)), z3.Implies(ps < pb, NS(ks.e) <= NB(kb.e)))
            at = [(NB(kb.e) - 1, NS(ks.e)), (NS(ks.e) - 1, NB(kb.e)), (NB(kb.e), NS(ks.e) - 1), (NS(ks.e), NB(kb.e) - 1)]
            inst = z3.And(*[z3.Implies(z3.And(0 <= u, u <= v, v < n.e), X(u) <= X(v)) for u, v in at])
            c.prove(f"{nm}/post: starts of bins and snapshots ascend with their positions", z3.Implies(inst, pair), cut=False)
            # empty snapshots are all accounted for
            if len(ST["sel"]) != 2:
                raise Unsupported("empty snapshots counted in another way")
            ((pos1, inv1), c1), ((pos2, inv2), c2) = ST["sel"]
            c.prove(f"{nm}/post: number of empty snapshots", Eq(nmax, nns + c2))
            # last bin kb before snapshot ks, no row in between
            c.assume(pb < ps)
            z, y = z3.Ints("z!l y!l")
            c.assume(z3.ForAll([z], z3.Implies(z3.And(z > kb.e, z < B.e), qq(K.e + z) > ps), patterns=[qq(K.e + z)]))
            # (the obligation above, for any bin and snapshot)
            c.assume(z3.ForAll([z, y], z3.Implies(z3.And(z >= 0, z < B.e, y >= 0, y < K.e), z3.And(
                z3.Implies(qq(K.e + z) < qq(y), NB(z) <= NS(y)), z3.Implies(qq(y) < qq(K.e + z), NS(y) <= NB(z)))), patterns=[z3.MultiPattern(qq(K.e + z), qq(y))]))
            c.assume(NS(ks.e) == NB(kb.e))
            w = inv2(inv1(kb.e))
            pr = p(ps - 1)
            order = lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < tot, (i < K.e) == (j < K.e)), qq(i) < qq(j))  # noqa: E731
            for z in (kb.e + 1, pr - K.e):  # instances
                c.assume(z3.Implies(z3.And(z > kb.e, z < B.e), qq(K.e + z) > ps))
            c.assume(z3.Implies(pr >= K.e, z3.And(qq(pr) == qq(K.e + (pr - K.e)))))
            c.assume(z3.And(order(pr, K.e + kb.e), order(ks.e, pr), order(pr, ks.e - 1), order(ks.e - 1, ks.e)))
            c.assume(z3.Implies(z3.And(ks.e >= 1), z3.Implies(pb < qq(ks.e - 1), NB(kb.e) <= NS(ks.e - 1))))
            c.prove(f"{nm}/post: the next bin, if any, is after the snapshot", z3.Implies(kb.e + 1 < B.e, qq(K.e + kb.e + 1) > ps), cut=False)
            c.prove(f"{nm}/post: an empty snapshot right after a bin is accounted for",
                    z3.Implies(ps == pb + 1, z3.And(w >= 0, w < lit(c2), pos1(pos2(w)) == kb.e)), cut=False)
            c.prove(f"{nm}/post: what comes between them is a snapshot", z3.Implies(ps > pb + 1, z3.And(pr >= 0, pr < K.e, qq(pr) == ps - 1)), cut=False)
            c.prove(f"{nm}/post: an empty snapshot not right after a bin has the rows of the previous one (counted as such)",
                    z3.Implies(ps > pb + 1, z3.And(ks.e >= 1, qq(ks.e - 1) > pb, NS(ks.e - 1) == NS(ks.e))), cut=False)
        if buffer is not None:
            c.prove(f"{nm}/post: label of the last bin is recorded", Eq(buffer.get(KL), labels.a.at(Num(B.e - 1))))
            keys = {m["KEY_BIN"], KL} | ({m["KEY_SNAP"]} if snap != "no" else set())
            c.prove(f"{nm}/post: state is that of bins and snapshots", z3.BoolVal(set(buffer) == keys and all(buffer[k] is before[k] for k in before if k != KL)))

    return Target(nm, [f"{SM}.segmentby", f"{SM}.setup_mainbuffer"], run, {}, tables=TAB, overrides=OVER,
                  assumptions=["'bin_by' meets its documented contract (proved for by_scale and by_x_rows)", "by_scale, mergesort, setup_segmentby meet their contracts (targets of their own)",
                               "pandas Series: diff, iloc, comparison act by position"])


SBY = [sby_target(s, b) for s in ("no", "grouper", "series") for b in ("no", "new", "restart")]
TARGETS = {"C13": SBY, "C14": [t for t in SBY if "buffer: no]" not in t.name]}
