"""Contract of write (C04; C05 for the columns of duplicates; C07 for the metadata handed over)."""
import z3

import core
from core import And, Eq, Iff, Implies, LoopSpec, Name, Not, Num, Obj, Or, PathEnd, SBool, SVal, Unsupported, BOOL, INT, REAL, VAL, lit, new_int, new_val, val_lit, val_of, zbool
from models import Seq, join_seqs, norm_slice, select
from models_pd import PANDAS, Frame
from target import Target

UW = "oups.store.writer"


class Node:
    """Term over data: what was built from what."""

    py = ("vaex.DataFrame",)

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def concat(self, other, **k):
        if k:
            raise Unsupported("concat with arguments")
        return Node("concat", self, other)

    def sort(self, by, ascending=True, **k):
        if ascending is not True or k:
            raise Unsupported("sort with arguments")
        return Node("sort", self, by)

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of a vaex dataframe")


Node.__name__ = "vaex.DataFrame"


class VIn(Node):
    """vaex dataframe given by the caller."""

    def __init__(self, fr):
        super().__init__("input")
        self.fr = fr

    def get_column_names(self):
        return Cols()

    def vc_len(self):
        return self.fr.n

    def __getitem__(self, i):
        if isinstance(i, SVal):
            return VCol(self.fr.col(i))
        raise Unsupported("selection in a vaex dataframe")


class VCol:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        # vaex: an end of 0 means 'no end'
        return VCol(self.s) if i == slice(None, 0) else VCol(self.s.iloc[i])

    def to_numpy(self):
        return self.s.a


class Cols:
    def vc_contains(self, x):
        return True


class DF(Frame):
    @property
    def columns(self):
        return Cols()


class Chunks(Obj):
    """What iter_dataframe returns."""

    def __init__(self, data, args):
        super().__init__()
        self.data, self.args, self.taken = data, args, 0

    def vc_next(self, *d):
        self.touch()
        self.taken += 1
        return Chunk(self, self.taken - 1)


class Chunk:
    def __init__(self, src, i):
        self.src, self.i, self.columns = src, i, Columns()


class Columns:
    py = ("Index",)


class FMD(Obj):
    def __init__(self, row_groups):
        super().__init__()
        self.__dict__["row_groups"] = row_groups


class Sub:
    def __init__(self, rgs=None, count=None):
        self.row_groups, self._count = rgs, count

    def count(self):
        return self._count


class PF(Obj):
    def __init__(self, st, log):
        super().__init__()
        self.st, self.log = st, log
        self.fmd = FMD(Seq(st["n"], lambda k: k if isinstance(k, Num) else Num(lit(k))))

    @property
    def row_groups(self):
        return self.fmd.row_groups

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = norm_slice(i, self.row_groups.n)
            s = self.row_groups[i]
            s.rng = (lit(lo), lit(hi))
            return Sub(s)
        n = lit(self.row_groups.n)
        i = lit(i)
        if core.CTX.branch(z3.Or(i < -n, i >= n)):
            if core.CTX.branch(z3.And(n == 0, i == -1)):
                return Sub(count=new_int("nothing", 0))
            raise IndexError("list index out of range")
        j = z3.simplify(z3.If(i < 0, n + i, i))
        return Sub(Seq(1, lambda k: Num(j)), count=Num(self.st["CNT"](j)))

    def row_group_filename(self, rg):
        return SVal(self.st["FILE"](lit(rg)))

    def write_row_groups(self, data, row_group_offsets=None, sort_key=None, sort_pnames=False, compression=None, write_fmd=True, open_with=None, mkdirs=None, stats="auto"):
        if sort_key is not None or row_group_offsets is not None or not isinstance(data, Chunks):
            raise Unsupported("write_row_groups with other arguments")
        m = new_int("m", 0)
        n = lit(self.row_groups.n)
        self.log.append(("write", data, n, m.e, data.taken))
        self.fmd.row_groups = join_seqs([self.row_groups, Seq(m, lambda k: Num(self.st["n"].e + lit(k)))])

    def remove_row_groups(self, rgs, sort_pnames=False, write_fmd=True, **k):
        if k or not hasattr(rgs, "rng"):
            raise Unsupported("remove_row_groups of other than a slice of row groups")
        lo, hi = rgs.rng
        self.log.append(("remove", lo, hi))
        s = self.row_groups
        self.fmd.row_groups = join_seqs([s[slice(None, Num(lo))], s[slice(Num(hi), None)]])

    def _sort_part_names(self, write_fmd=True, **k):
        pass

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")) or a == "birth":
            raise AttributeError(a)
        raise Unsupported(f"attribute '{a}' of ParquetFile")


def write_target(kind, ordered, dup, nirgs, default_max=False):
    nm = f"write[{kind},{'ordered' if ordered else 'not ordered'}{',duplicates_on ' + dup if dup else ''}{',coalescing' if nirgs else ''}{',default size' if default_max else ''}]"
    st = {}

    def specs(L):
        if L.it is None and st.get("n") is not None:
            def inv(S):
                n = lit(st["n"])
                return {f"?row group positions ({v})": z3.And(-1 <= lit(x), lit(x) < n) for v, x in S._l.items()
                        if v in S.L.assigned and isinstance(x, Num) and x.is_int()}

            return LoopSpec(inv)
        return None

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(UW, "write")
        ns = T.rt.load(UW).ns
        n, D = new_int("n", 0), new_int("D", 0)
        KEY = c.fresh_fun("KEY", INT, REAL)
        MIN, MAX, CNT, FILE = c.fresh_fun("MIN", INT, REAL), c.fresh_fun("MAX", INT, REAL), c.fresh_fun("CNT", INT, INT), c.fresh_fun("FILE", INT, VAL)
        on = Name(c.fresh("ordered_on", VAL))
        i, j = z3.Ints("ia ja")
        if ordered:
            c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.e), MIN(i) <= MAX(i)), patterns=[MIN(i)]))
            c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.e), MIN(i) <= MAX(i)), patterns=[MAX(i)]))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n.e), z3.And(MAX(i) <= MIN(j), MIN(i) <= MIN(j), MAX(i) <= MAX(j))),
                               patterns=[z3.MultiPattern(MIN(i), MIN(j)), z3.MultiPattern(MAX(i), MAX(j)), z3.MultiPattern(MAX(i), MIN(j))]))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < D.e), KEY(i) <= KEY(j)), patterns=[z3.MultiPattern(KEY(i), KEY(j))]))
            c.assume(z3.Implies(D.e >= 1, KEY(0) <= KEY(D.e - 1)))
        START, END = KEY(0), KEY(D.e - 1)

        def cell(name, r):
            if name is on:
                return Num(KEY(lit(r)))
            raise Unsupported("another column")

        fr = DF(D, lambda k: k, cell)
        data = fr if kind == "pandas" else VIn(fr)
        log, meta, cuts = [], [], []
        st.update(n=n, CNT=CNT, FILE=FILE)
        pf = PF(st, log)

        def filter_row_groups(p, filters, as_idx=False):
            if p is not pf or as_idx is not True or log:
                raise Unsupported("filter_row_groups with other arguments")
            ands = filters[0] if isinstance(filters[0], list) else filters
            if isinstance(filters[0], list) and len(filters) != 1:
                raise Unsupported("filter_row_groups with alternatives")

            def keep(k):
                k = lit(k)
                out = []
                for col, op, val in ands:
                    if col is not on:
                        raise Unsupported("filter on another column")
                    v = lit(val)
                    out.append({">=": MAX(k) >= v, ">": MAX(k) > v, "<=": MIN(k) <= v, "<": MIN(k) < v, "==": z3.And(MIN(k) <= v, v <= MAX(k))}[op])
                return z3.And(*out)

            cnt, pos, inv = select(n, keep)
            c.assume(z3.Implies(cnt.e >= 1, z3.And(pos(0) >= 0, pos(0) < n.e, keep(pos(0)), pos(cnt.e - 1) >= pos(0), pos(cnt.e - 1) < n.e, keep(pos(cnt.e - 1)))))
            w = st["w"]
            c.assume(z3.Implies(z3.And(0 <= w, w < n.e, keep(w)), z3.And(cnt.e >= 1, pos(0) <= w, w <= pos(cnt.e - 1), inv(w) >= 0, inv(w) < cnt.e, pos(inv(w)) == w)))
            return Seq(cnt, lambda k: Num(pos(lit(k))))

        def iter_dataframe(data, max_row_group_size=None, sharp_on=None, duplicates_on=None):
            r = Chunks(data, (max_row_group_size, sharp_on, duplicates_on))
            cuts.append(r)
            return r

        def from_pandas(x, **k):
            if k:
                raise Unsupported("from_pandas with arguments")
            return Node("from_pandas", x)

        def open_many(files):
            return Node("open", files)

        def write_metadata(pf, metadata=None, md_key=None):
            meta.append((pf, metadata, md_key, len(log)))

        def fp_write(filename, data, row_group_offsets=None, compression=None, file_scheme="simple", write_index=None, append=False, **k):
            if k or append or file_scheme != "hive" or not isinstance(data, Chunk):
                raise Unsupported("fastparquet.write with other arguments")
            log.append(("create", data))

        ns.update(filter_row_groups=filter_row_groups, iter_dataframe=iter_dataframe, from_pandas=from_pandas, open_many=open_many, write_metadata=write_metadata,
                  ParquetFile=lambda p: pf, fp_write=fp_write, os_listdir=lambda p: ["part.0.parquet"] if kind != "new" else [],
                  os_path=type("P", (), {"isdir": staticmethod(lambda p: kind != "new")}))
        w = c.fresh("rg", INT)  # any row group
        c.assume(z3.And(0 <= w, w < n.e) if kind != "new" else w == 0)
        st["w"] = w
        q = c.fresh("column", VAL)
        d = want = None
        if dup == "name":
            d = Name(c.fresh("duplicates_on", VAL))
            want = z3.Or(q == d.e, q == on.e)
        elif dup == "list":
            DN = c.fresh_fun("DUP", INT, VAL)
            nd = new_int("ndup", 0)
            d = Seq(nd, lambda k: SVal(DN(lit(k))))
            x = z3.Int("w!dup")
            want = z3.And(z3.Implies(nd.e > 0, z3.Or(z3.Exists([x], z3.And(x >= 0, x < nd.e, DN(x) == q)), q == on.e)), nd.e > 0)
            d0 = (d.n, d.get)
        mx = None if default_max else new_int("max", 1)
        mn = new_int("max_nirgs", 0) if nirgs else None
        md, mdk = object(), object()
        T.call(f, "dir", data, max_row_group_size=mx, ordered_on=on if ordered else None, duplicates_on=d, max_nirgs=mn, metadata=md, md_key=mdk)
        P = lambda what, e, cut=False: c.prove(f"{nm}/post: {what}", e, cut=cut)  # noqa: E731
        P("metadata is written once, after all row groups", z3.BoolVal(len(meta) == 1 and meta[0][:3] == (pf, md, mdk) and meta[0][3] == len(log)))
        writes = [e for e in log if e[0] == "write"]
        removes = [e for e in log if e[0] == "remove"]
        if kind == "new":
            ok = len(log) == 2 and log[0][0] == "create" and log[1][0] == "write" and len(cuts) == 1
            P("a new dataset holds the first chunk, then all others", z3.BoolVal(ok and log[0][1].src is cuts[0] and log[0][1].i == 0 and log[1][1] is cuts[0] and log[1][4] == 1))
            P("the data which is cut is the data given", z3.BoolVal(ok and cuts[0].data is data))
            P("no other cut", z3.BoolVal(ok and cuts[0].args[0] is mx and cuts[0].args[2] is None))
            return
        if not writes:
            P("without data, row groups are not modified", z3.And(D.e == 0, z3.BoolVal(not removes)))
            return
        P("new data is written once", z3.BoolVal(len(writes) == 1 and len(removes) <= 1 and log[0][0] == "write"), True)
        _, ch, at, m, taken = writes[0]
        P("all chunks are written", z3.BoolVal(taken == 0))
        lo, hi = (removes[0][1], removes[0][2]) if removes else (n.e, n.e)
        # content of the written chunks
        x = ch.data
        if removes:
            if ordered:
                P("merged rows are sorted by the ordering column", z3.BoolVal(isinstance(x, Node) and x.op == "sort" and x.args[1] is on), True)
                x = x.args[0]
            P("stored rows come before new rows", z3.BoolVal(isinstance(x, Node) and x.op == "concat" and isinstance(x.args[0], Node) and x.args[0].op == "open"), True)
            files, new = x.args[0].args[0], x.args[1]
            k = new_int("file", 0)
            P("rows of exactly the removed row groups are merged", z3.And(lit(files.vc_len()) == hi - lo, z3.Implies(k.e < hi - lo, val_of(files.vc_item(k)) == FILE(lo + k.e))))
            if kind == "pandas":
                P("new rows are merged", z3.BoolVal(isinstance(new, Node) and new.op == "from_pandas" and new.args[0] is data))
            else:
                P("new rows are merged", z3.BoolVal(new is data))
            P("rows of equal ordering value are kept together", z3.BoolVal(ch.args[1] is (on if ordered else None)))
        else:
            P("new rows are appended", z3.BoolVal(x is data))
        dd = ch.args[2]
        if dup is None:
            P("no duplicates are dropped", z3.BoolVal(dd is None))
        elif removes:
            if isinstance(dd, (str, SVal)):
                got = z3.Or(q == val_of(dd), q == on.e)
            elif isinstance(dd, Seq):
                y = z3.Int("w!sub")
                got = z3.And(lit(dd.n) > 0, z3.Or(q == on.e, z3.Exists([y], z3.And(y >= 0, y < lit(dd.n), val_of(dd.get(Num(y))) == q))))
            elif isinstance(dd, (list, tuple)):
                got = z3.And(z3.BoolVal(len(dd) > 0), z3.Or(q == on.e, *[q == val_of(s) for s in dd]))
            else:
                raise Unsupported("columns of duplicates")
            P("identity is given by the requested columns and the ordering column", got == want)
            if dup == "list":
                P("the list of the caller is not modified", z3.BoolVal(d.n is d0[0] and d.get is d0[1]))
        if mx is not None:
            P("maximum size of row groups", Eq(ch.args[0], mx))
        else:
            P("default maximum size of row groups", z3.BoolVal(ch.args[0] is None or isinstance(ch.args[0], int) and ch.args[0] == ns["MAX_ROW_GROUP_SIZE"]))
        # order of row groups
        fin = pf.row_groups
        p = new_int("p", 0)
        P("number of row groups", lit(fin.vc_len()) == n.e - (hi - lo) + m)
        P("row groups in place of those merged, the others in order",
          z3.Implies(p.e < n.e - (hi - lo) + m, lit(fin.vc_item(p)) == z3.If(p.e < lo, p.e, z3.If(p.e < lo + m, n.e + (p.e - lo), p.e - m + (hi - lo)))))
        P("removed row groups are a range of the stored ones", z3.And(0 <= lo, lo <= hi, hi <= n.e))
        if ordered:
            P("row groups kept before the new rows end before them", z3.Implies(w < lo, MAX(w) < START))
            P("row groups kept after the new rows start after them", z3.Implies(w >= hi, MIN(w) > END))
        else:
            P("without ordering, no row group follows the new rows", hi == n.e)

    return Target(nm, [f"{UW}.write"], run, specs,
                  tables=dict(pandas=PANDAS, vaex__dataframe=dict(DataFrame=Node)),
                  assumptions=["fastparquet filter_row_groups: indices of the row groups whose bounds may satisfy the conditions",
                               "fastparquet write_row_groups appends, remove_row_groups removes exactly the row groups given", "vaex: concat appends, sort is stable",
                               "iter_dataframe: contract proved under C06; write_metadata: contract proved under C07",
                               "stored row groups and new data are ascending in the ordering column"])


WRITE = [write_target("pandas", True, None, False), write_target("pandas", True, None, True), write_target("vaex", True, None, False),
         write_target("pandas", False, None, True), write_target("pandas", False, None, False), write_target("pandas", True, None, True, True), write_target("new", True, None, False)]
WRITEDUP = [write_target("pandas", True, "name", False), write_target("pandas", True, "list", True)]
TARGETS = {"C04": WRITE, "C05": WRITEDUP}
