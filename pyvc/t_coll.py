"""Contracts of the catalog of a store (C03)."""
import z3

import core
from core import LoopSpec, Num, NVal, Obj, SBool, SVal, Unsupported, BOOL, INT, VAL, lit, new_int, val_of, zbool
from models import NS, Seq, Text
from target import Target

CM = "oups.store.collection"
UM = "oups.store.utils"


class Sep(str):
    """os.path.sep; joining of levels of a path."""

    def join(self, xs):
        if hasattr(xs, "vc_join"):
            return xs.vc_join(self)
        if hasattr(xs, "vc_len"):
            import t_key

            return t_key.joined(self, xs)
        if isinstance(xs, (list, tuple)) and any(isinstance(x, core.SVal) or hasattr(x, "vc_text") for x in list.__iter__(xs) if not isinstance(x, str)):
            import t_key

            return t_key.joined(self, xs)
        return str.join(self, xs)


SEP = Sep("/")


class Ghost(Obj):
    def __init__(self, **k):
        super().__init__()
        self.__dict__.update(k)
        self.names = list(k)

    def put(self, **k):
        self.touch()
        self.__dict__.update(k)

    def havoc(self):
        for n in self.names:
            v = getattr(self, n)
            setattr(self, n, core.CTX.fresh(n, v.sort()))


# ---- files_at_depth --------------------------------------------------------------------------------
class FName(SVal):
    """Name of a file."""

    __slots__ = ()
    py = ("str",)

    def endswith(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return SBool(z3.Or(*[z3.Function(f"ends with {x}", VAL, BOOL)(self.e) for x in ts]))

    __hash__ = SVal.__hash__


class EPath:
    """Path of an entry of a directory: the directory, the separator, the name."""

    py = ("str",)

    def __init__(self, st, k):
        self.st, self.k = st, k

    def rsplit(self, sep, n=-1):
        if sep == "/" and n == 1:
            return [self.st["base"], FName(self.st["NAME"](self.k))]
        raise Unsupported("another cut of a path")

    def __vc_ite__(self, c, o):
        return EPath(self.st, z3.If(c, self.k, o.k))


class Entry:
    def __init__(self, st, k):
        self.st, self.k = st, k
        self.path = EPath(st, k)

    @property
    def name(self):
        return FName(self.st["NAME"](self.k))

    def is_dir(self, *, follow_symlinks=True):
        st = self.st
        if follow_symlinks is False:
            return SBool(st["DIR"](self.k))
        return SBool(z3.Or(st["DIR"](self.k), st["LINK"](self.k)))

    def is_file(self, *, follow_symlinks=True):
        st = self.st
        if follow_symlinks is False:
            return SBool(z3.And(z3.Not(st["DIR"](self.k)), z3.Not(st["SYM"](self.k))))
        return SBool(z3.And(z3.Not(st["DIR"](self.k)), z3.Not(st["LINK"](self.k))))

    def is_symlink(self):
        return SBool(self.st["SYM"](self.k))


class Below:
    """What files_at_depth yields for a sub-directory (its contract)."""

    def __init__(self, path, depth):
        self.path, self.depth = path, depth


def depth_target(bottom):
    nm = f"files_at_depth[{'at the depth' if bottom else 'above it'}]"
    st = {}

    def specs(L):
        if st.get("g") is None or L.it is None or not hasattr(L.it, "vc_len"):
            return None

        def inv(S):
            w, rank = st["w"], getattr(S.L.it, "rank", lambda x: x)
            return {"sub-directories before are listed": z3.Implies(st["DIR"](w), st["g"].done == (rank(w) < S.k.e))}

        return LoopSpec(inv)

    def run(T):
        c = core.CTX
        st.clear()
        f = T.fn(UM, "files_at_depth")
        ns = T.rt.load(UM).ns
        n = new_int("entries", 0)
        DIR, SYM, NAME = c.fresh_fun("DIR", INT, BOOL), c.fresh_fun("SYM", INT, BOOL), c.fresh_fun("NAME", INT, VAL)
        LINK = c.fresh_fun("LINK", INT, BOOL)  # link to a directory
        i = z3.Int("i!e")
        c.assume(z3.ForAll([i], z3.And(z3.Implies(LINK(i), SYM(i)), z3.Not(z3.And(SYM(i), DIR(i)))), patterns=[DIR(i)]))
        w = c.fresh("w", INT)
        c.assume(z3.And(0 <= w, w < n.e))
        base = Text(object())
        g = Ghost(done=z3.BoolVal(False))
        st.update(DIR=DIR, SYM=SYM, LINK=LINK, NAME=NAME, base=base, g=g, w=w)
        missing = c.branch(c.fresh("the directory is missing", BOOL)) if not bottom else False

        def scandir(p):
            if p is not base:
                raise Unsupported("another directory is listed")
            if missing:
                raise FileNotFoundError(p)
            return Seq(n, lambda k: Entry(st, lit(k)))

        ns["scandir"] = scandir
        d = 0 if bottom else new_int("depth", 1)

        def recur(path, depth=2):
            return iter([Below(path, depth)])

        ns["files_at_depth"] = recur
        it = iter(f(base, d))
        count = 0
        while True:
            x = T.call(next, it, None)
            if x is None:
                break
            count += 1
            if bottom:
                c.prove(f"{nm}/post: the directory itself is listed, once", z3.BoolVal(isinstance(x, tuple) and len(x) == 2 and x[0] is base and count == 1), cut=False)
                files = x[1]
                if not (isinstance(files, Seq) and hasattr(files, "rank")):
                    raise Unsupported("another kind of list of files")
                k = new_int("file", 0)
                m = lit(files.vc_len())
                r = files.rank(w)
                c.prove(f"{nm}/post: not listed without any file", m > 0, cut=False)
                c.prove(f"{nm}/post: all its files are listed, by name", z3.Implies(z3.Not(DIR(w)), z3.And(0 <= r, r < m, files.vc_item(Num(r)).e == NAME(w))), cut=False)
                c.prove(f"{nm}/post: nothing but its files is listed", z3.Implies(k.e < m, z3.Exists([i], z3.And(0 <= i, i < n.e, z3.Not(DIR(i)), NAME(i) == files.vc_item(k).e))), cut=False)
                continue
            if not isinstance(x, Below) or not isinstance(x.path, EPath):
                raise Unsupported("another kind of item")
            e = x.path.k
            c.prove(f"{nm}/item: only sub-directories are looked into, each once", z3.And(0 <= e, e < n.e, DIR(e), z3.Not(z3.And(e == w, g.done))), cut=False)
            c.prove(f"{nm}/item: looked into at one level less", lit(x.depth) == d.e - 1, cut=False)
            g.put(done=z3.Or(g.done, e == w))
        if bottom:
            c.prove(f"{nm}/post: listed if it has a file", z3.Implies(z3.Not(DIR(w)), z3.BoolVal(count == 1)), cut=False)
        elif not missing:
            c.prove(f"{nm}/post: all sub-directories are looked into", z3.Implies(DIR(w), g.done), cut=False)

    return Target(nm, [f"{UM}.files_at_depth"], run, specs, tables=TAB, assumptions=["os.scandir lists each entry of a directory once"])


# ---- get_keys --------------------------------------------------------------------------------------
class TreePath:
    """Path of the i-th directory found: base, then the levels of its key."""

    py = ("str",)

    def __init__(self, st, i):
        self.st, self.i = st, i

    def rsplit(self, sep, n=-1):
        if not (sep == "/" and isinstance(n, Num)):
            raise Unsupported("another cut of a path")
        return Levels(self, n, 0)

    def __vc_ite__(self, c, o):
        return TreePath(self.st, z3.If(c, self.i, o.i))


class Levels:
    def __init__(self, p, n, skip):
        self.p, self.n, self.skip = p, n, skip

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start == 1 and s.stop is None and s.step is None and self.skip == 0:
            return Levels(self.p, self.n, 1)
        raise Unsupported("other levels of a path")

    def vc_join(self, sep):
        if self.skip != 1:
            raise Unsupported("other levels of a path")
        return LastLevels(self.p, self.n)


class LastLevels:
    def __init__(self, p, n):
        self.p, self.n = p, n


class DecKey(NVal):
    """Key, or None."""

    __slots__ = ()
    py = ("Key",)

    def __bool__(self):
        return core.CTX.branch(self.e != core.val_lit(None))

    __hash__ = NVal.__hash__


def getkeys_target():
    nm = "get_keys"

    def run(T):
        c = core.CTX
        f = T.fn(CM, "get_keys")
        ns = T.rt.load(CM).ns
        n = new_int("directories", 0)
        D = new_int("depth", 1)
        NF, FILE = c.fresh_fun("NF", INT, INT), c.fresh_fun("FILE", INT, INT, VAL)
        DEC = c.fresh_fun("DEC", INT, VAL)
        i = z3.Int("i!d")
        c.assume(z3.ForAll([i], NF(i) >= 1, patterns=[NF(i)]))
        base = Text(object())
        st = {}

        class Indexer:
            depth = D

            @staticmethod
            def decode(p):
                if not isinstance(p, LastLevels):
                    raise Unsupported("another path is decoded")
                if not p.n.e.eq(D.e):
                    core.CTX.prove(f"{nm}/path: decoded from as many levels as keys have", p.n.e == D.e)
                return DecKey(DEC(p.p.i))

            from_path = from_str = decode

        def fad(b, depth=2):
            c.prove(f"{nm}/tree: directories at the depth of the keys, from the root of the store", z3.And(z3.BoolVal(b is base), lit(depth) == D.e), cut=False)
            return Seq(n, lambda k: (TreePath(st, lit(k)), Seq(Num(NF(lit(k))), lambda x: FName(FILE(lit(k), lit(x))))))

        class SSet:
            def __init__(self, xs=()):
                self.xs = xs

        ns["files_at_depth"], ns["SortedSet"] = fad, SSet
        r = T.call(f, base, Indexer)
        if not isinstance(r, SSet):
            raise Unsupported("another kind of result")
        xs = r.xs.vc_iter() if hasattr(r.xs, "vc_iter") else r.xs
        if not hasattr(xs, "vc_len") or not hasattr(xs, "rank"):
            raise Unsupported("another kind of collection of keys")
        w, j = new_int("w", 0), new_int("j", 0)
        x = z3.Int("x!f")

        def parquet(i):
            e = FILE(i, x)
            ends = lambda s: z3.Function(f"ends with {s}", VAL, BOOL)(e)  # noqa: E731
            return z3.Exists([x], z3.And(0 <= x, x < NF(i), z3.Or(ends(".parquet"), ends(".parq"), e == core.val_lit("_metadata"), e == core.val_lit("_common_metadata"))))

        m = lit(xs.vc_len())
        none = core.val_lit(None)
        k = xs.rank(w.e)
        c.prove(f"{nm}/post: the key of every dataset is listed",
                z3.Implies(z3.And(w.e < n.e, parquet(w.e), DEC(w.e) != none), z3.And(0 <= k, k < m, val_of(xs.vc_item(Num(k))) == DEC(w.e))), cut=False)
        c.prove(f"{nm}/post: only keys of datasets are listed",
                z3.Implies(j.e < m, z3.Exists([i], z3.And(0 <= i, i < n.e, parquet(i), DEC(i) != none, DEC(i) == val_of(xs.vc_item(j))))), cut=False)

    return Target(nm, [f"{CM}.get_keys", f"{CM}.is_parquet_file"], run, tables=TAB,
                  assumptions=["files_at_depth: contract above (composed by induction over the depth)", "from_path: contract under C01", "SortedSet(items) holds the items given"])


# ---- ParquetSet ------------------------------------------------------------------------------------
class KeySet(Obj):
    """SortedSet of keys."""

    py = ("SortedSet",)

    def __init__(self, has):
        super().__init__()
        self.has = has

    def vc_contains(self, k):
        return SBool(self.has(val_of(k)))

    def add(self, k):
        self.touch()
        h, e = self.has, val_of(k)
        self.has = lambda q: z3.Or(q == e, h(q))

    def discard(self, k):
        self.touch()
        h, e = self.has, val_of(k)
        self.has = lambda q: z3.And(q != e, h(q))

    def remove(self, k):
        if not core.CTX.branch(self.has(val_of(k))):
            raise KeyError(k)
        self.discard(k)


class FP:
    """Path on the way from the root of the store (level 0) to the directory of the dataset (level of keys)."""

    py = ("str",)

    def __init__(self, st, l):
        self.st, self.l = st, l

    def vc_contains(self, s):
        if s != "/":
            raise Unsupported("text looked for in a path")
        return SBool(z3.Or(self.l >= 1, core.CTX.fresh("root with separator", BOOL)))

    def rsplit(self, sep, n=-1):
        if sep != "/" or n != 1:
            raise Unsupported("another cut of a path")
        return [FP(self.st, self.l - 1), object()]

    def rpartition(self, sep):
        return (FP(self.st, self.l - 1), sep, object()) if sep == "/" else self.no()

    def no(self):
        raise Unsupported("another cut of a path")

    def vc_fresh_like(self, name):
        return FP(self.st, core.CTX.fresh("level", INT))

    def __eq__(self, o):
        return SBool(self.l == o.l) if isinstance(o, FP) else False

    def __ne__(self, o):
        return SBool(self.l != o.l) if isinstance(o, FP) else True

    __hash__ = object.__hash__


class Rel:
    def __init__(self, key):
        self.key = key


class KeyObj(SVal):
    __slots__ = ()

    @property
    def py(self):
        return ("Key",)

    @property
    def to_path(self):
        return Rel(self)

    __hash__ = SVal.__hash__


def store(T):
    """A store with any catalog, and a key."""
    c = core.CTX
    T.fn(CM, "ParquetSet")
    ns = T.rt.load(CM).ns
    cls = ns["ParquetSet"]
    s = cls.__new__(cls)
    H = c.fresh_fun("in catalog", VAL, BOOL)
    keys = KeySet(lambda q: H(q))
    key = KeyObj(c.fresh("key", VAL))
    D = new_int("depth", 1)
    st = {"D": D, "key": key}
    base = FP(st, z3.IntVal(0))

    class Indexer:
        depth = D
        __name__ = "Key"

    Indexer.__name__ = "Key"
    s.__dict__.update(_basepath=base, _indexer=Indexer, _keys=keys)

    def join(a, b):
        if a is not base or not isinstance(b, Rel) or b.key is not key:
            raise Unsupported("another path")
        return FP(st, D.e)

    st.update(s=s, keys=keys, H=H, base=base, ns=ns, join=join)
    ns["os_path"] = NS("os.path", dict(join=join, sep=SEP))
    return st


def del_target():
    nm = "ParquetSet.__delitem__"
    box = {}

    def specs(L):
        st = box.get("st")
        if st is None or st.get("fs") is None:
            return None

        def inv(S):
            fs, D = st["fs"], st["D"].e
            j = z3.Int("j!lv")
            d = {"directories removed are empty ones": z3.And(fs.low >= 1, fs.low <= D, z3.ForAll([j], z3.Implies(z3.And(fs.low <= j, j < D), z3.Not(st["OTHER"](j))), patterns=[st["OTHER"](j)]))}
            for v in sorted(set(S.L.assigned)):
                x = S._l.get(v)
                if isinstance(x, FP):
                    d[f"?next directory ({v})"] = x.l == fs.low - 1
            if S.L.it is not None:
                d["?one level at a time"] = fs.low == D - S.k.e
            return d

        return LoopSpec(inv)

    def run(T):
        c = core.CTX
        box.clear()
        st = store(T)
        D = st["D"]
        OTHER = c.fresh_fun("OTHER", INT, BOOL)  # entries of the directory of a level, besides the way to the dataset
        fs = Ghost(low=D.e + 1)  # levels from there on do not exist any more
        st.update(OTHER=OTHER, fs=fs)
        box["st"] = st
        ns = st["ns"]

        def rmtree(p, *a, **k):
            if not isinstance(p, FP) or a or k:
                raise Unsupported("rmtree of something else")
            c.prove(f"{nm}/files: only the directory of the dataset is deleted with its content", p.l == D.e)
            fs.put(low=D.e)

        def filled(p):
            if not isinstance(p, FP):
                raise Unsupported("another path")
            if c.branch(p.l >= fs.low):
                raise FileNotFoundError("directory")
            return z3.Or(OTHER(p.l), fs.low > p.l + 1)

        def listdir(p):
            return Seq(Num(z3.If(filled(p), 1 + z3.If(c.fresh("more", BOOL), 1, 0), 0)), lambda k: object())

        def rmdir(p):
            c.prove(f"{nm}/files: only empty directories are removed", z3.Not(filled(p)))
            c.prove(f"{nm}/files: the root of the store is not removed", p.l >= 1)
            fs.put(low=p.l)

        ns["rmtree"], ns["listdir"], ns["rmdir"] = rmtree, listdir, rmdir
        had = c.branch(st["H"](st["key"].e))
        try:
            T.call(st["s"].__class__.__dict__["__delitem__"], st["s"], st["key"], expect=(FileNotFoundError, OSError))
        except OSError:
            c.prove(f"{nm}/raises no OSError", False)
            return
        q = c.fresh("q", VAL)
        c.prove(f"{nm}/post: the key is not listed any more, others as before",
                zbool(st["keys"].has(q)) == z3.And(st["H"](q), q != st["key"].e), cut=False)
        c.prove(f"{nm}/post: same catalog object", z3.BoolVal(st["s"]._keys is st["keys"]), cut=False)
        w, j = new_int("level", 0), z3.Int("j!w")
        gone = z3.And(w.e >= 1, z3.ForAll([j], z3.Implies(z3.And(w.e <= j, j < D.e), z3.Not(OTHER(j)))))
        if had:
            c.prove(f"{nm}/post: the dataset and exactly the directories left empty are removed", z3.Implies(w.e <= D.e, (w.e >= fs.low) == gone), cut=False)
        else:
            c.prove(f"{nm}/post: nothing is removed for a key which is not listed", fs.low == D.e + 1, cut=False)

    return Target(nm, [f"{CM}.ParquetSet.__delitem__", f"{UM}.strip_path_tail"], run, specs, tables=TAB,
                  assumptions=["shutil.rmtree removes the directory given and its content; os.listdir and os.rmdir as documented",
                               "the path of a key is strictly below the root, with as many levels as the key (C01, C02)"])


def set_target(how):
    nm = f"ParquetSet[{how}]"

    def run(T):
        c = core.CTX
        st = store(T)
        ns, key = st["ns"], st["key"]
        data = type("Data", (), {"py": ("pandas.DataFrame", "DataFrame")})()
        calls = []
        fails = c.branch(c.fresh("write fails", BOOL))

        class Failure(Exception):
            pass

        def write(**k):
            calls.append(k)
            if fails:
                raise Failure()

        ns["write"] = write
        opts = {"max_row_group_size": object(), "ordered_on": object()}
        cls = st["s"].__class__
        try:
            if how == "set":
                T.call(cls.__dict__["set"], st["s"], key, data, expect=(Failure,), **opts)
            elif how == "item with settings":
                T.call(cls.__dict__["__setitem__"], st["s"], key, (dict(opts), data), expect=(Failure,))
            else:
                opts = {}
                T.call(cls.__dict__["__setitem__"], st["s"], key, data, expect=(Failure,))
        except Failure:
            pass
        if len(calls) != 1:
            c.prove(f"{nm}/post: written once", False)
            return
        k = dict(calls[0])
        d, dt, mk = k.pop("dirpath", None), k.pop("data", None), k.pop("md_key", None)
        c.prove(f"{nm}/post: written in the directory of the key", z3.And(z3.BoolVal(isinstance(d, FP)), d.l == st["D"].e) if isinstance(d, FP) else False, cut=False)
        c.prove(f"{nm}/post: data, key and settings given are those written",
                z3.BoolVal(dt is data and mk is key and set(k) == set(opts) and all(k[x] is opts[x] for x in opts)), cut=False)
        q = c.fresh("q", VAL)
        want = z3.Or(st["H"](q), z3.And(z3.BoolVal(not fails), q == key.e))
        c.prove(f"{nm}/post: the key is listed once written, others as before", zbool(st["s"]._keys.has(q)) == want, cut=False)

    return Target(nm, [f"{CM}.ParquetSet.set", f"{CM}.ParquetSet.__setitem__"], run, tables=TAB, assumptions=["write: contract under C04"])


TAB = dict(os=dict(path=NS("os.path", dict(sep=SEP))), pandas=dict(DataFrame=type("DataFrame", (), {})), vaex__dataframe=dict(DataFrame=type("vaexDataFrame", (), {})))
TARGETS = {"C03": [depth_target(True), depth_target(False), getkeys_target(), del_target()] + [set_target(h) for h in ("set", "item with settings", "item")]}
