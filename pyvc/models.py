"""Models: builtins, sequences, numpy arrays. Each is the assumed contract of the library function."""
import z3

import core
from core import (BOOL, INT, REAL, VAL, And, Eq, Implies, Not, Num, Obj, Or, PathEnd, SBool, SV, SVal, Unsupported, ctx, forall,  # noqa: F401
                  ite, lit, merge, new_int, wrap, zbool)

# ---- sequences -----------------------------------------------------------------------------------


class Seq(Obj):
    """Python list / iterable of symbolic length: n and a function of the position."""

    py = ("list", "Iterable", "Sequence")

    def __init__(self, n, get, mk=None):
        super().__init__()
        self.n, self.get, self.mk = n, get, mk

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self.get(k)

    def norm(self, i):
        n = self.n
        i = i if isinstance(i, Num) else Num(lit(i))
        s = z3.simplify(i.e)
        if z3.is_int_value(s) and s.as_long() < 0:
            return Num(lit(n) + i.e)
        if z3.is_int_value(s):
            return i
        if core.CTX.branch(i.e < 0):
            return Num(lit(n) + i.e)
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = norm_slice(i, self.n)
            g = self.get
            return Seq(hi - lo, lambda k: g(Num(lit(k) + lo.e)), self.mk)
        i = self.norm(i)
        if not core.CTX.pure_depth:
            if core.CTX.branch(z3.Or(i.e < 0, i.e >= lit(self.n))):
                raise IndexError("list index out of range")
        return self.get(i)

    def __setitem__(self, i, v):
        i = self.norm(i)
        if core.CTX.branch(z3.Or(i.e < 0, i.e >= lit(self.n))):
            raise IndexError("list assignment index out of range")
        self.touch()
        g = self.get
        self.get = lambda k: ite(lit(k) == i.e, v, g(k))

    def append(self, v):
        self.touch()
        g, n = self.get, lit(self.n)
        self.n = Num(n + 1)
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            self.get = lambda k: v
        else:
            self.get = lambda k: ite(lit(k) == n, v, g(k))

    def __bool__(self):
        return core.CTX.branch(lit(self.n) > 0)

    def vc_contains(self, x):
        g = self.get
        return SBool(core.exists("in", lambda i: g(i) == x, 0, self.n))

    def index(self, x):
        """Position of the first item equal to x."""
        g = self.get
        if not core.CTX.branch(zbool(self.vc_contains(x))):
            raise ValueError("not in list")
        p = new_int("index", 0)
        core.CTX.assume(And(p < self.n, g(p) == x))
        core.CTX.assume(forall("before", lambda i: Not(g(i) == x), 0, p))
        return p

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) and not o:
            return SBool(lit(self.n) == 0)
        if isinstance(o, (list, tuple)) and self.py[0] == ("list" if isinstance(o, list) else "tuple"):
            return SBool(And(Eq(self.n, len(o)), *[Implies(Eq(self.n, len(o)), self.get(Num(z3.IntVal(i))) == x) for i, x in enumerate(o)]))
        if self is o:
            return True
        if o is None or isinstance(o, (str, SV)):
            return False
        raise Unsupported("equality of sequences")

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else SBool(Not(r))

    __hash__ = Obj.__hash__

    def __iter__(self):
        """Host iteration (star arguments): one path per length, which has to be bounded."""
        return iter(host_items(self))

    def __add__(self, o):
        return join_seqs([self, o])

    def __radd__(self, o):
        return join_seqs([o, self])

    def extend(self, o):
        r = join_seqs([Seq(self.n, self.get), o])
        self.touch()
        self.n, self.get = r.n, r.get

    def copy(self):
        return Seq(self.n, self.get, self.mk)

    def pop(self, i=-1):
        if not (isinstance(i, int) and i in (0, -1)):
            raise Unsupported("pop at another position")
        if core.CTX.branch(lit(self.n) <= 0):
            raise IndexError("pop from empty list")
        self.touch()
        g = self.get
        self.n = Num(z3.simplify(lit(self.n) - 1))
        if i == 0:
            self.get = lambda k: g(Num(lit(k) + 1))
            return g(Num(z3.IntVal(0)))
        return g(self.n)

    def sort(self, key=None, reverse=False):
        """Stable permutation putting the keys in order."""
        c, g, n = core.CTX, self.get, lit(self.n)
        if not isinstance(reverse, bool):
            raise Unsupported("sort in an order which is not known")
        P, Q = c.fresh_fun("sorted from", INT, INT), c.fresh_fun("sorted to", INT, INT)
        i, j = z3.Int("i!sort"), z3.Int("j!sort")
        f = (lambda x: merge(core.CTX.pure(lambda: key(x)))) if key is not None else (lambda x: x)
        a, b = f(g(Num(P(i)))), f(g(Num(P(j))))
        lt, eq = key_before(a, b)
        gt = z3.And(z3.Not(lt), z3.Not(eq))
        if reverse:
            lt, gt = gt, lt
        less = gt
        inn = lambda x: z3.And(0 <= x, x < n)  # noqa: E731
        c.assume(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
        c.assume(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(Q(i)), P(Q(i)) == i)), patterns=[Q(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(z3.Not(less), z3.Or(P(i) < P(j), lt))),
                           patterns=[z3.MultiPattern(P(i), P(j))]))
        self.touch()
        old = getattr(self, "rank", lambda x: x)
        self.rank = lambda x: Q(old(x))  # position of an item of the original iterable
        self.get = lambda k: g(Num(P(lit(k))))

    def __vc_ite__(self, c, b):
        if isinstance(b, (list, tuple)):
            b = join_seqs([b])
        if not hasattr(b, "vc_item"):
            raise Unsupported("merge of a sequence and another value")
        g, h = self.get, b.vc_item
        r = Seq(ite(c, self.n, b.vc_len()), lambda k: pick(c, lambda: g(k), lambda: h(k)))
        r.py = self.py
        return r

    def vc_fresh_like(self, name):
        mk = self.mk or elem_maker(merge(core.CTX.pure(lambda: self.get(Num(z3.IntVal(0))))))
        if mk is None:
            raise Unsupported("sequence modified in a loop, elements of unknown kind")
        return Seq(new_int(name + " len", 0), mk(), mk)

    def havoc(self):
        if self.mk is None:
            raise Unsupported("sequence modified in a loop, elements of unknown kind")
        self.n = new_int("len", 0)
        self.get = self.mk()


def key_before(a, b):
    """Order of two sort keys: (before, equal). Tuples are compared item by item, False is before True."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        lt, eq = z3.BoolVal(False), z3.BoolVal(True)
        for x, y in zip(a, b):
            l, e = key_before(x, y)
            lt, eq = z3.Or(lt, z3.And(eq, l)), z3.And(eq, e)
        return lt, eq
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return z3.And(z3.Not(zbool(a)), zbool(b)), zbool(a) == zbool(b)
    lt = zbool(a < b)
    return lt, z3.And(z3.Not(lt), z3.Not(zbool(b < a)))


def elem_maker(v):
    """Maker of an arbitrary function position -> value of the kind of v, or None."""
    if isinstance(v, bool) or isinstance(v, SBool):
        sort = BOOL
    elif isinstance(v, int):
        sort = INT
    elif isinstance(v, float):
        sort = REAL
    elif isinstance(v, (Num, SVal)):
        sort = v.e.sort()
    elif isinstance(v, str):
        sort = VAL
    elif isinstance(v, tuple):
        ms = [elem_maker(x) for x in v]
        if any(m is None for m in ms):
            return None

        def mk():
            gs = [m() for m in ms]
            return lambda k: tuple(g(k) for g in gs)

        return mk
    elif hasattr(v, "vc_elem_maker"):
        return v.vc_elem_maker()
    else:
        return None
    cls = type(v) if isinstance(v, SVal) else None

    def mk1():
        f = core.CTX.fresh_fun("elem", INT, sort)
        return lambda k: (cls(f(lit(k))) if cls else wrap(f(lit(k))))

    return mk1


class Tracked:
    """Host container created by the code under contract: writes inside loops are recorded."""

    def _born(self):
        self.birth = core.CTX.born() if core.CTX is not None and hasattr(core.CTX, "heap") else 0
        if core.CTX is not None and hasattr(core.CTX, "heap"):
            core.CTX.heap.append(self)

    def touch(self):
        if core.CTX is not None and hasattr(core.CTX, "heap"):
            core.CTX.note_write(self)

    def havoc(self):
        raise Unsupported(f"{type(self).__name__[1:].lower()} modified inside a loop over symbolic values")


class VList(list, Tracked):
    """list: a host list, which becomes symbolic when a loop over symbolic values modifies it."""

    def __init__(self, xs=()):
        list.__init__(self, xs)
        self.s = None
        self._born()

    def __getattr__(self, a):
        if a in ("vc_len", "vc_item", "get", "n") and self.__dict__.get("s") is not None:
            return getattr(self.s, a)
        raise AttributeError(a)

    __hash__ = object.__hash__

    def to_sym(self):
        if self.s is None:
            self.s = join_seqs([list(self)])
            list.clear(self)
        return self.s

    def note(self, v):
        c = core.CTX
        if c is not None and getattr(c, "active_loops", None):
            m = elem_maker(v)
            if m is not None:
                c.list_kinds.setdefault((c.active_loops[-1].hkey, self.birth), m)
        self.touch()

    def havoc(self):
        c = core.CTX
        L = c.active_loops[-1] if c.active_loops else None
        L = c.havocing or L
        ek = getattr(L.spec, "elem", None)
        m = None
        for k, x in c.list_kinds.items():
            if k[1] == self.birth and (k[0] == L.hkey or L.hkey in k[0][2]):
                m = x
        m = ek or m
        if m is None:
            raise Unsupported("list modified in a loop, items of unknown kind")
        list.clear(self)
        self.s = Seq(new_int("len", 0), m(), m)

    def append(self, v):
        self.note(v)
        if self.s is not None:
            return self.s.append(v)
        list.append(self, v)

    def extend(self, o):
        if hasattr(o, "vc_iter"):
            o = o.vc_iter()
        if hasattr(o, "vc_len"):
            self.note(core.merge(core.CTX.pure(lambda: o.vc_item(Num(z3.IntVal(0))))))
            self.to_sym().extend(o)
            return
        o = list(o)
        if o:
            self.note(o[0])
        if self.s is not None:
            return self.s.extend(o)
        list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, i):
        if self.s is not None:
            return self.s[i]
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self.note(v)
        if self.s is not None or isinstance(i, Num):
            self.to_sym()[i] = v
            return
        list.__setitem__(self, i, v)

    def __add__(self, o):
        if self.s is not None or hasattr(o, "vc_len"):
            return join_seqs([self.s if self.s is not None else list(self), o])
        return VList(list.__add__(self, o))

    def __len__(self):
        if self.s is not None:
            raise Unsupported("host length of a symbolic list")
        return list.__len__(self)

    def __iter__(self):
        return iter(self.s) if self.s is not None else list.__iter__(self)

    def __bool__(self):
        return bool(self.s) if self.s is not None else list.__len__(self) > 0

    def __eq__(self, o):
        return self.s == o if self.s is not None else (o == list(self) if hasattr(o, "vc_len") else list.__eq__(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else SBool(Not(r))

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_contains(self, x):
        if self.s is not None:
            return self.s.vc_contains(x)
        for y in list.__iter__(self):
            if x is y or core.CTX.branch(zbool(x == y)) if isinstance(x, SV) or isinstance(y, SV) else x == y:
                return True
        return False

    def copy(self):
        return self.s.copy() if self.s is not None else VList(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy

        if self.s is not None:
            raise Unsupported("deepcopy of a symbolic list")
        return VList([copy.deepcopy(x, memo) for x in list.__iter__(self)])

    def __reduce__(self):
        raise Unsupported("pickling of a list")

    def index(self, x, *a):
        return self.s.index(x) if self.s is not None else list.index(self, x, *a)


def _list_host(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        self.touch()
        if self.s is not None or any(isinstance(x, Num) for x in a):
            raise Unsupported(f"{name} of a symbolic list")
        return f(self, *a, **k)

    return g


for _n in ("insert", "pop", "remove", "sort", "reverse", "clear", "__delitem__"):
    setattr(VList, _n, _list_host(_n))


def key_expr(k):
    """Term standing for a key of a dict or an item of a set, or None."""
    if hasattr(k, "vc_key"):
        return k.vc_key()
    if isinstance(k, SVal):
        return k.e
    if isinstance(k, str) or k is None:
        return core.val_lit(k)
    return None


def sym_key(k):
    return hasattr(k, "vc_key") or isinstance(k, SV)


GONE = object()


SYM_VALUES = [None]  # values of a dict with symbolic keys, as a target sees them


class VDict(dict, Tracked):
    """dict: a host dict, until keys are symbolic: then the items written last are kept as such, over an arbitrary base."""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.m = None
        self._born()

    __hash__ = object.__hash__

    # -- symbolic keys
    def sym(self):
        if self.m is None:
            base = (lambda e: z3.BoolVal(False)), None
            self.m = [base, []]
            for k, v in dict.items(self):
                e = key_expr(k)
                if e is None:
                    raise Unsupported("symbolic key in a dict with other keys")
                self.m[1].append((e, v))
            dict.clear(self)
        return self.m

    def havoc(self):
        c = core.CTX
        L = c.havocing or c.active_loops[-1]
        mk = getattr(L.spec, "recs", None)
        if mk is None:
            Tracked.havoc(self)
        self.m = [mk(self), []]
        dict.clear(self)

    def find(self, k, default=GONE):
        e = key_expr(k)
        if e is None:
            raise Unsupported("key of another kind in a dict with symbolic keys")
        (has, rec), over = self.sym()
        for q, v in reversed(over):
            if q.eq(e) or (q.sort() == e.sort() and core.CTX.branch(q == e)):
                return v
        if not core.CTX.branch(zbool(has(e))):
            return GONE
        return rec(e)

    def put(self, k, v):
        e = key_expr(k)
        if e is None:
            raise Unsupported("key of another kind in a dict with symbolic keys")
        m = self.sym()
        self.touch()
        m[1] = [(q, x) for q, x in m[1] if not q.eq(e)] + [(e, v)]

    def is_sym(self, k):
        return self.m is not None or sym_key(k)

    def __getitem__(self, k):
        if self.is_sym(k):
            v = self.find(k)
            if v is GONE:
                raise KeyError(k)
            return v
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        if self.is_sym(k):
            return self.put(k, v)
        self.touch()
        dict.__setitem__(self, k, v)

    def get(self, k, d=None):
        if self.is_sym(k):
            v = self.find(k)
            return d if v is GONE else v
        return dict.get(self, k, d)

    def setdefault(self, k, d=None):
        if self.is_sym(k):
            v = self.find(k)
            if v is GONE:
                self.put(k, d)
                return d
            return v
        self.touch()
        return dict.setdefault(self, k, d)

    def pop(self, k, *d):
        if self.is_sym(k):
            v = self.find(k)
            if v is GONE:
                if d:
                    return d[0]
                raise KeyError(k)
            self.put(k, GONE)
            return v
        self.touch()
        return dict.pop(self, k, *d)

    def __delitem__(self, k):
        if self.is_sym(k):
            self.pop(k)
            return
        self.touch()
        dict.__delitem__(self, k)

    def vc_contains(self, k):
        if self.is_sym(k):
            return self.find(k) is not GONE
        return dict.__contains__(self, k)

    def __contains__(self, k):
        return self.vc_contains(k)

    def host(self):
        if self.m is not None:
            raise Unsupported("use of a dict with symbolic keys as a whole")

    def __iter__(self):
        self.host()
        return dict.__iter__(self)

    def keys(self):
        self.host()
        return dict.keys(self)

    def values(self):
        if self.m is not None and SYM_VALUES[0] is not None:
            return SYM_VALUES[0](self)
        self.host()
        return dict.values(self)

    def items(self):
        if self.m is not None and SYM_VALUES[0] is not None:
            return [(SVal(core.CTX.fresh("key", VAL)), v) for v in SYM_VALUES[0](self)]
        self.host()
        return dict.items(self)

    def __len__(self):
        self.host()
        return dict.__len__(self)

    def __bool__(self):
        self.host()
        return dict.__len__(self) > 0

    def __eq__(self, o):
        self.host()
        return dict.__eq__(self, o)

    def __ne__(self, o):
        self.host()
        return dict.__ne__(self, o)

    def copy(self):
        self.host()
        return VDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return VDict({copy.deepcopy(k, memo): copy.deepcopy(v, memo) for k, v in self.items()})

    def __or__(self, o):
        self.host()
        return VDict(dict.__or__(self, o)) if not isinstance(o, SMap) else NotImplemented


class VSet(set, Tracked):
    """set: a host set, until items are symbolic: then a predicate."""

    def __init__(self, *a):
        set.__init__(self)
        self.p = None
        self._born()
        if a:
            xs = list(a[0])
            if any(sym_key(x) for x in xs):
                for x in xs:
                    self.add(x)
            else:
                set.update(self, xs)

    __hash__ = object.__hash__

    def sym(self):
        if self.p is None:
            es = [key_expr(x) for x in set.__iter__(self)]
            if any(e is None for e in es):
                raise Unsupported("symbolic item in a set with other items")
            self.p = lambda e: z3.Or(*[q == e for q in es]) if es else z3.BoolVal(False)
            self.sort, self.wrap = VAL, SVal
            self.elems = list(es)
            set.clear(self)
        return self.p

    def havoc(self):
        c = core.CTX
        if self.p is None:
            self.sort, self.wrap = VAL, SVal
            set.clear(self)
        f = c.fresh_fun("set", self.sort, BOOL)
        self.p = lambda e: f(e)
        self.elems = []
        self.__dict__.pop("cnt", None)

    def is_sym(self, x):
        return self.p is not None or sym_key(x)

    def item(self, x):
        e = key_expr(x)
        if e is None or e.sort() != VAL:
            raise Unsupported("item of another kind in a set of symbolic items")
        return e

    def add(self, x):
        if not self.is_sym(x):
            self.touch()
            return set.add(self, x)
        e, p = self.item(x), self.sym()
        self.touch()
        if hasattr(x, "vc_key"):
            self.wrap = type(x).vc_wrap
        self.p = lambda q: z3.Or(q == e, p(q))
        self.elems = self.elems + [e]
        self.__dict__.pop("cnt", None)

    def discard(self, x):
        if not self.is_sym(x):
            self.touch()
            return set.discard(self, x)
        e, p = self.item(x), self.sym()
        self.touch()
        self.p = lambda q: z3.And(q != e, p(q))
        self.__dict__.pop("cnt", None)

    def remove(self, x):
        if self.is_sym(x):
            if not core.CTX.branch(zbool(self.vc_contains(x))):
                raise KeyError(x)
        elif x not in self:
            raise KeyError(x)
        self.discard(x)

    def vc_contains(self, x):
        if not self.is_sym(x):
            return set.__contains__(self, x)
        return SBool(self.sym()(self.item(x)))

    def __contains__(self, x):
        r = self.vc_contains(x)
        return r if isinstance(r, bool) else bool(r)

    def count(self):
        """Number of items, as far as 0, 1 and more are told apart."""
        if "cnt" not in self.__dict__:
            c, p = core.CTX, self.p
            n, a, b = new_int("items", 0), c.fresh("item", VAL), c.fresh("item", VAL)
            x = z3.Const("x!set", VAL)
            c.assume(z3.Implies(n.e == 0, z3.ForAll([x], z3.Not(p(x)))))
            for q in self.elems:
                c.assume(z3.And(z3.Implies(n.e == 0, z3.Not(p(q))), z3.Implies(n.e == 1, z3.Implies(p(q), q == a))))
            c.assume(z3.Implies(n.e >= 1, p(a)))
            c.assume(z3.Implies(n.e == 1, z3.ForAll([x], z3.Implies(p(x), x == a))))
            c.assume(z3.Implies(n.e > 1, z3.And(p(b), a != b)))
            self.cnt = (n, a)
        return self.cnt

    def __getattr__(self, a):
        if a == "vc_len" and self.__dict__.get("p") is not None:
            return lambda: self.count()[0]
        raise AttributeError(a)

    def pop(self):
        if self.p is None:
            self.touch()
            return set.pop(self)
        n, a = self.count()
        if core.CTX.branch(n.e == 0):
            raise KeyError("pop from an empty set")
        x = self.wrap(a)
        self.discard(SVal(a))
        return x

    def host(self):
        if self.p is not None:
            raise Unsupported("use of a set of symbolic items as a whole")

    def __iter__(self):
        self.host()
        return set.__iter__(self)

    def __len__(self):
        self.host()
        return set.__len__(self)

    def __bool__(self):
        if self.p is not None:
            return core.CTX.branch(self.count()[0].e > 0)
        return set.__len__(self) > 0

    def __eq__(self, o):
        self.host()
        return set.__eq__(self, o)

    def __ne__(self, o):
        self.host()
        return set.__ne__(self, o)


def _tracked(base, name):
    f = getattr(base, name)

    def g(self, *a, **k):
        self.host()
        for x in a:
            if isinstance(x, (VDict, VSet)):
                x.host()
        self.touch()
        return f(self, *a, **k)

    return g


for _n in ("popitem", "update", "clear", "__ior__"):
    setattr(VDict, _n, _tracked(dict, _n))
for _n in ("update", "clear", "difference_update", "intersection_update", "__ior__", "__iand__", "__isub__"):
    setattr(VSet, _n, _tracked(set, _n))


def host_items(s, most=8):
    n = lit(s.vc_len())
    if core.CTX.feasible(n > most):
        raise Unsupported("host iteration over a symbolic sequence of unbounded length")
    for j in range(most + 1):
        if core.CTX.branch(n == j):
            return [s.vc_item(Num(z3.IntVal(i))) for i in range(j)]
    raise PathEnd()


def pick(c, a, b):
    """Value under a condition: merged where the kinds allow it, otherwise one path for each."""
    c = z3.simplify(zbool(c))
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    try:
        return ite(c, a(), b())
    except Unsupported:
        return a() if core.CTX.branch(c) else b()


def join_seqs(parts):
    """Concatenation of host and symbolic sequences."""
    ps = []
    for p in parts:
        if hasattr(p, "vc_iter"):
            p = p.vc_iter()
        if hasattr(p, "vc_len"):
            ps.append((lit(p.vc_len()), p.get if isinstance(p, Seq) else p.vc_item))
        else:
            xs = list(p)
            ps.append((z3.IntVal(len(xs)), lambda k, xs=xs: host_at(xs, k)))
    ps = [p for p in ps if not (z3.is_int_value(z3.simplify(p[0])) and z3.simplify(p[0]).as_long() == 0)]
    if not ps:
        return Seq(Num(z3.IntVal(0)), lambda k: None)
    offs = [z3.IntVal(0)]
    for p in ps:
        offs.append(z3.simplify(offs[-1] + p[0]))

    def get(k, i=0):
        here = lambda: ps[i][1](Num(z3.simplify(lit(k) - offs[i])))  # noqa: E731
        if i == len(ps) - 1:
            return here()
        return pick(lit(k) < offs[i + 1], here, lambda: get(k, i + 1))

    return Seq(Num(offs[-1]), get)


def host_at(xs, k, i=0):
    if i >= len(xs) - 1:
        return xs[-1]
    return pick(lit(k) == i, lambda: xs[i], lambda: host_at(xs, k, i + 1))


def repeat(xs, n):
    n = lit(n)
    if len(xs) != 1:
        raise Unsupported("repetition of a list of several items")
    return Seq(Num(z3.simplify(z3.If(n < 0, z3.IntVal(0), n))), lambda k: xs[0])


def display(kind, parts):
    if any(st and (hasattr(v, "vc_display")) for st, v in parts):
        return [v for st, v in parts if st and hasattr(v, "vc_display")][0].vc_display(kind, parts)
    if not any(st and (hasattr(v, "vc_len") or hasattr(v, "vc_iter")) for st, v in parts):
        out = []
        for st, v in parts:
            out.extend(v) if st else out.append(v)
        return VList(out) if kind == "list" else tuple(out)
    r = join_seqs([v if st else [v] for st, v in parts])
    if kind == "tuple":
        r.py = ("tuple",)
    return r


def dictdisplay(parts):
    if any(st and isinstance(v, SMap) for st, k, v in parts):
        r = None
        for st, k, v in parts:
            if r is None:
                if not st:
                    raise Unsupported("dict display starting with an item")
                r = v.copy()
            elif st:
                r = r | v
            else:
                r[k] = v
        return r
    out = {}
    for st, k, v in parts:
        if st:
            out.update(v)
        else:
            out[k] = v
    return VDict(out)


FMT = {}


def fstr(parts):
    """f-string: the text is a function of the values."""
    for st, v in parts:
        if isinstance(v, Text):
            return Text(*[v for st, v in parts])
        if hasattr(v, "vc_text"):
            return v.vc_text([v for st, v in parts])
    if not any(isinstance(v, SV) for st, v in parts):
        return "".join(format(v) if st else v for st, v in parts)
    key = tuple("{" + str(v.e.sort()) + "}" if isinstance(v, SV) else "{*}" if st and not isinstance(v, (str, int)) else str(v) for st, v in parts)
    vs = [v.e for st, v in parts if isinstance(v, SV)]
    if key not in FMT:
        FMT[key] = z3.Function("text:" + "".join(key), *[v.sort() for v in vs], VAL)
    return SVal(FMT[key](*vs))


class Text:
    """String made of literal and opaque pieces."""

    py = ("str",)

    def __init__(self, *parts):
        ps = []
        for p in parts:
            ps += p.parts if isinstance(p, Text) else [p]
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not isinstance(p, str) or p:
                out.append(p)
        self.parts = out

    def __add__(self, o):
        return Text(self, o)

    def __radd__(self, o):
        return Text(o, self)

    def vc_str(self):
        return self

    def __bool__(self):
        if any(isinstance(p, str) for p in self.parts):
            return True
        raise Unsupported("truth value of a text")

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("equality of texts")

    __hash__ = object.__hash__

    def __getattr__(self, a):
        raise Unsupported(f"{a} of a text") if not a.startswith(("__", "vc_")) else AttributeError(a)


def b_map(f, *its):
    its = [i.vc_iter() if hasattr(i, "vc_iter") else i for i in its]
    f = {str: b_str, int: b_int}.get(f, f) if isinstance(f, type) else f
    if not any(hasattr(i, "vc_len") for i in its):
        return map(f, *its)
    z = Zip(its)
    if len(its) == 1 and hasattr(its[0], "rank"):
        r = Mapped(z.vc_len(), lambda k: merge(core.CTX.pure(lambda: f(*z.vc_item(k)))))
        r.rank = its[0].rank
        return r
    return Mapped(z.vc_len(), lambda k: merge(core.CTX.pure(lambda: f(*z.vc_item(k)))))


class SMap(Obj):
    """dict from opaque keys to opaque values: has(key), val(key); order of iteration by position."""

    py = ("dict", "Mapping")

    def __init__(self, has, val, n=None, key=None, pos=None, mkval=None):
        super().__init__()
        self.has, self.val, self.n, self.key, self.pos = has, val, n, key, pos
        self.mkval = mkval or core.NVal

    @staticmethod
    def fresh(name, nullable=True):
        c = core.CTX
        H, V, P = c.fresh_fun(name + "_has", VAL, BOOL), c.fresh_fun(name + "_val", VAL, VAL), c.fresh_fun(name + "_pos", VAL, INT)
        K = c.fresh_fun(name + "_key", INT, VAL)
        n = new_int(name + "_len", 0)
        m = SMap(lambda k: H(k), lambda k: V(k), n, lambda i: K(lit(i)), lambda k: P(k), core.NVal if nullable else SVal)
        m.name = name
        return m

    def facts_key(self, k):
        """Definition of the positions, at a key."""
        return And(zbool(self.has(k)) == z3.And(self.pos(k) >= 0, self.pos(k) < lit(self.n), self.key(self.pos(k)) == k))

    def facts_pos(self, i):
        i = lit(i)
        k = self.key(i)
        return z3.Implies(z3.And(i >= 0, i < lit(self.n)), z3.And(self.pos(k) == i, zbool(self.has(k))))

    def vc_contains(self, k):
        k = core.val_of(k)
        if self.pos is not None:
            core.CTX.assume(self.facts_key(k))
        return SBool(self.has(k))

    def _w(self, k):
        return self.mkval(self.val(k))

    def __getitem__(self, k):
        e = core.val_of(k)
        if not core.CTX.branch(zbool(self.has(e))):
            raise KeyError(k)
        return self._w(e)

    def get(self, k, default=None):
        e = core.val_of(k)
        return self._w(e) if core.CTX.branch(zbool(self.has(e))) else default

    def pop(self, k, *default):
        e = core.val_of(k)
        if not core.CTX.branch(zbool(self.has(e))):
            if default:
                return default[0]
            raise KeyError(k)
        v = self._w(e)
        del self[k]
        return v

    def __setitem__(self, k, v):
        e, x = core.val_of(k), self.enc(v)
        self.touch()
        h, g = self.has, self.val
        self.has, self.val = (lambda q: z3.Or(q == e, zbool(h(q)))), (lambda q: z3.If(q == e, x, g(q)))
        self.n = self.key = self.pos = None

    def __delitem__(self, k):
        e = core.val_of(k)
        if not core.CTX.branch(zbool(self.has(e))):
            raise KeyError(k)
        self.touch()
        h = self.has
        self.has = lambda q: z3.And(q != e, zbool(h(q)))
        self.n = self.key = self.pos = None

    def make(self, has, val, n=None, key=None, pos=None, mkval=None):
        return type(self)(has, val, n, key, pos, mkval or self.mkval)

    def enc(self, v):
        return core.val_of(v)

    def copy(self):
        return self.make(self.has, self.val, self.n, self.key, self.pos)

    def vc_dict(self):
        return self.copy()

    def __or__(self, o):
        if isinstance(o, dict):
            r = self.copy()
            for k, v in o.items():
                r[k] = v
            return r
        h, g, h2, g2 = self.has, self.val, o.has, o.val
        return self.make(lambda q: z3.Or(zbool(h(q)), zbool(h2(q))), lambda q: z3.If(zbool(h2(q)), g2(q), g(q)))

    def __ror__(self, o):
        r = self.make(lambda q: z3.BoolVal(False), lambda q: core.val_lit(None))
        for k, v in o.items():
            r[k] = v
        return r | self

    def __ior__(self, o):
        return self.update(o) or self

    def update(self, o):
        r = self | o
        self.touch()
        self.has, self.val, self.n, self.key, self.pos = r.has, r.val, None, None, None

    def __bool__(self):
        if self.n is not None:
            return core.CTX.branch(lit(self.n) > 0)
        q = z3.Const("q!bool", VAL)
        return core.CTX.branch(z3.Exists([q], zbool(self.has(q))))

    def _order(self):
        """Iteration visits every key once, in an order which is left open for a changed dict."""
        if self.n is None:
            c = core.CTX
            P, K = c.fresh_fun("map_pos", VAL, INT), c.fresh_fun("map_key", INT, VAL)
            self.n, self.key, self.pos = new_int("map_len", 0), (lambda i: K(lit(i))), (lambda k: P(k))

    def vc_len(self):
        self._order()
        return self.n

    def vc_iter(self):
        return self.keys()

    def _item(self, i):
        core.CTX.assume(self.facts_pos(i))
        return self.key(lit(i))

    def keys(self):
        self._order()
        return MapView(self, lambda i: SVal(self._item(i)))

    def values(self):
        self._order()
        return MapView(self, lambda i: self._w(self._item(i)))

    def items(self):
        self._order()
        has, val, mk = self.has, self.val, self.mkval

        def item(i):
            k = self._item(i)
            return (SVal(k), mk(val(k)))

        return MapView(self, item, pairs=True)

    def havoc(self):
        c = core.CTX
        H, V = c.fresh_fun("map_has", VAL, BOOL), c.fresh_fun("map_val", VAL, VAL)
        self.has, self.val, self.n, self.key, self.pos = (lambda q: H(q)), (lambda q: V(q)), None, None, None

    def vc_fresh_like(self, name):
        m = SMap(self.has, self.val, mkval=self.mkval)
        m.havoc()
        return m

    def __iter__(self):
        raise Unsupported("host iteration over a symbolic dict")


class MapView:
    py = ("Iterable",)

    def __init__(self, m, item, pairs=False):
        self.m, self._item, self.pairs, self.n = m, item, pairs, m.n

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self._item(k)

    def vc_comp(self, kind, f, cond):
        if kind == "dict" and self.pairs:
            has, val, mk = self.m.has, self.m.val, self.m.mkval
            probe = SVal(core.CTX.fresh("key", VAL))

            def at(q, g):
                return merge(core.CTX.pure(lambda: g((SVal(q), mk(val(q))))))

            k, _ = merge(core.CTX.pure(lambda: f((probe, mk(val(probe.e))))))
            if not (isinstance(k, SVal) and k.e.eq(probe.e)):
                raise Unsupported("dict comprehension changing the keys")
            h = has if cond is None else (lambda q: z3.And(zbool(has(q)), zbool(at(q, cond))))
            return SMap(h, lambda q: core.val_of(at(q, f)[1]), mkval=mk)
        return sym_comp(kind, self, f, cond)


class Mapped:
    """Lazy image of an iterable."""

    py = ("list", "Iterable")

    def __init__(self, n, item):
        self.n, self._item = n, item

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self._item(k)


class SDict:
    """dict of symbolic size, by position of insertion."""

    py = ("dict",)

    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val

    def vc_len(self):
        return self.n

    def vc_iter(self):
        return self.keys()

    def keys(self):
        return Mapped(self.n, self.key)

    def values(self):
        return Mapped(self.n, self.val)

    def items(self):
        return Mapped(self.n, lambda k: (self.key(k), self.val(k)))


def truth(x):
    return x if isinstance(x, (bool, SBool)) else bool(x)


def sym_comp(kind, it, f, cond):
    n = it.vc_len()
    if cond is not None:
        cnt, pos, inv = select(n, lambda k: zbool(merge(core.CTX.pure(lambda: truth(cond(it.vc_item(k)))))))
        if kind not in ("list", "gen"):
            raise Unsupported(f"{kind} comprehension with a condition over a symbolic iterable")
        r = Seq(cnt, lambda k: merge(core.CTX.pure(lambda: f(it.vc_item(Num(pos(lit(k))))))))
        r.sel = (pos, inv)
        old = getattr(it, "rank", lambda x: x)
        r.rank = lambda x: inv(old(x))
        return r

    def get(k):
        return merge(core.CTX.pure(lambda: f(it.vc_item(k))))

    if kind in ("list",):
        return Seq(n, get)
    if kind == "gen":
        return Mapped(n, get)
    if kind == "dict":
        a, b = core.CTX.fresh("a", INT), core.CTX.fresh("b", INT)
        if not core.CTX.check_quiet(z3.Implies(z3.And(0 <= a, a < b, b < lit(n)), zbool(Not(get(Num(a))[0] == get(Num(b))[0])))):
            raise Unsupported("dict comprehension whose keys may be equal")
        return SDict(n, lambda k: get(k)[0], lambda k: get(k)[1])
    raise Unsupported(f"{kind} comprehension over a symbolic iterable")


def norm_slice(s, n):
    """-> (lo, hi) as Num with 0 <= lo <= hi <= n (numpy / list semantics, step 1)."""
    if s.step is not None and s.step != 1:
        raise Unsupported("slice with a step")
    nz = lit(n)

    def clamp(x, d):
        if x is None:
            return d
        x = lit(x)
        sx = z3.simplify(x)
        if z3.is_int_value(sx):
            v = sx.as_long()
            if v == 0:
                return z3.IntVal(0)
            if v < 0:
                return z3.If(nz + v < 0, z3.IntVal(0), nz + v)
        y = z3.If(x < 0, z3.If(nz + x < 0, z3.IntVal(0), nz + x), z3.If(x > nz, nz, x))
        return y

    lo = clamp(s.start, z3.IntVal(0))
    hi = clamp(s.stop, nz)
    hi = z3.If(hi < lo, lo, hi) if not (s.start is None) else hi
    return Num(simp(lo)), Num(simp(hi))


def simp(e):
    """Simplifies If conditions which the path already decides."""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not core.CTX.replaying_pure():
        c = e.arg(0)
        if not core.CTX.feasible(z3.Not(c)):
            return simp(e.arg(1))
        if not core.CTX.feasible(c):
            return simp(e.arg(2))
    return e


def _rp(self):
    return False


core.Ctx.replaying_pure = _rp


# ---- numpy arrays ----------------------------------------------------------------------------------
class DType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"dtype({self.name})"

    def __eq__(self, o):
        return (o.name if isinstance(o, DType) else o) == self.name

    def __hash__(self):
        return hash(self.name)

    def __format__(self, s):
        return self.name


DT_INT, DT_FLOAT, DT_BOOL, DT_TIME, DT_OBJ = (DType(x) for x in ("int64", "float64", "bool", "datetime64[ns]", "object"))
SORT = {"int64": INT, "float64": REAL, "bool": BOOL, "datetime64[ns]": INT, "object": VAL}


class Buf(Obj):
    """Storage: function of a flat position. Modified by views."""

    def __init__(self, get, sort, arity):
        super().__init__()
        self.get, self.sort, self.arity = get, sort, arity
        self.log = None

    def havoc(self):
        f = core.CTX.fresh_fun("buf", *([INT] * self.arity), self.sort)
        self.get = lambda *ix: wrap(f(*[lit(i) for i in ix]))


def fresh_buf(name, sort, arity):
    f = core.CTX.fresh_fun(name, *([INT] * arity), sort)
    return Buf(lambda *ix: wrap(f(*[lit(i) for i in ix])), sort, arity)


class Arr:
    """1-d numpy array: a view [off, off+n) of a buffer (or of a row of a 2-d buffer)."""

    py = ("ndarray",)
    ndim = 1

    def __init__(self, buf, n, off=0, dtype=DT_INT, row=None):
        self.buf, self.n, self.off, self.dtype, self.row = buf, n, off, dtype, row

    @staticmethod
    def fresh(name, n, dtype=DT_INT):
        return Arr(fresh_buf(name, SORT[dtype.name], 1), n, 0, dtype)

    @staticmethod
    def of(get, n, dtype=DT_INT):
        return Arr(Buf(get, SORT[dtype.name], 1), n, 0, dtype)

    def vc_fresh_like(self, name):
        return Arr.fresh(name, new_int(name + "_len", 0), self.dtype)

    def at(self, i):
        p = Num(z3.simplify(lit(i) + lit(self.off)))
        return self.buf.get(p) if self.row is None else self.buf.get(self.row, p)

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self.at(k)

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def index(self, i, what="index"):
        i = i if isinstance(i, Num) else Num(lit(i))
        s = z3.simplify(i.e)
        n = lit(self.n)
        if z3.is_int_value(s):
            j = Num(n + s) if s.as_long() < 0 else i
        elif core.CTX.pure_depth:
            j = Num(z3.If(s < 0, s + n, s))
            return j
        else:
            j = Num(i.e + n) if core.CTX.branch(i.e < 0) else i
        if not core.CTX.pure_depth:
            if core.CTX.branch(z3.Or(j.e < 0, j.e >= n)):
                raise IndexError("index is out of bounds")
        return j

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = norm_slice(i, self.n)
            return Arr(self.buf, Num(z3.simplify(hi.e - lo.e)), Num(z3.simplify(lit(self.off) + lo.e)), self.dtype, self.row)
        if isinstance(i, tuple) and len(i) == 1:
            return self[i[0]]
        if isinstance(i, Arr):
            if i.dtype == DT_BOOL:
                return mask_select(self, i)
            base, ix = self.snapshot(), i.snapshot()
            n = lit(self.n)
            return Arr.of(lambda k: base(Num(z3.If(lit(ix(k)) < 0, lit(ix(k)) + n, lit(ix(k))))), i.n, self.dtype)
        return self.at(self.index(i))

    def snapshot(self):
        g, off, row = self.buf.get, lit(self.off), self.row
        if row is None:
            return lambda k: g(Num(z3.simplify(lit(k) + off)))
        return lambda k: g(row, Num(z3.simplify(lit(k) + off)))

    def put(self, cond, val):
        """Writes val(position in the view) where cond(position) holds."""
        self.buf.touch()
        g, off = self.buf.get, lit(self.off)
        n = lit(self.n)
        if self.row is None:
            def new(p):
                k = Num(z3.simplify(lit(p) - off))
                return ite(And(lit(k) >= 0, lit(k) < n, cond(k)), val(k), g(p))
        else:
            r = lit(self.row)

            def new(q, p):
                k = Num(z3.simplify(lit(p) - off))
                return ite(And(lit(q) == r, lit(k) >= 0, lit(k) < n, cond(k)), val(k), g(q, p))
        self.buf.get = new

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            lo, hi = norm_slice(i, self.n)
            if isinstance(v, Arr):
                src = v.snapshot()
                if not core.CTX.pure_depth and core.CTX.branch(lit(v.n) != hi.e - lo.e):
                    raise ValueError("could not broadcast input array")
                self.put(lambda k: And(lit(k) >= lo.e, lit(k) < hi.e), lambda k: src(Num(lit(k) - lo.e)))
            else:
                self.put(lambda k: And(lit(k) >= lo.e, lit(k) < hi.e), lambda k: v)
            return
        if isinstance(i, tuple) and len(i) == 1:
            self[i[0]] = v
            return
        if isinstance(i, Arr):
            return scatter(self, i, v)
        j = self.index(i)
        self.put(lambda k: lit(k) == j.e, lambda k: v)

    def copy(self):
        return Arr.of(self.snapshot(), self.n, self.dtype)

    def tolist(self):
        return Seq(self.n, self.snapshot())

    def binop(self, o, op, dtype=None):
        a = self.snapshot()
        if isinstance(o, Arr):
            b = o.snapshot()
            return Arr.of(lambda k: op(a(k), b(k)), self.n, dtype or self.dtype)
        return Arr.of(lambda k: op(a(k), o), self.n, dtype or self.dtype)

    def __add__(self, o):
        return self.binop(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self.binop(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self.binop(o, lambda x, y: x * y)

    def __iadd__(self, o):
        a = self.snapshot()
        b = o.snapshot() if isinstance(o, Arr) else (lambda k: o)
        self.put(lambda k: True, lambda k: a(k) + b(k))
        return self

    def __lt__(self, o):
        return self.binop(o, lambda x, y: x < y, DT_BOOL)

    def __le__(self, o):
        return self.binop(o, lambda x, y: x <= y, DT_BOOL)

    def __gt__(self, o):
        return self.binop(o, lambda x, y: x > y, DT_BOOL)

    def __ge__(self, o):
        return self.binop(o, lambda x, y: x >= y, DT_BOOL)

    def __eq__(self, o):
        return self.binop(o, lambda x, y: SBool(Eq(x, y)), DT_BOOL)

    def __ne__(self, o):
        return self.binop(o, lambda x, y: SBool(Not(Eq(x, y))), DT_BOOL)

    def __and__(self, o):
        return self.binop(o, lambda x, y: SBool(And(x, y)), DT_BOOL)

    def __or__(self, o):
        return self.binop(o, lambda x, y: SBool(Or(x, y)), DT_BOOL)

    def __xor__(self, o):
        return self.binop(o, lambda x, y: SBool(z3.Xor(zbool(x), zbool(y))), DT_BOOL)

    def __iand__(self, o):
        return self._inplace(o, lambda x, y: SBool(And(x, y)))

    def __ior__(self, o):
        return self._inplace(o, lambda x, y: SBool(Or(x, y)))

    def __ixor__(self, o):
        return self._inplace(o, lambda x, y: SBool(z3.Xor(zbool(x), zbool(y))))

    def _inplace(self, o, op):
        a = self.snapshot()
        o = getattr(o, "a", o) if not isinstance(o, Arr) else o
        b = o.snapshot() if isinstance(o, Arr) else (lambda k: o)
        if isinstance(o, Arr) and not core.CTX.pure_depth and core.CTX.branch(lit(o.n) != lit(self.n)):
            raise ValueError("operands could not be broadcast together")
        self.put(lambda k: True, lambda k: op(a(k), b(k)))
        return self

    def any(self):
        a, n = self.snapshot(), lit(self.n)
        at = [z3.And(lit(u) >= 0, lit(u) < n, zbool(a(u))) for u in core.CTX.wits]  # instances, for the solver
        return SBool(z3.Or(core.exists("any", lambda k: a(k), 0, self.n), *at))

    def all(self):
        a = self.snapshot()
        n = lit(self.n)
        at = [z3.Implies(z3.And(lit(u) >= 0, lit(u) < n), zbool(a(u))) for u in core.CTX.wits]
        ends = z3.Implies(n > 0, z3.And(zbool(a(Num(z3.IntVal(0)))), zbool(a(Num(z3.simplify(n - 1))))))
        return SBool(z3.And(core.forall("all", lambda k: a(k), 0, self.n), ends, *at))  # both ends: instances, for the solver

    def __invert__(self):
        a = self.snapshot()
        return Arr.of(lambda k: SBool(Not(a(k))), self.n, DT_BOOL)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def view(self, *a):
        return self

    def to_numpy(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def __iter__(self):
        raise Unsupported("host iteration over an array")

    def __vc_ite__(self, c, b):
        if not isinstance(b, Arr):
            raise Unsupported("merge of array and scalar")
        x, y = self.snapshot(), b.snapshot()
        return Arr.of(lambda k: ite(c, x(k), y(k)), ite(c, self.n, b.n), self.dtype)

    def reshape(self, *shape):
        if shape == (0, 0):
            return Mat.of(lambda i, j: 0, 0, 0, self.dtype)
        raise Unsupported("reshape")

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"array attribute '{a}'")


def scatter(dst, ix, v):
    """dst[ix] = v: the value written at a position is that of the last occurrence of it in ix."""
    raw, size = ix.snapshot(), lit(dst.n)
    ixf = lambda k: Num(z3.If(lit(raw(k)) < 0, lit(raw(k)) + size, lit(raw(k))))  # noqa: E731  (negative: from the end)
    c = core.CTX
    last = c.fresh_fun("scatter", INT, INT)
    n = lit(ix.n)
    p, q = z3.Int("p!sc"), z3.Int("q!sc")

    def hit(k):
        k = lit(k)
        return And(last(k) >= 0, last(k) < n, lit(ixf(Num(last(k)))) == k)

    # definition of 'last': any occurrence q of k implies that last(k) is an occurrence not before q
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n),
                                       z3.And(last(lit(ixf(Num(q)))) >= q, last(lit(ixf(Num(q)))) < n,
                                              lit(ixf(Num(last(lit(ixf(Num(q))))))) == lit(ixf(Num(q)))))))
    if isinstance(v, Arr):
        vf = v.snapshot()
        dst.put(hit, lambda k: vf(Num(last(lit(k)))))
    else:
        dst.put(hit, lambda k: v)


def no_write():
    raise Unsupported("writing through a view of a column")


class Mat:
    """2-d numpy array."""

    py = ("ndarray",)
    ndim = 2

    def __init__(self, buf, n, m, roff=0, dtype=DT_FLOAT):
        self.buf, self.n, self.m, self.roff, self.dtype = buf, n, m, roff, dtype

    @staticmethod
    def fresh(name, n, m, dtype=DT_FLOAT):
        return Mat(fresh_buf(name, SORT[dtype.name], 2), n, m, 0, dtype)

    @staticmethod
    def of(get, n, m, dtype=DT_FLOAT):
        return Mat(Buf(get, SORT[dtype.name], 2), n, m, 0, dtype)

    @property
    def shape(self):
        return (self.n, self.m)

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self.rowview(k)

    origin = None

    def rowview(self, i):
        return Arr(self.buf, self.m, 0, self.dtype, row=Num(z3.simplify(lit(i) + lit(self.roff))))

    def at(self, i, j):
        return self.buf.get(Num(z3.simplify(lit(i) + lit(self.roff))), j if isinstance(j, Num) else Num(lit(j)))

    def snapshot(self):
        g, ro = self.buf.get, lit(self.roff)
        return lambda i, j: g(Num(z3.simplify(lit(i) + ro)), j)

    def index(self, i, n):
        return Arr(self.buf, n).index(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = norm_slice(i, self.n)
            return Mat(self.buf, Num(z3.simplify(hi.e - lo.e)), self.m, Num(z3.simplify(lit(self.roff) + lo.e)), self.dtype)
        if isinstance(i, tuple) and len(i) == 2:
            r, c = i
            if isinstance(r, slice) and r == slice(None) and isinstance(c, Arr):
                g, ix = self.snapshot(), c.snapshot()
                r = Mat.of(lambda a, b: g(a, ix(b)), self.n, c.n, self.dtype)
                r.origin = (self.buf, self.roff, ix)
                return r
            if isinstance(r, slice) and r == slice(None) and isinstance(c, (int, Num)):
                j = self.index(c, self.m)
                v = Arr.of(lambda a: self.at(a, j), self.n, self.dtype)  # a view: what is written in the array shows in it
                v.buf.touch = no_write
                return v
            if isinstance(c, slice) and c == slice(None):
                return self.rowview(self.index(r, self.n))
            if isinstance(r, (int, Num)) and isinstance(c, (int, Num)):
                return self.at(self.index(r, self.n), self.index(c, self.m))
            raise Unsupported("2-d indexing")
        return self.rowview(self.index(i, self.n))

    def __setitem__(self, i, v):
        if isinstance(i, tuple) and len(i) == 2:
            r, c = i
            if isinstance(r, (int, Num)):
                row = self.rowview(self.index(r, self.n))
                if isinstance(c, slice) and c == slice(None):
                    row[slice(None)] = v
                else:
                    row[c] = v
                return
            raise Unsupported("2-d assignment")
        self.rowview(self.index(i, self.n))[slice(None)] = v

    def __hash__(self):
        return id(self)

    def copy(self):
        return Mat.of(self.snapshot(), self.n, self.m, self.dtype)

    def view(self, *a):
        return self

    def reshape(self, *shape):
        if shape in ((-1, 1), ((-1, 1),)) and core.CTX.check_quiet(lit(self.m) == 1):
            return self
        if len(shape) == 1 and not isinstance(shape[0], tuple) and core.CTX.check_quiet(lit(self.n) == 1) and core.CTX.check_quiet(lit(self.m) == lit(shape[0])):
            return self.rowview(Num(z3.IntVal(0)))
        raise Unsupported("reshape")

    def __getattr__(self, a):
        if a.startswith(("__", "vc_")):
            raise AttributeError(a)
        raise Unsupported(f"array attribute '{a}'")


def select(n, cond):
    """Ascending positions where a condition holds -> (number, position of the k-th, rank of a position)."""
    c = core.CTX
    n = lit(n)
    pos = c.fresh_fun("sel", INT, INT)  # selected position -> original position
    inv = c.fresh_fun("selinv", INT, INT)
    cnt = new_int("nsel", 0)
    i, j = z3.Int("i!ms"), z3.Int("j!ms")
    c.assume(cnt.e <= n)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt.e), z3.And(pos(i) >= 0, pos(i) < n, zbool(cond(Num(pos(i)))), inv(pos(i)) == i))))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt.e), pos(i) < pos(j))))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, zbool(cond(Num(i)))), z3.And(inv(i) >= 0, inv(i) < cnt.e, pos(inv(i)) == i))))
    return cnt, pos, inv


def mask_select(a, m):
    """a[mask]: the selected positions, in order."""
    mf, af = m.snapshot(), a.snapshot()
    cnt, pos, inv = select(a.n, mf)
    r = Arr.of(lambda k: af(Num(pos(lit(k)))), cnt, a.dtype)
    r.buf.sel = (pos, inv)
    return r


class NDEnum:
    """numpy.ndenumerate of a 1-d array."""

    def __init__(self, a):
        if not isinstance(a, Arr):
            raise Unsupported("ndenumerate of other than a 1-d array")
        self.a = a
        self.n = a.n

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return ((k,), self.a.at(k))


class Enum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def vc_len(self):
        return self.it.vc_len()

    def vc_item(self, k):
        return (k + self.start, self.it.vc_item(k))


class Zip:
    def __init__(self, its):
        self.its = its

    def vc_len(self):
        n = lit(self.its[0].vc_len())
        for it in self.its[1:]:
            m = lit(it.vc_len())
            n = z3.If(m < n, m, n)
        return Num(z3.simplify(n))

    def vc_item(self, k):
        return tuple(it.vc_item(k) for it in self.its)


class SRange:
    P = None

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if not (isinstance(step, int) and step in (1, -1)):
            if not core.CTX.branch(lit(step) > 0):
                raise Unsupported("range with a step which is not positive")
            a, b, s = lit(lo), lit(hi), lit(step)
            c = core.CTX
            n = new_int("range", 0)
            c.assume(z3.If(b <= a, n.e == 0, z3.And(a + (n.e - 1) * s < b, b <= a + n.e * s, n.e >= 1)))
            self.n = n
            self.P = c.fresh_fun("rangeitem", INT, INT)  # item by position, defined by instances (eases the non-linear part)
            i = z3.Int("i!rg")
            P = self.P
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.e), z3.And(P(i) >= a, P(i) < b, z3.Implies(i + 1 < n.e, P(i + 1) == P(i) + s),
                                                                               z3.Implies(i + 1 == n.e, b <= P(i) + s))), patterns=[P(i)]))
            c.assume(P(0) == a)
            c.__dict__.setdefault("ranges", []).append(self)
            return
        d = lit(hi) - lit(lo) if step == 1 else lit(lo) - lit(hi)
        self.n = Num(z3.simplify(z3.If(d > 0, d, z3.IntVal(0))))

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        k = z3.simplify(lit(k))
        if self.P is not None:
            core.CTX.assume(self.P(k) == lit(self.lo) + k * lit(self.step))
            return Num(self.P(k))
        return Num(z3.simplify(lit(self.lo) + k * lit(self.step)))


class SIter(Obj):
    """iter() over a symbolic iterable."""

    def __init__(self, it):
        super().__init__()
        self.it = it
        self.pos = Num(z3.IntVal(0))

    def havoc(self):
        self.pos = new_int("itpos", 0)

    def vc_next(self, *default):
        if core.CTX.branch(self.pos.e >= lit(self.it.vc_len())):
            if default:
                return default[0]
            raise StopIteration()
        v = self.it.vc_item(self.pos)
        self.touch()
        self.pos = Num(z3.simplify(self.pos.e + 1))
        return v

    def vc_len(self):
        return Num(lit(self.it.vc_len()) - self.pos.e)

    def vc_item(self, k):
        return self.it.vc_item(Num(self.pos.e + lit(k)))


# ---- builtins ------------------------------------------------------------------------------------
def _issym(x):
    return isinstance(x, SV)


def b_len(x):
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return len(x)


def b_range(*a):
    if any(isinstance(x, Num) for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return SRange(lo, hi, st)
    return range(*a)


def _mm(pick, host):
    def f(*a, key=None, default=None):
        if len(a) == 1 and hasattr(a[0], "vc_iter"):
            a = (a[0].vc_iter(),)
        if len(a) == 1 and hasattr(a[0], "vc_len"):
            it, c = a[0], core.CTX
            if key is not None or c.pure_depth:
                raise Unsupported("min/max of a symbolic sequence by key")
            if c.branch(lit(it.vc_len()) <= 0):
                if default is None:
                    raise ValueError("min() or max() of an empty sequence")
                return default
            k = new_int("best", 0)
            c.assume(k.e < lit(it.vc_len()))
            r = it.vc_item(k)
            c.assume(forall("others", lambda i: Not(pick(it.vc_item(i), r)), 0, it.vc_len()))
            return r
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and any(_issym(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ite(pick(x, r), x, r)
            return r
        kw = {} if key is None else {"key": key}
        if default is not None:
            kw["default"] = default
        return host(xs, **kw)

    return f


b_min = _mm(lambda x, r: x < r, min)
b_max = _mm(lambda x, r: x > r, max)


def tname(t):
    return getattr(t, "__name__", getattr(t, "name", str(t)))


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    py = getattr(x, "py", None)
    if py is not None:
        if isinstance(x, Num):
            names = ("int",) if x.is_int() else ("float",)
            return any(tname(k) in names for k in ts)
        return any(tname(k) in py for k in ts)
    real = tuple(k for k in ts if isinstance(k, type))
    if isinstance(x, Unknown):
        raise Unsupported(f"isinstance of {x}")
    return isinstance(x, real) or any(getattr(k, "vc_instance", lambda v: False)(x) for k in ts if not isinstance(k, type))


def b_enumerate(x, start=0):
    if hasattr(x, "vc_iter"):
        x = x.vc_iter()
    return Enum(x, start) if hasattr(x, "vc_len") else enumerate(x, start)


def b_zip(*a, **k):
    a = [x.vc_iter() if hasattr(x, "vc_iter") else x for x in a]
    if any(hasattr(x, "vc_len") for x in a):
        a = [x if hasattr(x, "vc_len") else conc_seq(list(x)) for x in a]
        return Zip(a)
    return zip(*a)


def conc_seq(xs):
    def get(k):
        if not xs:
            return None
        v = xs[-1]
        for j in reversed(range(len(xs) - 1)):
            v = ite(lit(k) == j, xs[j], v)
        return v

    return Mapped(len(xs), get)


def b_iter(x):
    if hasattr(x, "vc_iter"):
        x = x.vc_iter()
    return SIter(x) if hasattr(x, "vc_len") else iter(x)


def b_next(it, *d):
    return it.vc_next(*d) if hasattr(it, "vc_next") else next(it, *d)


def b_int(x=0, *a):
    if isinstance(x, SBool):
        return Num(core._b2i(x.e))
    if isinstance(x, Num):
        if x.is_int():
            return x
        return Num(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if hasattr(x, "vc_int"):
        return x.vc_int()
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, Num):
        return Num(z3.ToReal(x.e)) if x.is_int() else x
    return float(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Num):
        return SBool(x.e != 0)
    return bool(x)


def b_all(it):
    if hasattr(it, "vc_len"):
        k = core.CTX.fresh("all", INT)
        c = zbool(merge(core.CTX.pure(lambda: it.vc_item(Num(k)))))
        return SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lit(it.vc_len())), c)))
    r = True
    for x in it:
        if not x:
            return False
    return r


def b_any(it):
    if hasattr(it, "vc_len"):
        k = core.CTX.fresh("any", INT)
        c = zbool(merge(core.CTX.pure(lambda: it.vc_item(Num(k)))))
        return SBool(z3.Exists([k], z3.And(k >= 0, k < lit(it.vc_len()), c)))
    for x in it:
        if x:
            return True
    return False


def b_list(x=()):
    if hasattr(x, "vc_list"):
        return x.vc_list()
    if hasattr(x, "vc_iter"):
        x = x.vc_iter()
    if hasattr(x, "vc_len"):
        return Seq(x.vc_len(), x.vc_item if not isinstance(x, Seq) else x.get, getattr(x, "mk", None))
    return VList(x)


def b_tuple(x=()):
    if hasattr(x, "vc_list") or hasattr(x, "vc_iter") or hasattr(x, "vc_len"):
        return b_list(x)
    return tuple(x)


def b_sorted(x, **k):
    if hasattr(x, "vc_sorted"):
        return x.vc_sorted(**k)
    if hasattr(x, "vc_iter"):
        x = x.vc_iter()
    if hasattr(x, "vc_len"):
        r = Seq(x.vc_len(), x.vc_item)
        if hasattr(x, "rank"):
            r.rank = x.rank
        r.sort(**k)
        return r
    return VList(sorted(x, **k))


def b_dict(*a, **k):
    if a and hasattr(a[0], "vc_dict"):
        return a[0].vc_dict()
    return VDict(*a, **k)


def b_str(x=""):
    if hasattr(x, "vc_str"):
        return x.vc_str()
    if isinstance(x, SV):
        raise Unsupported("str of a symbolic value")
    return str(x)


def b_set(x=()):
    if hasattr(x, "vc_set"):
        return x.vc_set()
    if hasattr(x, "vc_len"):
        raise Unsupported("set of a symbolic sequence")
    return VSet(x)


def b_hasattr(x, a):
    if isinstance(x, Unknown):
        raise Unsupported(f"hasattr of {x}")
    try:
        getattr(x, a)
    except Unsupported:
        return False
    except AttributeError:
        return False
    return True


def b_type(x, *a):
    if a:
        return type(x, *a)
    if hasattr(x, "vc_type"):
        return x.vc_type()
    return type(x)


def b_reversed(x):
    if hasattr(x, "vc_len"):
        n = x.vc_len()
        return Mapped(n, lambda k: x.vc_item(Num(lit(n) - 1 - lit(k))))
    return reversed(x)


def b_getattr(x, a, *d):
    if hasattr(x, "vc_getattr"):
        return x.vc_getattr(a, *d)
    return getattr(x, a, *d)


def b_print(*a, **k):
    return None


BUILTINS = dict(len=b_len, min=b_min, max=b_max, isinstance=b_isinstance, iter=b_iter, next=b_next, all=b_all, any=b_any,
                sorted=b_sorted, hasattr=b_hasattr, print=b_print, map=b_map, getattr=b_getattr)
# names which stay the real types as values; their calls are rewritten
CALLS = dict(range=b_range, enumerate=b_enumerate, zip=b_zip, int=b_int, float=b_float, bool=b_bool, list=b_list, tuple=b_tuple,
             str=b_str, set=b_set, type=b_type, reversed=b_reversed, dict=b_dict)


# ---- libraries -------------------------------------------------------------------------------------
class Unknown:
    """A library object without a contract: any use of it is outside the modelled subset."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __repr__(self):
        return f"<{self._name}>"

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__") or a.startswith("vc_") or a == "py":
            raise AttributeError(a)
        return Unknown(f"{self._name}.{a}")

    def __call__(self, *a, **k):
        if LOADING[0]:
            return Unknown(f"{self._name}()")
        raise Unsupported(f"call of {self._name}, which has no contract")

    def __getitem__(self, i):
        return Unknown(f"{self._name}[]")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported(f"truth value of {self._name}")

    def __or__(self, o):
        return self

    def __mro_entries__(self, bases):
        return ()


LOADING = [False]


class NS:
    """Library module: modelled names, the others unknown."""

    def __init__(self, name, table):
        self.__dict__["_n"] = name
        self.__dict__.update(table)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Unknown(f"{self._n}.{a}")


def n_zeros(shape, dtype=None):
    d = _dtype(dtype) if dtype is not None else DT_FLOAT
    z = 0 if SORT[d.name] == INT else 0.0
    v = Num(lit(z)) if SORT[d.name] != BOOL else False
    if isinstance(shape, tuple):
        if len(shape) == 2:
            return Mat.of(lambda i, j: v, shape[0], shape[1], d)
        shape = shape[0]
    return Arr.of(lambda k: v, shape, d)


def n_ones(shape, dtype=None):
    d = _dtype(dtype) if dtype is not None else DT_FLOAT
    v = True if SORT[d.name] == BOOL else Num(lit(1 if SORT[d.name] == INT else 1.0))
    if isinstance(shape, tuple):
        raise Unsupported("ones of several dimensions")
    return Arr.of(lambda k: v, shape, d)


def n_full(shape, value, dtype=None):
    d = dtype if isinstance(dtype, DType) else DT_INT
    if isinstance(shape, tuple) and len(shape) == 2:
        return Mat.of(lambda i, j: value, shape[0], shape[1], d)
    return Arr.of(lambda k: value, shape[0] if isinstance(shape, tuple) else shape, d)


def n_arange(start=None, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    a, b, s = lit(start), lit(stop), lit(step)
    c = core.CTX
    n = new_int("arange", 0)
    # n = max(0, ceil((stop - start) / step)), for a positive step
    if c.branch(s <= 0):
        raise Unsupported("arange with a step which is not positive")
    c.assume(z3.If(b <= a, n.e == 0, z3.And(a + (n.e - 1) * s < b, b <= a + n.e * s, n.e >= 1)))
    return Arr.of(lambda k: Num(a + lit(k) * s), n, DT_INT)


def n_concatenate(parts, **kw):
    parts = list(parts)
    fs = [p.snapshot() for p in parts]
    ns = [lit(p.n) for p in parts]

    def get(k):
        k = lit(k)
        off = sum(ns[:-1], z3.IntVal(0))
        v = fs[-1](Num(z3.simplify(k - off)))
        for j in reversed(range(len(parts) - 1)):
            off = z3.simplify(sum(ns[:j], z3.IntVal(0)))
            v = ite(k < off + ns[j], fs[j](Num(z3.simplify(k - off))), v)
        return v

    return Arr.of(get, Num(z3.simplify(sum(ns[1:], ns[0]))), parts[0].dtype)


def n_insert(a, i, v):
    if not (isinstance(i, int) and i == 0):
        raise Unsupported("insert elsewhere than at 0")
    f = a.snapshot()
    return Arr.of(lambda k: ite(lit(k) == 0, v, f(Num(z3.simplify(lit(k) - 1)))), Num(z3.simplify(lit(a.n) + 1)), a.dtype)


def _lexsorted(keys, n, stable=True):
    """Sorting permutation: along it (keys[0], keys[1], ...) ascend; equal ones keep their order if stable."""
    c = core.CTX
    fs = [k.snapshot() for k in keys]
    n_ = lit(n)
    p = c.fresh_fun("perm", INT, INT)
    q = c.fresh_fun("perminv", INT, INT)
    i, j = z3.Int("i!as"), z3.Int("j!as")
    rng = lambda x: z3.And(x >= 0, x < n_)  # noqa: E731
    c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    last = p(i) < p(j) if stable else z3.BoolVal(True)
    for f in reversed(fs):
        ki, kj = lit(f(Num(p(i)))), lit(f(Num(p(j))))
        last = z3.Or(ki < kj, z3.And(ki == kj, last))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), last), patterns=[z3.MultiPattern(p(i), p(j))]))
    r = Arr.of(lambda k: Num(p(lit(k))), n, DT_INT)
    r.buf.perm = (p, q)
    return r


def n_argsort(a, axis=-1, kind=None, **kw):
    """Permutation along which keys ascend; of equal keys, only the stable kinds say which comes first."""
    if axis not in (-1, 0) or kw.pop("stable", None) not in (None, True) or kw:
        raise Unsupported("options of argsort")
    return _lexsorted([a], a.n, kind in ("mergesort", "stable"))


def n_lexsort(keys, axis=-1):
    """Stable permutation along which the last key ascends, then the one before it, ..."""
    if axis not in (-1, 0):
        raise Unsupported("options of lexsort")
    keys = list(keys)
    if not keys:
        raise Unsupported("lexsort without keys")
    c = core.CTX
    for k in keys[1:]:
        if c.branch(lit(k.n) != lit(keys[0].n)):
            raise ValueError("all keys need to be the same shape")
    return _lexsorted(keys[::-1], keys[0].n)


def n_nonzero(m):
    """Ascending positions where the mask holds."""
    idx = Arr.of(lambda k: k if isinstance(k, Num) else Num(lit(k)), m.n, DT_INT)
    return (mask_select(idx, m),)


def m_ceil(x):
    if isinstance(x, Num):
        if x.e.get_id() in core.CTX.ratios:
            a, b, _ = core.CTX.ratios[x.e.get_id()]
            if core.CTX.branch(b > 0):
                q, r = core.quotient(a, b)
                return Num(q + z3.If(r == 0, z3.IntVal(0), z3.IntVal(1)))
        return x if x.is_int() else Num(-z3.ToInt(-x.e))
    import math

    return math.ceil(x)


def m_floor(x):
    if isinstance(x, Num):
        return x if x.is_int() else Num(z3.ToInt(x.e))
    import math

    return math.floor(x)


def m_fmod(a, b):
    """C fmod; modelled for integer arguments with a >= 0 and b > 0."""
    a, b = lit(a), lit(b)
    if core.CTX.branch(z3.Or(a < 0, b <= 0)):
        raise Unsupported("fmod of negative arguments")
    return Num(core.quotient(a, b)[1])


class FInfo:
    pass


NUMPY = dict(
    ndenumerate=lambda a: NDEnum(a), zeros=n_zeros, ones=n_ones, full=n_full, arange=n_arange, concatenate=n_concatenate, insert=n_insert,
    argsort=n_argsort, lexsort=n_lexsort, nonzero=n_nonzero, fmod=m_fmod, ceil=m_ceil, int64="int64", dtype=lambda x: DType(tname(x) if not isinstance(x, str) else x),
)
NUMPY["ndarray"] = type("ndarray", (), {})


def _dtype(x):
    if isinstance(x, DType):
        return x
    if isinstance(x, str):
        return {"datetime64[ns]": DT_TIME, "int64": DT_INT, "float64": DT_FLOAT, "bool": DT_BOOL}.get(x, DType(x))
    n = tname(x)
    return {"int64": DT_INT, "int": DT_INT, "float64": DT_FLOAT, "float": DT_FLOAT, "bool": DT_BOOL, "bool_": DT_BOOL}.get(n, DType(n))


NUMPY["dtype"] = _dtype

REAL_MODULES = {"typing", "dataclasses", "functools", "collections", "itertools", "enum", "abc", "copy", "warnings", "contextlib", "operator", "string"}


def make_ext(tables):
    """Import hook for third-party modules. tables: {module: {name: model}}."""
    cache = {}

    def ext(nm, fromlist):
        if nm in REAL_MODULES and nm not in tables:
            return __import__(nm, fromlist=fromlist)
        key = nm if fromlist else nm.split(".")[0]
        if key not in cache:
            cache[key] = NS(key, dict(tables.get(key, {})))
        return cache[key]

    return ext


BASE_TABLES = {
    "numpy": NUMPY,
    "math": dict(ceil=m_ceil, floor=m_floor, fmod=m_fmod, inf=float("inf")),
    "joblib": dict(cpu_count=lambda: 4),
    "multiprocessing": dict(cpu_count=lambda: 4),
    "os": dict(cpu_count=lambda: 4),
    "numba": dict(literal_unroll=lambda x: x, njit=lambda *a, **k: (lambda f: f), prange=b_range),
}


def tables(**over):
    t = {k: dict(v) for k, v in BASE_TABLES.items()}
    for k, v in over.items():
        t.setdefault(k.replace("__", "."), {}).update(v)
    return t
