"""Contracts of keys and their textual forms (C01, C02)."""
import z3

import core
import models
from core import LoopSpec, Name, Num, NVal, SBool, SVal, Unsupported, BOOL, INT, VAL, lit, new_int, val_lit, val_of, zbool
from models import Mapped, NS, Seq, Text
from t_coll import SEP
from target import Target

XM = "oups.store.indexer"
HASCH = z3.Function("contains", VAL, VAL, BOOL)
ST = {}


def pieces(ps):
    """Text made of pieces: a name followed by the separator and the next field is a name."""
    out = []
    for p in [q for p in ps for q in (p.parts if isinstance(p, Text) else [p])]:
        if isinstance(p, str) and not p:
            continue
        out.append(p)
        if len(out) > 2 and isinstance(out[-3], (JText, Rendered)) and isinstance(out[-2], SVal) and isinstance(p, Rendered):
            try:
                a = as_name(out[-3]) if isinstance(out[-3], Rendered) else out[-3]
            except Unsupported:
                continue
            if core.CTX.check_quiet(z3.And(out[-2].e == a.sep, a.cnt >= 1, p.e == ST["STR"](a.j, a.cnt))):
                out[-3:] = [JText(a.sep, a.j, z3.simplify(a.cnt + 1))]
    return out[0] if len(out) == 1 else Text(*out)


class Piece:
    __slots__ = ()
    vc_text = staticmethod(lambda ps: pieces(ps))

    def __add__(self, o):
        return pieces([self, o])

    def __radd__(self, o):
        return pieces([o, self])


class Rendered(Piece, SVal):
    """str() of a field."""

    __slots__ = ()
    py = ("str",)

    def __vc_ite__(self, c, o):
        if isinstance(o, JText):
            return as_name(self).__vc_ite__(c, o)
        return Rendered(z3.If(c, self.e, o.e))

    def vc_contains(self, s):
        return SBool(HASCH(self.e, val_of(s)))

    def vc_str(self):
        return self

    def __eq__(self, o):
        if isinstance(o, str) and o == "":
            return SBool(self.e == val_lit(""))
        return SVal.__eq__(self, o)

    __hash__ = SVal.__hash__


class TypeOf:
    def __init__(self, k):
        self.k = k

    def vc_in(self, c):
        codes = {int: 0, str: 1}
        return SBool(z3.Or(*[self.k == codes[t] for t in c if t in codes]))

    def __eq__(self, o):
        return self.vc_in([o])

    def vc_is(self, o):
        return self.vc_in([o])

    __hash__ = object.__hash__


class Field:
    """i-th field of the level j of a key: a plain value, or a dataclass instance (the next level)."""

    def __init__(self, j, i):
        self.j, self.i = lit(j), lit(i)

    @property
    def py(self):
        return ("str",) if core.CTX.branch(ST["KIND"](self.j, self.i) == 1) else ("int",) if core.CTX.branch(ST["KIND"](self.j, self.i) == 0) else ("object",)

    def vc_str(self):
        return Rendered(ST["STR"](self.j, self.i))

    def vc_type(self):
        return TypeOf(ST["KIND"](self.j, self.i))

    def vc_contains(self, x):
        if not core.CTX.branch(ST["KIND"](self.j, self.i) == 1):
            raise TypeError("argument of this type is not iterable")
        return self.vc_str().vc_contains(x)

    def __eq__(self, o):
        if isinstance(o, str) and o == "":
            return SBool(z3.And(ST["KIND"](self.j, self.i) == 1, ST["STR"](self.j, self.i) == val_lit("")))
        raise Unsupported("equality of fields")

    def __ne__(self, o):
        return SBool(z3.Not(zbool(self == o)))

    __hash__ = object.__hash__

    def __vc_ite__(self, c, o):
        if not isinstance(o, Field):
            raise Unsupported("merge of a field and another value")
        return Field(z3.If(c, self.j, o.j), z3.If(c, self.i, o.i))

    def vc_fresh_like(self, name):
        return Field(core.CTX.fresh(name + " level", INT), core.CTX.fresh(name, INT))

    def vc_elem_maker(self):
        def mk():
            f, g = core.CTX.fresh_fun("level", INT, INT), core.CTX.fresh_fun("field", INT, INT)
            return lambda k: Field(f(lit(k)), g(lit(k)))

        return mk


class FieldDesc:
    """dataclasses.Field."""

    def __init__(self, j, i):
        self.j, self.i = j, i

    @property
    def name(self):
        return Name(ST["NAME"](self.j, self.i))


class Level:
    """Dataclass instance at level j."""

    def __init__(self, j):
        self.j = lit(j)

    @property
    def fields_sep(self):
        return ST["sep"]

    def vc_getattr(self, a, *d):
        i = ST["IDX"](self.j, val_of(a))
        return Field(self.j, i)


def is_dc(x):
    if isinstance(x, Field):
        return SBool(ST["DC"](x.j, x.i))
    if isinstance(x, Level):
        return True
    raise Unsupported("is_dataclass of something else")


def dc_fields(x):
    if not isinstance(x, Level):
        raise Unsupported("fields of something else")
    j = x.j
    return Seq(Num(ST["NF"](j)), lambda k: FieldDesc(j, lit(k)))


class SepName(Piece, Name):
    """Separator of fields."""

    __slots__ = ()

    def join(self, xs):
        return joined(self, xs)

    __hash__ = Name.__hash__


def setup(T, valid=False):
    """A key of any class: D levels, level j having NF(j) fields."""
    c = core.CTX
    ST.clear()
    T.fn(XM, "_validate_toplevel_instance")
    ns = T.rt.load(XM).ns
    D = new_int("levels", 1)
    NF, DC, KIND = c.fresh_fun("NF", INT, INT), c.fresh_fun("DC", INT, INT, BOOL), c.fresh_fun("KIND", INT, INT, INT)
    STR, NAME, IDX = c.fresh_fun("STR", INT, INT, VAL), c.fresh_fun("NAME", INT, INT, VAL), c.fresh_fun("IDX", INT, VAL, INT)
    j, i = z3.Ints("j!key i!key")
    c.assume(z3.ForAll([j], NF(j) >= 1, patterns=[NF(j)]))
    c.assume(z3.ForAll([j, i], z3.And(z3.Implies(DC(j, i), KIND(j, i) == 2)), patterns=[DC(j, i)]))
    c.assume(z3.ForAll([j, i], IDX(j, NAME(j, i)) == i, patterns=[NAME(j, i)]))
    # levels follow the last field, while it is a dataclass instance
    c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < D.e), (j + 1 < D.e) == DC(j, NF(j) - 1)), patterns=[NF(j)]))
    sep = SepName(c.fresh("fields_sep", VAL))
    ST.update(D=D, NF=NF, DC=DC, KIND=KIND, STR=STR, NAME=NAME, IDX=IDX, sep=sep, ns=ns)
    if valid:
        c.assume(z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < D.e, 0 <= i, i < NF(j)), DC(j, i) == z3.And(i == NF(j) - 1, j + 1 < D.e)), patterns=[DC(j, i)]))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j + 1 < D.e), NF(j) >= 2), patterns=[NF(j)]))
    ns["is_dataclass"], ns["fields"] = is_dc, dc_fields
    return ns


def level_fields(j):
    j = lit(j)
    return Seq(Num(ST["NF"](j)), lambda k: Field(j, lit(k)))


def levels_contract(x):
    """Contract of _dataclass_instance_to_lists: the fields of each level."""
    if not isinstance(x, Level) or not z3.is_int_value(x.j) or x.j.as_long() != 0:
        raise Unsupported("levels of something else than the key")
    return Mapped(ST["D"], level_fields)


# ---- _dataclass_instance_to_lists ------------------------------------------------------------------
def lists(T):
    c = core.CTX
    nm = "_dataclass_instance_to_lists"
    ns = setup(T)
    f = T.fn(XM, nm)
    j = new_int("level", 0)
    c.assume(j.e < ST["D"].e)

    class Rest:
        def __init__(self, x):
            self.x = x

    ns[nm] = lambda x: iter([Rest(x)])
    out = []
    it = iter(f(Level(j)))
    while True:
        x = T.call(next, it, None)
        if x is None:
            break
        out.append(x)
    i = new_int("i", 0)
    first = out[0] if out else None
    c.prove(f"{nm}/post: the fields of the level come first", z3.BoolVal(first is not None and not isinstance(first, Rest)), cut=False)
    if first is None or isinstance(first, Rest):
        return
    if not hasattr(first, "vc_len"):
        raise Unsupported("another kind of list of fields")
    x = first.vc_item(i)
    c.prove(f"{nm}/post: all fields, in order", z3.And(lit(first.vc_len()) == ST["NF"](j.e), z3.Implies(i.e < ST["NF"](j.e), z3.And(x.j == j.e, x.i == i.e))), cut=False)
    last = ST["NF"](j.e) - 1
    deeper = len(out) > 1
    c.prove(f"{nm}/post: then the levels below, if there are", ST["DC"](j.e, last) == z3.BoolVal(deeper), cut=False)
    if deeper:
        y = out[1].x if isinstance(out[1], Rest) else None
        c.prove(f"{nm}/post: levels below are those of the last field", z3.And(y.j == j.e, y.i == last) if isinstance(y, Field) and len(out) == 2 else False, cut=False)


# ---- _validate_toplevel_instance -------------------------------------------------------------------
def fine(j, i):
    """Nothing is wrong with the i-th field of level j."""
    bad_char = z3.Or(*[HASCH(ST["STR"](j, i), s) for s in (ST["sep"].e, val_lit("/"), val_lit("."))])
    return z3.If(ST["DC"](j, i), z3.And(i > 0, i == ST["NF"](j) - 1), z3.And(z3.Not(bad_char), z3.Or(ST["KIND"](j, i) == 0, ST["KIND"](j, i) == 1)))


def named(j):
    """The name of the directory of level j is not empty: not just one empty text."""
    empty = lambda i: z3.And(ST["KIND"](j, i) == 1, ST["STR"](j, i) == val_lit(""))  # noqa: E731
    n = ST["NF"](j)
    one = z3.Or(n == 1, z3.And(n == 2, ST["DC"](j, z3.IntVal(1))))
    return z3.Not(z3.And(one, z3.Not(ST["DC"](j, z3.IntVal(0))), empty(z3.IntVal(0))))


def v_specs(L):
    if "ns" not in ST or L.it is None or not hasattr(L.it, "vc_len"):
        return None
    x = L.it.vc_item(Num(z3.IntVal(0)))
    w, v = ST["w"], ST["v"]
    if isinstance(x, Seq):
        return LoopSpec(lambda S: {"levels before are right": z3.Implies(w < S.k.e, z3.And(named(w), z3.Implies(v < ST["NF"](w), fine(w, v))))})
    y = [a for a in (x if isinstance(x, tuple) else (x,)) if isinstance(a, Field)]
    if not y:
        return None
    j = y[0].j
    return LoopSpec(lambda S: {"fields before are right": z3.Implies(z3.And(v < S.k.e, w == j), fine(j, v))})


def validate(T):
    c = core.CTX
    nm = "_validate_toplevel_instance"
    ns = setup(T)
    f = T.fn(XM, nm)
    ns["_dataclass_instance_to_lists"] = levels_contract
    w, v = c.fresh("w", INT), c.fresh("v", INT)
    c.assume(z3.And(0 <= w, w < ST["D"].e, 0 <= v))
    ST.update(w=w, v=v)
    j, i = z3.Ints("j!bad i!bad")
    try:
        T.call(f, Level(0), expect=(ValueError, TypeError))
    except (ValueError, TypeError) as e:
        if type(e) is TypeError and "not possible" not in str(e) and "dataclass" not in str(e):
            raise
        D, NF = ST["D"].e, ST["NF"]
        ks = [L.k.e for L in c.active_loops]
        here = [z3.Not(named(ks[0]))] if ks else []
        if len(ks) > 1:
            here.append(z3.Not(fine(ks[0], ks[1])))
        c.prove(f"{nm}/post: only keys which are not right are refused",
                z3.Or(*here, z3.Exists([j], z3.And(0 <= j, j < D, z3.Or(z3.Not(named(j)), z3.Exists([i], z3.And(0 <= i, i < NF(j), z3.Not(fine(j, i)))))))), cut=False)
        return
    c.prove(f"{nm}/post: values of an accepted key are free of separators and forbidden characters, of accepted types, and levels are last",
            z3.Implies(v < ST["NF"](w), fine(w, v)), cut=False)
    c.prove(f"{nm}/post: levels of an accepted key have a name", named(w), cut=False)


# ---- _dataclass_instance_to_str --------------------------------------------------------------------
def joined(sep, xs):
    """sep.join(xs): xs are the first rendered fields of a level, or the names of levels."""
    c = core.CTX
    xs = xs.vc_iter() if hasattr(xs, "vc_iter") else xs
    if isinstance(xs, (list, tuple)) and not hasattr(xs, "vc_len"):
        xs = models.join_seqs([list(xs)])
    if not hasattr(xs, "vc_len"):
        raise Unsupported("join of something else")
    x = xs.vc_item(Num(z3.IntVal(0)))
    one = z3.simplify(lit(xs.vc_len()))
    if z3.is_int_value(one) and one.as_long() == 1:
        return x
    if isinstance(x, JText):
        return Whole(sep, xs)
    if isinstance(x, Rendered):
        e = z3.simplify(x.e)
        if not (z3.is_app(e) and e.decl().eq(ST["STR"])):
            raise Unsupported("join of other texts")
        j = e.arg(0)
        p = c.fresh("p", INT)
        n = lit(xs.vc_len())
        if not c.check_quiet(z3.Implies(z3.And(0 <= p, p < n), xs.vc_item(Num(p)).e == ST["STR"](j, p))):
            raise Unsupported("join of other fields")
        if not isinstance(sep, SVal):
            raise Unsupported("fields with another separator")
        return JText(sep.e, j, z3.simplify(n))
    raise Unsupported("join of other texts")


class JText:
    """The first 'cnt' rendered fields of level j, with the separator between them."""

    py = ("str",)

    def __init__(self, sep, j, cnt):
        self.sep, self.j, self.cnt = sep, j, cnt

    def vc_str(self):
        return self

    def __add__(self, o):
        return pieces([self, o])

    def __radd__(self, o):
        return pieces([o, self])

    vc_text = staticmethod(lambda ps: pieces(ps))

    def __vc_ite__(self, c, o):
        if isinstance(o, Rendered):
            o = as_name(o)
        return JText(z3.If(c, self.sep, o.sep), z3.If(c, self.j, o.j), z3.If(c, self.cnt, o.cnt))

    def vc_elem_maker(self):
        def mk():
            c = core.CTX
            s, f, g = c.fresh_fun("separator", INT, VAL), c.fresh_fun("level", INT, INT), c.fresh_fun("number", INT, INT)
            return lambda k: JText(s(lit(k)), f(lit(k)), g(lit(k)))

        return mk


def as_name(r):
    """A field alone as a name: only the first of a level can be seen as the join of the fields."""
    e = z3.simplify(r.e)
    if z3.is_app(e) and e.decl().eq(ST["STR"]) and core.CTX.check_quiet(e.arg(1) == 0):
        return JText(ST["sep"].e, e.arg(0), z3.IntVal(1))
    raise Unsupported("a name which is not that of a level")


class Whole:
    def __init__(self, sep, names):
        self.sep, self.names = sep, names


def s_specs(L):
    if "ns" not in ST or L.it is None or not hasattr(L.it, "vc_len"):
        return None
    x = L.it.vc_item(Num(z3.IntVal(0)))
    if not isinstance(x, Seq):
        return None

    def inv(S):
        d = {}
        w, k = ST["w"], S.k.e
        for v, x in S._l.items():
            s = getattr(x, "s", x) if not isinstance(x, Seq) else x
            if isinstance(x, list) and s is None:
                s = Seq(Num(z3.IntVal(len(x))), lambda q, x=x: list.__getitem__(x, z3.simplify(lit(q)).as_long())) if len(x) else Seq(Num(z3.IntVal(0)), lambda q: JText(ST["sep"].e, z3.IntVal(-1), z3.IntVal(0)))
            if isinstance(s, Seq) and isinstance(s.get(Num(z3.IntVal(0))), JText):
                t = s.get(Num(w))
                d[f"one name per level ({v})"] = lit(s.vc_len()) == k
                d[f"names of levels ({v})"] = z3.Implies(w < k, z3.And(t.j == w, t.sep == ST["sep"].e, t.cnt == ST["NF"](w) - 1))
                t = s.get(Num(k - 1))
                d[f"last name ({v})"] = z3.Implies(k >= 1, z3.And(t.j == k - 1, t.sep == ST["sep"].e, t.cnt == ST["NF"](k - 1) - 1))
        return d

    return LoopSpec(inv)


def to_str(as_path):
    nm = f"_dataclass_instance_to_str[{'path' if as_path else 'text'}]"

    def run(T):
        c = core.CTX
        ns = setup(T, valid=True)
        f = T.fn(XM, "_dataclass_instance_to_str")
        ns["_dataclass_instance_to_lists"] = levels_contract
        w = c.fresh("w", INT)
        c.assume(z3.And(0 <= w, w < ST["D"].e))
        ST.update(w=w)
        r = T.call(f, Level(0), as_path=True) if as_path else T.call(f, Level(0))
        if isinstance(r, (JText, Rendered)):
            r = Whole(SEP if as_path else ST["sep"], Seq(Num(z3.IntVal(1)), lambda k, r=r: r))
        if not isinstance(r, Whole):
            raise Unsupported("another kind of text")
        c.prove(f"{nm}/post: separator of levels", z3.BoolVal(r.sep == "/" if isinstance(r.sep, str) else False) if as_path else z3.BoolVal(r.sep is ST["sep"]), cut=False)
        n = lit(r.names.vc_len())
        c.prove(f"{nm}/post: as many names as levels", n == ST["D"].e, cut=False)
        t = r.names.vc_item(Num(w))
        if isinstance(t, Rendered):
            t = as_name(t)
        c.prove(f"{nm}/post: the name of each level is made of all its values, in order, with the separator between them",
                z3.And(t.j == w, t.sep == ST["sep"].e, t.cnt == z3.If(w + 1 < ST["D"].e, ST["NF"](w) - 1, ST["NF"](w))), cut=False)

    return Target(nm, [f"{XM}._dataclass_instance_to_str"], run, s_specs, tables=TAB,
                  assumptions=["str.join: the texts in order with the separator between them", "_dataclass_instance_to_lists: contract above, composed by induction over the levels"])


# ---- _dataclass_fields_types_to_lists, _dataclass_instance_from_str --------------------------------
class TypeObj:
    """Declared type of the i-th field of level j: a plain type, or the class of the next level."""

    py = ("type",)

    def __init__(self, j, i):
        self.j, self.i = lit(j), lit(i)

    def __call__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], SVal) and not k:
            return ValueV(ST["CONV"](self.j, self.i, a[0].e))
        raise Unsupported("a type called with something else than a text")

    def vc_starcall(self, args, **k):
        return built(z3.simplify(self.j + 1), args)

    def __vc_ite__(self, c, o):
        if not isinstance(o, TypeObj):
            raise Unsupported("merge of a type and another value")
        return TypeObj(z3.If(c, self.j, o.j), z3.If(c, self.i, o.i))

    def vc_elem_maker(self):
        def mk():
            f, g = core.CTX.fresh_fun("level", INT, INT), core.CTX.fresh_fun("field", INT, INT)
            return lambda k: TypeObj(f(lit(k)), g(lit(k)))

        return mk

    def vc_fresh_like(self, name):
        return TypeObj(core.CTX.fresh(name + " level", INT), core.CTX.fresh(name, INT))


class PieceV(SVal):
    """Piece of the text between separators."""

    __slots__ = ()
    py = ("str",)
    __hash__ = SVal.__hash__


class ValueV(SVal):
    """Value of a field."""

    __slots__ = ()
    __hash__ = SVal.__hash__


class FieldType(FieldDesc):
    """dataclasses.Field of the class of the level j."""

    type = property(lambda s: TypeObj(s.j, s.i))


class ClassObj:
    """Class of the key."""

    py = ("type",)
    fields_sep = property(lambda s: ST["sep"])
    _fields_sep = fields_sep

    def vc_starcall(self, args, **k):
        return built(z3.IntVal(0), args)


class KeyV(Name):
    """Key built from the values of its fields."""

    __slots__ = ()
    to_path = property(lambda s: KStr(ST["PATHF"](s.e), None))

    def vc_str(self):
        return KStr(ST["STRF"](s_e(self)), None)

    __hash__ = Name.__hash__


def s_e(x):
    return x.e


def built(j, args):
    """Construction: a wrong number of values is a TypeError; the right values give the right instance."""
    c = core.CTX
    n = lit(args.vc_len())
    if not c.branch(n == ST["NF"](j)):
        raise TypeError("__init__() takes another number of arguments")
    if ST.get("any") and c.branch(c.fresh("refused", BOOL)):
        raise (ValueError if c.branch(c.fresh("value", BOOL)) else TypeError)("refused")
    r, q = c.fresh("instance", VAL), c.fresh("q", INT)
    x = args.vc_item(Num(q))
    if isinstance(x, SVal):
        c.assume(z3.Or(z3.And(0 <= q, q < n, x.e != ST["FV"](j, q)), r == ST["INST"](j)))
    return KeyV(r)


def t_is_dc(x):
    if isinstance(x, ClassObj):
        return True
    if isinstance(x, TypeObj):
        return SBool(ST["DC"](x.j, x.i))
    raise Unsupported("is_dataclass of something else")


def t_fields(x):
    """Fields of the class of the key, or of the class which is the type of a field."""
    if isinstance(x, ClassObj):
        j = z3.IntVal(0)
    elif isinstance(x, TypeObj):
        j = z3.simplify(x.j + 1)
    else:
        raise Unsupported("fields of something else")
    return Seq(Num(ST["NF"](j)), lambda k: FieldType(j, lit(k)))


def t_specs(L):
    if "w" not in ST:
        return None
    if L.it is not None:
        return None

    def levels():
        g = core.CTX.fresh_fun("level", INT, INT)
        return lambda k: types_of(g(lit(k)))

    def right(x, j):
        v, y = ST["v"], x.vc_item(Num(ST["v"]))
        return z3.And(lit(x.vc_len()) == ST["NF"](j), z3.Implies(z3.And(0 <= v, v < ST["NF"](j)), z3.And(y.j == j, y.i == v)),
                      x.vc_item(Num(ST["NF"](j) - 1)).j == j, x.vc_item(Num(ST["NF"](j) - 1)).i == ST["NF"](j) - 1)

    def inv(S):
        d = {}
        k = S.k.e
        for v, x in S._l.items():
            if isinstance(x, list) and getattr(x, "s", None) is None and len(x):
                x = models.join_seqs([x])
            x = x.s if getattr(x, "s", None) is not None else x
            if isinstance(x, Seq) and isinstance(x.get(Num(z3.IntVal(0))), Seq):
                d[f"levels seen ({v})"] = z3.And(lit(x.n) == k + 1, k + 1 <= ST["D"].e)
                d[f"types of levels ({v})"] = z3.Implies(ST["w"] <= k, right(x.get(Num(ST["w"])), ST["w"]))
                d[f"last types ({v})"] = right(x.get(Num(k)), k)
        return d

    return LoopSpec(inv, elem=levels)


def types(T):
    c = core.CTX
    nm = "_dataclass_fields_types_to_lists"
    ns = setup(T)
    f = T.fn(XM, nm)
    ns["fields"], ns["is_dataclass"] = t_fields, t_is_dc
    w, v = c.fresh("w", INT), c.fresh("v", INT)
    c.assume(z3.And(0 <= w, w < ST["D"].e, 0 <= v, v < ST["NF"](w)))
    ST.update(w=w, v=v)
    r = T.call(f, ClassObj())
    if isinstance(r, list) and getattr(r, "s", None) is None and len(r):
        r = models.join_seqs([r])
    if not hasattr(r, "vc_len"):
        raise Unsupported("result of another kind")
    c.prove(f"{nm}/post: one list per level", lit(r.vc_len()) == ST["D"].e, cut=False)
    x = r.vc_item(Num(w))
    c.prove(f"{nm}/post: number of types of each level", lit(x.vc_len()) == ST["NF"](w), cut=False)
    y = x.vc_item(Num(v))
    c.prove(f"{nm}/post: types of the fields of each level, in order", z3.And(y.j == w, y.i == v), cut=False)


class Types(Seq):
    """Types of the fields, one list per level; only its end is ever removed."""

    def __init__(self, n):
        Seq.__init__(self, n, types_of)

    def havoc(self):
        self.n = new_int("levels left", 0)

    def pop(self, i=-1):
        if i not in (-1,):
            raise Unsupported("pop at another position")
        return Seq.pop(self, i)


def types_of(j):
    j = lit(j)
    return Seq(Num(ST["NF"](j)), lambda i: TypeObj(j, lit(i)))


class KStr(Name):
    """The text to parse."""

    __slots__ = ("with_sep",)

    def __init__(self, e, sep):
        Name.__init__(self, e)
        self.with_sep = sep

    def replace(self, a, b):
        if self.with_sep is None and a == "/" and b is ST["sep"]:
            return KStr(self.e, True)
        raise Unsupported("another replacement")

    def split(self, s):
        if s is not ST["sep"]:
            raise Unsupported("another split")
        return split(bool(self.with_sep))

    __hash__ = Name.__hash__


class Esc(Piece, Name):
    """Separator with its special characters escaped."""

    __slots__ = ()
    __hash__ = Name.__hash__


def re_escape(s):
    if s is not ST["sep"]:
        raise Unsupported("escape of something else")
    return Esc(core.CTX.fresh("escaped", VAL))


def re_split(pat, s, *a, **k):
    if a or k or not isinstance(s, KStr) or s.e is not ST["string"].e:
        raise Unsupported("another split")
    if not isinstance(pat, Text):
        raise Unsupported("another pattern")
    p = pat.parts
    if len(p) == 2 and (p[0] == "/|" and isinstance(p[1], Esc) or p[1] == "|/" and isinstance(p[0], Esc)):
        return split(True)
    return split(False)


def split(right):
    """Pieces of the text between the separators; if not all separators or others are used, any pieces."""
    c = core.CTX
    if right and not ST.get("any"):
        LEV, POS, OFF = ST["LEV"], ST["POS"], ST["OFF"]
        return Seq(Num(OFF(ST["D"].e)), lambda q: PieceV(ST["STR"](LEV(lit(q)), POS(lit(q)))))
    n, f = new_int("pieces", 1), c.fresh_fun("piece", INT, VAL)
    return Seq(n, lambda q: PieceV(f(lit(q))))


def class_setup(T, valid):
    c = core.CTX
    ns = setup(T, valid=valid)
    D, NF, STR = ST["D"].e, ST["NF"], ST["STR"]
    CONV, FV, INST = c.fresh_fun("CONV", INT, INT, VAL, VAL), c.fresh_fun("FV", INT, INT, VAL), c.fresh_fun("INST", INT, VAL)
    LEV, POS, OFF = c.fresh_fun("LEV", INT, INT), c.fresh_fun("POS", INT, INT), c.fresh_fun("OFF", INT, INT)
    PATHF, STRF = c.fresh_fun("PATHF", VAL, VAL), c.fresh_fun("STRF", VAL, VAL)
    j, i, q = z3.Ints("j!cls i!cls q!cls")
    # values of the key, and their texts
    leaf = z3.Not(z3.And(i == NF(j) - 1, j + 1 < D))
    c.assume(z3.ForAll([j, i], FV(j, i) == z3.If(leaf, CONV(j, i, STR(j, i)), INST(j + 1)), patterns=[FV(j, i)]))
    # position, among the values of the key, of those of each level
    cnt = lambda x: z3.If(x + 1 < D, NF(x) - 1, NF(x))  # noqa: E731
    c.assume(OFF(z3.IntVal(0)) == 0)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(0 < j, j <= D), OFF(j) == OFF(j - 1) + cnt(j - 1)), patterns=[OFF(j)]))
    c.assume(z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i, i <= D), OFF(j) + cnt(j) <= OFF(i)), patterns=[z3.MultiPattern(OFF(j), OFF(i))]))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < OFF(D)), z3.And(0 <= LEV(q), LEV(q) < D, OFF(LEV(q)) <= q, q < OFF(LEV(q)) + cnt(LEV(q)), POS(q) == q - OFF(LEV(q)))), patterns=[LEV(q)]))
    ST.update(CONV=CONV, FV=FV, INST=INST, LEV=LEV, POS=POS, OFF=OFF, PATHF=PATHF, STRF=STRF, cnt=cnt)
    ns["re"] = NS("re", dict(split=re_split, escape=re_escape))
    return ns


def f_specs(L):
    if "CONV" not in ST or L.it is not None:
        return None

    def inv(S):
        d = {}
        if ST.get("any"):
            return d
        D, NF, OFF, cnt = ST["D"].e, ST["NF"], ST["OFF"], ST["cnt"]
        ts = [x for x in S._l.values() if isinstance(x, Types)]
        if len(ts) != 1:
            return d
        r = lit(ts[0].n)
        d["levels left"] = z3.And(0 <= r, r <= D - 1)
        q = z3.Int("q!inv")
        for v, x in S._l.items():
            if isinstance(x, Num) and x.e.sort() == INT:
                d[f"number of values of the last level seen ({v})"] = x.e == cnt(r)
            x = x.s if getattr(x, "s", None) is not None else x
            if isinstance(x, Seq) and not isinstance(x, Types) and isinstance(x.get(Num(z3.IntVal(0))), SVal):
                e = lambda q, x=x: x.get(Num(q)).e  # noqa: E731
                n = lit(x.vc_len())
                if not isinstance(x.get(Num(z3.IntVal(0))), PieceV):
                    d[f"values of the last level seen: number ({v})"] = n == NF(r)
                    d[f"values of the last level seen ({v})"] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), e(q) == ST["FV"](r, q)))
                else:
                    d[f"pieces left: number ({v})"] = n == OFF(r) + cnt(r)
                    d[f"pieces left ({v})"] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), e(q) == ST["STR"](ST["LEV"](q), ST["POS"](q))))
        return {"?" + k: f for k, f in d.items()}

    return LoopSpec(inv)


def from_str(kind):
    nm = f"_dataclass_instance_from_str[{kind}]"

    def run(T):
        c = core.CTX
        ns = class_setup(T, kind != "any text")
        f = T.fn(XM, "_dataclass_instance_from_str")
        ns["_dataclass_fields_types_to_lists"] = lambda cls: Types(ST["D"])
        if kind == "any text":
            ST["any"] = True
        st = KStr(c.fresh("string", VAL), None)
        ST["string"] = st
        form = {"text of a key": ST["STRF"], "path of a key": ST["PATHF"]}.get(kind)
        if form is not None:
            c.assume(st.e == form(ST["INST"](z3.IntVal(0))))
        r = T.call(f, ClassObj(), st)
        if form is not None:
            if r is not None and not isinstance(r, KeyV):
                raise Unsupported("result of another kind")
            c.prove(f"{nm}/post: the {kind} turns back into this key", False if r is None else r.e == ST["INST"](z3.IntVal(0)), cut=False)
        elif r is not None:
            if not isinstance(r, KeyV):
                raise Unsupported("result of another kind")
            c.prove(f"{nm}/post: a text which is turned into a key is the text or the path of this key",
                    z3.Or(st.e == ST["STRF"](r.e), st.e == ST["PATHF"](r.e)), cut=False)
        else:
            c.prove(f"{nm}/post: otherwise there is no key", True, cut=False)

    return Target(nm, [f"{XM}._dataclass_instance_from_str"], run, f_specs, tables=TAB, assumptions=[
        "re.split at all separators of the text of a valid key gives the texts of its values (no value contains a separator nor, followed by one, completes one earlier)",
        "a declared type gives the value back from its text (int(str(n)) == n, str(s) == s)",
        "a wrong number of values raises TypeError in the constructor of a dataclass; otherwise the values given are those of the fields"])


# ---- toplevel: what the decorated class is equipped with ---------------------------------------------
def wiring(T):
    c = core.CTX
    nm = "toplevel"
    setup(T)
    f = T.fn(XM, "toplevel")
    ns = T.rt.load(XM).ns
    log, opts = [], {}

    def dc(cls, **k):
        opts.update(k)

        def init(self, *a, **k):
            log.append(("fields", self, a, k))

        cls.__init__ = init
        return cls

    to_str = lambda self, as_path=False: ("form", self, as_path)  # noqa: E731
    from_str = lambda cls, s: ("key", cls, s)  # noqa: E731

    def valid(self):
        log.append(("validated", self))

    class FnModel:
        """Functions bind to the instance, as functions do."""

    ns["dataclass"], ns["_validate_toplevel_instance"], ns["_get_depth"] = dc, valid, lambda cls: ("depth", cls)
    ns["_dataclass_instance_to_str"], ns["_dataclass_instance_from_str"] = to_str, from_str

    class Schema:
        pass

    sep = ST["sep"]
    given = T.call(f, fields_sep=sep)
    cls = T.call(given, Schema)
    c.prove(f"{nm}/post: instances are compared and ordered by their fields, and do not change",
            opts.get("order") is True and opts.get("frozen") is True and opts.get("eq", True) is True and not opts.get("unsafe_hash", False), cut=False)
    a, b = c.fresh("a", VAL), c.fresh("b", VAL)
    x = T.call(cls, SVal(a), b=SVal(b))
    ok = len(log) == 2 and log[0][:2] == ("fields", x) and len(log[0][2]) == 1 and set(log[0][3]) == {"b"}
    c.prove(f"{nm}/post: fields get the values given", z3.And(log[0][2][0].e == a, log[0][3]["b"].e == b) if ok else z3.BoolVal(False), cut=False)
    c.prove(f"{nm}/post: then the instance is validated", z3.BoolVal(ok and log[1] == ("validated", x)), cut=False)
    log.clear()
    y = T.call(cls, SVal(a), check=False)
    c.prove(f"{nm}/post: fields get the values given, when there is no validation", z3.BoolVal(bool(log) and log[0][:2] == ("fields", y) and len(log[0][2]) == 1 and not log[0][3]), cut=False)
    c.prove(f"{nm}/post: separator", z3.BoolVal(cls.fields_sep is sep), cut=False)
    c.prove(f"{nm}/post: depth", z3.BoolVal(type(cls.depth) is tuple and cls.depth == ("depth", cls)), cut=False)
    c.prove(f"{nm}/post: to_path is the form with a folder per level", z3.BoolVal(x.to_path == ("form", x, True)), cut=False)
    c.prove(f"{nm}/post: str is the form without folders", z3.BoolVal(cls.__dict__.get("__str__", cls.__str__)(x) == ("form", x, False)), cut=False)
    s = Name(c.fresh("s", VAL))
    for m in ("from_path", "from_str"):
        r = T.call(getattr(cls, m), s)
        c.prove(f"{nm}/post: {m} parses the text", z3.BoolVal(r[0] == "key" and r[1] is cls and r[2] is s), cut=False)


WIRING = Target("toplevel", [f"{XM}.toplevel", f"{XM}.TopLevel.fields_sep", f"{XM}.TopLevel.depth"], wiring,
                assumptions=["dataclass(order=True, frozen=True): equality, order and hash by fields (library)"])
TAB = dict(os=dict(path=NS("os.path", dict(sep=SEP))))
LISTS = Target("_dataclass_instance_to_lists", [f"{XM}._dataclass_instance_to_lists", f"{XM}._dataclass_instance_to_dict", f"{XM}._is_dataclass_instance"], lists, tables=TAB,
               assumptions=["dataclasses.fields lists the fields in order, with different names"])
VALID = Target("_validate_toplevel_instance", [f"{XM}._validate_toplevel_instance"], validate, v_specs, tables=TAB,
               assumptions=["_dataclass_instance_to_lists: contract above, composed by induction over the levels"])
STRS = [to_str(True), to_str(False)]
TYPES = Target("_dataclass_fields_types_to_lists", [f"{XM}._dataclass_fields_types_to_lists"], types, t_specs, tables=TAB,
               assumptions=["dataclasses.fields lists the fields in order", "is_dataclass is true of the types of the fields which are levels, and of no other"])
FROMS = [from_str(k) for k in ("text of a key", "path of a key", "any text")]
TARGETS = {"C02": [LISTS, VALID, STRS[0]], "C01": [WIRING, LISTS] + STRS + [TYPES] + FROMS}
