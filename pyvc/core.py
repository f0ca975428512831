"""Verification-condition engine: path exploration of real functions over symbolic values.

The real source of /repo is loaded by loader.py (loops and comprehensions rewritten to calls of this
module, nothing else) and executed with symbolic values. Branches on symbolic conditions fork the
path (re-execution with a decision prefix); loops over symbolic iterables are cut by an invariant
(entry / arbitrary step / exit); obligations are discharged by z3, then cvc5.
Integers and floats are mathematical integers and reals.
"""
import time

import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
VAL = z3.DeclareSort("Val")  # opaque Python values


import os

DEBUG = int(os.environ.get('PYVC_DEBUG', '0'))


class Unsupported(Exception):
    """A construct outside the modelled subset was reached: the engine gives no verdict."""


class PathEnd(BaseException):
    """End of a path which is explored completely (loop cut, infeasible)."""


class Restart(BaseException):
    """Exploration has to restart (frame or invariant set of a loop changed)."""


class Obligation:
    def __init__(self, name, status, backend, secs, detail=None, case=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.case = name, status, backend, secs, detail, case

    def as_dict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend, "secs": round(self.secs, 3)}


class Prover:
    """Discharge of one goal under assumptions; results cached by expression identity."""

    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.cache = {}
        self.keep = []  # keeps asts alive so that ids stay unique
        self.secs = 0.0
        self.queries = 0

    def prove(self, assumptions, goal):
        key = (tuple(sorted({a.get_id() for a in assumptions})), goal.get_id())
        if key in self.cache:
            return self.cache[key]
        self.keep.append((list(assumptions), goal))
        t = time.time()
        lin = linear_abstraction(assumptions, goal)
        if lin is not None:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(*lin)
            if s.check() == z3.unsat:
                self.queries += 1
                dt = time.time() - t
                self.secs += dt
                self.cache[key] = ("discharged", "z3 (products abstracted, laws of products)", dt, None)
                return self.cache[key]
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for a in assumptions:
            s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        self.queries += 1
        model = None
        backend = "z3"
        if r == z3.sat:
            model = s.model()
            st = "failed"
        elif r == z3.unsat:
            st = "discharged"
        else:
            st = "unknown"
            r2 = self.cvc5(s)
            if r2 == "unsat":
                st, backend = "discharged", "cvc5"
            else:
                # a counterexample of small sizes, if there is one (a model of the same formulas, and of bounds)
                ints = int_consts(list(assumptions) + [goal])
                for hi in (2, 3):
                    model = finite_model(list(assumptions) + [z3.Not(goal)], hi, self.timeout // 2)
                    if model is not None:
                        st = "failed"
                        break
                s.set("timeout", self.timeout // 2)
                for hi in (2, 4) if st == "unknown" else ():
                    s.push()
                    s.add(*[z3.And(x >= -1, x <= hi) for x in ints])
                    if s.check() == z3.sat:
                        model, st = s.model(), "failed"
                        break
                    s.pop()
        dt = time.time() - t
        self.secs += dt
        res = (st, backend, dt, model)
        self.cache[key] = res
        return res

    def cvc5(self, s):
        try:
            import cvc5

            txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
            solver = cvc5.Solver()
            solver.setOption("tlimit-per", str(self.timeout))
            solver.setOption("full-saturate-quant", "true")
            parser = cvc5.InputParser(solver)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
            sm = parser.getSymbolManager()
            out = ""
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(solver, sm) or out
            return out.strip()
        except Exception:
            return "unknown"


class Found(BaseException):
    """A failure is found: no need to look further."""


class TooBig(Exception):
    pass


def finite_model(fs, hi, timeout):
    """Model in which all integers that matter are small: quantifiers over integers replaced by their instances
    over the range lo..top, every argument of a function within this range. None if not found."""
    lo, top = -2, hi + 2
    if CTX is not None and CTX.instances:
        # some uninterpreted functions are given a definition which meets what is assumed of them
        fs = [z3.substitute_funs(f, *CTX.instances) for f in fs]
    g = z3.Goal()
    g.add(*fs)
    try:
        sub = z3.Then(z3.With("simplify", elim_and=False), "nnf")(g)
    except z3.Z3Exception:
        return None
    t0 = time.time()
    count = [0]
    done = {}

    def expand(e):
        k = e.get_id()
        if k in done:
            return done[k][1]
        if z3.is_quantifier(e):
            r = quantified(e)
        elif has_quantifier(e) and z3.is_app(e):
            ch = [expand(c) for c in e.children()]
            r = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) else (z3.And if z3.is_and(e) else z3.Or)(*ch)
        else:
            r = e
        done[k] = (e, r)
        return r

    def quantified(e):
        if not e.is_forall():
            raise TooBig
        n = e.num_vars()
        sorts = [e.var_sort(i) for i in range(n)]
        if any(x != INT for x in sorts):
            if any(x == INT for x in sorts):
                keep = [z3.FreshConst(x, "q") for x in sorts]
                ints = [i for i in range(n) if sorts[i] == INT]
                body = z3.substitute_vars(e.body(), *reversed(keep))
                parts = []
                for vals in combos(len(ints)):
                    parts.append(z3.substitute(body, *[(keep[i], v) for i, v in zip(ints, vals)]))
                return z3.ForAll([k for k in keep if k.sort() != INT], z3.And(*parts))
            return e
        body = e.body()
        return z3.And(*[expand(z3.substitute_vars(body, *reversed(vals))) for vals in combos(n)])

    def combos(n):
        count[0] += (top - lo + 1) ** n
        if n > 3 or count[0] > 20000 or time.time() - t0 > timeout / 1000:
            raise TooBig
        import itertools

        return [list(v) for v in itertools.product([z3.IntVal(x) for x in range(lo, top + 1)], repeat=n)]

    s = z3.Solver()
    s.set("timeout", timeout)
    seen, todo = set(), []
    try:
        for f in sub[0]:
            x = z3.simplify(expand(f))
            s.add(x)
            todo.append(x)
    except (TooBig, z3.Z3Exception):
        return None
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.sort() == INT:
                s.add(e >= lo, e <= hi if e.num_args() == 0 else e <= top)
            for a in e.children():
                if a.sort() == INT and not z3.is_int_value(a):
                    s.add(a >= lo, a <= top)
        todo += e.children()
    try:
        return s.model() if s.check() == z3.sat else None
    except z3.Z3Exception:
        return None


def int_consts(fs):
    out, seen, todo = {}, set(), list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == INT:
            out[e.get_id()] = e
        todo += [e.body()] if z3.is_quantifier(e) else e.children()
    return list(out.values())


_HQ = {}


def has_quantifier(e):
    k = e.get_id()
    if k in _HQ and _HQ[k][0].eq(e):
        return _HQ[k][1]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quantifier(c) for c in e.children())
    _HQ[k] = (e, r)
    return r


def linear_abstraction(assumptions, goal):
    """Assumptions and negated goal with integer products replaced by constants, plus laws of products between
    them; None without products. Unsatisfiability of it implies that of the original (quantified facts are left out)."""
    fs = [z3.simplify(a, som=True) for a in assumptions if not has_quantifier(a)]
    if has_quantifier(goal):
        return None
    fs.append(z3.simplify(z3.Not(goal), som=True))
    prods = {}
    memo = {}

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        ch = [walk(c) for c in e.children()]
        if z3.is_mul(e) and e.sort() == INT:
            co = [c for c in ch if z3.is_int_value(c)]
            fa = [c for c in ch if not z3.is_int_value(c)]
            if len(fa) == 2:
                key = tuple(sorted(f.get_id() for f in fa))
                if key not in prods:
                    prods[key] = (z3.FreshConst(INT, "prod"), fa[0], fa[1])
                r = prods[key][0]
                for c in co:
                    r = c * r
            else:
                r = e.decl()(*ch)
        elif ch:
            r = e.decl()(*ch) if z3.is_app(e) else e
        else:
            r = e
        memo[k] = (e, r)
        return r

    out = [walk(f) for f in fs]
    if not prods:
        return None
    ps = list(prods.values())
    if len(ps) > 40:
        return None
    by = {}
    for p, x, y in ps:
        by.setdefault(x.get_id(), (x, []))[1].append((y, p))
        if not x.eq(y):
            by.setdefault(y.get_id(), (y, []))[1].append((x, p))
    for b, us in by.values():
        for u, p in us:
            out.append(z3.Implies(b > 0, z3.And(z3.Implies(u >= 1, p >= b), z3.Implies(u <= 0, p <= 0), z3.Implies(u == 0, p == 0),
                                                z3.Implies(u <= -1, p <= -b), z3.Implies(u == 1, p == b), z3.Implies(u >= 2, p >= 2 * b))))
            out.append(z3.Implies(b == 0, p == 0))
        for i in range(len(us)):
            for j in range(len(us)):
                if i != j:
                    (u, p), (v, q) = us[i], us[j]
                    out.append(z3.Implies(b > 0, z3.And(z3.Implies(u < v, p + b <= q), z3.Implies(u == v, p == q), z3.Implies(u + 1 == v, p + b == q),
                                                        z3.Implies(u + 1 < v, p + 2 * b <= q))))
    return out


class Ctx:
    def __init__(self, prover=None, deadline=None):
        self.prover = prover or Prover()
        self.obligations = []
        self.deadline = deadline
        self.havoc_sets = {}  # loop key -> set of object birth ids
        self.kinds = {}  # (loop key, var) -> maker
        self.dropped = {}  # loop key -> {name: status}
        self.dropped_unknown = False
        self.peeled = set()
        self.houdini = False
        self.unroll = 0
        self.tally = {}
        self.instances = []  # definitions of functions, only used to look for counterexamples
        self.loop_seen = set()
        self.list_kinds = {}
        self.havocing = None
        self.cover = {}  # (function, loop, mode) or 'end' -> reached by a path whose assumptions are not contradictory
        self.feas_timeout = 400

    # ---- one run -------------------------------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.assumptions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.counter = 0
        self.births = 0
        self.active_loops = []
        self.modes = []
        self.pending = []
        self.pure_depth = 0
        self.heap = []
        self.quots = {}
        self.wits = []  # positions at which quantified conditions are instantiated too
        self.ratios = {}
        self.lits = set()

    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", sort)

    def fresh_fun(self, name, *sorts):
        self.counter += 1
        return z3.Function(f"{name}!{self.counter}", *sorts)

    def assume(self, e):
        e = zbool(e)
        if z3.is_true(e):
            return
        self.assumptions.append(e)
        if not has_quantifier(e):
            self.solver.add(e)  # path feasibility: quantified facts left out (more paths, never fewer)

    def feasible(self, e=None):
        if e is None:
            return self.solver.check() != z3.unsat
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def choose(self, n, conds=None):
        """Fork: returns the index of the alternative taken on this run."""
        pos = len(self.trace)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the target exceeded")
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append(c)
        else:
            alts = [i for i in range(n) if conds is None or self.feasible(conds[i])]
            if not alts:
                raise PathEnd()
            c = alts[0]
            for i in reversed(alts[1:]):
                self.pending.append(self.trace + [i])
            self.trace.append(c)
        if conds is not None:
            self.assume(conds[c])
        return c

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.choose(2, [e, z3.Not(e)]) == 0

    def prove(self, name, goal, case=None, cut=True):
        goal = zbool(goal)
        if self.pure_depth:
            raise Unsupported("obligation inside a pure evaluation")
        if not self.replaying():
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.obligations.append(Obligation(name, "discharged", "simplify", 0.0))
            elif "/loop" not in name and (self.tally.get((name, "failed"), 0) >= 1 or self.tally.get((name, "unknown"), 0) >= 4):
                # settled already: this obligation is not discharged on another path
                self.obligations.append(Obligation(name, "unknown", "not tried again", 0.0))
            else:
                st, be, dt, model = self.prover.prove(self.assumptions, goal)
                detail = None
                kase = None
                if st == "failed":
                    if self.dropped_unknown:
                        st = "unknown"
                    else:
                        detail = {"goal": str(g)[:2000], "countermodel": str(model)[:4000],
                                  "dropped_invariants": [f"{k[0]}#{k[1]}:{n}" for k, d in self.dropped.items() for n in d]}
                        if case is not None:
                            try:
                                kase = case(model)
                            except Exception:
                                kase = None
                self.obligations.append(Obligation(name, st, be, dt, detail, kase))
                self.tally[name, st] = self.tally.get((name, st), 0) + 1
                if st == "failed" and (self.unroll or "/loop" not in name):
                    raise Found(name)
        if cut:
            self.assume(goal)

    def check_quiet(self, goal):
        st, _, dt, _ = self.prover.prove(self.assumptions, zbool(goal))
        return st == "discharged"

    # ---- exploration ---------------------------------------------------------------------
    def explore(self, fn, max_paths=4000):
        """Runs fn on every path. -> number of paths that ran to the end."""
        global CTX
        for _attempt in range(200):
            saved = list(self.obligations)
            stack = [[]]
            done = paths = 0
            try:
                while stack:
                    self.reset(stack.pop())
                    set_ctx(self)
                    paths += 1
                    if paths > max_paths:
                        raise Unsupported("too many paths")
                    try:
                        fn()
                        done += 1
                        self.covered("end")
                    except PathEnd:
                        pass
                    stack.extend(self.pending)
                self.paths = paths
                return done
            except Restart:
                self.obligations = saved
        raise Unsupported("loop frames do not stabilise")

    def covered(self, *more):
        """Records the loop modes of the current path as reached, unless its assumptions are contradictory."""
        keys = set(self.modes) | set(more)
        if all(self.cover.get(k) for k in keys):
            return
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*self.assumptions)
        contradictory = s.check() == z3.unsat
        for k in keys:
            self.cover[k] = self.cover.get(k, False) or not contradictory

    def pure(self, fn):
        """Evaluates fn on all its local paths -> [(condition, value)]; no obligations inside."""
        st = (self.prefix, self.trace, self.pending, self.assumptions, self.counter)
        out = []
        stack = [[]]
        self.pure_depth += 1
        try:
            while stack:
                self.prefix, self.trace, self.pending = stack.pop(), [], []
                self.assumptions = list(st[3])
                n0 = len(self.assumptions)
                self.solver.push()
                try:
                    v = fn()
                    cond = z3.And(*self.assumptions[n0:]) if len(self.assumptions) > n0 else z3.BoolVal(True)
                    out.append((cond, v))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                stack.extend(self.pending)
                if len(out) > 200:
                    raise Unsupported("too many local paths")
        finally:
            self.pure_depth -= 1
            self.prefix, self.trace, self.pending, self.assumptions = st[0], st[1], st[2], st[3]
        return out

    def born(self):
        self.births += 1
        return self.births

    def note_write(self, obj):
        for L in self.active_loops:
            if L.mode in ("step", "first") and obj.birth <= L.birth and obj.birth not in L.havoced:
                hs = self.havoc_sets.setdefault(L.hkey, set())
                if obj.birth in hs:
                    continue
                hs.add(obj.birth)
                raise Restart()


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---- symbolic scalars -------------------------------------------------------------------------


def lit(x):
    """Python value or wrapper -> z3 expression."""
    if isinstance(x, SV):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else bad(f"float {x}")
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def bad(msg):
    raise Unsupported(msg)


def wrap(e):
    if not isinstance(e, z3.ExprRef):
        return e
    s = e.sort()
    if s == BOOL:
        return SBool(e)
    if s == INT or s == REAL:
        return Num(e)
    return SVal(e)


def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Num):
        return x.e != 0
    if isinstance(x, SVal) and SVal.truth is not None and x.e.sort() == VAL:
        return SVal.truth(x.e)
    raise Unsupported(f"not a condition: {type(x).__name__}")


def _b2i(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if e.sort() == BOOL else e


class SV:
    """Wrapper of a z3 expression with Python operators."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported("symbolic value used as a hash key")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _num(x):
    if isinstance(x, Num):
        return x.e
    if isinstance(x, SBool):
        return _b2i(x.e)
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, (int, float)):
        return lit(x)
    if isinstance(x, z3.ArithRef):
        return x
    return None


def _arith(op):
    def f(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        return Num(op(a, b))

    return f


def _rarith(op):
    def f(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            return NotImplemented
        return Num(op(b, a))

    return f


def _floordiv(a, b):
    if a.sort() == REAL or b.sort() == REAL:
        return z3.ToReal(z3.ToInt(a / b))
    if CTX.branch(b > 0):
        return quotient(a, b)[0]
    if CTX.branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    return quotient(-a, -b)[0]


def quotient(a, b):
    """(a // b, a % b) for b > 0, by the law of Euclidean division (eases the non-linear part for the solvers)."""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(b):
        return a / b, a % b
    key = (a.get_id(), b.get_id())
    if key not in CTX.quots:
        q, r = CTX.fresh("quo", INT), CTX.fresh("rem", INT)
        CTX.assume(z3.And(a == q * b + r, r >= 0, r < b))
        CTX.quots[key] = (q, r, a, b)
    return CTX.quots[key][:2]


def _mod(a, b):
    if a.sort() == REAL or b.sort() == REAL:
        return a - b * z3.ToReal(z3.ToInt(a / b))
    return a - b * _floordiv(a, b)


def _truediv(a, b):
    if CTX.branch(b == 0):
        raise ZeroDivisionError("division by zero")
    ints = (a, b) if a.sort() == INT and b.sort() == INT else None
    a = z3.ToReal(a) if a.sort() == INT else a
    b = z3.ToReal(b) if b.sort() == INT else b
    r = a / b
    if ints:
        CTX.ratios[r.get_id()] = (*ints, r)
    return r


def _cmp(op):
    def f(self, other):
        a, b = _num(self), _num(other)
        if b is None:
            if hasattr(other, "__vc_compare__"):
                return NotImplemented
            if other is None or isinstance(other, str):
                return NotImplemented
            return NotImplemented
        return SBool(op(a, b))

    return f


def _times(f):
    def g(self, other):
        if isinstance(other, list):
            import models

            return models.repeat(other, self)
        return f(self, other)

    return g


class Num(SV):
    __slots__ = ()
    py = ("int", "float", "Number")

    def is_int(self):
        return self.e.sort() == INT

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _times(_arith(lambda a, b: a * b))
    __rmul__ = _times(_rarith(lambda a, b: a * b))
    __floordiv__ = _arith(_floordiv)
    __rfloordiv__ = _rarith(_floordiv)
    __mod__ = _arith(_mod)
    __rmod__ = _rarith(_mod)
    __truediv__ = _arith(_truediv)
    __rtruediv__ = _rarith(_truediv)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, other):
        b = _num(other)
        return False if b is None else SBool(self.e == b)

    def __ne__(self, other):
        b = _num(other)
        return True if b is None else SBool(self.e != b)

    __hash__ = SV.__hash__

    def __neg__(self):
        return Num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(z3.If(self.e < 0, -self.e, self.e))

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic integer where the host needs a concrete one")

    def __divmod__(self, other):
        return self // other, self % other


class SBool(SV):
    __slots__ = ()
    py = ("bool", "int")

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, other):
        if isinstance(other, (bool, SBool)):
            return SBool(self.e == lit(other))
        b = _num(other)
        return False if b is None else SBool(_b2i(self.e) == b)

    def __ne__(self, other):
        r = self.__eq__(other)
        return not r if isinstance(r, bool) else SBool(z3.Not(r.e))

    __hash__ = SV.__hash__

    def __and__(self, o):
        return SBool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __xor__(self, o):
        return SBool(z3.Xor(self.e, zbool(o)))

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _rarith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)


VAL_CODE = z3.Function("code of literal", VAL, INT)
VAL_TRUTH = z3.Function("truth", VAL, BOOL)
VAL_LT = z3.Function("lt", VAL, VAL, BOOL)
VAL_LE = z3.Function("le", VAL, VAL, BOOL)
_LITS = {}


def val_lit(x):
    """Constant standing for a Python string (or None): different literals differ."""
    if x is not None and not isinstance(x, str):
        raise Unsupported(f"literal of type {type(x).__name__} among opaque values")
    if x not in _LITS:
        _LITS[x] = (z3.Const(f"lit:{x!r}", VAL), len(_LITS))
    c, n = _LITS[x]
    if x not in CTX.lits:
        CTX.lits.add(x)
        CTX.assume(VAL_CODE(c) == n)
    return c


def val_of(x):
    if isinstance(x, SVal):
        return x.e
    if x is None or isinstance(x, str):
        return val_lit(x)
    raise Unsupported(f"{type(x).__name__} where an opaque value is expected")


class SVal(SV):
    """Opaque value (string, timestamp, arbitrary object). Equality, and an uninterpreted order."""

    __slots__ = ()
    py = ()

    def _ord(self, other, f):
        if isinstance(other, SVal) and other.e.sort() == self.e.sort() == VAL:
            return SBool(f(self.e, other.e))
        return NotImplemented

    def __lt__(self, o):
        return self._ord(o, VAL_LT)

    def __le__(self, o):
        return self._ord(o, VAL_LE)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: VAL_LT(b, a))

    def __ge__(self, o):
        return self._ord(o, lambda a, b: VAL_LE(b, a))

    def __eq__(self, other):
        if isinstance(other, SVal) and other.e.sort() == self.e.sort():
            return SBool(self.e == other.e)
        if isinstance(other, str) and self.e.sort() == VAL:
            return SBool(self.e == val_lit(other))
        if hasattr(other, "__vc_eq__"):
            return other.__vc_eq__(self)
        return False

    def __ne__(self, other):
        r = self.__eq__(other)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.e))

    __hash__ = SV.__hash__
    truth = None

    def __bool__(self):
        if SVal.truth is not None and self.e.sort() == VAL:
            return CTX.branch(SVal.truth(self.e))
        raise Unsupported("truth value of an opaque value")


class Name(SVal):
    """Opaque non-empty string (or key object): always true."""

    __slots__ = ()
    py = ("str", "Hashable")

    def __bool__(self):
        return True


class NVal(SVal):
    """Opaque value which may be None."""

    __slots__ = ()

    def __eq__(self, other):
        if other is None:
            return SBool(self.e == val_lit(None))
        return SVal.__eq__(self, other)

    __hash__ = SV.__hash__

    def vc_is_none(self):
        return CTX.branch(self.e == val_lit(None))

    def __bool__(self):
        CTX.assume(z3.Not(VAL_TRUTH(val_lit(None))))
        CTX.assume(z3.Not(VAL_TRUTH(val_lit(""))))
        return CTX.branch(VAL_TRUTH(self.e))


def ite(c, a, b):
    """Merge of two values under a condition."""
    c = z3.simplify(zbool(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(c, lit(a), lit(b)))
    if isinstance(a, (int, float, SV)) and isinstance(b, (int, float, SV)):
        x, y = lit(a), lit(b)
        if x.sort() != y.sort():
            x, y = _b2i(x), _b2i(y)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == INT else x
                y = z3.ToReal(y) if y.sort() == INT else y
        return wrap(z3.If(c, x, y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "__vc_ite__"):
        return a.__vc_ite__(c, b)
    if hasattr(b, "__vc_ite__") and isinstance(a, (list, tuple)):
        return b.__vc_ite__(z3.Not(c), a)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (str, SVal, type(None))) and isinstance(b, (str, SVal, type(None))):
        t = NVal if a is None or b is None or isinstance(a, NVal) or isinstance(b, NVal) else type(a) if isinstance(a, SVal) else type(b) if isinstance(b, SVal) else SVal
        return t(z3.If(c, val_of(a), val_of(b)))
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def merge(alts):
    if not alts:
        raise PathEnd()
    v = alts[-1][1]
    for c, w in reversed(alts[:-1]):
        v = ite(c, w, v)
    return v


def pure_value(fn):
    return merge(CTX.pure(fn))


def forall(name, f, lo=None, hi=None, sort=INT, patterns=None):
    """ForAll x in [lo,hi): f(x). f takes a wrapper and returns a condition."""
    x = CTX.fresh(name, sort)
    body = zbool(f(wrap(x)))
    g = []
    if lo is not None:
        g.append(lit(lo) <= x)
    if hi is not None:
        g.append(x < lit(hi))
    if g:
        body = z3.Implies(z3.And(*g), body)
    return z3.ForAll([x], body)


def exists(name, f, lo=None, hi=None, sort=INT):
    x = CTX.fresh(name, sort)
    g = [zbool(f(wrap(x)))]
    if lo is not None:
        g.append(lit(lo) <= x)
    if hi is not None:
        g.append(x < lit(hi))
    return z3.Exists([x], z3.And(*g))


def And(*xs):
    return z3.And(*[zbool(x) for x in xs])


def Or(*xs):
    return z3.Or(*[zbool(x) for x in xs])


def Not(x):
    return z3.Not(zbool(x))


def Implies(a, b):
    return z3.Implies(zbool(a), zbool(b))


def Iff(a, b):
    return zbool(a) == zbool(b)


def Eq(a, b):
    a, b = lit(a), lit(b)
    if a.sort() != b.sort():
        a, b = _b2i(a), _b2i(b)
    return a == b


def new_int(name="n", lo=None, hi=None):
    x = Num(CTX.fresh(name, INT))
    if lo is not None:
        CTX.assume(x.e >= lit(lo))
    if hi is not None:
        CTX.assume(x.e <= lit(hi))
    return x


def new_real(name="r"):
    return Num(CTX.fresh(name, REAL))


def new_bool(name="b"):
    return SBool(CTX.fresh(name, BOOL))


def new_val(name="v", sort=VAL):
    return SVal(CTX.fresh(name, sort))


class Obj:
    """Base of mutable model objects: writes are recorded for the frames of loops."""

    def __init__(self):
        self.birth = CTX.born()
        CTX.heap.append(self)

    def touch(self):
        CTX.note_write(self)

    def havoc(self):
        raise Unsupported(f"{type(self).__name__} modified inside a loop")

    def __hash__(self):
        return id(self)


# ---- loops ------------------------------------------------------------------------------------
class LoopState:
    """What an invariant sees: local variables by name, counter k, iterable."""

    def __init__(self, L, local, k):
        self.__dict__["_l"] = local
        self.__dict__["k"] = k
        self.__dict__["L"] = L
        self.__dict__["it"] = L.it
        self.__dict__["g"] = getattr(L, "ghost", None)

    def __getattr__(self, name):
        try:
            v = self._l[name]
            if type(v) is Unbound:
                v._use()
        except KeyError:
            raise Unsupported(f"annotation refers to '{name}', which is not a variable of {self.L.fname} any more")
        return v

    def has(self, name):
        return name in self._l and type(self._l[name]) is not Unbound


class LoopSpec:
    """inv(S) -> {name: formula}; kinds: {var: maker()}; unfold(S) -> definitional instances at k."""

    def __init__(self, inv=None, kinds=None, unfold=None, peel=False, unroll=False, ghost=None, elem=None, recs=None):
        self.elem, self.recs = elem, recs
        self.inv = inv or (lambda S: {})
        self.kinds = kinds or {}
        self.unfold = unfold or (lambda S: [])
        self.peel = peel
        self.unroll = unroll
        self.ghost = ghost


class Loop:
    def __init__(self, rt, fname, ordinal, it, assigned, targets):
        self.rt, self.fname, self.ordinal, self.it = rt, fname, ordinal, it
        self.assigned, self.targets = assigned, targets
        self.mode = None
        self.concrete = False

    # -- set-up
    def setup(self):
        c = CTX
        if c.pure_depth:
            raise Unsupported("loop inside a pure evaluation")
        self.spec = self.rt.find_spec(self)
        if self.spec is None:
            raise Unsupported(f"no annotation for loop {self.ordinal} of {self.fname}")
        self.key = (self.fname, self.ordinal, tuple(c.trace))
        self.hkey = (self.fname, self.ordinal, tuple(L.hkey for L in c.active_loops))
        self.birth = c.births
        self.havoced = set()
        self.kept = {}

    def dropped(self):
        return CTX.dropped.setdefault(self.key, {})

    def check_inv(self, local, k, what):
        c = CTX
        S = LoopState(self, local, k)
        for name, f in self.spec.inv(S).items():
            if name in self.dropped():
                continue
            f = zbool(f)
            full = f"{self.fname}/loop{self.ordinal}/{name}/{what}"
            if c.replaying():
                c.assume(f)
                continue
            if not c.houdini and not name.startswith("?"):
                c.prove(full, f)
                continue
            st = "discharged" if z3.is_true(z3.simplify(f)) else c.prover.prove(c.assumptions, f)[0]
            if st == "discharged":
                c.prove(full, f)
            else:
                self.dropped()[name] = st
                if DEBUG:
                    res = c.prover.prove(c.assumptions, f)
                    print("DROP", full, st, "trace", c.trace, "mode", self.mode)
                    if DEBUG > 1:
                        print(z3.simplify(f), "\nMODEL", res[3])
                if st == "unknown":
                    c.dropped_unknown = True
                raise Restart()

    def enter(self, local):
        c = CTX
        self.setup()
        if self.it is not None:
            self.n = self.it.vc_len()
            nz = lit(self.n)
            c.assume(nz >= 0)
        if self.spec.unroll and self.it is not None:
            raise Unsupported("unrolled symbolic loop")
        if self.spec.ghost is not None:
            self.ghost = self.spec.ghost(LoopState(self, local, Num(z3.IntVal(0))))
        self.check_inv(local, Num(z3.IntVal(0)), "entry")
        peel = self.spec.peel or self.key in c.peeled
        if self.it is None:
            modes = ["step", "exit"] if not peel else ["first", "step", "exit", "zero"]
            self.mode = modes[c.choose(len(modes))]
        else:
            modes = ["first", "step", "exit", "zero"] if peel else ["step", "exit", "zero"]
            conds = {"zero": nz <= 0, "first": nz > 0, "step": nz > 0, "exit": nz > 0}
            self.mode = modes[c.choose(len(modes), [conds[m] for m in modes])]
        self.peel = peel
        c.active_loops.append(self)
        if self.mode != "zero":
            c.modes.append((self.fname, self.ordinal, self.mode))
        if self.mode in ("zero", "exit"):
            c.active_loops.remove(self)
        return self

    def havoc(self, local):
        c = CTX
        out = {}
        if self.mode in ("zero", "first"):
            self.k = Num(z3.IntVal(0))
            return out
        for v in self.assigned:
            if v in self.targets and v not in local or isinstance(local.get(v), Unbound):
                continue
            mk = self.spec.kinds.get(v) or c.kinds.get((self.key, v))
            if mk is None and v in local and (isinstance(local[v], Obj) or "birth" in getattr(local[v], "__dict__", ()) or hasattr(local[v], "vc_fresh_like")):
                self.kept[v] = local[v]  # same object throughout (in-place changes), checked at the end of the step
                continue
            if mk is None and v in local:
                mk = kind_of(local[v], v)
            if mk is None:
                if v not in local:
                    out[v] = Unbound(v, self.key)
                    continue
                raise Unsupported(f"{self.fname}: variable '{v}' of kind {type(local[v]).__name__} modified in loop {self.ordinal}")
            out[v] = mk()
        objs = CTX.havoc_sets.get(self.hkey, set())
        for o in list(c.heap):
            if o.birth in objs and o.birth <= self.birth:
                c.havocing = self
                o.havoc()
                c.havocing = None
                self.havoced.add(o.birth)
        env = dict(local)
        env.update(out)
        if self.it is not None:
            if self.mode == "exit":
                self.k = Num(lit(self.n))
            else:
                self.k = new_int("k", 0)
                c.assume(self.k.e < lit(self.n))
                if self.peel:
                    c.assume(self.k.e >= 1)
        else:
            self.k = new_int("k", 1 if self.peel else 0)
        S = LoopState(self, env, self.k)
        for name, f in self.spec.inv(S).items():
            if name not in self.dropped():
                c.assume(f)
        for f in self.spec.unfold(S):
            c.assume(f)
        if self.mode == "step" and not c.feasible():
            raise PathEnd()
        return out

    def item(self):
        return self.it.vc_item(self.k)

    def last(self):
        return self.it.vc_item(self.n - 1)

    def end(self, local):
        c = CTX
        if self.mode == "first":
            for v in self.assigned:
                if v in local and type(local[v]) is not Unbound:
                    if (self.key, v) not in c.kinds:
                        mk = kind_of(local[v], v)
                        if mk is not None and v not in self.spec.kinds:
                            c.kinds[(self.key, v)] = mk
        for v, o in self.kept.items():
            if local.get(v) is not o:
                if not hasattr(o, "vc_fresh_like"):
                    raise Unsupported(f"variable '{v}' rebound to another object in loop {self.ordinal} of {self.fname}")
                c.kinds[(self.key, v)] = lambda: o.vc_fresh_like(v)
                c.havoc_sets.clear()  # objects are numbered anew
                raise Restart()
        self.check_inv(local, self.k + 1, "step")
        c.covered()
        raise PathEnd()

    def tick(self):
        """Iterations of a while loop followed one by one: only so many."""
        if CTX is not None and CTX.unroll and self.it is None:
            self.ticks = getattr(self, "ticks", 0) + 1
            if self.ticks > CTX.unroll + 1:
                raise PathEnd()

    def broke(self):
        if self in CTX.active_loops:
            CTX.active_loops.remove(self)

    def dead(self):
        raise PathEnd()


class Unbound:
    """Variable not bound before a loop and assigned in it: a use asks for the first iteration to be peeled."""

    def __init__(self, name, key):
        self.__dict__["_n"], self.__dict__["_k"] = name, key

    def _use(self, *a, **k):
        if self._k in CTX.peeled:
            raise Unsupported(f"variable '{self._n}' possibly unbound in a loop")
        CTX.peeled.add(self._k)
        CTX.havoc_sets.clear()
        raise Restart()

    def __getattr__(self, a):
        self._use()

    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _use
    __eq__ = __ne__ = __getitem__ = __setitem__ = __iter__ = __call__ = __len__ = __index__ = __iadd__ = _use
    __hash__ = object.__hash__


def kind_of(v, name):
    """Maker of an arbitrary value of the same kind, or None."""
    if isinstance(v, bool) or isinstance(v, SBool):
        return lambda: new_bool(name)
    if isinstance(v, int):
        return lambda: Num(CTX.fresh(name, INT))
    if isinstance(v, float):
        return lambda: Num(CTX.fresh(name, REAL))
    if isinstance(v, Num):
        s = v.e.sort()
        return lambda: Num(CTX.fresh(name, s))
    if isinstance(v, SVal):
        s = v.e.sort()
        return lambda: SVal(CTX.fresh(name, s))
    if hasattr(v, "vc_fresh_like"):
        return lambda: v.vc_fresh_like(name)
    return None
