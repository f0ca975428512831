"""Loads the real modules of /repo for symbolic execution.

Rewriting (all that differs from the source that runs):
 - for / while loops and single-generator comprehensions call the loop rule of core.py when their
   iterable is symbolic (otherwise they run as written);
 - imports of third-party packages resolve to the contracts in models*.py;
 - builtins len, range, min, max, ... resolve to versions accepting symbolic values;
 - decorators of numba are dropped; docstrings and annotations are not evaluated.
"""
import ast
import builtins
import copy
import os
import types

from core import CTX, Loop, Unsupported, PathEnd  # noqa: F401
import core

REPO = os.environ.get("VERIF_REPO", "/repo")


CALL_NAMES = ("range", "enumerate", "zip", "int", "float", "bool", "list", "tuple", "str", "set", "type", "reversed", "dict")


class AssignedNames(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith("__vc"):
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_NamedExpr(self, node):
        self.add(node.target.id)
        self.visit(node.value)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)


def assigned(stmts):
    v = AssignedNames()
    for s in stmts:
        v.visit(s)
    return v.names


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def parse_stmts(src):
    return ast.parse(src).body


def name(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.counters = []
        self.uid = 0

    # -- scopes
    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.counters.append(0)
        node.decorator_list = [d for d in node.decorator_list if "njit" not in ast.dump(d) and "jit'" not in ast.dump(d)]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        self.number(node)
        self.generic_visit(node)
        self.fn.pop()
        self.counters.pop()
        return node

    def number(self, fnode):
        i = 0
        todo = list(fnode.body)

        def walk(n):
            nonlocal i
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(n, (ast.For, ast.While)):
                n._vc_ord = i
                i += 1
            for ch in ast.iter_child_nodes(n):
                walk(ch)

        for s in todo:
            walk(s)

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if self.counters and node.value is not None:
            return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
        return node

    def fname(self):
        return ".".join(self.fn)

    # -- loops
    def visit_For(self, node):
        ordinal = getattr(node, "_vc_ord", -1)
        if not self.counters:
            return node
        self.uid += 1
        L = f"__vc_L{self.uid}__"
        H = f"__vc_h{self.uid}__"
        tn = target_names(node.target)
        asg = [n for n in assigned(node.body) if n not in ()]
        asg = list(dict.fromkeys(asg + tn))
        it = self.visit(node.iter)
        body = [self.visit(copy.deepcopy(s)) for s in node.body]
        body = flat(body)
        orelse = flat([self.visit(copy.deepcopy(s)) for s in node.orelse])
        asg_nt = [n for n in asg]
        out = []
        out.append(assign(L, call("__vc__.loop", [const(self.fname()), const(ordinal), it, const(asg_nt), const(tn)])))
        conc = ast.For(target=copy.deepcopy(node.target), iter=attr(L, "it"), body=copy.deepcopy(body), orelse=copy.deepcopy(orelse))
        sym = [expr(callattr(L, "enter", [call("locals", [])])), assign(H, callattr(L, "havoc", [call("locals", [])]))]
        sym += restore(H, asg)
        # zero iteration
        zero = copy.deepcopy(orelse) or [ast.Pass()]
        exitb = [ast.Assign(targets=[copy.deepcopy(node.target)], value=callattr(L, "last", []))] + (copy.deepcopy(orelse))
        one = ast.For(
            target=copy.deepcopy(node.target),
            iter=ast.Tuple(elts=[callattr(L, "item", [])], ctx=ast.Load()),
            body=copy.deepcopy(body),
            orelse=[expr(callattr(L, "end", [call("locals", [])]))],
        )
        step = [ast.Try(body=[one], handlers=[], orelse=[], finalbody=[expr(callattr(L, "broke", []))])]
        sym.append(
            ast.If(
                test=cmpeq(attr(L, "mode"), "zero"),
                body=zero,
                orelse=[ast.If(test=cmpeq(attr(L, "mode"), "exit"), body=exitb, orelse=step)],
            )
        )
        out.append(ast.If(test=attr(L, "concrete"), body=[conc], orelse=sym))
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in out]

    def visit_While(self, node):
        ordinal = getattr(node, "_vc_ord", -1)
        if not self.counters:
            return node
        self.uid += 1
        L = f"__vc_L{self.uid}__"
        H = f"__vc_h{self.uid}__"
        asg = assigned(node.body)
        asg += [n for n in assigned([ast.Expr(value=node.test)]) if n not in asg]
        test = self.visit(node.test)
        body = flat([self.visit(copy.deepcopy(s)) for s in node.body])
        orelse = flat([self.visit(copy.deepcopy(s)) for s in node.orelse])
        out = [assign(L, call("__vc__.wloop", [const(self.fname()), const(ordinal), const(asg)]))]
        conc = ast.While(test=copy.deepcopy(test), body=[expr(callattr(L, "tick", []))] + copy.deepcopy(body), orelse=copy.deepcopy(orelse))
        sym = [expr(callattr(L, "enter", [call("locals", [])])), assign(H, callattr(L, "havoc", [call("locals", [])]))]
        sym += restore(H, asg)
        dead = expr(callattr(L, "dead", []))
        exitb = [ast.If(test=copy.deepcopy(test), body=[dead], orelse=[ast.Pass()])] + copy.deepcopy(orelse)
        one = ast.For(
            target=name("__vc_once__", ast.Store()),
            iter=ast.Tuple(elts=[const(0)], ctx=ast.Load()),
            body=[ast.If(test=copy.deepcopy(test), body=[ast.Pass()], orelse=[dead])] + copy.deepcopy(body),
            orelse=[expr(callattr(L, "end", [call("locals", [])]))],
        )
        step = [ast.Try(body=[one], handlers=[], orelse=[], finalbody=[expr(callattr(L, "broke", []))])]
        m = attr(L, "mode")
        sym.append(
            ast.If(
                test=ast.BoolOp(op=ast.Or(), values=[cmpeq(m, "exit"), cmpeq(m, "zero")]),
                body=exitb,
                orelse=step,
            )
        )
        out.append(ast.If(test=attr(L, "concrete"), body=[conc], orelse=sym))
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in out]

    # -- comprehensions
    def comp(self, node, kind, elt):
        if len(node.generators) != 1 or not self.counters:
            return self.generic_visit(node)
        g = node.generators[0]
        it = self.visit(g.iter)
        elt = self.visit(elt)
        conds = [self.visit(c) for c in g.ifs]
        if any(isinstance(x, ast.NamedExpr) for c in conds for x in ast.walk(c)):
            # names bound by the condition are used by the element: evaluated again with it
            cs = [copy.deepcopy(c) for c in conds]
            elt = ast.IfExp(test=ast.BoolOp(op=ast.And(), values=cs) if len(cs) > 1 else cs[0], body=elt, orelse=call("__vc__.nowhere", []))
        f = self.itemfn(g.target, elt)
        c = self.itemfn(g.target, ast.BoolOp(op=ast.And(), values=conds) if len(conds) > 1 else conds[0]) if conds else const(None)
        return ast.copy_location(ast.fix_missing_locations(call("__vc__.comp", [const(kind), it, f, c])), node)

    def itemfn(self, target, elt):
        x = name("__vc_x__")
        lc = ast.ListComp(elt=elt, generators=[ast.comprehension(target=copy.deepcopy(target), iter=ast.Tuple(elts=[x], ctx=ast.Load()), ifs=[], is_async=0)])
        args = ast.arguments(posonlyargs=[], args=[ast.arg(arg="__vc_x__")], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.Lambda(args=args, body=ast.Subscript(value=lc, slice=const(0), ctx=ast.Load()))

    def visit_ListComp(self, node):
        return self.comp(node, "list", node.elt)

    def visit_SetComp(self, node):
        return self.comp(node, "set", node.elt)

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen", node.elt)

    def visit_DictComp(self, node):
        return self.comp(node, "dict", ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()))

    # 'x if c else y' keeps host semantics (forks); 'not', 'and', 'or' as well.
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            e = call("__vc__.is_none", [node.left])
            if isinstance(node.ops[0], ast.IsNot):
                e = ast.UnaryOp(op=ast.Not(), operand=e)
            return ast.copy_location(ast.fix_missing_locations(e), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            e = call("__vc__.contains", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                e = ast.UnaryOp(op=ast.Not(), operand=e)
            return ast.copy_location(e, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALL_NAMES and self.counters:
            node.func = ast.copy_location(attr("__vc__", "b_" + node.func.id), node.func)
        if self.counters and any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords):
            parts = [ast.Tuple(elts=[const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in node.args]
            node = ast.copy_location(ast.Call(func=attr("__vc__", "starcall"), args=[node.func, ast.Tuple(elts=parts, ctx=ast.Load())], keywords=node.keywords), node)
            ast.fix_missing_locations(node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        r = self.display("list", node)
        if r is node and isinstance(node.ctx, ast.Load) and self.counters:
            return ast.copy_location(ast.fix_missing_locations(call("__vc__.mklist", [node])), node)
        return r

    def visit_Set(self, node):
        self.generic_visit(node)
        if self.counters:
            return ast.copy_location(ast.fix_missing_locations(call("__vc__.mkset", [node])), node)
        return node

    # writes to attributes and items inside a loop: checked against the frame of the loop
    def visit_Assign(self, node):
        outs = []
        for t in node.targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and simple(x.value):
                    outs.append(expr(call("__vc__.wr", [copy.deepcopy(x.value)])))
        self.generic_visit(node)
        if not outs or not self.counters or self.fn[-1] == "__init__":
            return node
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in outs] + [node]

    def visit_Tuple(self, node):
        self.generic_visit(node)
        return self.display("tuple", node)

    def display(self, kind, node):
        """[*a, b]: the parts may be symbolic sequences."""
        if not isinstance(node.ctx, ast.Load) or not self.counters or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        parts = [ast.Tuple(elts=[const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in node.elts]
        return ast.copy_location(ast.fix_missing_locations(call("__vc__.display", [const(kind), ast.Tuple(elts=parts, ctx=ast.Load())])), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.counters:
            return node
        if all(k is not None for k in node.keys):
            return ast.copy_location(ast.fix_missing_locations(call("__vc__.mkdict", [node])), node)
        parts = [ast.Tuple(elts=[const(k is None), k if k is not None else const(None), v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.fix_missing_locations(call("__vc__.dictdisplay", [ast.Tuple(elts=parts, ctx=ast.Load())])), node)

    def visit_JoinedStr(self, node):
        plain = all(isinstance(v, ast.Constant) or (v.conversion == -1 and v.format_spec is None) for v in node.values)
        self.generic_visit(node)
        if not self.counters or not plain:
            return node
        parts = [ast.Tuple(elts=[const(not isinstance(v, ast.Constant)), v if isinstance(v, ast.Constant) else v.value], ctx=ast.Load()) for v in node.values]
        return ast.copy_location(ast.fix_missing_locations(call("__vc__.fstr", [ast.Tuple(elts=parts, ctx=ast.Load())])), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.counters:
            return ast.copy_location(ast.fix_missing_locations(call("__vc__.getitem", [node.value, slice_expr(node.slice)])), node)
        return node


def simple(e):
    return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and simple(e.value)


def slice_expr(s):
    if isinstance(s, ast.Slice):
        return call("__vc__.slice", [x if x is not None else const(None) for x in (s.lower, s.upper, s.step)])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[slice_expr(e) for e in s.elts], ctx=ast.Load())
    return s


def flat(stmts):
    out = []
    for s in stmts:
        if isinstance(s, list):
            out.extend(s)
        elif s is not None:
            out.append(s)
    return out


def const(v):
    if isinstance(v, list):
        return ast.Tuple(elts=[ast.Constant(value=x) for x in v], ctx=ast.Load())
    return ast.Constant(value=v)


def attr(n, a):
    return ast.Attribute(value=name(n), attr=a, ctx=ast.Load())


def call(f, args):
    if "." in f:
        a, b = f.split(".")
        fn = attr(a, b)
    else:
        fn = name("__vc_locals" if f == "locals" else f)
        if f == "locals":
            fn = name("locals")
    return ast.Call(func=fn, args=args, keywords=[])


def callattr(n, a, args):
    return ast.Call(func=attr(n, a), args=args, keywords=[])


def expr(e):
    return ast.Expr(value=e)


def assign(n, e):
    return ast.Assign(targets=[name(n, ast.Store())], value=e)


def cmpeq(e, s):
    return ast.Compare(left=e, ops=[ast.Eq()], comparators=[const(s)])


def restore(H, names):
    out = []
    for n in names:
        out.append(
            ast.If(
                test=ast.Compare(left=const(n), ops=[ast.In()], comparators=[name(H)]),
                body=[assign(n, ast.Subscript(value=name(H), slice=const(n), ctx=ast.Load()))],
                orelse=[],
            )
        )
    return out


_CODE = {}


def compiled(path):
    if path not in _CODE:
        with open(path) as f:
            src = f.read()
        tree = Rewriter().visit(ast.parse(src))
        ast.fix_missing_locations(tree)
        _CODE[path] = compile(tree, path, "exec")
    return _CODE[path]


# ---- modules ------------------------------------------------------------------------------------
class Mod(types.SimpleNamespace):
    pass


class Runtime:
    """Builtins with symbolic counterparts + loop rule; one per verification target."""

    def __init__(self, ext, builtins_over, specs, overrides=None):
        self.ext = ext
        self.over = builtins_over
        self.specs = specs
        self.overrides = overrides or {}
        self.modules = {}
        import models

        for k, v in models.CALLS.items():
            setattr(self, "b_" + k, v)

    # called by rewritten code
    def loop(self, fname, ordinal, it, asg, tn):
        L = Loop(self, fname, ordinal, it, list(asg), list(tn))
        if hasattr(it, "vc_iter"):
            it = L.it = it.vc_iter()
        if not hasattr(it, "vc_len"):
            L.concrete = True
        elif core.CTX.unroll:
            # refutation: the iterations one by one, for short iterables
            import models
            import z3

            L.concrete = True
            n = core.lit(it.vc_len())
            for j in range(core.CTX.unroll + 1):
                if core.CTX.branch(n <= 0 if j == 0 else n == j):
                    L.it = [it.vc_item(core.Num(z3.IntVal(i))) for i in range(j)]
                    sp = self.find_spec(L0) if (L0 := Loop(self, fname, ordinal, it, list(asg), list(tn))) else None
                    for i in range(j + 1):
                        L0.mode = "exit" if i == j else "step"
                        for f in sp.unfold(core.LoopState(L0, {}, core.Num(z3.IntVal(i)))) if sp is not None else ():
                            core.CTX.assume(f)
                    return L
            raise PathEnd()
        return L

    def wloop(self, fname, ordinal, asg):
        L = Loop(self, fname, ordinal, None, list(asg), [])
        s = self.find_spec(L)
        if s is None or s.unroll or core.CTX.unroll:
            L.concrete = True
        return L

    def find_spec(self, L):
        s = self.specs
        if callable(s):
            return s(L)
        return s.get((L.fname, L.ordinal))

    def contains(self, x, c):
        if hasattr(c, "vc_contains"):
            return c.vc_contains(x)
        if hasattr(x, "vc_in"):
            return x.vc_in(c)
        if not isinstance(c, (list, tuple, set, frozenset, dict, str)) and hasattr(type(c), "__contains__"):
            return type(c).__contains__(c, x)
        if isinstance(x, core.SV):
            for y in list(c):
                if x is y or core.CTX.branch(core.zbool(x == y)):
                    return True
            return False
        return x in c

    def is_none(self, x):
        return x.vc_is_none() if hasattr(x, "vc_is_none") else x is None

    def display(self, kind, parts):
        import models

        return models.display(kind, parts)

    def dictdisplay(self, parts):
        import models

        return models.dictdisplay(parts)

    def fstr(self, parts):
        import models

        return models.fstr(parts)

    def mklist(self, xs):
        import models

        return models.VList(xs)

    def mkset(self, xs):
        import models

        return models.VSet(xs)

    def mkdict(self, xs):
        import models

        return models.VDict(xs)

    def wr(self, o):
        if not core.CTX or not core.CTX.active_loops or isinstance(o, (core.Obj, BaseException)):
            return
        if type(o).__module__ in ("models", "models_pd") or type(o).__module__.startswith("t_"):
            return  # models record their own writes
        raise Unsupported(f"{type(o).__name__} modified inside a loop")

    def starcall(self, f, parts, /, **kw):
        """f(*a, ...): the number of arguments may be symbolic."""
        if hasattr(f, "vc_starcall"):
            return f.vc_starcall(self.display("list", parts), **kw)
        args = []
        for st, v in parts:
            args.extend(v) if st else args.append(v)
        return f(*args, **kw)

    def nowhere(self):
        """Element of a comprehension whose condition does not hold: there is none."""
        raise PathEnd()

    def slice(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, o, i):
        if isinstance(o, (list, tuple)) and isinstance(i, core.Num) and getattr(o, "s", None) is None:
            import z3

            v = z3.simplify(i.e)
            if z3.is_int_value(v):
                return o[v.as_long()]
            for j in range(-len(o), len(o)):
                if core.CTX.branch(i.e == j):
                    return o[j]
            raise IndexError("list index out of range")
        if isinstance(o, dict) and isinstance(i, core.SV) and not hasattr(o, "find"):
            for k in o:
                if k is i or core.CTX.branch(core.zbool(i == k)):
                    return o[k]
            raise KeyError(i)
        return o[i]

    def comp(self, kind, it, f, cond):
        if hasattr(it, "vc_iter"):
            it = it.vc_iter()
        if hasattr(it, "vc_len"):
            if hasattr(it, "vc_comp"):
                return it.vc_comp(kind, f, cond)
            from models import sym_comp

            return sym_comp(kind, it, f, cond)
        out = []
        for x in it:
            if cond is None or cond(x):
                out.append(f(x))
        import models

        if kind == "set":
            return models.VSet(out)
        if kind == "dict":
            return models.VDict(out)
        if kind == "gen":
            return iter(out)
        return models.VList(out)

    # modules
    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if nm == "oups" or nm.startswith("oups."):
            m = self.load(nm)
            return m if fromlist else self.load(nm.split(".")[0])
        return self.ext(nm, fromlist)

    def load(self, nm):
        if nm in self.modules:
            return self.modules[nm]
        path = os.path.join(REPO, *nm.split("."))
        if os.path.isdir(path):
            m = Mod(__name__=nm)
            self.modules[nm] = m
            rt = self

            class Pkg(Mod):
                def __getattr__(s, a):
                    try:
                        return rt.load(nm + "." + a)
                    except FileNotFoundError:
                        pass
                    src = os.path.join(path, "__init__.py")
                    for node in ast.parse(open(src).read()).body:
                        if isinstance(node, ast.ImportFrom):
                            for al in node.names:
                                if (al.asname or al.name) == a:
                                    base = (nm + "." if node.level else "") + (node.module or "")
                                    return getattr(rt.load(base), al.name)
                    raise AttributeError(a)

            m = Pkg(__name__=nm)
            self.modules[nm] = m
            return m
        path += ".py"
        code = compiled(path)
        b = dict(vars(builtins))
        b.update(self.over)
        b["__import__"] = self.imp
        ns = {"__name__": nm, "__builtins__": b, "__vc__": self, "__file__": path}
        m = Mod(__name__=nm)
        self.modules[nm] = m
        m.__dict__["ns"] = ns
        try:
            exec(code, ns)
        except BaseException:
            del self.modules[nm]
            raise
        for (mod, fn), v in self.overrides.items():
            if mod == nm or mod == "*":
                if fn in ns:
                    ns[fn] = v(ns[fn]) if getattr(v, "vc_wraps", False) else v
        m.__dict__.update({k: v for k, v in ns.items() if not k.startswith("__")})
        return m
