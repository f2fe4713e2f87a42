"""Loads ConfigSpace from the working tree with a mechanical AST rewriting.

What the rewriting does (and nothing else): the bodies of for-loops become
local functions handed to `loop`, comprehensions are handed to `comp`,
generator functions collect what they yield in a list (laziness is dropped),
attribute assignments and list/dict/set displays go through versions whose
effect can be undone, and builtins such as len, range, all, any, int, float are
looked up in seq.BUILTINS, which treat concrete values as CPython does.
The rewritten text is compiled and executed by CPython.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys

SRC = os.environ.get("PYVC_SRC", "/repo/src")


# ====================================================================== rewriting
class Assigned(ast.NodeVisitor):
    """Names bound by statements in a loop body (not in nested functions)."""

    def __init__(self):
        self.names, self.globals = [], set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.globals.update(n.names)

    visit_Nonlocal = visit_Global

    def _comp(self, n):
        # only the walrus operator binds outside a comprehension
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return [n for n in v.names if n not in v.globals]


def has(nodes, kinds, stop_loops=False):
    """Is there a node of these kinds (not inside nested functions)?"""
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if stop_loops and isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def rt(attr):
    return ast.Attribute(name("__pyvc__"), attr, ast.Load())


def call(f, *a):
    return ast.Call(f, list(a), [])


def args(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class FunctionRewriter(ast.NodeTransformer):
    """Rewrites one function body."""

    def __init__(self, gen, qual="", every=()):
        self.gen = gen
        self.qual = qual
        self.every = every  # all local names
        self.depth = 0  # inside how many moved loop bodies
        self.n = self.whiles = 0
        self.locals = []
        self.native_loops = 0  # inside while loops of the same function
        self.first_arg = None

    # ---- nested definitions
    def visit_FunctionDef(self, n):
        return rewrite_function(n, self.qual + ".")

    def visit_ClassDef(self, n):
        n.body = [rewrite_function(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    # ---- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
                return ast.copy_location(call(rt("TList"), n.elts[0].value), n)
            return ast.copy_location(call(rt("TList"), n), n)
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            return ast.copy_location(call(rt("tuple"), n.elts[0].value), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if len(n.keys) == 1 and n.keys[0] is None:
            return ast.copy_location(call(rt("TDict"), n.values[0]), n)
        return ast.copy_location(call(rt("TDict"), n), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(call(rt("TSet"), n), n)

    # ---- comprehensions
    def _comp(self, n, kind, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            if kind == "gen":
                return n
            return ast.copy_location(call(rt({"list": "TList", "dict": "TDict", "set": "TSet"}[kind]), n), n)
        g = n.generators[0]
        it = self.visit(g.iter)
        elt = self.visit(elt)
        conds = [self.visit(c) for c in g.ifs]

        def fn(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args(g.target.id), body)
            inner = ast.ListComp(body, [ast.comprehension(g.target, ast.Tuple([name("__t")], ast.Load()), [], 0)])
            return ast.Lambda(args("__t"), ast.Subscript(inner, ast.Constant(0), ast.Load()))

        r = call(rt("comp"), ast.Constant(kind), it, fn(elt), ast.Tuple([fn(c) for c in conds], ast.Load()))
        return ast.copy_location(r, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", ast.Tuple([n.key, n.value], ast.Load()))

    # ---- attribute stores
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(
                ast.Expr(call(rt("setattr"), self.visit(t.value), ast.Constant(t.attr), self.visit(n.value))), n
            )
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        if isinstance(n.target, ast.Attribute) and n.value is not None:
            return self.visit_Assign(ast.copy_location(ast.Assign([n.target], n.value), n))
        if self.depth and isinstance(n.target, ast.Name):
            # annotations are not allowed on nonlocal names
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            return ast.copy_location(ast.Assign([n.target], self.visit(n.value)), n)
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Attribute):
            t = n.target
            op = type(n.op).__name__
            load = ast.Attribute(t.value, t.attr, ast.Load())
            v = call(rt("iop"), ast.Constant(op), load, self.visit(n.value))
            return ast.copy_location(ast.Expr(call(rt("setattr"), t.value, ast.Constant(t.attr), v)), n)
        self.generic_visit(n)
        return n

    # ---- super() inside a moved body
    def visit_Call(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.first_arg:
            n.args = [name("__class__"), name(self.first_arg)]
        return n

    # ---- generators
    def visit_Expr(self, n):
        if self.gen and isinstance(n.value, ast.Yield):
            v = self.visit(n.value.value) if n.value.value else ast.Constant(None)
            return ast.copy_location(ast.Expr(call(ast.Attribute(name("__Y"), "append", ast.Load()), v)), n)
        if self.gen and isinstance(n.value, ast.YieldFrom):
            v = self.visit(n.value.value)
            return ast.copy_location(ast.Expr(call(rt("extend"), name("__Y"), v)), n)
        self.generic_visit(n)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        v = n.value or ast.Constant(None)
        if self.gen:
            v = call(rt("gen"), name("__Y"))
        if self.depth:
            v = ast.Tuple([ast.Constant("ret"), v], ast.Load())
        return ast.copy_location(ast.Return(v), n)

    def visit_Continue(self, n):
        return n if self.native_loops else ast.copy_location(ast.Return(rt("CONT")), n)

    def visit_Break(self, n):
        return n if self.native_loops else ast.copy_location(ast.Return(rt("BRK")), n)

    def visit_While(self, n):
        if has([n.test], ast.NamedExpr):
            n.test = self.visit(n.test)
            self.native_loops += 1
            n.body = self._stmts(n.body)
            self.native_loops -= 1
            n.orelse = self._stmts(n.orelse)
            return n
        self.whiles += 1
        return self._loop(n, f"w{self.whiles}", f"while{self.whiles}", "while_", ast.Lambda(args(), self.visit(n.test)), None)

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    # ---- handlers: not for exceptions that show a limit of the engine
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(call(rt("caught"))), n))
        return n

    # ---- loops
    def visit_For(self, n):
        self.n += 1
        return self._loop(n, f"{self.n}", f"{self.n}", "loop", self.visit(n.iter), n.target)

    def _loop(self, n, i, number, runner, over, target):
        names = assigned([*([target] if target is not None else []), *n.body])
        for x in names:
            if x not in self.locals:
                self.locals.append(x)
        returns = has(n.body, ast.Return)
        saved, self.native_loops = self.native_loops, 0
        self.depth += 1
        body = self._stmts(n.body)
        self.depth -= 1
        self.native_loops = saved
        decl = [ast.Nonlocal(list(names))] if names else []
        bname, gname, pname, rname = f"__b{i}", f"__g{i}", f"__p{i}", f"__r{i}"
        first = [ast.Assign([target], name("__x"))] if target is not None else []
        bdef = ast.FunctionDef(
            bname, args("__x"),
            [*decl, *first, *body, ast.Return(rt("CONT"))],
            [], None, None, type_params=[],
        )
        gdef = ast.Lambda(
            args(),
            call(rt("locals_get"), *[ast.Tuple([ast.Constant(x), ast.Lambda(args(), name(x))], ast.Load()) for x in names]),
        )
        pdef = ast.FunctionDef(
            pname, args("__d"),
            [*decl, *[ast.Assign([name(x, ast.Store())], ast.Subscript(name("__d"), ast.Constant(x), ast.Load())) for x in names], ast.Pass()],
            [], None, None, type_params=[],
        )
        every = ast.Lambda(
            args(),
            call(rt("locals_get"), *[ast.Tuple([ast.Constant(x), ast.Lambda(args(), name(x))], ast.Load()) for x in self.every]),
        )
        key = ast.Constant(f"{self.qual}:{number}")
        run = ast.Assign([name(rname, ast.Store())], call(rt(runner), over, name(bname), gdef, name(pname), key, every))
        out = [bdef, pdef, run]
        if returns:
            val = name(rname) if self.depth else ast.Subscript(name(rname), ast.Constant(1), ast.Load())
            out.append(ast.If(call(rt("is_ret"), name(rname)), [ast.Return(val)], []))
        if n.orelse:
            orelse = self._stmts(n.orelse)
            out.append(ast.If(ast.Compare(name(rname), [ast.Is()], [rt("CONT")]), orelse, []))
        for s in out:
            ast.copy_location(s, n)
            for x in ast.walk(s):
                if not hasattr(x, "lineno") and hasattr(x, "_attributes") and "lineno" in x._attributes:
                    ast.copy_location(x, n)
        return out


def rewrite_function(fn, prefix=""):
    decos = {ast.unparse(d) for d in fn.decorator_list}
    if any("contextmanager" in d for d in decos):
        return fn
    gen = has(fn.body, (ast.Yield, ast.YieldFrom))
    if gen and has(fn.body, ast.While):
        return fn  # lazy generators with while-loops stay as they are
    a = fn.args
    params = [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]] + [x.arg for x in (a.vararg, a.kwarg) if x]
    r = FunctionRewriter(gen, prefix + fn.name, list(dict.fromkeys([*params, *assigned(fn.body)])))
    r.first_arg = params[0] if params else None
    doc = []
    body = fn.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        doc, body = [body[0]], body[1:]
    new = r._stmts(body)
    declared = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global,)):
            declared.update(x.names)
    outer_nonlocal = {x for s in fn.body if isinstance(s, ast.Nonlocal) for x in s.names}
    pre = []
    need = [x for x in r.locals if x not in params and x not in declared and x not in outer_nonlocal]
    if need:
        pre.append(ast.If(ast.Constant(False), [ast.Assign([name(x, ast.Store()) for x in need], ast.Constant(None))], []))
    if gen:
        pre.append(ast.Assign([name("__Y", ast.Store())], call(rt("TList"))))
        new.append(ast.Return(call(rt("gen"), name("__Y"))))
    keep_first = [s for s in new if isinstance(s, (ast.Global, ast.Nonlocal))]
    rest = [s for s in new if not isinstance(s, (ast.Global, ast.Nonlocal))]
    fn.body = [*doc, *keep_first, *pre, *rest]
    return fn


def rewrite_module(tree):
    def walk(body, prefix=""):
        for i, s in enumerate(body):
            if isinstance(s, ast.FunctionDef):
                body[i] = rewrite_function(s, prefix)
            elif isinstance(s, ast.ClassDef):
                walk(s.body, f"{prefix}{s.name}.")
            elif isinstance(s, (ast.If, ast.Try)):
                walk(s.body, prefix)
                walk(s.orelse, prefix)

    walk(tree.body)
    return ast.fix_missing_locations(tree)


# ====================================================================== runtime object
class Runtime:
    """What the rewritten code refers to as __pyvc__."""

    def __init__(self):
        import seq

        self.TList, self.TDict, self.TSet = seq.TList, seq.TDict, seq.TSet
        self.while_ = seq.while_loop
        self.tuple = seq.b_tuple
        self.comp, self.loop, self.CONT, self.BRK = seq.comp, seq.loop, seq.CONT, seq.BRK
        self.locals_get, self.setattr = seq.locals_get, seq.py_setattr
        self.gen = seq.Yielded

    def extend(self, y, x):
        import seq

        s = seq.symseq(x)
        if s is not None and not isinstance(s.n, int) and y.sym is None and len(y) == 0:
            seq.loop(s, lambda v: (y.append(v), seq.CONT)[1])
            return
        y.extend(x)

    @staticmethod
    def caught():
        import engine

        engine.not_ours(sys.exc_info()[1])

    @staticmethod
    def is_ret(r):
        return isinstance(r, tuple) and len(r) == 2

    @staticmethod
    def iop(op, a, b):
        return {
            "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
            "BitAnd": operator.iand, "BitOr": operator.ior, "FloorDiv": operator.ifloordiv,
        }[op](a, b)


class PlainRuntime(Runtime):
    """For the validation of the rewriting with real numpy (no solver needed)."""

    def __init__(self):
        self.TList, self.TDict, self.TSet, self.tuple = list, dict, set, tuple
        self.CONT, self.BRK = ("cont",), ("brk",)
        self.setattr = setattr
        self.locals_get = None

    @staticmethod
    def comp(kind, it, elt, conds=()):
        g = (elt(x) for x in it if all(c(x) for c in conds))
        return {"list": list, "set": set, "dict": dict, "gen": lambda v: v}[kind](g)

    def loop(self, it, body, get=None, put=None, key=None, every=None):
        for x in it:
            r = body(x)
            if r is not self.CONT:
                return r
        return self.CONT

    def while_(self, test, body, get=None, put=None, key=None, every=None):
        while test():
            r = body(None)
            if r is not self.CONT:
                return r
        return self.CONT

    def extend(self, y, x):
        y.extend(x)

    @staticmethod
    def caught():
        pass

    @staticmethod
    def gen(y):
        return iter(y)


_PLAIN = PlainRuntime()


# ====================================================================== importing
class Loader(importlib.abc.Loader):
    def __init__(self, path, plain):
        self.path, self.plain = path, plain

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, newline=None) as f:
            src = f.read()
        tree = rewrite_module(ast.parse(src, self.path))
        if self.plain:
            module.__dict__["__pyvc__"] = _PLAIN
        else:
            import seq

            module.__dict__["__pyvc__"] = RUNTIME()
            module.__dict__.update(seq.BUILTINS)
        exec(compile(tree, self.path, "exec"), module.__dict__)
        if not self.plain:
            for k, v in list(module.__dict__.items()):
                if id(v) in seq.REPLACED:
                    module.__dict__[k] = seq.REPLACED[id(v)]


_RT = None


def RUNTIME():
    global _RT
    if _RT is None:
        _RT = Runtime()
    return _RT


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src, plain=False):
        self.src, self.plain = src, plain

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != "ConfigSpace":
            return None
        p = os.path.join(self.src, *fullname.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, self.plain), submodule_search_locations=[p])
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=Loader(p + ".py", self.plain))
        return None


SITE = "/opt/venv/lib/python3.12/site-packages"


def install(src=None):
    """Symbolic numpy/scipy in place, ConfigSpace importable from src."""
    import symnp

    sys.modules.update(symnp.modules())
    if SITE not in sys.path:
        sys.path.append(SITE)
    import more_itertools  # noqa: F401
    import seqlib

    sys.modules["more_itertools"] = seqlib.more_itertools_module(more_itertools)
    sys.meta_path.insert(0, Finder(src or SRC))
    import ConfigSpace

    return ConfigSpace
