"""Import hook: loads the repository's modules from their current source, mechanically instrumented.

What the instrumentation changes: ``for``/``while`` statements, list comprehensions and generator expressions call the
engine (which iterates normally over ordinary iterables), list displays create ``VList`` (a list subclass), calls of
builtins such as len/range/int/isinstance and subscript reads go to symbolic-aware versions, the base class
``numpy.ndarray`` and ``float`` as base classes are replaced by their symbolic counterparts (ndclass.NdBase, floatclass.FloatBase), annotations of local variables are dropped,
and after import the module globals numpy/math (and functions imported from them) are replaced by dispatching
versions.  Nothing else is dropped or rewritten; functions with ``yield`` keep their loops.
"""
from __future__ import annotations
import ast
import importlib.machinery
import importlib.util
import math
import os
import sys
import numpy as np

REPO = os.environ.get("PYVC_REPO", "/repo")
PREFIXES = ("hermespy", "contracts")


def own_nodes(body):
    """Walks statements without entering nested function, lambda, class or comprehension scopes."""
    stack = list(body) if isinstance(body, list) else [body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            stack.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    yield w.target
            continue
        stack.extend(ast.iter_child_nodes(n))


def stored_names(body):
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    for n in own_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
    return out


class BodyRewriter(ast.NodeTransformer):
    """break/continue/return of a loop body that becomes a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = self._list(n.body)
        self.depth -= 1
        n.orelse = self._list(n.orelse)
        return n

    visit_While = visit_For

    def _list(self, lst):
        out = []
        for s in lst:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Break(self, n):
        return n if self.depth else ast.copy_location(ast.Return(ast.Constant(1)), n)

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(ast.Constant(0)), n)

    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant(3), v], ast.Load())), n)


class SuperFix(ast.NodeTransformer):
    def __init__(self, first):
        self.first = first

    def visit_FunctionDef(self, n):
        return n

    visit_ClassDef = visit_FunctionDef

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.first:
            n.args = [ast.Name("__class__", ast.Load()), ast.Name(self.first, ast.Load())]
        return n


class Instrument(ast.NodeTransformer):
    def __init__(self, calls, modname):
        self.calls = calls
        self.mod = modname
        self.fn = []  # stack of function info
        self.count = 0

    # scopes -------------------------------------------------------------------------------------------------------
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else d for d in n.args.kw_defaults]
        params = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            params.append(n.args.vararg.arg)
        if n.args.kwarg:
            params.append(n.args.kwarg.arg)
        declared = {}
        for w in own_nodes(n.body):
            if isinstance(w, ast.Global):
                for x in w.names:
                    declared[x] = "global"
            elif isinstance(w, ast.Nonlocal):
                for x in w.names:
                    declared[x] = "nonlocal"
        local = set(params) | set(stored_names(n.body))
        info = {"name": n.name, "declared": declared, "params": params, "local": local,
                "first": (n.args.posonlyargs + n.args.args)[0].arg if (n.args.posonlyargs + n.args.args) else None,
                "bind": [], "class": bool(self.cls[-1:] and self.cls[-1])}
        self.fn.append(info)
        self.cls.append(None)
        body = []
        for i, s in enumerate(n.body):
            r = self.visit(s)
            if isinstance(r, list):
                body += r
            elif r is not None:
                body.append(r)
        self.cls.pop()
        self.fn.pop()
        bind = [b for b in info["bind"] if b not in params]
        if bind:
            pre = ast.If(ast.Constant(False), [ast.Assign([ast.Name(b, ast.Store())], ast.Constant(None)) for b in
                                               dict.fromkeys(bind)], [])
            at = 0
            while at < len(body) and (isinstance(body[at], (ast.Global, ast.Nonlocal)) or (
                    at == 0 and isinstance(body[at], ast.Expr) and isinstance(body[at].value, ast.Constant))):
                at += 1
            body.insert(at, pre)
        n.body = body
        return n

    cls: list = []

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        saved = self.fn
        self.cls.append(n.name)
        for i, b in enumerate(n.bases):
            c = b.value if isinstance(b, ast.Subscript) else b
            if self.is_ndarray(c):
                n.bases[i] = ast.copy_location(ast.Attribute(ast.Name("_pyvc_", ast.Load()), "NdBase", ast.Load()), b)
            elif self.is_float(c):
                n.bases[i] = ast.copy_location(ast.Attribute(ast.Name("_pyvc_", ast.Load()), "FloatBase", ast.Load()), b)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.fn = []
        out = []
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = self.visit(s)
            out.append(s)
        n.body = out
        self.fn = saved
        self.cls.pop()
        return n

    def visit_Lambda(self, n):
        if self.fn:
            self.generic_visit(n)
        return n

    # expressions ------------------------------------------------------------------------------------------------------
    @staticmethod
    def is_ndarray(n):
        return isinstance(n, ast.Attribute) and n.attr == "ndarray" and isinstance(n.value, ast.Name) and n.value.id in (
            "np", "numpy")

    def is_float(self, n):
        return isinstance(n, ast.Name) and n.id == "float" and "float" not in self.modnames

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr.startswith("__") and self.is_float(n.func.value):
            n.func.value = ast.Attribute(ast.Name("_pyvc_", ast.Load()), "FloatBase", ast.Load())
        if isinstance(n.func, ast.Attribute) and n.func.attr.startswith("__") and self.is_ndarray(n.func.value):
            n.func.value = ast.Attribute(ast.Name("_pyvc_", ast.Load()), "NdBase", ast.Load())
        if self.fn and isinstance(n.func, ast.Attribute) and n.func.attr == "indices" and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(self._call("slice_indices", [n.func.value, n.args[0]]), n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in self.calls and not any(
                n.func.id in f["local"] for f in self.fn) and n.func.id not in self.modnames:
            n.func = ast.Attribute(ast.Name("_pyvc_", ast.Load()), "b_" + n.func.id, ast.Load())
        return n

    modnames: set = set()

    def _slice(self, k):
        if isinstance(k, ast.Slice):
            return ast.Call(ast.Name("slice", ast.Load()), [x or ast.Constant(None) for x in (k.lower, k.upper, k.step)], [])
        if isinstance(k, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in k.elts):
            return ast.Tuple([self._slice(x) for x in k.elts], ast.Load())
        return k

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not (self.fn and isinstance(n.ctx, ast.Load)) or isinstance(n.slice, (ast.Constant, ast.Slice)):
            return n
        if any(isinstance(w, ast.Starred) for w in ast.walk(n.slice)) or "slice" in self.modnames:
            return n
        return ast.copy_location(self._call("getitem", [n.value, self._slice(n.slice)]), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.ctx, ast.Load) and not self.in_ann:
            return ast.copy_location(self._call("VList", [n]), n)
        return n

    in_ann = False

    def visit_arg(self, n):
        return n

    def _call(self, name, args):
        return ast.Call(ast.Attribute(ast.Name("_pyvc_", ast.Load()), name, ast.Load()), args, [])

    def _elt(self, comp, elt):
        """lambda it: [elt for target in (it,)][0]"""
        return ast.Lambda(
            ast.arguments([], [ast.arg("_pyvc_it")], None, [], [], None, []),
            ast.Subscript(ast.ListComp(elt, [ast.comprehension(comp.target, ast.Tuple(
                [ast.Name("_pyvc_it", ast.Load())], ast.Load()), [], 0)]), ast.Constant(0), ast.Load()))

    def _comp(self, n, fname):
        g = n.generators
        if any(c.is_async for c in g) or any(isinstance(w, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for w in
                                             ast.walk(n)):
            return None
        if len(g) == 1:
            cond = ast.Constant(None)
            if g[0].ifs:
                test = g[0].ifs[0] if len(g[0].ifs) == 1 else ast.BoolOp(ast.And(), g[0].ifs)
                cond = self._elt(g[0], test)
            return self._call(fname, [g[0].iter, self._elt(g[0], n.elt), cond])
        inner = type(n)(n.elt, g[1:])
        inner = ast.ListComp(n.elt, g[1:])
        inner2 = self._comp(inner, "lc")
        cond = ast.Constant(None)
        if g[0].ifs:
            test = g[0].ifs[0] if len(g[0].ifs) == 1 else ast.BoolOp(ast.And(), g[0].ifs)
            cond = self._elt(g[0], test)
        return self._call("lcflat", [g[0].iter, self._elt(g[0], inner2), cond])

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.fn:
            return n
        r = self._comp(n, "lc")
        return ast.copy_location(r, n) if r is not None else n

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        if not self.fn:
            return n
        r = self._comp(n, "ge")
        return ast.copy_location(r, n) if r is not None else n

    # statements ---------------------------------------------------------------------------------------------------------
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if self.fn and isinstance(n.target, ast.Name):
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            return ast.copy_location(ast.Assign([n.target], n.value), n)
        if self.fn and n.value is not None:
            return ast.copy_location(ast.Assign([self.visit(n.target)], n.value), n)
        return n

    def _loop(self, n, is_for):
        if not self.fn:
            return n
        info = self.fn[-1]
        names0 = stored_names(n.body + ([n.target] if is_for else []))
        self.generic_visit(n)
        inner = n.body
        if any(isinstance(w, (ast.Yield, ast.YieldFrom, ast.Await)) for w in own_nodes(n.body)):
            return n
        self.count += 1
        c = self.count
        names = names0 + [x for x in stored_names(inner) if x not in names0]
        glob = [x for x in names if info["declared"].get(x) == "global"]
        nonl = [x for x in names if x not in glob]
        for x in nonl:
            if info["declared"].get(x) != "nonlocal":
                info["bind"].append(x)
        body = BodyRewriter()._list(inner)
        body = [SuperFix(info["first"]).visit(s) for s in body]
        pre = []
        if glob:
            pre.append(ast.Global(glob))
        if nonl:
            pre.append(ast.Nonlocal(nonl))
        if is_for:
            args = ast.arguments([], [ast.arg("_pyvc_item")], None, [], [], None, [])
            pre.append(ast.Assign([n.target], ast.Name("_pyvc_item", ast.Load())))
        else:
            args = ast.arguments([], [], None, [], [], None, [])
        bname, sname, rname = f"_pyvc_body{c}", f"_pyvc_set{c}", f"_pyvc_r{c}"
        info["bind"].append(rname)
        fbody = ast.FunctionDef(bname, args, pre + body + [ast.Return(ast.Constant(0))], [], None)
        # setter for local state
        sbody = []
        if nonl:
            sbody.append(ast.Nonlocal(nonl))
        for x in nonl:
            sbody.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name("_pyvc_d", ast.Load())]),
                                [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(
                                    ast.Name("_pyvc_d", ast.Load()), ast.Constant(x), ast.Load()))], []))
        sbody.append(ast.Pass())
        fset = ast.FunctionDef(sname, ast.arguments([], [ast.arg("_pyvc_d")], None, [], [], None, []), sbody, [], None)
        key = ast.Constant(f"{self.mod}:{info['name']}:{c}")
        names_c = ast.Tuple([ast.Constant(x) for x in nonl], ast.Load())
        if is_for:
            call = self._call("for_", [n.iter, ast.Name(bname, ast.Load()), ast.Name(sname, ast.Load()), names_c, key])
        else:
            test = SuperFix(info["first"]).visit(n.test)
            call = self._call("while_", [ast.Lambda(ast.arguments([], [], None, [], [], None, []), test),
                                         ast.Name(bname, ast.Load()), ast.Name(sname, ast.Load()), names_c, key])
        out = [fbody, fset, ast.Assign([ast.Name(rname, ast.Store())], call)]
        r = ast.Name(rname, ast.Load())
        if any(isinstance(w, ast.Return) for w in own_nodes(n.body)):
            out.append(ast.If(self._call("is_ret", [r]), [ast.Return(ast.Subscript(r, ast.Constant(1), ast.Load()))], []))
        if n.orelse:
            out.append(ast.If(ast.Compare(r, [ast.Is()], [ast.Constant(None)]), n.orelse, []))
        for s in out:
            ast.copy_location(s, n)
        return out

    def visit_For(self, n):
        return self._loop(n, True)

    def visit_While(self, n):
        return self._loop(n, False)


def instrument_source(src, filename, modname, calls):
    tree = ast.parse(src, filename)
    t = Instrument(calls, modname)
    t.cls = []
    t.modnames = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | {
        a.asname or a.name for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


def runtime():
    from . import builtins_, loops
    from .builtins_ import VList

    from . import terms, arrays

    def getitem(o, k):
        if o.__class__ is np.ndarray and terms.ENGINE is not None and any(
                isinstance(x, (terms.S, arrays.SArr)) for x in (k if k.__class__ is tuple else (k,))):
            o = arrays.SArr.lift(o)
        return o[k]

    class RT:
        pass
    rt = RT()
    rt.getitem = getitem
    from .arrays import slice_indices
    rt.slice_indices = slice_indices
    from .ndclass import NdBase
    rt.NdBase = NdBase
    from .floatclass import FloatBase
    rt.FloatBase = FloatBase
    for n, f in vars(builtins_).items():
        if n.startswith("b_"):
            setattr(rt, n, f)
    rt.VList = VList
    rt.for_ = loops.for_
    rt.while_ = loops.while_
    rt.lc = loops.listcomp
    rt.lcflat = loops.lcflat
    rt.ge = loops.genexp
    rt.is_ret = lambda r: r.__class__ is tuple
    return rt


_REAL = {}


def patch_module(mod):
    from . import symnp, builtins_
    import scipy.fft
    if not _REAL:
        for n in dir(np):
            v = getattr(np, n)
            if callable(v) and not isinstance(v, type):
                _REAL[id(v)] = getattr(symnp.NP, n)
        for n in ("fft", "ifft", "fftshift", "ifftshift"):
            _REAL[id(getattr(np.fft, n))] = getattr(symnp.NP.fft, n)
            _REAL[id(getattr(scipy.fft, n))] = getattr(symnp.NP.fft, n)
        for n in ("norm", "inv", "det", "pinv"):
            _REAL[id(getattr(np.linalg, n))] = getattr(symnp.NP.linalg, n)
        import scipy.signal
        import scipy.linalg
        import scipy.ndimage
        for f, g in ((scipy.signal.convolve, symnp.np_convolve),
                     (scipy.ndimage.maximum_filter, symnp.maximum_filter),
                     (scipy.linalg.pinvh, symnp.pinvh),
                     (scipy.linalg.fractional_matrix_power, symnp.fractional_matrix_power)):
            _REAL[id(f)] = symnp.dispatch(f.__name__, f, g)
        _REAL[id(np.random.default_rng)] = symnp.RandomProxy(np.random).default_rng if False else symnp_rng
        for f, g in builtins_.MATH.items():
            _REAL[id(f)] = g
    d = vars(mod)
    for n, v in list(d.items()):
        if v is np:
            d[n] = symnp.NP
        elif v is math:
            d[n] = builtins_.MathProxy()
        elif v is np.random:
            d[n] = symnp.RandomProxy(np.random)
        elif v is np.fft:
            d[n] = symnp.NP.fft
        elif v is np.linalg:
            d[n] = symnp.NP.linalg
        elif callable(v) and id(v) in _REAL and not isinstance(v, type):
            d[n] = _REAL[id(v)]


def symnp_rng(*a, **k):
    from . import symnp, terms
    if terms.ENGINE is not None:
        return symnp.sym_default_rng(*a, **k)
    return np.random.default_rng(*a, **k)


SOURCES = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)

    def source_to_code(self, data, path, *, _optimize=-1):
        from .builtins_ import CALLS
        src = data.decode() if isinstance(data, bytes) else data
        SOURCES[self.name] = path
        tree = instrument_source(src, path, self.name, CALLS)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["_pyvc_"] = runtime()
        super().exec_module(module)
        if not getattr(module, "_PYVC_NATIVE", False):
            patch_module(module)


class Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        root = fullname.split(".")[0]
        if root not in PREFIXES:
            return None
        if path is None:
            path = [REPO] if root == "hermespy" else [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


class PlainFinder:
    """Loads hermespy from REPO without instrumentation (for concrete runs)."""

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname.split(".")[0] != "hermespy":
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, [REPO] if path is None else path, target)


def install(symbolic=True):
    os.environ["NUMBA_DISABLE_JIT"] = "1" if symbolic else os.environ.get("NUMBA_DISABLE_JIT", "0")
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder if symbolic else PlainFinder)
