"""Loads palworld_save_tools from the repository's current source, instrumented.

Every run re-reads and re-compiles the sources below REPO.  The only changes are: calls,
`%`, `in`, subscripts, f-strings and constant conditional expressions go through
symx.models (which defer to the ordinary operation when nothing symbolic is involved), and
functions report that they were entered.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import core, models

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "palworld_save_tools"


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _callm(self, n, args):
        return ast.Call(func=self._name(n), args=args, keywords=[])

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "eval", "exec", "dir"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=self._name("S_x_call"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._callm("S_x_mod", [node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._callm("S_x_in", [node.comparators[0], node.left])
            # evaluation order of the operands: left first
            r = self._callm("S_x_in2", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = self._callm("S_x_not", [r])
            return ast.copy_location(r, node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self._callm("S_x_not", [node.operand]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if any(isinstance(x, ast.Starred) for x in ast.walk(node.slice)):
                return node
            return ast.copy_location(self._callm("S_x_get", [node.value, node.slice]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # value is evaluated before the target's parts
            return ast.copy_location(ast.Expr(self._callm("S_x_set", [node.value, t.value, t.slice])), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are not executed for locals; leave them (and class-level ones) alone
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) or isinstance(node.target, ast.Attribute):
            node.target = self.visit(node.target)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(self._callm("S_x_fstr", parts), node)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        ok = lambda x: isinstance(x, ast.Constant) and type(x.value) is int or (
            isinstance(x, ast.BinOp) and isinstance(x.left, ast.Constant) and isinstance(x.right, ast.Constant)
            and isinstance(x.op, (ast.LShift, ast.Add, ast.Mult, ast.BitOr)))
        if ok(node.body) and ok(node.orelse):
            return ast.copy_location(self._callm("S_x_ite", [node.test, node.body, node.orelse]), node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        q = self.modname + "." + ".".join(self.stack)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self._callm("S_x_deco", [self.visit(d)]) for d in node.decorator_list]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        hook = ast.Expr(self._callm("S_x_enter", [ast.Constant(q)]))
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(i, hook)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        node.bases = [b if isinstance(b, ast.Starred) else self._callm("S_x_base", [b]) for b in node.bases]
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self._callm("S_x_tick", [])))
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_Match(self, node):
        # patterns must stay as written
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            body = []
            for s in c.body:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            c.body = body
        return node


def _enter(name):
    c = core.CUR
    if c is not None:
        c.functions.add(name)
        c.steps += 1
        if c.steps > c.max_steps:
            raise core.BoundHit("step bound")


def _tick():
    c = core.CUR
    if c is not None:
        c.steps += 1
        if c.steps > c.max_steps:
            raise core.BoundHit("step bound")
        if c.steps % 2000 == 0:
            c._tick()


from .values import SymBool, sym_not


def _not(x):
    if type(x) is SymBool:
        return sym_not(x)
    return not x


HOOKS = {
    "S_x_call": models.call, "S_x_mod": models.mod, "S_x_in2": lambda x, o: models.contains(o, x),
    "S_x_not": _not, "S_x_get": models.getitem, "S_x_set": lambda v, o, i: models.setitem(o, i, v),
    "S_x_fstr": models.fstr, "S_x_ite": models.ite, "S_x_enter": _enter, "S_x_deco": models.deco, "S_x_tick": _tick, "S_x_base": models.base,
}


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = rewrite(src, self.path, self.fullname)
        module.__dict__.update(HOOKS)
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        return None


_finder = None


def install(stdlib_uuid=True):
    """(Re)load the package, instrumented; choose the UUID implementation."""
    global _finder
    unload()
    if stdlib_uuid:
        os.environ["FORCE_STDLIB_ONLY"] = "1"
    else:
        os.environ.pop("FORCE_STDLIB_ONLY", None)
        vp = "/opt/venv/lib/python3.12/site-packages"
        if vp not in sys.path:
            sys.path.append(vp)
        import recordclass  # noqa
    _finder = Finder()
    sys.meta_path.insert(0, _finder)


# ------------------------------------------------------------- process state
def preload():
    """Imports every module of the package, as far as they can be imported."""
    base = os.path.join(REPO, PKG)
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py") and f != "__main__.py":
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                m = m[:-9] if m.endswith(".__init__") else m
                try:
                    importlib.import_module(m)
                except (Exception, SystemExit):
                    pass


_saved = []


def snapshot():
    """Remembers the state that the package's modules hold, for `restore`."""
    del _saved[:]
    seen = set()
    todo = [m.__dict__ for n, m in list(sys.modules.items()) if n == PKG or n.startswith(PKG + ".")]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        t = type(o)
        if t is dict:
            _saved.append((o, dict(o)))
            todo += [v for v in o.values() if not isinstance(v, types.ModuleType)]
            if "__builtins__" in o:
                seen.add(id(o["__builtins__"]))
        elif t is list or t is set or t is bytearray:
            _saved.append((o, t(o)))
            todo += [] if t is bytearray else list(o)
        elif t is tuple or t is frozenset:
            todo += list(o)
        elif t is types.FunctionType:
            if o.__module__ and o.__module__.startswith(PKG):
                todo += [o.__dict__] + list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                for c in o.__closure__ or ():
                    try:
                        _saved.append((c, c.cell_contents))
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif t is models.Memo:
            _saved.append((o.seen, []))
            todo.append(o.__wrapped__)
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, type):
            if o.__module__.startswith(PKG):
                _saved.append((o, {k: v for k, v in vars(o).items()}))
                todo += list(vars(o).values())
        elif getattr(t, "__module__", "").startswith(PKG) and hasattr(o, "__dict__"):
            todo.append(vars(o))


_KEEP = ("__dict__", "__weakref__")


def restore():
    """Puts the state back: each path is a process of its own."""
    for o, was in _saved:
        t = type(o)
        if t is dict:
            if o.keys() != was.keys() or any(o[k] is not v for k, v in was.items()):
                o.clear()
                o.update(was)
        elif t is list or t is bytearray:
            if len(o) != len(was) or t is bytearray or any(x is not y for x, y in zip(o, was)):
                o[:] = was
        elif t is set:
            if len(o) != len(was) or t is set and o is not was:
                o.clear()
                o.update(was)
        elif t is types.CellType:
            if o.cell_contents is not was:
                o.cell_contents = was
        else:
            now = vars(o)
            for k in [k for k in now if k not in was and k not in _KEEP]:
                delattr(o, k)
            for k, v in was.items():
                if k not in _KEEP and now.get(k) is not v:
                    setattr(o, k, v)


import importlib
import types


def unload():
    global _finder
    if _finder is not None:
        sys.meta_path.remove(_finder)
        _finder = None
    for m in list(sys.modules):
        if m == PKG or m.startswith(PKG + "."):
            del sys.modules[m]
