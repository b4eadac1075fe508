"""Resolved program: modules, scopes, imports, functions, classes.

Everything here is computed from the source text of /repo/pdr by `ast`;
nothing is imported or run.
"""
from __future__ import annotations

import ast
import builtins
import os
from dataclasses import dataclass, field
from typing import Optional

BUILTINS = set(dir(builtins)) | {
    "__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__",
    "__builtins__", "__class__",
}


class AnalysisError(Exception):
    """the analysis lost something it is anchored on"""


@dataclass(eq=False)
class Func:
    qual: str
    name: str
    node: ast.AST
    module: "Module"
    cls: Optional["Class"] = None
    parent: Optional["Func"] = None
    children: dict = field(default_factory=dict)
    local_imports: dict = field(default_factory=dict)
    _locals: Optional[set] = None

    @property
    def args(self):
        return self.node.args

    def param_names(self, skip_self=False):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and self.cls is not None and names and not \
                self.is_static:
            names = names[1:]
        return names

    def all_param_names(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    @property
    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod"
                   for d in self.decorators)

    @property
    def vendored(self):
        return self.module.vendored

    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def file(self):
        return self.module.relpath

    @property
    def line(self):
        return self.node.lineno


@dataclass(eq=False)
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)   # class-level assigns
    bases: list = field(default_factory=list)   # resolved refs

    def __repr__(self):
        return f"<Class {self.qual}>"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    src: str
    is_pkg: bool
    imports: dict = field(default_factory=dict)    # name -> dotted target
    stars: list = field(default_factory=list)
    functions: dict = field(default_factory=dict)  # name -> Func
    classes: dict = field(default_factory=dict)
    assigns: dict = field(default_factory=dict)    # name -> [value expr]
    names: set = field(default_factory=set)        # all names bound at top
    type_checking_names: set = field(default_factory=set)

    @property
    def vendored(self):
        return self.name.startswith("pdr.pds4_tools")

    def __repr__(self):
        return f"<Module {self.name}>"


def _is_type_checking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"
    )


def import_bindings(node, modname, is_pkg):
    """[(local name, dotted target)] for Import/ImportFrom; star as '*'"""
    out = []
    if isinstance(node, ast.Import):
        for a in node.names:
            if a.asname:
                out.append((a.asname, a.name))
            else:
                out.append((a.name.split(".")[0], a.name.split(".")[0]))
    else:
        base = node.module or ""
        if node.level:
            parts = modname.split(".")
            if not is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        for a in node.names:
            out.append((a.asname or a.name, f"{base}.{a.name}"
                        if a.name != "*" else f"{base}.*"))
    return out


FUNC_NODES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own_walk(node, include_lambdas=False):
    """walk a function body without descending into nested defs/classes.

    nested function nodes themselves are yielded (not entered); decorators
    and defaults of nested functions are entered.
    """
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef,
                           ast.Module, ast.ClassDef)):
        stack = list(reversed(node.body))
    else:
        stack = [node]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kids = list(n.decorator_list) + list(n.args.defaults) + [
                d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.ClassDef):
            kids = list(n.decorator_list) + list(n.bases)
        elif isinstance(n, ast.Lambda) and not include_lambdas:
            kids = list(n.args.defaults) + [
                d for d in n.args.kw_defaults if d is not None]
        else:
            kids = list(ast.iter_child_nodes(n))
        stack.extend(reversed(kids))


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


class Program:
    def __init__(self, root="/repo", package="pdr"):
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.node2func: dict[ast.AST, Func] = {}
        self._load()
        self._index()
        self._resolve_bases()

    # ---- loading -----------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, self.package)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in (
                "tests", "__pycache__", ".tracker_logs"))
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                tree = ast.parse(src, filename=rel)
                self.modules[name] = Module(
                    name, path, rel, tree, src, is_pkg)
        if not self.modules:
            raise AnalysisError("no modules found under " + base)

    def _index(self):
        for m in self.modules.values():
            self._index_scope(m, m.tree.body, None, None, m.name)
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n

    def _bind_import(self, m, node, func):
        for local, target in import_bindings(node, m.name, m.is_pkg):
            if local == "*":
                if func is None:
                    m.stars.append(target[:-2])
                continue
            if func is None:
                m.imports.setdefault(local, target)
                m.names.add(local)
            else:
                func.local_imports.setdefault(local, target)

    def _index_scope(self, m, body, func, cls, prefix):
        """index statements of a module/class/function body"""
        stack = list(body)
        type_checking = set()
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, n, func, cls, prefix)
                continue
            if isinstance(n, ast.ClassDef):
                q = f"{prefix}.{n.name}"
                c = Class(q, n.name, n, m)
                self.classes[q] = c
                if func is None and cls is None:
                    m.classes[n.name] = c
                    m.names.add(n.name)
                self._index_scope(m, n.body, None, c, q)
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._bind_import(m, n, func)
                if n in type_checking:
                    for local, _ in import_bindings(n, m.name, m.is_pkg):
                        m.type_checking_names.add(local)
                continue
            if func is None and cls is None:
                for t in _assign_targets(n):
                    m.names.add(t)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None \
                        and isinstance(n.target, ast.Name):
                    m.assigns.setdefault(n.target.id, []).append(n.value)
            elif cls is not None and func is None:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            cls.attrs[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None \
                        and isinstance(n.target, ast.Name):
                    cls.attrs[n.target.id] = n.value
            # nested statements and lambdas
            tc = isinstance(n, ast.If) and _is_type_checking(n.test)
            kids = []
            for k in ast.iter_child_nodes(n):
                kids.append(k)
                if tc and isinstance(k, (ast.Import, ast.ImportFrom)):
                    type_checking.add(k)
            if isinstance(n, ast.Lambda):
                self._add_func(m, n, func, cls, prefix)
                continue
            stack = kids + stack

    def _add_func(self, m, n, parent, cls, prefix):
        name = getattr(n, "name", None)
        if name is None:
            name = f"<lambda:{n.lineno}:{n.col_offset}>"
        if parent is not None:
            q = f"{parent.qual}.<locals>.{name}"
        else:
            q = f"{prefix}.{name}"
        f = Func(q, name, n, m, cls if parent is None else None, parent)
        if parent is not None and parent.cls is not None and cls is None:
            pass
        self.node2func[n] = f
        k = q
        i = 2
        while k in self.funcs:
            k = f"{q}#{i}"
            i += 1
        f.qual = k
        self.funcs[k] = f
        if not isinstance(n, ast.Lambda):
            if parent is not None:
                parent.children[name] = f
            elif cls is not None:
                cls.methods.setdefault(name, f)
            else:
                m.functions[name] = f
                m.names.add(name)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self._index_expr_lambdas(m, d, parent, cls, prefix)
        if isinstance(n, ast.Lambda):
            self._index_scope(m, [n.body], f, None, q)
        else:
            self._index_scope(m, n.body, f, None, q)

    def _index_expr_lambdas(self, m, e, parent, cls, prefix):
        for x in ast.walk(e):
            if isinstance(x, ast.Lambda) and x not in self.node2func:
                self._add_func(m, x, parent, cls, prefix)

    def _resolve_bases(self):
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self.resolve_expr_static(b, c.module, None))

    # ---- name resolution --------------------------------------------
    def local_names(self, f: Func):
        """names bound locally in f (params, assignments, imports, defs)"""
        if f._locals is None:
            s = set(f.all_param_names())
            glob = set()
            for n in own_walk(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                s.update(_assign_targets(n))
                if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                                  ast.AsyncFunctionDef)):
                    s.add(n.name)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for local, _ in import_bindings(
                            n, f.module.name, f.module.is_pkg):
                        s.add(local)
            f._locals = s - glob
        return f._locals

    def resolve_name(self, name, module: Module, func: Optional[Func]):
        """-> ('func',Func)|('class',Class)|('module',Module)|('ext',dotted)|
        ('global',module,name)|('local',func,name)|('builtin',name)|None"""
        f = func
        while f is not None:
            if name in f.local_imports:
                return self.resolve_dotted(f.local_imports[name])
            if name in f.children:
                return ("func", f.children[name])
            if name in self.local_names(f):
                return ("local", f, name)
            f = f.parent
        return self.resolve_module_attr(module, name, allow_builtin=True)

    def resolve_module_attr(self, module, name, allow_builtin=False,
                            seen=None):
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.functions and name not in module.imports:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.imports:
            if name in module.functions:
                return ("func", module.functions[name])
            return self.resolve_dotted(module.imports[name], seen)
        if name in module.names:
            return ("global", module, name)
        sub = f"{module.name}.{name}"
        if module.is_pkg and sub in self.modules:
            return ("module", self.modules[sub])
        for s in module.stars:
            if s in self.modules:
                m = self.modules[s]
                exported = self._star_exports(m)
                if exported is not None and name not in exported:
                    continue
                if exported is None and name.startswith("_"):
                    continue
                r = self.resolve_module_attr(m, name, False, seen)
                if r is not None:
                    return r
        if allow_builtin and name in BUILTINS:
            return ("builtin", name)
        return None

    def _star_exports(self, m):
        v = m.assigns.get("__all__")
        if v:
            try:
                return set(ast.literal_eval(v[-1]))
            except ValueError:
                return None
        return None

    def resolve_dotted(self, dotted, seen=None):
        parts = dotted.split(".")
        if parts[0] != self.package:
            return ("ext", dotted)
        # longest module prefix
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                rest = parts[i:]
                if not rest:
                    return ("module", m)
                # prefer attribute, then submodule
                r = self.resolve_module_attr(m, rest[0], False, seen)
                for nxt in rest[1:]:
                    r = self.resolve_member(r, nxt)
                return r
        return None

    def resolve_member(self, r, name):
        if r is None:
            return None
        if r[0] == "module":
            return self.resolve_module_attr(r[1], name)
        if r[0] == "ext":
            return ("ext", f"{r[1]}.{name}")
        if r[0] == "class":
            m = self.find_method(r[1], name)
            if m:
                return ("func", m)
            return ("classattr", r[1], name)
        return None

    def find_method(self, cls: Class, name, seen=None):
        seen = seen or set()
        if cls.qual in seen:
            return None
        seen.add(cls.qual)
        if name in cls.methods:
            return cls.methods[name]
        for b in cls.bases:
            if b and b[0] == "class":
                r = self.find_method(b[1], name, seen)
                if r:
                    return r
        return None

    def subclasses(self, cls: Class):
        out = []
        for c in self.classes.values():
            if any(b and b[0] == "class" and b[1] is cls for b in c.bases):
                out.append(c)
                out += self.subclasses(c)
        return out

    def resolve_expr_static(self, e, module, func):
        """resolve Name / dotted Attribute chains through imports"""
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, module, func)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr_static(e.value, module, func)
            if r and r[0] in ("module", "ext", "class"):
                return self.resolve_member(r, e.attr)
            return None
        if isinstance(e, ast.Lambda):
            f = self.node2func.get(e)
            return ("func", f) if f else None
        return None

    def own_funcs(self):
        return [f for f in self.funcs.values() if not f.vendored]

    def enclosing_func(self, node):
        n = getattr(node, "_parent", None)
        while n is not None:
            if n in self.node2func:
                return self.node2func[n]
            n = getattr(n, "_parent", None)
        return None

    def need_func(self, qual) -> Func:
        f = self.funcs.get(qual)
        if f is None:
            # fallback: re-exported / moved
            r = self.resolve_dotted(qual)
            if r and r[0] == "func":
                return r[1]
            last = qual.split(".")[-1]
            cands = [x for x in self.own_funcs()
                     if x.name == last and x.parent is None]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisError(f"anchor function {qual} not found")
        return f

    def need_class(self, qual) -> Class:
        c = self.classes.get(qual)
        if c is None:
            r = self.resolve_dotted(qual)
            if r and r[0] == "class":
                return r[1]
            last = qual.split(".")[-1]
            cands = [x for x in self.classes.values() if x.name == last]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisError(f"anchor class {qual} not found")
        return c


def _assign_targets(n):
    out = []
    if isinstance(n, ast.Assign):
        for t in n.targets:
            out += target_names(t)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        out += target_names(n.target)
    elif isinstance(n, (ast.For, ast.AsyncFor)):
        out += target_names(n.target)
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        for i in n.items:
            if i.optional_vars is not None:
                out += target_names(i.optional_vars)
    elif isinstance(n, ast.ExceptHandler):
        if n.name:
            out.append(n.name)
    elif isinstance(n, ast.NamedExpr):
        out += target_names(n.target)
    elif isinstance(n, ast.comprehension):
        out += target_names(n.target)
    elif isinstance(n, ast.Delete):
        for t in n.targets:
            out += target_names(t)
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        out.append(n.name)
    elif isinstance(n, ast.MatchAs) and n.name:
        out.append(n.name)
    elif isinstance(n, ast.MatchStar) and n.name:
        out.append(n.name)
    return out


def const_value(e):
    """constant-fold an expression to a Python value or raise ValueError"""
    return ast.literal_eval(e)


def unparse(n, limit=100):
    try:
        s = ast.unparse(n)
    except Exception:
        s = type(n).__name__
    s = " ".join(s.split())
    return s if len(s) <= limit else s[: limit - 3] + "..."
