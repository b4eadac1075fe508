"""C13: importing the package stays light, optional libraries stay optional.

Import-time execution is followed through the package's own modules, the
functions they call while being imported, and the installed sources of the
libraries they import.  A must-import analysis finds operations that cannot
run without an optional library."""
from __future__ import annotations

import ast
import glob
import os
import re
import sys

from ..program import FUNC_NODES, import_bindings
from .c12 import Eval, Unknown, leaves, LOADER

HEAVY = {"numpy", "pandas", "astropy", "PIL", "scipy", "matplotlib", "cv2",
         "skimage", "imageio", "tifffile", "xarray", "dask", "pyarrow",
         "numba", "h5py", "fitsio", "rasterio"}
DISTS = {"pillow": "PIL", "levenshtein": "Levenshtein", "rms-vax": "vax",
         "pyyaml": "yaml", "python-dateutil": "dateutil",
         "scikit-image": "skimage", "opencv-python": "cv2"}
# operations that exist to use an optional library
NEEDS = {
    "astropy": ("ReadFits",), "PIL": ("ReadCompressedImage",), "pvl": (),
    "Levenshtein": ("metaget_fuzzy",),
}
# private functions that products of every kind go through
GENERIC = {"_init_pds3", "_init_pds4", "_load_pds4", "_init_identifiers",
           "_target_path", "_find_objects", "_init_search_path",
           "_file_not_found", "_object_to_filename", "_init_primary_format",
           "_init_format", "_browsify_recarray", "_init_log"}


def catches_import_error(handler):
    """does the handler recover from a missing library?"""
    t = handler.type
    if handler.body and isinstance(handler.body[-1], ast.Raise):
        return False
    names = []
    for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
        if e is None:
            return True
        names.append(e.attr if isinstance(e, ast.Attribute) else getattr(
            e, "id", ""))
    return any(n in ("ImportError", "ModuleNotFoundError", "Exception",
                     "BaseException") for n in names)


def static_test(e):
    """truth of a test that is constant at import time"""
    if isinstance(e, ast.Name) and e.id == "TYPE_CHECKING" or isinstance(
            e, ast.Attribute) and e.attr == "TYPE_CHECKING":
        return False
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = static_test(e.operand)
        return None if v is None else not v
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Compare) and isinstance(
            e.left, ast.Name) and e.left.id == "__name__":
        return False if isinstance(e.ops[0], ast.Eq) else None
    if isinstance(e, ast.BoolOp):
        vs = [static_test(x) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else None
        return True if True in vs else None
    return None


def dotted(node, modname, is_pkg):
    """[(module that gets imported, [names taken from it])]"""
    if isinstance(node, ast.Import):
        return [(a.name, []) for a in node.names]
    base = import_bindings(ast.ImportFrom(
        module=node.module, names=[ast.alias("x", None)],
        level=node.level), modname, is_pkg)[0][1][:-2]
    return [(base, [a.name for a in node.names])]


class Eager:
    """[(node, guarded)] of what runs when a body is executed at import"""

    def __init__(self, body):
        self.imports = []
        self.calls = []
        self.run(body, False)

    def run(self, body, guarded):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.imports.append((st, guarded))
            elif isinstance(st, ast.If):
                v = static_test(st.test)
                self.exprs(st.test, guarded)
                if v is not False:
                    self.run(st.body, guarded)
                if v is not True:
                    self.run(st.orelse, guarded)
            elif isinstance(st, ast.Try):
                g = guarded or any(map(catches_import_error, st.handlers))
                self.run(st.body, g)
                self.run(st.orelse, g)
                self.run(st.finalbody, guarded)
                for h in st.handlers:
                    # a handler of something that is missing
                    self.run(h.body, guarded)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for e in st.decorator_list + st.args.defaults + [
                        d for d in st.args.kw_defaults if d]:
                    self.exprs(e, guarded)
                for e in st.decorator_list:
                    self.calls.append((e, True))
            elif isinstance(st, ast.ClassDef):
                for e in st.decorator_list + st.bases + [
                        k.value for k in st.keywords]:
                    self.exprs(e, guarded)
                self.run(st.body, guarded)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                for n in ast.iter_child_nodes(st):
                    if isinstance(n, ast.expr):
                        self.exprs(n, guarded)
                    elif isinstance(n, ast.withitem):
                        self.exprs(n.context_expr, guarded)
                self.run(st.body, guarded)
                self.run(getattr(st, "orelse", []), guarded)
            else:
                self.exprs(st, guarded)

    def exprs(self, e, guarded):
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, FUNC_NODES):
                continue
            if isinstance(n, ast.Call):
                self.calls.append((n, False))
            stack.extend(ast.iter_child_nodes(n))


class Installed:
    """sources of installed libraries, read but never imported"""

    def __init__(self):
        self.dirs = [d for d in sorted(glob.glob(
            "/opt/venv/lib/python3*/site-packages")) + [
            p for p in sys.path if p.endswith("-packages")]
            if os.path.isdir(d)]
        self.cache = {}

    def path(self, name):
        rel = name.replace(".", "/")
        for d in self.dirs:
            for c in (rel + "/__init__.py", rel + ".py"):
                p = os.path.join(d, c)
                if os.path.isfile(p):
                    return p, c.endswith("__init__.py")
        return None, False

    def imports(self, name):
        """modules a module imports when imported, [] when unknown"""
        if name in self.cache:
            return self.cache[name]
        self.cache[name] = out = []
        p, is_pkg = self.path(name)
        if p is None:
            return out
        try:
            with open(p, encoding="utf-8", errors="replace") as f:
                tree = ast.parse(f.read())
        except (SyntaxError, ValueError, OSError):
            return out
        for st, g in Eager(tree.body).imports:
            for m, names in dotted(st, name, is_pkg):
                out.append(m)
                out.extend(f"{m}.{n}" for n in names
                           if self.path(f"{m}.{n}")[0])
        return out

    def closure(self, name):
        """module -> module that pulled it in"""
        seen = {}
        todo = [(name, None)]
        while todo:
            m, by = todo.pop()
            parts = m.split(".")
            for i in range(1, len(parts) + 1):
                q = ".".join(parts[:i])
                if q in seen:
                    continue
                seen[q] = by
                if q.split(".")[0] in HEAVY:
                    continue
                todo.extend((x, q) for x in self.imports(q))
        return seen


def norm(d):
    return re.split(r"[ <>=!~;\[(]", d.strip())[0].lower().replace("_", "-")


def import_name(d):
    return DISTS.get(norm(d), norm(d).replace("-", "_"))


def declared(root):
    """(required import names, optional import names) of pyproject.toml"""
    p = os.path.join(root, "pyproject.toml")
    if not os.path.exists(p):
        p = "/repo/pyproject.toml"
    import tomllib
    with open(p, "rb") as f:
        proj = tomllib.load(f).get("project", {})
    req = {import_name(d) for d in proj.get("dependencies", [])}
    opt = set()
    for ds in proj.get("optional-dependencies", {}).values():
        opt |= {import_name(d) for d in ds}
    return req, opt - req


class Imports:
    def __init__(self, ctx):
        self.p = ctx.prog
        self.cg = ctx.cg
        self.inst = Installed()
        self.eager = {}
        self.must_memo = {}
        self.busy = set()

    def targets(self, st, modname, is_pkg):
        """modules that an import statement imports"""
        out = []
        for m, names in dotted(st, modname, is_pkg):
            out.append(m)
            out.extend(f"{m}.{n}" for n in names if self.is_module(
                f"{m}.{n}"))
        return out

    def is_module(self, q):
        if q in self.p.modules:
            return True
        return q.split(".")[0] != self.p.package and \
            self.inst.path(q)[0] is not None

    def module(self, name):
        """what a module does while being imported:
        ([(imported module, line, guarded)], [functions it calls])"""
        if name in self.eager:
            return self.eager[name]
        m = self.p.modules[name]
        e = Eager(m.tree.body)
        imps = []
        for st, g in e.imports:
            imps += [(t, st.lineno, g) for t in self.targets(
                st, m.name, m.is_pkg)]
        fs = []
        for c, is_dec in e.calls:
            fe = c if is_dec and not isinstance(c, ast.Call) else c.func \
                if isinstance(c, ast.Call) else c
            r = self.p.resolve_expr_static(fe, m, None)
            if r and r[0] == "func":
                fs.append((r[1], c.lineno))
            elif r and r[0] == "class":
                i = self.p.find_method(r[1], "__init__")
                if i is not None:
                    fs.append((i, c.lineno))
            elif r and r[0] in ("ext", "builtin") and r[1] in (
                    "importlib.import_module", "__import__",
                    "builtins.__import__"):
                a = c.args[0] if isinstance(c, ast.Call) and c.args else None
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    imps.append((a.value, c.lineno, False))
        self.eager[name] = imps, fs
        return imps, fs

    def func_imports(self, f):
        """imports made inside a function that runs at import time"""
        e = Eager(f.body())
        out = []
        for st, g in e.imports:
            out += [(t, st.lineno, g) for t in self.targets(
                st, f.module.name, f.module.is_pkg)]
        return out

    def called(self, f):
        out = []
        for c, d in Eager(f.body()).calls:
            r = self.p.resolve_expr_static(
                c.func if isinstance(c, ast.Call) else c, f.module, f)
            if r and r[0] == "func":
                out.append(r[1])
            elif r and r[0] == "class":
                i = self.p.find_method(r[1], "__init__")
                if i is not None:
                    out.append(i)
        return out

    def closure(self, name):
        """everything imported when a pdr module is: {module: (importer,
        where, guarded)}; external modules by full name"""
        seen = {}
        todo = [(name, (None, "", False))]
        fseen = set()
        while todo:
            q, why = todo.pop(0)
            parts = q.split(".")
            for i in range(1, len(parts) + 1):
                s = ".".join(parts[:i])
                if s in seen:
                    # an unguarded import outranks a guarded one
                    if not why[2] and seen[s][2]:
                        seen[s] = why
                    else:
                        continue
                seen[s] = why
                if s.split(".")[0] != self.p.package:
                    continue
                m = self.p.modules.get(s)
                if m is None:
                    continue
                imps, fs = self.module(s)
                todo += [(t, (s, f"{m.relpath}:{ln}", g or why[2]))
                         for t, ln, g in imps]
                fs = [(f, None) for f, _ in fs]
                while fs:
                    f, _ = fs.pop()
                    if f.qual in fseen:
                        continue
                    fseen.add(f.qual)
                    todo += [(t, (s, f"{f.file}:{ln} ({f.name}, run when "
                                  f"{s} is imported)", g or why[2]))
                             for t, ln, g in self.func_imports(f)]
                    fs += [(g, None) for g in self.called(f)]
        return seen

    # ------------------------------------------------------ must-imports
    def needs(self, module, opt):
        """optional libraries that importing a module requires"""
        if module.split(".")[0] != self.p.package:
            t = module.split(".")[0]
            return {t} & opt
        if module not in self.p.modules:
            return set()
        return {q.split(".")[0] for q, why in self.closure(module).items()
                if q.split(".")[0] in opt and not why[2]}

    def must(self, f, opt):
        """{optional library: how} imported on every path through f"""
        if f.qual in self.must_memo:
            return self.must_memo[f.qual]
        if f.qual in self.busy:
            return {}
        self.busy.add(f.qual)
        try:
            out, _ = self.block(f.body(), f, opt)
        finally:
            self.busy.discard(f.qual)
        self.must_memo[f.qual] = out
        return out

    def block(self, body, f, opt):
        """-> (must set, may this block leave early)"""
        out = {}
        for st in body:
            got, leaves_ = self.stmt(st, f, opt)
            for k, v in got.items():
                out.setdefault(k, v)
            if leaves_:
                return out, True
        return out, False

    def stmt(self, st, f, opt):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            out = {}
            for t in self.targets(st, f.module.name, f.module.is_pkg):
                for o in self.needs(t, opt):
                    out.setdefault(o, f"{f.file}:{st.lineno} imports {t}")
            return out, False
        if isinstance(st, FUNC_NODES + (ast.ClassDef,)):
            return {}, False
        if isinstance(st, ast.Raise):
            # not a normal path: vacuous, but keep what is already known
            return {}, True
        if isinstance(st, ast.Return):
            return self.expr(st.value, f, opt), True
        if isinstance(st, (ast.Break, ast.Continue)):
            return {}, True
        if isinstance(st, ast.If):
            out = self.expr(st.test, f, opt)
            v = static_test(st.test)
            a, la = self.block(st.body, f, opt)
            b, lb = self.block(st.orelse, f, opt)
            if v is False:
                a = b
            elif v is True:
                b = a
            ra, rb = raises(st.body), raises(st.orelse)
            if ra and not rb:
                both, la = b, False
            elif rb and not ra:
                both, lb = a, False
            else:
                both = {k: x for k, x in a.items() if k in b}
            for k, x in both.items():
                out.setdefault(k, x)
            return out, la or lb
        if isinstance(st, ast.Try):
            out = {}
            leave = False
            if not any(map(catches_import_error, st.handlers)):
                a, leave = self.block(st.body, f, opt)
                out.update(a)
                if st.orelse and not leave:
                    b, leave = self.block(st.orelse, f, opt)
            else:
                leave = any(may_leave(s) for s in st.body + st.orelse) or \
                    any(may_leave(s) for h in st.handlers for s in h.body)
            leave = leave or any(may_leave(s) for h in st.handlers
                                 for s in h.body)
            c, lc = self.block(st.finalbody, f, opt)
            for k, v in c.items():
                out.setdefault(k, v)
            return out, leave or lc
        if isinstance(st, ast.With):
            out = {}
            for i in st.items:
                out.update(self.expr(i.context_expr, f, opt))
            b, lv = self.block(st.body, f, opt)
            for k, v in b.items():
                out.setdefault(k, v)
            return out, lv
        if isinstance(st, (ast.For, ast.While)):
            out = self.expr(st.iter if isinstance(st, ast.For) else st.test,
                            f, opt)
            return out, may_leave(st)
        out = {}
        for n in ast.iter_child_nodes(st):
            if isinstance(n, ast.expr):
                out.update(self.expr(n, f, opt))
        return out, isinstance(st, ast.Match) and may_leave(st)

    def expr(self, e, f, opt):
        out = {}
        if e is None:
            return out
        if isinstance(e, ast.Lambda):
            return out
        if isinstance(e, ast.IfExp):
            return self.expr(e.test, f, opt)
        if isinstance(e, ast.BoolOp):
            return self.expr(e.values[0], f, opt)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            return self.expr(e.generators[0].iter, f, opt)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                out.update(self.expr(n, f, opt))
            elif isinstance(n, ast.keyword):
                out.update(self.expr(n.value, f, opt))
        if isinstance(e, ast.Call):
            r = self.p.resolve_expr_static(e.func, f.module, f)
            g = None
            if r and r[0] == "func":
                g = r[1]
            elif r and r[0] == "class":
                g = self.p.find_method(r[1], "__init__")
            elif isinstance(e.func, ast.Attribute) and isinstance(
                    e.func.value, ast.Name) and f.cls is not None and \
                    f.param_names()[:1] == [e.func.value.id]:
                g = self.p.find_method(f.cls, e.func.attr)
            if g is not None:
                for k, v in self.must(g, opt).items():
                    out.setdefault(k, v)
        return out


def raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def may_leave(st):
    stack = [st]
    while stack:
        n = stack.pop()
        if isinstance(n, FUNC_NODES + (ast.ClassDef,)):
            continue
        if isinstance(n, ast.Return):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def chain(cl, q):
    out = []
    while q is not None and len(out) < 12:
        why = cl.get(q)
        out.append(q)
        if why is None:
            break
        q = why[0]
    return " <- ".join(out)


def check(ctx, rep, tier):
    rep.rule("C13.light", "nothing executed while importing pdr (its "
             "modules, functions called at module level, and the installed "
             "libraries they import) imports the array, table, FITS or "
             "imaging libraries")
    rep.rule("C13.optional", "nothing executed while importing pdr needs a "
             "library that pyproject.toml does not require, except under a "
             "handler of ImportError")
    rep.rule("C13.needs", "no operation imports an optional library on "
             "every path unless it exists to use it")
    prog = ctx.prog
    im = Imports(ctx)
    req, opt = declared(prog.root)
    cl = im.closure(prog.package)
    ext = {}
    for q, why in cl.items():
        top = q.split(".")[0]
        if top == prog.package:
            rep.count("modules imported with pdr")
            continue
        ext.setdefault(q, why)
    for q, why in sorted(ext.items()):
        top = q.split(".")[0]
        if top in sys.stdlib_module_names or top == "__future__":
            continue
        rep.count("external imports at import time")
        if top in HEAVY:
            rep.find("C13.light", f"{why[0]}|{top}", why[1],
                     f"importing pdr imports {top}: {chain(cl, q)}")
            continue
        inner = im.inst.closure(q)
        rep.count("library modules followed", len(inner))
        for t in sorted({x.split(".")[0] for x in inner} & HEAVY):
            x = [y for y in inner if y.split(".")[0] == t][0]
            rep.find("C13.light", f"{why[0]}|{q}|{t}", why[1],
                     f"importing pdr imports {q}, which imports {t} "
                     f"(from {inner[x]})")
        if top in opt and not why[2]:
            rep.find("C13.optional", f"{why[0]}|{top}", why[1],
                     f"importing pdr requires the optional library {top}: "
                     f"{chain(cl, q)}")
    # operations
    for f in operations(ctx, rep):
        if f.qual in rep.__dict__.setdefault("_seen", set()):
            continue
        rep._seen.add(f.qual)
        rep.count("operations")
        for o, how in im.must(f, opt).items():
            owner = f.cls.name if f.cls is not None else ""
            if f.name in NEEDS.get(o, ()) or owner in NEEDS.get(o, ()):
                continue
            rep.find("C13.needs", f"{f.qual}|{o}", f"{f.file}:{f.line}",
                     f"{f.qual} cannot run without the optional library "
                     f"{o}: {how}")
    rep.need("modules imported with pdr", 10)
    rep.assume("a library's own functions called at import time do not "
               "import further heavy libraries")


def operations(ctx, rep):
    """functions that every product without FITS or desktop image content
    goes through"""
    prog = ctx.prog
    for cls in ("pdr.pdr.Data", "pdr.pdr.Metadata"):
        c = prog.classes.get(cls)
        if c is not None:
            for n, m in c.methods.items():
                if not n.startswith("_") or n.startswith("__") or \
                        n in GENERIC:
                    yield m
    ev = Eval(prog)
    base = prog.classes.get(LOADER)
    if base is not None:
        for cls in sorted(prog.subclasses(base), key=lambda c: c.qual):
            if cls.name in ("ReadFits", "ReadCompressedImage"):
                continue
            i = prog.find_method(cls, "__init__")
            if i is not None:
                yield i
            i = prog.find_method(cls, "__call__")
            if i is not None:
                yield i
            try:
                reader, queries = ev.loader(cls)
            except (Unknown, RecursionError, IndexError, KeyError):
                continue
            for v in [reader] + [v for _, v in queries]:
                yield from leaves(v)
    for f in prog.own_funcs():
        m = f.module.name
        if f.parent is None and f.cls is None and (
                m.endswith(".checkers") or m.endswith(".dispatch")
                or m.startswith(("pdr.parselabel", "pdr.utils",
                                 "pdr.np_utils", "pdr.pd_utils",
                                 "pdr.bit_handling", "pdr._scaling",
                                 "pdr.datatypes", "pdr.func"))
                or m in ("pdr", "pdr.browsify")) and (
                    not f.name.startswith("_") or f.name in GENERIC):
            yield f
