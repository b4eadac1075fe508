"""Effects: what library operations the interpreted code performs, and a
syntactic inventory of the library names a program refers to."""
from __future__ import annotations

import ast

from .domains import DATA
from .flow import AV, Domain, Interp
from .program import unparse

IMAGE = "%pil"
FITS = "%fits"
PDS4 = "%pds4"
KINDS = frozenset([IMAGE, FITS, PDS4])


def kind(k):
    return AV(unk=True, insts=frozenset([k]))


class Effects(Domain):
    """forwards every operation to `see(op, name, recv, args, kwargs, node,
    caller)`; tracks the handles of the imaging, FITS and PDS4 libraries"""

    def __init__(self, see):
        super().__init__()
        self.see = see
        self.ops = 0

    def kinds(self, v):
        return v.insts & KINDS

    def default_call_tags(self, vals, node):
        return frozenset()

    def own_call(self, func, bound, node, caller):
        self.ops += 1
        r = self.see("own", func.qual, None, bound, {}, node, caller)
        if r is not None:
            return r
        if func.module.name.startswith("pdr.pds4_tools") and \
                func.name == "pds4_read":
            return kind(PDS4)
        return None

    def ext_call(self, name, args, kwargs, node, caller):
        self.ops += 1
        r = self.see("ext", name, None, args, kwargs, node, caller)
        if r is not None:
            return r
        if name == "PIL.Image.open":
            return kind(IMAGE)
        if name in ("astropy.io.fits.open", "astropy.io.fits.HDUList"):
            return kind(FITS)
        return None

    def method(self, recv, name, args, kwargs, node, caller):
        self.ops += 1
        r = self.see("method", name, recv, args, kwargs, node, caller)
        if r is not None:
            return r
        k = self.kinds(recv)
        if k and not (recv.insts - KINDS):
            if k == {IMAGE} and name in ("seek", "close", "getexif",
                                         "getbands", "tell"):
                return AV(unk=True)
            return AV(unk=True, insts=k if k != {IMAGE} else frozenset())
        return None

    def attr(self, recv, name, node, caller):
        r = self.see("attr", name, recv, [], {}, node, caller)
        if r is not None:
            return r
        k = self.kinds(recv)
        if k and k != {IMAGE} and name not in (
                "header", "id", "label", "meta_data", "name", "data"):
            return AV(unk=True, insts=k)
        return None

    def chain(self):
        return [s.qual for s in self.it.stack]


class Refs:
    """every reference, in the library's own modules, to a name that resolves
    to something outside it"""

    def __init__(self, prog, vendored=False):
        self.prog = prog
        self.vendored = vendored
        self._map = None

    def scopes(self):
        p = self.prog
        for m in p.modules.values():
            if m.vendored and not self.vendored or ".tests" in m.name:
                continue
            yield None, m, m.tree
        for f in p.funcs.values():
            if f.vendored and not self.vendored or ".tests" in f.module.name:
                continue
            yield f, f.module, f.node
        for c in p.classes.values():
            if c.module.vendored and not self.vendored or \
                    ".tests" in c.module.name:
                continue
            yield None, c.module, c.node

    def __iter__(self):
        """(dotted name, node, func or None, module)"""
        if self._map is None:
            self._map = list(self._scan())
        return iter(self._map)

    def _scan(self):
        from .program import own_walk
        p = self.prog
        seen = set()
        for func, module, node in self.scopes():
            for n in own_walk(node):
                if id(n) in seen:
                    continue
                if isinstance(n, (ast.Name, ast.Attribute)):
                    par = getattr(n, "_parent", None)
                    if isinstance(par, ast.Attribute) and p and \
                            self.dotted(par, module, func):
                        continue
                    d = self.dotted(n, module, func)
                    if d:
                        seen.add(id(n))
                        yield d, n, func, module

    def dotted(self, n, module, func):
        r = self.prog.resolve_expr_static(n, module, func)
        if r and r[0] == "ext":
            return r[1]
        if r and r[0] == "builtin":
            return "builtins." + r[1]
        return None


def call_of(n):
    par = getattr(n, "_parent", None)
    if isinstance(par, ast.Call) and par.func is n:
        return par
    return None


def where(func, module, node):
    return f"{module.relpath}:{getattr(node, 'lineno', 0)}"


def owner(func, module):
    return func.qual if func is not None else module.name


def short(node, n=60):
    return unparse(node, n)


def run(prog, see, roots):
    dom = Effects(see)
    it = Interp(prog, dom)
    it.run_roots(roots)
    return dom, it


def load_roots(prog):
    """the standard roots for opening and loading"""
    from .domains import inst
    from .rules.c06 import loader_roots
    d = inst(DATA)
    roots = []
    data = prog.classes.get(DATA)
    if data is not None:
        for n, m in sorted(data.methods.items()):
            roots.append((m, {}))
    for q in ("pdr.read", "pdr.open", "pdr.fastread"):
        if q in prog.funcs:
            roots.append((prog.funcs[q], {}))
    for c in loader_roots(prog):
        init = prog.find_method(c, "__init__")
        call = prog.find_method(c, "__call__")
        if init is not None and len(init.param_names()) == 1:
            roots.insert(0, (init, {init.param_names()[0]: inst(c.qual)}))
        if call is not None:
            pn = call.param_names()
            a = {pn[0]: inst(c.qual)}
            if len(pn) > 1:
                a[pn[1]] = d
            roots.append((call, a))
    return roots
