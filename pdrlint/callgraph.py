"""Light type inference and a call/reference graph over the program."""
from __future__ import annotations

import ast
from dataclasses import dataclass
from typing import Any, Optional

from .program import (Program, Func, Class, own_walk, target_names, unparse)

# annotation names that denote a pdr.Data instance
DATA_ANN = {"Data", "PDRLike", "pdr.Data"}
DATA_PARAM_NAMES = {"data", "pdrlike"}

# method names of builtin / third-party containers, never resolved by name
COMMON_METHODS = {
    "get", "keys", "values", "items", "copy", "append", "extend", "pop",
    "add", "update", "read", "close", "seek", "format", "index", "count",
    "sort", "reverse", "insert", "remove", "clear", "setdefault", "join",
    "split", "strip", "replace", "startswith", "endswith", "lower", "upper",
    "find", "search", "match", "sub", "groups", "group", "write", "name",
    "track", "dump", "error", "info", "warning", "debug", "log", "open",
    "astype", "reshape", "view", "setLevel", "flush", "tell", "parse",
    "findall", "getroot", "convert", "verify", "run", "show", "tostring",
    "to_string", "from_file", "data", "getvalue", "rename", "drop",
}


@dataclass(eq=False)
class Site:
    caller: Optional[Func]     # None -> module level
    module: Any
    node: ast.AST
    target: tuple              # resolved ref
    kind: str                  # 'call' | 'ref' | 'construct' | 'implicit'

    @property
    def loc(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"


class CallGraph:
    def __init__(self, prog: Program):
        self.p = prog
        self._types_cache: dict = {}
        self._attr_types: dict = {}
        self._busy: set = set()
        self.sites: list[Site] = []
        self.by_caller: dict = {}
        self.callers: dict = {}
        self.method_index: dict[str, list[Func]] = {}
        for c in prog.classes.values():
            for n, m in c.methods.items():
                self.method_index.setdefault(n, []).append(m)
        self._build_attr_types()
        self._build()

    # ---- types --------------------------------------------------------
    def _build_attr_types(self):
        for c in self.p.classes.values():
            for meth in c.methods.values():
                pn = meth.param_names()
                if not pn:
                    continue
                slf = pn[0]
                for n in own_walk(meth.node):
                    tgts = []
                    if isinstance(n, ast.Assign):
                        tgts = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign) and n.value:
                        tgts = [(n.target, n.value)]
                    for t, v in tgts:
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and t.value.id == slf:
                            self._attr_types.setdefault(
                                (c.qual, t.attr), []).append((meth, v))

    def ann_types(self, ann, module):
        out = set()
        if ann is None:
            return out
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return out
        if isinstance(ann, ast.BinOp):
            return self.ann_types(ann.left, module) | self.ann_types(
                ann.right, module)
        if isinstance(ann, ast.Subscript):
            if isinstance(ann.value, ast.Name) and ann.value.id in (
                    "Optional", "Union", "ClassVar"):
                s = ann.slice
                elts = s.elts if isinstance(s, ast.Tuple) else [s]
                for e in elts:
                    out |= self.ann_types(e, module)
                return out
            return self.ann_types(ann.value, module)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            txt = ast.unparse(ann)
            if txt in DATA_ANN:
                c = self.p.classes.get("pdr.pdr.Data")
                if c:
                    return {("inst", c)}
            r = self.p.resolve_expr_static(ann, module, None)
            if r and r[0] == "class":
                return {("inst", r[1])}
            if r and r[0] == "ext":
                return {("extinst", r[1])}
            if r and r[0] == "builtin":
                return {("extinst", r[1])}
        return out

    def var_types(self, func: Optional[Func], module, name):
        key = (func.qual if func else None, module.name, name)
        if key in self._types_cache:
            return self._types_cache[key]
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        if func is not None:
            a = func.node.args
            allargs = a.posonlyargs + a.args
            for i, x in enumerate(allargs + a.kwonlyargs):
                if x.arg != name:
                    continue
                if i == 0 and func.cls is not None and not func.is_static \
                        and x in allargs:
                    out.add(("inst", func.cls))
                t = self.ann_types(x.annotation, func.module)
                out |= t
                if not t and name in DATA_PARAM_NAMES and not func.vendored:
                    c = self.p.classes.get("pdr.pdr.Data")
                    if c:
                        out.add(("inst", c))
            if name not in func.all_param_names() or True:
                for n in own_walk(func.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id == name:
                                out |= self.expr_types(n.value, func, module)
                    elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and \
                            isinstance(n.target, ast.Name) and \
                            n.target.id == name and n.value is not None:
                        out |= self.expr_types(n.value, func, module)
                    elif isinstance(n, (ast.With, ast.AsyncWith)):
                        for i in n.items:
                            if isinstance(i.optional_vars, ast.Name) and \
                                    i.optional_vars.id == name:
                                out |= self.expr_types(
                                    i.context_expr, func, module)
        else:
            for v in module.assigns.get(name, []):
                out |= self.expr_types(v, None, module)
        self._busy.discard(key)
        if not self._busy:
            self._types_cache[key] = out
        return out

    def attr_types(self, cls: Class, attr):
        out = set()
        key = ("attr", cls.qual, attr)
        if key in self._busy:
            return out
        self._busy.add(key)
        for meth, v in self._attr_types.get((cls.qual, attr), []):
            out |= self.expr_types(v, meth, meth.module)
        for b in cls.bases:
            if b and b[0] == "class":
                out |= self.attr_types(b[1], attr)
        self._busy.discard(key)
        return out

    def expr_types(self, e, func, module):
        """set of ('inst',Class)|('func',F)|('class',C)|('extcall',dotted)
        |('extinst',dotted)"""
        p = self.p
        if isinstance(e, ast.Name):
            r = p.resolve_name(e.id, module, func)
            if r is None:
                return set()
            if r[0] in ("func", "class"):
                return {r}
            if r[0] == "local":
                return self.var_types(r[1], module, e.id)
            if r[0] == "global":
                return self.var_types(None, r[1], r[2])
            return set()
        if isinstance(e, ast.Call):
            out = set()
            for t in self.callee_refs(e, func, module):
                if t[0] == "class":
                    out.add(("inst", t[1]))
                elif t[0] == "ext":
                    out.add(("extcall", t[1]))
                elif t[0] == "func":
                    out |= self.ann_types(
                        getattr(t[1].node, "returns", None), t[1].module)
                elif t[0] == "builtin":
                    out.add(("extcall", t[1]))
            return out
        if isinstance(e, ast.Attribute):
            r = p.resolve_expr_static(e, module, func)
            if r and r[0] in ("func", "class"):
                return {r}
            if r and r[0] == "global":
                return self.var_types(None, r[1], r[2])
            out = set()
            for t in self.expr_types(e.value, func, module):
                if t[0] == "inst":
                    m = p.find_method(t[1], e.attr)
                    if m is not None:
                        out.add(("func", m))
                    else:
                        out |= self.attr_types(t[1], e.attr)
            return out
        if isinstance(e, ast.IfExp):
            return self.expr_types(e.body, func, module) | self.expr_types(
                e.orelse, func, module)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.expr_types(v, func, module)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.expr_types(e.value, func, module)
        if isinstance(e, ast.Lambda):
            f = p.node2func.get(e)
            return {("func", f)} if f else set()
        if isinstance(e, ast.Constant):
            return {("extinst", type(e.value).__name__)}
        if isinstance(e, ast.JoinedStr):
            return {("extinst", "str")}
        if isinstance(e, (ast.List, ast.ListComp)):
            return {("extinst", "list")}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {("extinst", "dict")}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {("extinst", "set")}
        if isinstance(e, ast.Tuple):
            return {("extinst", "tuple")}
        return set()

    # ---- callees -------------------------------------------------------
    def callee_refs(self, call: ast.Call, func, module):
        """possible callees of a Call"""
        p = self.p
        fe = call.func
        out = []
        if isinstance(fe, ast.Name):
            r = p.resolve_name(fe.id, module, func)
            if r is None:
                return [("unresolved", fe.id)]
            if r[0] in ("func", "class", "ext", "builtin"):
                return [r]
            for t in self.expr_types(fe, func, module):
                if t[0] in ("func", "class"):
                    out.append(t)
                elif t[0] == "inst":
                    m = p.find_method(t[1], "__call__")
                    if m:
                        out.append(("func", m))
            return out or [("unknown", fe.id)]
        if isinstance(fe, ast.Attribute):
            r = p.resolve_expr_static(fe, module, func)
            if r and r[0] in ("func", "class", "ext"):
                return [r]
            # super().x()
            if isinstance(fe.value, ast.Call) and isinstance(
                    fe.value.func, ast.Name) and fe.value.func.id == "super":
                f = func
                while f is not None and f.cls is None:
                    f = f.parent
                if f is not None:
                    for b in f.cls.bases:
                        if b and b[0] == "class":
                            m = p.find_method(b[1], fe.attr)
                            if m:
                                return [("func", m)]
                        if b and b[0] == "ext":
                            return [("ext", f"{b[1]}.{fe.attr}")]
                return [("ext", f"object.{fe.attr}")]
            types = self.expr_types(fe.value, func, module)
            known = False
            for t in types:
                if t[0] == "inst":
                    known = True
                    m = p.find_method(t[1], fe.attr)
                    if m:
                        out.append(("func", m))
                        for s in p.subclasses(t[1]):
                            if fe.attr in s.methods:
                                out.append(("func", s.methods[fe.attr]))
                    else:
                        for at in self.attr_types(t[1], fe.attr):
                            if at[0] in ("func", "class"):
                                out.append(at)
                        out.append(("method", fe.attr, t[1].qual))
                elif t[0] == "class":
                    known = True
                    m = p.find_method(t[1], fe.attr)
                    if m:
                        out.append(("func", m))
                elif t[0] in ("extinst", "extcall"):
                    known = True
                    out.append(("method", fe.attr, t[1]))
            if not known:
                cands = []
                if fe.attr not in COMMON_METHODS and not (
                        fe.attr.startswith("__")):
                    vend = module.vendored
                    cands = [m for m in self.method_index.get(fe.attr, [])
                             if m.vendored == vend]
                for m in cands:
                    out.append(("func", m))
                out.append(("method", fe.attr, None))
            return out
        for t in self.expr_types(fe, func, module):
            if t[0] in ("func", "class"):
                out.append(t)
            elif t[0] == "inst":
                m = p.find_method(t[1], "__call__")
                if m:
                    out.append(("func", m))
        return out or [("unknown", unparse(fe, 40))]

    # ---- graph ---------------------------------------------------------
    def _build(self):
        p = self.p
        scopes = [(None, m, m.tree) for m in p.modules.values()]
        scopes += [(f, f.module, f.node) for f in p.funcs.values()]
        for c in p.classes.values():
            scopes.append((None, c.module, c.node))
        for func, module, node in scopes:
            self._scan(func, module, node)
        # nested functions are reachable from their parents by reference
        for s in self.sites:
            self.by_caller.setdefault(
                s.caller.qual if s.caller else None, []).append(s)
            if s.target[0] == "func":
                self.callers.setdefault(s.target[1].qual, []).append(s)

    def _add(self, func, module, node, target, kind):
        self.sites.append(Site(func, module, node, target, kind))

    def _scan(self, func, module, node):
        p = self.p
        callfuncs = set()
        data_cls = p.classes.get("pdr.pdr.Data")
        for n in own_walk(node):
            if isinstance(n, ast.Call):
                callfuncs.add(id(n.func))
                for t in self.callee_refs(n, func, module):
                    if t[0] == "class":
                        self._add(func, module, n, t, "construct")
                        init = p.find_method(t[1], "__init__")
                        if init:
                            self._add(func, module, n, ("func", init),
                                      "call")
                        post = p.find_method(t[1], "__post_init__")
                        if post:
                            self._add(func, module, n, ("func", post),
                                      "call")
                    else:
                        self._add(func, module, n, t, "call")
                # getattr(obj, name) / hasattr on a Data instance
                if isinstance(n.func, ast.Name) and n.func.id in (
                        "getattr", "hasattr") and n.args and data_cls:
                    ty = self.expr_types(n.args[0], func, module)
                    if ("inst", data_cls) in ty and not (
                            len(n.args) > 1 and isinstance(
                                n.args[1], ast.Constant)):
                        m = p.find_method(data_cls, "__getattribute__")
                        if m:
                            self._add(func, module, n, ("func", m),
                                      "implicit")
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                    getattr(n, "ctx", None), ast.Load) \
                    and id(n) not in callfuncs:
                par = getattr(n, "_parent", None)
                if isinstance(n, ast.Name):
                    r = p.resolve_name(n.id, module, func)
                else:
                    r = p.resolve_expr_static(n, module, func)
                    if r is None:
                        for t in self.expr_types(n, func, module):
                            if t[0] == "func":
                                self._add(func, module, n, t, "ref")
                if r and r[0] in ("func", "class"):
                    self._add(func, module, n, r, "ref")
                elif r and r[0] == "ext" and not (
                        isinstance(par, ast.Attribute)):
                    self._add(func, module, n, r, "ref")
            elif isinstance(n, ast.Lambda):
                f = p.node2func.get(n)
                if f:
                    self._add(func, module, n, ("func", f), "ref")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) \
                    and func is not None:
                f = p.node2func.get(n)
                if f:
                    self._add(func, module, n, ("func", f), "ref")
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Load):
                for t in self.expr_types(n.value, func, module):
                    if t[0] == "inst":
                        m = p.find_method(t[1], "__getitem__")
                        if m:
                            self._add(func, module, n, ("func", m),
                                      "implicit")
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t in self.expr_types(n.iter, func, module):
                    if t[0] == "inst":
                        m = p.find_method(t[1], "__iter__")
                        if m:
                            self._add(func, module, n.iter, ("func", m),
                                      "implicit")

    def out(self, func: Func):
        return self.by_caller.get(func.qual, [])

    def reach(self, roots, kinds=("call", "construct", "implicit", "ref"),
              stop=lambda f: False, skip_site=lambda s: False):
        """BFS; returns {func.qual: (pred site or None)}"""
        seen = {}
        queue = []
        for r in roots:
            seen[r.qual] = None
            queue.append(r)
        while queue:
            f = queue.pop(0)
            if stop(f):
                continue
            for s in self.out(f):
                if s.kind not in kinds or skip_site(s):
                    continue
                t = s.target
                if t[0] == "class" and s.kind == "ref":
                    init = self.p.find_method(t[1], "__init__")
                    tgts = [init] if init else []
                    call = self.p.find_method(t[1], "__call__")
                    if call:
                        tgts.append(call)
                elif t[0] == "class":
                    call = self.p.find_method(t[1], "__call__")
                    tgts = [call] if call else []
                elif t[0] == "func":
                    tgts = [t[1]]
                else:
                    continue
                for g in tgts:
                    if g.qual not in seen:
                        seen[g.qual] = s
                        queue.append(g)
        return seen

    def path(self, seen, qual):
        """call chain (list of 'qual @ loc') from a root to qual"""
        out = []
        while True:
            s = seen.get(qual)
            if s is None:
                out.append(qual)
                break
            out.append(f"{qual} (from {s.loc})")
            qual = s.caller.qual
        return list(reversed(out))
