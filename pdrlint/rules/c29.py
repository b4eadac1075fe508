"""C29: failures while decoding are never swallowed inside a reader.

Every exception handler, `finally` clause and suppressing context manager on
the reading side is judged for an arbitrary failure: one that no code names.
Whatever can catch it must raise again on every way out; what it is turned
into must not be recovered from further out either."""
from __future__ import annotations

import ast
import builtins

from ..callgraph import CallGraph
from ..domains import DATA
from ..effects import Refs, owner, where
from ..program import own_walk

ANY = {"Exception", "BaseException"}
# exporting and logging are not reading; the compatibility libraries are not
# pdr's
OUTSIDE = ("pdr.browsify", "pdr.pil_utils", "pdr.pds4_tools.extern",
           "pdr.pds4_tools.utils.logging",
           "pdr.tests")
TOLERANT = {"on_bad_lines": {"skip", "warn"}, "invalid_raise": {False},
            "error_bad_lines": {False}, "errors": {"coerce", "ignore"}}
LOAD = DATA + ".load"
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def check(ctx, rep, tier):
    rep.rule("C29.handler", "a handler that catches any failure whatever "
             "raises on every way out of it, but for the loading call's own")
    rep.rule("C29.converted", "what such a handler raises instead is not "
             "recovered from by the code around it or its callers")
    rep.rule("C29.finally", "no `finally` clause returns, breaks or "
             "continues, which would discard the failure on its way")
    rep.rule("C29.suppress", "no context manager that suppresses any "
             "failure whatever")
    rep.rule("C29.cleanup", "cleaning up after a failure does not itself "
             "fail on something the failed code was still to replace")
    rep.rule("C29.tolerant", "libraries are not told to drop or blank what "
             "they fail to decode")
    rep.rule("C29.stop", "functions mapped over data do not end the mapping "
             "early by running out of something else")
    Check(ctx, rep).run()


class Check:
    def __init__(self, ctx, rep):
        self.prog, self.rep = ctx.prog, rep
        self.refs = Refs(ctx.prog, vendored=True)
        self.cg = CallGraph(ctx.prog)
        self.found = {}
        self._raises = {}
        self.by_target = {}
        for s in self.cg.sites:
            if s.target[0] == "func":
                self.by_target.setdefault(s.target[1].qual, []).append(s)

    def note(self, rule, what, func, module, node, msg):
        self.found.setdefault((rule, f"{owner(func, module)}|{what}"),
                              (where(func, module, node), msg))

    def run(self):
        for func, module, node in self.refs.scopes():
            if module.name.startswith(OUTSIDE):
                continue
            if func is not None:
                self.rep.count("functions")
            for n in own_walk(node):
                if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
                    self.attempt(n, func, module)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        self.manager(i.context_expr, n, func, module)
                elif isinstance(n, ast.Call):
                    self.mapped(n, func, module)
                    self.tolerant(n, func, module)
        for c in self.prog.classes.values():
            if c.module.name.startswith(OUTSIDE):
                continue
            m = c.methods.get("__exit__")
            if m is not None:
                self.leave(m)
        for (rule, key), (w, msg) in sorted(self.found.items()):
            self.rep.find(rule, key, w, msg)

    # ------------------------------------------------------------- try
    def attempt(self, t, func, module):
        self.rep.count("try statements")
        for h in t.handlers:
            self.rep.count("handlers")
            if not self.catches_any(h, func, module):
                continue
            self.rep.count("handlers of any failure")
            self.rep.sample(f"{where(func, module, h)} in "
                            f"{owner(func, module)}")
            outs = self.ways(h.body, func, module, h.name)
            bad = outs - {"raise"}
            if bad and not self.boundary(func, t):
                self.note("C29.handler", "handler", func, module, h,
                          f"{owner(func, module)} recovers from any failure "
                          "whatever (a way out of the handler does not "
                          "raise)")
            for r in [x for s in h.body for x in walk_own(s)
                      if isinstance(x, ast.Raise)]:
                self.converted(r, h, t, func, module)
        if t.finalbody:
            self.rep.count("finally clauses")
            outs = self.ways(t.finalbody, func, module, None, quiet=True)
            if outs & {"return", "break", "continue"}:
                self.note("C29.finally", "finally", func, module,
                          t.finalbody[0], f"the `finally` clause in "
                          f"{owner(func, module)} discards a failure on its "
                          "way out")
            self.cleanup(t, func, module)

    def names(self, e, func, module, depth=0):
        """names of the exception classes an expression stands for; None
        where that is not known"""
        if e is None:
            return {"BaseException"}
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in e.elts:
                out |= self.names(x, func, module, depth) or {"?"}
            return out
        if isinstance(e, ast.Starred):
            return self.names(e.value, func, module, depth)
        d = self.refs.dotted(e, module, func)
        if d:
            return {d.split(".")[-1]}
        r = self.prog.resolve_expr_static(e, module, func)
        if r and r[0] == "class":
            return {r[1].name}
        if isinstance(e, ast.Name) and depth < 4:
            vs = self.values(e.id, func, module)
            if vs:
                out = set()
                for v in vs:
                    out |= self.names(v, func, module, depth + 1) or {"?"}
                return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return (self.names(e.left, func, module, depth) or {"?"}) | (
                self.names(e.right, func, module, depth) or {"?"})
        if isinstance(e, ast.IfExp):
            return (self.names(e.body, func, module, depth) or {"?"}) | (
                self.names(e.orelse, func, module, depth) or {"?"})
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "tuple" and e.args:
            return self.names(e.args[0], func, module, depth)
        return None

    def values(self, name, func, module):
        f = func
        while f is not None:
            vs = bindings(name, f.node)
            if vs:
                return vs
            if name in f.all_param_names():
                a = f.node.args
                ps = a.posonlyargs + a.args
                for p, dv in list(zip(ps[len(ps) - len(a.defaults):],
                                      a.defaults)) + list(zip(
                                          a.kwonlyargs, a.kw_defaults)):
                    if p.arg == name and dv is not None:
                        return [dv]
                return []
            f = f.parent
        vs = bindings(name, module.tree)
        if vs:
            return vs
        r = self.prog.resolve_name(name, module, func)
        if r and r[0] == "global":
            return [v for v in r[1].assigns.get(r[2], [])
                    if isinstance(v, ast.AST)]
        return []

    def catches_any(self, h, func, module):
        ns = self.names(h.type, func, module)
        return bool(ns and ns & ANY)

    def boundary(self, func, t):
        """the loading call's own handlers, which report (C02); a helper of
        it counts when only the loading call uses it, outside its own try"""
        if func is None:
            return False
        if func.qual == LOAD:
            return True
        sites = self.by_target.get(func.qual, [])
        if not sites or not all(s.caller is not None and s.caller.qual ==
                                LOAD and s.kind == "call" for s in sites):
            return False
        for s in sites:
            x, prev = getattr(s.node, "_parent", None), s.node
            while x is not None and not isinstance(x, FUNCS):
                if isinstance(x, ast.Try) and prev in x.body and any(
                        self.catches_any(h, s.caller, s.module)
                        for h in x.handlers):
                    return False
                prev, x = x, getattr(x, "_parent", None)
        return True

    # --------------------------------------------------------- ways out
    def ways(self, body, func, module, exname, quiet=False):
        """how a block can end: fall, raise, return, break, continue"""
        out = set()
        for st in body:
            w = self.way(st, func, module, exname, quiet)
            out |= w - {"fall"}
            if "fall" not in w:
                return out
        return out | {"fall"}

    def way(self, st, func, module, exname, quiet):
        W = lambda b: self.ways(b, func, module, exname, quiet)     # noqa
        if isinstance(st, ast.Raise):
            return {"raise"}
        if isinstance(st, ast.Return):
            return {"return"}
        if isinstance(st, ast.Break):
            return {"break"}
        if isinstance(st, ast.Continue):
            return {"continue"}
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                self.always_raises(st.value, func, module):
            return {"raise"}
        if isinstance(st, ast.If):
            v = self.known(st.test, func, module, exname)
            if v is True:
                return W(st.body)
            if v is False:
                return W(st.orelse)
            return W(st.body) | W(st.orelse)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            b = W(st.body)
            if isinstance(st, ast.While) and isinstance(
                    st.test, ast.Constant) and st.test.value:
                return (b - {"fall", "continue", "break"}) | (
                    {"fall"} if "break" in b else set())
            return (b - {"break", "continue"}) | W(st.orelse) | {"fall"}
        if isinstance(st, (ast.With, ast.AsyncWith)):
            b = W(st.body)
            if any(self.suppresses(i.context_expr, func, module)
                   for i in st.items) and "raise" in b:
                b = b | {"fall"}
            return b
        if isinstance(st, ast.Try):
            b = W(st.body)
            if b == {"fall"}:
                b = W(st.orelse)
            elif "fall" in b:
                b = (b - {"fall"}) | W(st.orelse)
            hs = set()
            for h in st.handlers:
                hs |= W(h.body)
            raised = "raise" in b
            out = set(b)
            if raised and st.handlers:
                # what it raises may be what these handlers expect
                if any(self.catches_any(h, func, module)
                       for h in st.handlers):
                    out -= {"raise"}
                out |= hs
            elif st.handlers:
                out |= hs
            if st.finalbody:
                f = W(st.finalbody)
                if "fall" not in f:
                    return f
                out |= f - {"fall"}
            return out
        if isinstance(st, ast.Match):
            out = set()
            for c in st.cases:
                out |= W(c.body)
            return out | {"fall"}
        return {"fall"}

    def always_raises(self, call, func, module):
        r = self.prog.resolve_expr_static(call.func, module, func)
        if r is None and isinstance(call.func, ast.Attribute):
            for s in self.cg.out(func) if func is not None else ():
                if s.node is call and s.target[0] == "func":
                    r = s.target
        if not r or r[0] != "func":
            return False
        f = r[1]
        if f.qual not in self._raises:
            self._raises[f.qual] = False
            if not isinstance(f.node, ast.Lambda) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom))
                    for x in own_walk(f.node)):
                self._raises[f.qual] = self.ways(
                    f.node.body, f, f.module, None) == {"raise"}
        return self._raises[f.qual]

    def known(self, test, func, module, exname):
        """tests on parameters that nothing in the package ever passes, and
        of the failure itself"""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg, test = not neg, test.operand
        v = None
        if isinstance(test, ast.Constant):
            v = bool(test.value)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and isinstance(
                    test.left, ast.Name):
            k = self.unpassed(test.left.id, func)
            if k is not None:
                same = isinstance(test.ops[0], (ast.Is, ast.Eq))
                v = (k == "none") == same
            elif test.left.id == exname:
                v = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        elif isinstance(test, ast.Name):
            k = self.unpassed(test.id, func)
            if k is not None:
                v = k == "true"
            elif test.id == exname:
                v = True
        if v is None and isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id == "isinstance" and \
                exname and test.args and isinstance(
                    test.args[0], ast.Name) and test.args[0].id == exname:
            ns = self.names(test.args[1], func, module)
            if ns is not None and "?" not in ns:
                # an arbitrary failure is no instance of a named class
                v = bool(ns & ANY)
        return None if v is None else v != neg

    def unpassed(self, name, func):
        """the default of a parameter that no call in the package gives"""
        f = func
        while f is not None and name not in f.all_param_names():
            if bindings(name, f.node):
                return None
            f = f.parent
        if f is None or isinstance(f.node, ast.Lambda):
            return None
        if bindings(name, f.node):
            return None
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        dv = None
        if name in ps:
            i = ps.index(name) - (len(ps) - len(a.defaults))
            dv = a.defaults[i] if i >= 0 else None
        elif name in [p.arg for p in a.kwonlyargs]:
            dv = a.kw_defaults[[p.arg for p in a.kwonlyargs].index(name)]
        if not isinstance(dv, ast.Constant):
            return None
        sites = self.by_target.get(f.qual, [])
        for s in sites:
            if not isinstance(s.node, ast.Call) or s.kind != "call":
                return None
            c = s.node
            if any(k.arg in (name, None) for k in c.keywords) or any(
                    isinstance(x, ast.Starred) for x in c.args):
                return None
            if name in ps and len(c.args) > ps.index(name):
                return None
        return "none" if dv.value is None else "true" if dv.value else \
            "false"

    # -------------------------------------------------------- converted
    def converted(self, r, h, t, func, module):
        """does something further out recover from what is raised instead of
        an arbitrary failure?"""
        if r.exc is None or isinstance(r.exc, ast.Name) and \
                r.exc.id == h.name:
            return
        e = r.exc.func if isinstance(r.exc, ast.Call) else r.exc
        ns = self.names(e, func, module)
        if not ns or "?" in ns:
            return
        self.rep.count("conversions")
        for c in ns:
            hit = self.recovered(c, r, func, module, 0, set(), h)
            if hit:
                self.note("C29.converted", c, func, module, r,
                          f"{owner(func, module)} turns any failure into "
                          f"{c}, from which {hit} recovers")

    def recovered(self, cname, node, func, module, depth, seen, skip=None):
        prev, x = node, getattr(node, "_parent", None)
        while x is not None and not isinstance(x, FUNCS):
            if isinstance(x, ast.Try) and prev in x.body:
                for h in x.handlers:
                    ns = self.names(h.type, func, module) or set()
                    if any(issub(cname, n) for n in ns):
                        if self.boundary(func, x):
                            return None
                        if self.ways(h.body, func, module, None) != {
                                "raise"}:
                            return f"{owner(func, module)} " \
                                f"({where(func, module, h)})"
                        break
            prev, x = x, getattr(x, "_parent", None)
        if func is None or depth > 5 or func.qual in seen:
            return None
        seen.add(func.qual)
        for s in self.by_target.get(func.qual, []):
            if s.kind != "call" or s.module.name.startswith(OUTSIDE):
                continue
            hit = self.recovered(cname, s.node, s.caller, s.module,
                                 depth + 1, seen)
            if hit:
                return hit
        return None

    # ---------------------------------------------------------- managers
    def suppresses(self, e, func, module):
        if not isinstance(e, ast.Call):
            return False
        d = self.refs.dotted(e.func, module, func) or ""
        if d.split(".")[-1] != "suppress":
            return False
        for a in e.args:
            ns = self.names(a, func, module)
            if ns and ns & ANY:
                return True
        return False

    def manager(self, e, w, func, module):
        for c in ast.walk(e):
            if self.suppresses(c, func, module):
                self.note("C29.suppress", "suppress", func, module, w,
                          f"{owner(func, module)} suppresses any failure "
                          "whatever")

    def leave(self, m):
        """__exit__ that returns something true"""
        self.rep.count("exits")
        for n in own_walk(m.node):
            if isinstance(n, ast.Return) and n.value is not None and not (
                    isinstance(n.value, ast.Constant)
                    and not n.value.value):
                if isinstance(n.value, ast.Constant):
                    self.note("C29.suppress", "__exit__", m, m.module, n,
                              f"{m.qual} suppresses any failure whatever")

    # ----------------------------------------------------------- cleanup
    def cleanup(self, t, func, module):
        inside = {}
        for s in t.body:
            for n in walk_own(s):
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name) and isinstance(
                                n.value, ast.Call):
                            inside.setdefault(x.id, n)
        if not inside or func is None:
            return
        for s in t.finalbody:
            for c in walk_own(s):
                if not (isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Attribute) and isinstance(
                            c.func.value, ast.Name)):
                    continue
                name = c.func.value.id
                if name not in inside or name not in \
                        func.all_param_names():
                    continue
                if bindings_before(name, func.node, t):
                    continue
                x, guard = getattr(c, "_parent", None), False
                while x is not None and x is not t:
                    if isinstance(x, (ast.If, ast.IfExp)) and any(
                            isinstance(y, ast.Name) and y.id == name
                            for y in ast.walk(x.test)):
                        guard = True
                    if isinstance(x, ast.Try):
                        guard = True
                    x = getattr(x, "_parent", None)
                if not guard:
                    self.note("C29.cleanup", name, func, module, c,
                              f"{func.qual} cleans up the argument {name} "
                              "when replacing it has failed, and so raises "
                              "something else instead of the failure")

    # ---------------------------------------------------------- tolerant
    def tolerant(self, n, func, module):
        """arguments by which pandas and numpy swallow any failure to decode
        a row or a value"""
        given = {}
        for k in n.keywords:
            if k.arg is not None:
                given[k.arg] = k.value
                continue
            for d in self.dicts(k.value, func, module):
                given.update(d)
        for k, bad in TOLERANT.items():
            v = given.get(k)
            if v is None:
                continue
            d = self.refs.dotted(n.func, module, func)
            if k == "errors" and (d is None or not d.startswith((
                    "pandas.", "numpy."))):
                continue
            vs = [v]
            if isinstance(v, ast.Name):
                vs = self.values(v.id, func, module)
            if any(isinstance(x, ast.Constant) and x.value in bad
                   for x in vs):
                self.note("C29.tolerant", k, func, module, n,
                          f"{owner(func, module)} has what fails to decode "
                          f"dropped or blanked ({k})")

    def dicts(self, e, func, module, depth=0):
        """the literal keywords a mapping holds"""
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant):
                    out[k.value] = v
                elif k is None and depth < 4:
                    for d in self.dicts(v, func, module, depth + 1):
                        out.update(d)
            return [out]
        if isinstance(e, ast.Call) and isinstance(
                e.func, ast.Name) and e.func.id == "dict":
            return [{k.arg: k.value for k in e.keywords if k.arg}]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.dicts(e.left, func, module, depth) + self.dicts(
                e.right, func, module, depth)
        if isinstance(e, ast.Name) and depth < 4:
            out = []
            for v in self.values(e.id, func, module):
                out += self.dicts(v, func, module, depth + 1)
            return out
        return []

    # ------------------------------------------------------------ mapped
    def mapped(self, n, func, module):
        d = self.refs.dotted(n.func, module, func) or ""
        if d.split(".")[-1] not in ("map", "filter", "starmap",
                                    "takewhile", "dropwhile") or not n.args:
            return
        self.rep.count("mappings")
        g = n.args[0]
        body = None
        if isinstance(g, ast.Lambda):
            body, gf = g, func
        else:
            if d.startswith("builtins.") and self.refs.dotted(
                    g, module, func) == "builtins.next":
                self.note("C29.stop", "next", func, module, n,
                          f"{owner(func, module)} maps next(), which ends "
                          "the mapping early without a word")
                return
            r = self.prog.resolve_expr_static(g, module, func)
            if r and r[0] == "func":
                body, gf = r[1].node, r[1]
                if any(isinstance(x, (ast.Yield, ast.YieldFrom))
                       for x in own_walk(body)):
                    return
        if body is None:
            return
        for c in ast.walk(body):
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Name) and c.func.id == "next" and len(
                        c.args) == 1 and not protected(
                            c, body, "StopIteration"):
                self.note("C29.stop", "next", func, module, n,
                          f"{owner(func, module)} maps a function that may "
                          "run out of something else, which ends the "
                          "mapping early without a word")


def protected(n, top, name):
    prev, x = n, getattr(n, "_parent", None)
    while x is not None and x is not top:
        if isinstance(x, ast.Try) and prev in x.body and x.handlers:
            return True
        prev, x = x, getattr(x, "_parent", None)
    return False


def walk_own(st):
    yield st
    for c in ast.iter_child_nodes(st):
        if isinstance(c, FUNCS + (ast.ClassDef,)):
            continue
        yield from walk_own(c)


def bindings(name, node):
    vs = []
    for n in own_walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    vs.append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(
                n.target, ast.Name) and n.target.id == name and \
                n.value is not None:
            vs.append(n.value)
    return vs


def bindings_before(name, node, t):
    """is a parameter already replaced before the try statement?"""
    inside = {id(x) for x in ast.walk(t)}
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(
        n.ctx, ast.Store) and id(n) not in inside and
        n.lineno < t.lineno for n in own_walk(node))


def issub(c, n):
    if c == n or n in ANY:
        return True
    a, b = getattr(builtins, c, None), getattr(builtins, n, None)
    return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)
