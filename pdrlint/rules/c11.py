"""C11: internal references resolve, internal calls match their targets, no
local is read before it is assigned."""
from __future__ import annotations

import ast
import builtins

from ..paths import Overflow, PathDomain, Paths
from ..program import (Class, _is_type_checking, import_bindings,
                       own_walk)

MODNAMES = {"__name__", "__file__", "__doc__", "__package__", "__path__",
            "__spec__", "__all__", "__class__", "__annotations__",
            "__loader__", "__builtins__", "__version__"}


# -------------------------------------------------------------- references
def scopes(prog):
    for m in prog.modules.values():
        if not m.vendored:
            yield None, m, m.tree
    for f in prog.funcs.values():
        if not f.vendored:
            yield f, f.module, f.node
    for c in prog.classes.values():
        if not c.module.vendored:
            yield None, c.module, c.node


def comp_names(node):
    """names bound by comprehensions anywhere inside"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            out |= {x.id for x in ast.walk(n.target)
                    if isinstance(x, ast.Name)}
    return out


def annotation_nodes(node):
    out = set()
    for n in ast.walk(node):
        anns = []
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            anns.append(n.returns)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [
                    a.vararg, a.kwarg]:
                if x is not None:
                    anns.append(x.annotation)
        elif isinstance(n, ast.AnnAssign):
            anns.append(n.annotation)
        for x in anns:
            if x is not None:
                out |= {id(y) for y in ast.walk(x)}
    return out


def class_names(prog, node):
    """names bound in the class bodies enclosing a node"""
    out = set()
    n = node
    while n is not None:
        if isinstance(n, ast.ClassDef):
            for st in n.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    out.add(st.name)
                else:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(
                                x.ctx, ast.Store):
                            out.add(x.id)
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            out |= {a for a, _ in import_bindings(
                                x, "", False)}
        n = getattr(n, "_parent", None)
    return out


def typing_only(n):
    c = n
    while c is not None:
        p = getattr(c, "_parent", None)
        if isinstance(p, ast.If) and _is_type_checking(p.test) and \
                c in p.body:
            return True
        c = p
    return False


def refs(ctx, rep):
    prog = ctx.prog
    for func, mod, node in scopes(prog):
        comp = comp_names(node)
        anns = annotation_nodes(node)
        where = func.qual if func else mod.name
        for n in own_walk(node):
            if id(n) in anns:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                rep.count("name references")
                if n.id in comp or n.id in MODNAMES or hasattr(
                        builtins, n.id):
                    continue
                if prog.resolve_name(n.id, mod, func) is None:
                    if n.id in class_names(prog, n):
                        continue
                    if n.id in mod.imports and not mod.imports[
                            n.id].startswith(prog.package):
                        continue
                    if any(s not in prog.modules for s in mod.stars):
                        continue
                    rep.find("C11.ref", f"{where}|{n.id}",
                             f"{mod.relpath}:{n.lineno}",
                             f"{where} refers to {n.id}, which does not "
                             f"exist")
            elif isinstance(n, ast.Attribute):
                r = prog.resolve_expr_static(n.value, mod, func)
                if r is None or r[0] != "module" or r[1].vendored:
                    continue
                rep.count("module attribute references")
                if not isinstance(n.ctx, ast.Load):
                    continue
                if not has_member(prog, r[1], n.attr):
                    rep.find("C11.ref", f"{where}|{r[1].name}.{n.attr}",
                             f"{mod.relpath}:{n.lineno}",
                             f"{where} refers to {r[1].name}.{n.attr}, which "
                             f"does not exist")
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                if typing_only(n):
                    continue
                for local, dotted in import_bindings(n, mod.name,
                                                     mod.is_pkg):
                    if dotted.split(".")[0] != prog.package:
                        continue
                    rep.count("internal imports")
                    if dotted.endswith(".*"):
                        ok = dotted[:-2] in prog.modules
                    else:
                        parts = dotted.rsplit(".", 1)
                        ok = dotted in prog.modules or (
                            parts[0] in prog.modules and has_member(
                                prog, prog.modules[parts[0]], parts[1]))
                    if not ok:
                        rep.find("C11.ref", f"{where}|import {dotted}",
                                 f"{mod.relpath}:{n.lineno}",
                                 f"{where} imports {dotted}, which does not "
                                 f"exist")
            elif isinstance(n, ast.Call):
                dyn(ctx, rep, n, func, mod, where)


def dyn(ctx, rep, n, func, mod, where):
    """getattr(module, "name") and import_module("pdr.x")"""
    prog = ctx.prog
    r = prog.resolve_expr_static(n.func, mod, func)
    if r == ("builtin", "getattr") and len(n.args) == 2 and isinstance(
            n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
        b = prog.resolve_expr_static(n.args[0], mod, func)
        if b and b[0] == "module" and not b[1].vendored and not has_member(
                prog, b[1], n.args[1].value):
            rep.find("C11.ref", f"{where}|{b[1].name}.{n.args[1].value}",
                     f"{mod.relpath}:{n.lineno}",
                     f"{where} looks up {n.args[1].value} in {b[1].name}, "
                     f"which does not define it")
    if r == ("ext", "importlib.import_module") and n.args and isinstance(
            n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
        d = n.args[0].value
        if d.split(".")[0] == prog.package and d not in prog.modules:
            rep.find("C11.ref", f"{where}|import {d}",
                     f"{mod.relpath}:{n.lineno}",
                     f"{where} imports {d}, which does not exist")


def has_member(prog, m, name):
    if prog.resolve_module_attr(m, name) is not None:
        return True
    if name in m.names or name in m.imports or name in MODNAMES:
        return True
    if f"{m.name}.{name}" in prog.modules:
        return True
    if "__getattr__" in m.functions:
        return True
    return any(s not in prog.modules for s in m.stars)


# ----------------------------------------------------- attributes of self
def self_attrs(ctx, rep):
    prog = ctx.prog
    stored = set()
    dynamic = set()             # classes whose attributes are set by name
    for m in prog.modules.values():
        if m.vendored:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                stored.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "setattr" and \
                    len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                stored.add(n.args[1].value)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "setattr":
                f = prog.enclosing_func(n)
                if f is not None:
                    g = f
                    while g is not None and g.cls is None:
                        g = g.parent
                    if g is not None:
                        dynamic.add(g.cls.qual)
                # setattr(obj, name, ...) from outside, or a dictionary of
                # names: uppercase names may be anything
    for c in prog.classes.values():
        if c.module.vendored:
            continue
        names = known_members(prog, c)
        if names is None or any(
                "dataclass" not in ast.unparse(d)
                for d in c.node.decorator_list):
            continue
        for f in c.methods.values():
            if f.is_static or not f.param_names():
                continue
            slf = f.param_names()[0]
            if any(isinstance(d, ast.Name) and d.id == "classmethod"
                   for d in f.decorators):
                pass
            for n in own_walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id == slf:
                    rep.count("attributes of self")
                    if n.attr in names or n.attr in stored or \
                            n.attr.startswith("__") or \
                            n.attr in ("keys", "index"):
                        continue
                    if guarded(n, slf):
                        continue
                    if c.qual in dynamic and n.attr.upper() == n.attr:
                        continue
                    rep.find("C11.ref", f"{f.qual}|self.{n.attr}",
                             f"{f.file}:{n.lineno}",
                             f"{f.qual} uses {slf}.{n.attr}, which {c.name} "
                             f"never defines")
    typed_attrs(ctx, rep, stored)


def guarded(n, slf):
    x = n
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.Module)):
        if isinstance(x, (ast.If, ast.IfExp)) and any(
                isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and
                y.func.id == "hasattr" for y in ast.walk(x.test)):
            return True
        if isinstance(x, ast.Try):
            return True
        x = getattr(x, "_parent", None)
    return False


def known_members(prog, c: Class, seen=None):
    """names a class defines, None when a base is not known"""
    seen = seen or set()
    if c.qual in seen:
        return set()
    seen.add(c.qual)
    out = set(c.methods) | set(c.attrs)
    if "__getattr__" in c.methods or c.node.keywords:
        return None
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.add(st.target.id)
        elif not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if isinstance(x, ast.ClassDef):
                    out.add(x.name)
    for f in c.methods.values():
        for n in own_walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store):
                out.add(n.attr)
    for r in c.bases:
        if r is None:
            return None
        if r[0] == "class":
            b = known_members(prog, r[1], seen)
            if b is None:
                return None
            out |= b
        elif r == ("builtin", "object"):
            continue
        elif r[0] == "builtin" and hasattr(builtins, r[1]):
            out |= set(dir(getattr(builtins, r[1])))
        elif r[0] == "ext" and r[1] in ("abc.ABC", "typing.Protocol",
                                        "typing.Generic"):
            continue
        else:
            return None
    return out


def typed_attrs(ctx, rep, stored):
    """attributes of variables annotated with, or constructed from, an
    internal class"""
    prog, cg = ctx.prog, ctx.cg
    for func, mod, node in scopes(prog):
        if func is None:
            continue
        a = func.node.args
        anns = {x.arg: x.annotation for x in
                a.posonlyargs + a.args + a.kwonlyargs}
        for n in own_walk(node):
            if not (isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load) and isinstance(n.value, ast.Name)):
                continue
            r = prog.resolve_name(n.value.id, mod, func)
            if r is None or r[0] != "local" or r[1] is not func:
                continue
            if n.value.id in anns and anns[n.value.id] is None:
                continue
            ts = cg.expr_types(n.value, func, mod)
            if len(ts) != 1 or next(iter(ts))[0] != "inst":
                continue
            if n.value.id in anns and any(
                    isinstance(x, ast.Name) and x.id == n.value.id and
                    isinstance(x.ctx, ast.Store) for x in own_walk(node)):
                continue
            if n.value.id in anns and "Union" in ast.unparse(
                    anns[n.value.id]) or n.value.id in anns and isinstance(
                    anns[n.value.id], ast.BinOp):
                continue
            c = next(iter(ts))[1]
            if c.module.vendored:
                continue
            names = known_members(prog, c)
            if names is None:
                continue
            rep.count("attributes of typed variables")
            if n.attr in names or n.attr in stored or n.attr.startswith(
                    "__") or n.attr.upper() == n.attr or guarded(n, None):
                continue
            if any(n.attr in (known_members(prog, s) or {n.attr})
                   for s in prog.subclasses(c)):
                continue
            rep.find("C11.ref", f"{func.qual}|{n.value.id}.{n.attr}",
                     f"{mod.relpath}:{n.lineno}",
                     f"{func.qual} uses {n.value.id}.{n.attr}, which "
                     f"{c.name} never defines")


# ---------------------------------------------------------------- arguments
class Sig:
    def __init__(self, pos, defaults, kwonly, kwdef, var, kw, posonly=0):
        self.pos, self.defaults = pos, defaults     # names, set with default
        self.kwonly, self.kwdef = kwonly, kwdef
        self.var, self.kw = var, kw
        self.posonly = posonly


def sig_of(func, skip):
    a = func.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
    npos = len(a.posonlyargs)
    if skip:
        pos, npos = pos[1:], max(0, npos - 1)
    return Sig(pos, d, [x.arg for x in a.kwonlyargs],
               {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults)
                if v is not None}, a.vararg is not None,
               a.kwarg is not None, npos)


PLAIN_DECORATORS = {"functools.cache", "functools.lru_cache",
                    "functools.wraps", "staticmethod", "classmethod",
                    "property", "abc.abstractmethod",
                    "contextlib.contextmanager", "cache", "lru_cache"}


def signature_kept(prog, f):
    for d in f.decorators:
        e = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr_static(e, f.module, f.parent)
        if r is None or r[0] not in ("ext", "builtin") or \
                r[1] not in PLAIN_DECORATORS:
            return False
    return True


def class_sig(prog, c):
    """signature of a constructor; None when it is not known"""
    for d in c.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr_static(e, c.module, None)
        if r == ("ext", "dataclasses.dataclass"):
            return dataclass_sig(prog, c)
        return None
    if c.node.keywords:
        return None
    init = prog.find_method(c, "__init__")
    new = prog.find_method(c, "__new__")
    if new is not None:
        return None
    chain = mro_known(prog, c)
    if chain is None:
        return None
    if init is None:
        if any(r == "namedtuple" for r in chain):
            return namedtuple_sig(c)
        if chain:
            return None
        return Sig([], set(), [], set(), False, False)
    if not signature_kept(prog, init):
        return None
    return sig_of(init, True)


def mro_known(prog, c):
    """external bases of a class"""
    out = []
    for r in c.bases:
        if r is None:
            return None
        if r[0] == "class":
            b = mro_known(prog, r[1])
            if b is None:
                return None
            out += b
        elif r == ("builtin", "object") or r[0] == "ext" and r[1] in (
                "abc.ABC", "typing.Protocol", "typing.Generic"):
            continue
        elif r[0] == "ext" and r[1] == "typing.NamedTuple":
            out.append("namedtuple")
        else:
            out.append(r[1])
    return out


def fields(c):
    return [st for st in c.node.body if isinstance(st, ast.AnnAssign)
            and isinstance(st.target, ast.Name)
            and "ClassVar" not in ast.unparse(st.annotation)]


def namedtuple_sig(c):
    fs = fields(c)
    return Sig([x.target.id for x in fs],
               {x.target.id for x in fs if x.value is not None},
               [], set(), False, False)


def dataclass_sig(prog, c):
    if "__init__" in c.methods:
        return sig_of(c.methods["__init__"], True)
    if any(b and b[0] == "class" for b in c.bases):
        return None
    pos, d = [], set()
    for x in fields(c):
        v = x.value
        if isinstance(v, ast.Call):
            kws = {k.arg: k.value for k in v.keywords}
            i = kws.get("init")
            if isinstance(i, ast.Constant) and i.value is False:
                continue
            if isinstance(v.func, ast.Name) and v.func.id == "field" and \
                    not ({"default", "default_factory"} & set(kws)):
                pos.append(x.target.id)
                continue
        pos.append(x.target.id)
        if v is not None:
            d.add(x.target.id)
    return Sig(pos, d, [], set(), False, False)


def mismatch(sig, args, kws):
    """args/kws of a Call -> description of why it does not match"""
    star = any(isinstance(a, ast.Starred) for a in args)
    dstar = any(k.arg is None for k in kws)
    n = sum(not isinstance(a, ast.Starred) for a in args)
    if n > len(sig.pos) and not sig.var:
        return f"takes {len(sig.pos)} positional arguments but {n} are given"
    given = set(sig.pos[:n]) if not star else set()
    for k in kws:
        if k.arg is None:
            continue
        if k.arg in sig.pos[sig.posonly:] or k.arg in sig.kwonly:
            if k.arg in given:
                return f"gets {k.arg} twice"
            given.add(k.arg)
        elif not sig.kw:
            return f"does not accept an argument named {k.arg}"
    if star or dstar:
        return None
    for p in sig.pos:
        if p not in given and p not in sig.defaults:
            return f"is not given its argument {p}"
    for p in sig.kwonly:
        if p not in given and p not in sig.kwdef:
            return f"is not given its keyword argument {p}"
    return None


def calls(ctx, rep):
    prog, cg = ctx.prog, ctx.cg
    for func, mod, node in scopes(prog):
        where = func.qual if func else mod.name
        for n in own_walk(node):
            if not isinstance(n, ast.Call):
                continue
            for sig, name in targets(prog, cg, n, func, mod):
                rep.count("internal calls matched")
                why = sig.why if isinstance(sig, Always) else mismatch(
                    sig, n.args, n.keywords)
                if why:
                    rep.find("C11.args", f"{where}|{name}|{why}",
                             f"{mod.relpath}:{n.lineno}",
                             f"{where} calls {name}, which {why}")


def targets(prog, cg, n, func, mod):
    fe = n.func
    r = prog.resolve_expr_static(fe, mod, func)
    if r is not None:
        if r[0] == "func":
            f = r[1]
            if f.vendored and f.module is not mod and "pds4_read" not in \
                    f.name:
                pass
            if not signature_kept(prog, f) or reassigned(prog, f):
                return
            skip = False
            if f.cls is not None and not f.is_static:
                # Class.method: explicit self unless a classmethod
                skip = any(isinstance(d, ast.Name) and d.id == "classmethod"
                           for d in f.decorators)
            yield sig_of(f, skip), f.qual
        elif r[0] == "class":
            s = class_sig(prog, r[1])
            if s is not None and not r[1].module.vendored:
                yield s, r[1].qual
        elif r == ("ext", "functools.partial") and n.args:
            t = prog.resolve_expr_static(n.args[0], mod, func)
            if t and t[0] == "func" and signature_kept(prog, t[1]):
                s = sig_of(t[1], False)
                s.defaults = set(s.pos)
                s.kwdef = set(s.kwonly)
                f = t[1]
                why = mismatch(s, n.args[1:], n.keywords)
                if why:
                    yield Always(why), f.qual
        return
    if isinstance(fe, ast.Attribute):
        if isinstance(fe.value, ast.Call) and isinstance(
                fe.value.func, ast.Name) and fe.value.func.id == "super":
            return
        for t in cg.expr_types(fe.value, func, mod):
            if t[0] == "inst" and not t[1].module.vendored:
                m = prog.find_method(t[1], fe.attr)
                others = [prog.find_method(c, fe.attr)
                          for c in prog.subclasses(t[1])]
                if m is None or any(o is not m for o in others):
                    continue
                if not signature_kept(prog, m) or any(
                        isinstance(d, ast.Name) and d.id == "property"
                        for d in m.decorators):
                    continue
                if len(cg.expr_types(fe.value, func, mod)) > 1:
                    continue
                yield sig_of(m, not m.is_static), m.qual
    elif isinstance(fe, ast.Name):
        # a local that holds exactly one function
        ts = [t for t in cg.expr_types(fe, func, mod)]
        b = prog.resolve_name(fe.id, mod, func)
        if b and b[0] == "local" and len(ts) == 1 and ts[0][0] == "func":
            f = ts[0][1]
            if single(b[1], fe.id) and f.cls is None and signature_kept(
                    prog, f):
                yield sig_of(f, False), f.qual


class Always(Sig):
    def __init__(self, why):
        super().__init__([], set(), [], set(), True, True)
        self.why = why


def single(f, name):
    if name in f.all_param_names():
        return False
    n = 0
    for x in own_walk(f.node):
        if isinstance(x, ast.Name) and x.id == name and isinstance(
                x.ctx, ast.Store):
            n += 1
            st = getattr(x, "_parent", None)
            if not (isinstance(st, ast.Assign) and st.targets == [x] and
                    isinstance(st.value, (ast.Name, ast.Attribute,
                                          ast.Lambda))):
                return False
    return n == 1


def reassigned(prog, f):
    """defined more than once under its name"""
    if f.parent is not None or f.cls is not None:
        scope = f.parent.node if f.parent is not None else f.cls.node
    else:
        scope = f.module.tree
    n = 0
    for x in own_walk(scope):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                x.name == f.name:
            n += 1
        elif isinstance(x, ast.Name) and x.id == f.name and isinstance(
                x.ctx, ast.Store):
            n += 1
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            n += any((a.asname or a.name) == f.name for a in x.names)
    return n > 1


# ------------------------------------------------------------------ unbound
class Bound(PathDomain):
    def __init__(self):
        super().__init__()
        self.hits = {}


PURE_CALLS = {"isinstance", "len", "hasattr", "str", "int", "any", "all",
              "set", "callable", "issubclass", "type", "bool"}
PURE_METHODS = {"get", "startswith", "endswith", "upper", "lower", "strip",
                "keys", "is_file", "exists", "metaget", "metaget_", "values",
                "any", "all", "split"}


class Walk(Paths):
    """every local read on a path must be bound on it"""

    def __init__(self, prog, dom, func, relevant=None):
        super().__init__(prog, dom, budget=60_000)
        self.func = func
        self.relevant = relevant    # tests whose outcome is remembered
        self.locs = prog.local_names(func) - set(func.all_param_names())
        self.nonlocal_ = set()
        self.reads = 0

    def stable(self, n):
        """may two evaluations of this test be taken to agree?"""
        for x in ast.walk(n):
            if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom,
                              ast.NamedExpr, ast.Lambda)):
                return False
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in PURE_CALLS or \
                        isinstance(f, ast.Attribute) and f.attr in \
                        PURE_METHODS:
                    continue
                r = self.p.resolve_expr_static(f, self.func.module,
                                               self.func)
                if r and r[0] == "func":
                    continue
                return False
        return True

    def test(self, test, env, dom, fr):
        if isinstance(test, ast.BoolOp) or isinstance(
                test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return super().test(test, env, dom, fr)
        key, flip = self.norm(test)
        if self.relevant is not None and id(test) not in self.relevant or \
                not self.stable(test):
            out = []
            for v, e, d in self.ev(test, env, dom, fr):
                t = self.d.truth(v, d)
                out += [(b, e, d) for b in (
                    (True, False) if t is None else (t,))]
            return self.dd(out)
        names = tuple(sorted({n.id for n in ast.walk(test) if isinstance(
            n, ast.Name)}))
        tk = "$t:" + key
        out = []
        for v, e, d in self.ev(test, env, dom, fr):
            t = self.d.truth(v, d)
            if t is None and tk in e:
                t = e[tk][0] is not flip
            if t is None:
                t = self.excluded(test, e)
            for b in ((True, False) if t is None else (t,)):
                e2 = e
                if t is None:
                    e2 = dict(e)
                    e2[tk] = (b is not flip, names)
                    self.refine(test, b, e2, d, fr)
                    self.learn(test, b, e2, names)
                out.append((b, e2, d))
        return self.dd(out)

    def norm(self, test):
        """(canonical text, negated?)"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is,
                   ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
            for k, v in neg.items():
                if type(op) is k:
                    t = ast.Compare(test.left, [v()], test.comparators)
                    return ast.unparse(t), True
            # x is True / x is False are taken as the truth of x
        return ast.unparse(test), False

    def refine(self, test, b, env, dom, fr):
        if self.relevant is None or id(test) in self.relevant:
            super().refine(test, b, env, dom, fr)

    # equality facts: subject text -> known value / excluded values
    def members(self, test):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, rhs = test.ops[0], test.comparators[0]
            vals = None
            if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and \
                    isinstance(rhs, ast.Constant):
                vals = {rhs.value}
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                    rhs, (ast.Tuple, ast.List, ast.Set)) and all(
                    isinstance(x, ast.Constant) for x in rhs.elts):
                vals = {x.value for x in rhs.elts}
            if vals is not None:
                neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
                return ast.unparse(test.left), frozenset(vals), neg
        return None

    def learn(self, test, b, env, names):
        m = self.members(test)
        if m is None:
            return
        subj, vals, neg = m
        k = "$t:=" + subj
        old = env.get(k, (("all", frozenset()),))[0]
        if b is not neg:        # subject is one of vals
            if old[0] == "in":
                vals = vals & old[1]
            else:
                vals = vals - old[1]
            env[k] = (("in", vals), names)
        elif old[0] == "in":
            env[k] = (("in", old[1] - vals), names)
        else:
            env[k] = (("all", old[1] | vals), names)

    def excluded(self, test, env):
        m = self.members(test)
        if m is None:
            return None
        subj, vals, neg = m
        f = env.get("$t:=" + subj)
        if f is None:
            return None
        kind, known = f[0]
        if kind == "in":
            if not known & vals:
                return neg
            if known <= vals:
                return not neg
        elif vals <= known:
            return neg
        return None

    def e_Name(self, e, env, dom, fr):
        if isinstance(e.ctx, ast.Load) and e.id in self.locs and \
                fr.func is self.func and e.id not in env:
            self.reads += 1
            self.d.hits.setdefault(e.id, e)
            return []           # the path ends here
        return super().e_Name(e, env, dom, fr)

    def s_Import(self, st, env, dom, fr):
        env = dict(env)
        for a in st.names:
            env[a.asname or a.name.split(".")[0]] = None
        return [(env, dom)]

    s_ImportFrom = s_Import

    def s_ClassDef(self, st, env, dom, fr):
        env = dict(env)
        env[st.name] = None
        return [(env, dom)]

    def s_AugAssign(self, st, env, dom, fr):
        out = []
        if isinstance(st.target, ast.Name):
            ld = ast.Name(st.target.id, ast.Load())
            ast.copy_location(ld, st.target)
            if not self.ev(ld, env, dom, fr):
                return []
        for v, e, d in self.ev(st.value, env, dom, fr):
            out += self.assign(st.target, None, e, d, fr)
        return out

    def s_Match(self, st, env, dom, fr):
        out = []
        for v, e, d in self.ev(st.subject, env, dom, fr):
            rest = True
            for c in st.cases:
                e2 = dict(e)
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None) or getattr(x, "rest", None)
                    if isinstance(nm, str):
                        e2[nm] = None
                out += self.block(c.body, [(e2, d)], fr)
                if isinstance(c.pattern, ast.MatchAs) and \
                        c.pattern.pattern is None and c.guard is None:
                    rest = False
            if rest:
                out.append((e, d))
        return self.dd(out)

    def s_FunctionDef(self, st, env, dom, fr):
        env = dict(env)
        env[st.name] = None
        return [(env, dom)]

    def e_Lambda(self, e, env, dom, fr):
        return [(None, env, dom)]

    def trim(self, env):
        return {k: v if k.startswith("$") else None if not (
            isinstance(v, tuple) and v and v[0] == "k") else v
            for k, v in env.items()}

    # loops are taken to run at least once (zero-pass paths need facts about
    # the data that the text does not state)
    def s_For(self, st, env, dom, fr):
        out = []
        for v, e, d in self.ev(st.iter, env, dom, fr):
            inner = self.sub(fr)
            cur, done, after = [(e, d)], [], []
            for _ in range(3):
                nxt = []
                for e1, d1 in cur:
                    for e2, d2 in self.assign(st.target, None, self.drop(e1),
                                              d1, fr):
                        nxt += self.block(st.body, [(e2, d2)], inner)
                nxt += [(b[1], b[2]) for b in inner.out.continues]
                inner.out.continues = []
                cur = [(self.drop(x), y) for x, y in nxt]
                cur = self.dd(cur)
                new = [s for s in cur if s not in after]
                after = self.dd(after + cur)
                if not new:
                    break
                cur = new
            self.pass_up(inner, fr, loop=True)
            done = [(b[1], b[2]) for b in inner.out.breaks]
            out += self.block(st.orelse, after, fr) + done
        return self.dd(out)

    def s_While(self, st, env, dom, fr):
        inner = self.sub(fr)
        cur, after = [(env, dom)], []
        forever = isinstance(st.test, ast.Constant) and st.test.value
        for i in range(3):
            nxt = []
            for e1, d1 in cur:
                for t, e2, d2 in self.test(st.test, e1, d1, fr):
                    if t or i == 0:
                        nxt += self.block(st.body, [(self.drop(e2), d2)],
                                          inner)
            nxt += [(b[1], b[2]) for b in inner.out.continues]
            inner.out.continues = []
            cur = self.dd([(self.drop(x), y) for x, y in nxt])
            new = [s for s in cur if s not in after]
            after = self.dd(after + cur)
            if not new:
                break
            cur = new
        self.pass_up(inner, fr, loop=True)
        done = [(b[1], b[2]) for b in inner.out.breaks]
        res = [] if forever else after
        return self.dd(self.block(st.orelse, res, fr) + done)

    def comp(self, e, env, dom, fr, elts):
        env2 = dict(env)
        for g in e.generators:
            if not self.ev(g.iter, env2, dom, fr):
                return []
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    env2[x.id] = None
            for c in g.ifs:
                if not self.ev(c, env2, dom, fr):
                    return []
        if not self.evs(elts, env2, dom, fr):
            return []
        walrus = {x.target.id for x in ast.walk(e)
                  if isinstance(x, ast.NamedExpr)}
        if walrus:
            env = dict(env)
            for w in walrus:
                env[w] = None
        return [(None, env, dom)]

    def outcomes(self, r, env, dom, fr):
        return [(None, env, dom)]

    def call(self, t, recv, name, args, kwargs, node, env, dom, fr):
        if self.in_try:
            fr.out.raises.append(("?", env, dom))
        if t is not None and t[0] == "ext" and t[1] in (
                "sys.exit", "os._exit"):
            return []
        if t is not None and t[0] == "ext" and t[1] == \
                "contextlib.suppress":
            return super().call(t, recv, name, args, kwargs, node, env, dom,
                                fr)
        if t is not None and t[0] in ("class", "builtin"):
            return super().call(t, recv, name, args, kwargs, node, env, dom,
                                fr)
        return [(None, env, dom)]

    in_try = 0

    def s_Try(self, st, env, dom, fr):
        self.in_try += 1
        try:
            return super().s_Try(st, env, dom, fr)
        finally:
            self.in_try -= 1

    def e_Subscript(self, e, env, dom, fr):
        res = super().e_Subscript(e, env, dom, fr)
        if self.in_try and isinstance(e.ctx, ast.Load):
            for _, e2, d2 in res:
                fr.out.raises.append(("?", e2, d2))
        return res

    def e_Attribute(self, e, env, dom, fr):
        # module aliases imported locally
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id in self.locs and x.id not in env:
            return self.ev(x, env, dom, fr)
        return super().e_Attribute(e, env, dom, fr)


def exits(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise,
                                                  ast.Continue, ast.Break))


def guards(node):
    """[(test, polarity)] that hold wherever node runs, from the enclosing
    branches and the early exits before it"""
    out = []
    c = node
    while c is not None and not isinstance(c, (
            ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module)):
        p = getattr(c, "_parent", None)
        if isinstance(p, (ast.If, ast.IfExp)):
            body = p.body if isinstance(p.body, list) else [p.body]
            orelse = p.orelse if isinstance(p.orelse, list) else [p.orelse]
            if c in body:
                out.append((p.test, True))
            elif c in orelse:
                out.append((p.test, False))
        elif isinstance(p, ast.BoolOp):
            i = p.values.index(c)
            out += [(v, isinstance(p.op, ast.And)) for v in p.values[:i]]
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and c in blk:
                for st in blk[:blk.index(c)]:
                    if isinstance(st, ast.If):
                        if exits(st.body):
                            out.append((st.test, False))
                        elif exits(st.orelse):
                            out.append((st.test, True))
                    elif isinstance(st, ast.Assert):
                        out.append((st.test, True))
        c = p
    return [x for t, pol in reversed(out) for x in flatten(t, pol)]


def flatten(t, pol):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return flatten(t.operand, not pol)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) is pol:
        return [x for v in t.values for x in flatten(v, pol)]
    return [(t, pol)]


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m
        self.ok = True

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        self.ok = False
        return n


def entry_facts(prog, w, f, site):
    """facts about f's parameters that hold at one call of it"""
    call = site.node
    if not isinstance(call, ast.Call):
        return None
    pos = f.param_names()
    m = {}
    env = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return None
        if i < len(pos):
            if isinstance(a, ast.Name):
                m[a.id] = pos[i]
            elif isinstance(a, ast.Constant):
                env[pos[i]] = w.d.const(a.value)
    for k in call.keywords:
        if isinstance(k.value, ast.Name) and k.arg:
            m[k.value.id] = k.arg
        elif isinstance(k.value, ast.Constant) and k.arg:
            env[k.arg] = w.d.const(k.value.value)
    import copy
    caller = site.caller
    todo = list(guards(call))
    while todo:
        t, pol = todo.pop(0)
        if isinstance(t, ast.Name) and caller is not None:
            d = defined_as(caller, t.id)
            if d is not None:
                todo = flatten(d, pol) + todo
                continue
        for x in ast.walk(t):
            if isinstance(x, ast.Call):
                r = prog.resolve_expr_static(x.func, site.module, caller)
                if r is None and isinstance(x.func, ast.Attribute) and \
                        x.func.attr in PURE_METHODS:
                    continue
                if r is not None and r[0] in ("builtin", "ext"):
                    continue
                if {y.id for y in ast.walk(x) if isinstance(
                        y, ast.Name)} & set(m):
                    return "opaque"
        r = Rename(m)
        t2 = r.visit(copy.deepcopy(t))
        if not r.ok or not w.stable(t):
            continue
        names = tuple(sorted({n.id for n in ast.walk(t2) if isinstance(
            n, ast.Name)}))
        key, flip = w.norm(t2)
        env["$t:" + key] = (pol is not flip, names)
        w.learn(t2, pol, env, names)
    return env


def defined_as(f, name):
    """the one expression a local is assigned, if it is plainly assigned"""
    if name in f.all_param_names():
        return None
    out = []
    for x in own_walk(f.node):
        if isinstance(x, ast.Name) and x.id == name and isinstance(
                x.ctx, ast.Store):
            st = getattr(x, "_parent", None)
            out.append(st.value if isinstance(st, ast.Assign) and
                       st.targets == [x] else None)
    return out[0] if len(out) == 1 else None


def relevant(f, name):
    """ids of the tests of the branches that read or assign name"""
    out = set()
    for n in own_walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(
                isinstance(x, ast.Name) and x.id == name
                for x in ast.walk(n)):
            out |= {id(x) for x in ast.walk(n.test)}
    return out


def confirmed(ctx, f, name):
    """does the read survive what every caller guarantees?"""
    prog = ctx.prog
    sites = [s for s in ctx.cg.callers.get(f.qual, [])
             if s.kind == "call" and isinstance(s.node, ast.Call)]
    if not sites or f.cls is not None:
        return True
    rel = relevant(f, name)
    by_param = any(isinstance(n, ast.Name) and n.id in f.all_param_names()
                   for n in own_walk(f.node) if id(n) in rel)
    if not by_param:
        return True
    if len(sites) != len(ctx.cg.callers.get(f.qual, [])):
        return None
    unsure = False
    for s in sites:
        dom = Bound()
        w = Walk(prog, dom, f, relevant(f, name))
        facts = entry_facts(prog, w, f, s)
        if facts is None:
            return True
        if facts == "opaque":
            unsure = True
            continue
        env = {p: None for p in f.all_param_names()}
        env.update(facts)
        try:
            w.run(f, env, None)
        except Overflow:
            continue
        if name in dom.hits:
            return True
    return None if unsure else False


def unbound(ctx, rep, only=None):
    prog = ctx.prog
    for f in prog.own_funcs():
        if isinstance(f.node, ast.Lambda) or f.node is None:
            continue
        if only and f.qual != only:
            continue
        if any(isinstance(n, ast.Delete) and any(
                isinstance(t, ast.Name) for t in n.targets)
                for n in own_walk(f.node)):
            pass
        rep.count("functions walked for unbound locals")
        hits = walk(prog, f, set())
        if hits is None:
            rep.undecide(f"{f.qual}: too many paths")
            continue
        for name in sorted(hits):
            h2 = walk(prog, f, relevant(f, name))
            if h2 is None:
                rep.undecide(f"{f.qual}: {name}: too many paths")
                continue
            if name not in h2:
                continue
            sure = confirmed(ctx, f, name)
            if sure is None:
                rep.undecide(f"{f.qual}: {name}: depends on its callers")
            if not sure:
                continue
            n = h2[name]
            rep.find("C11.unbound", f"{f.qual}|{name}",
                     f"{f.file}:{n.lineno}",
                     f"{f.qual} reads {name} on a path where it was never "
                     f"assigned")


def walk(prog, f, rel):
    dom = Bound()
    try:
        Walk(prog, dom, f, rel).run(
            f, {p: None for p in f.all_param_names()}, None)
    except Overflow:
        return None
    return dom.hits


def check(ctx, rep, tier):
    rep.rule("C11.ref", "every name, module attribute, internal import and "
             "attribute of self resolves to a definition")
    rep.rule("C11.args", "every call whose internal target is known binds to "
             "that target's signature")
    rep.rule("C11.unbound", "no path through a function (branches with "
             "correlated tests, loops run at least once, calls inside try "
             "may raise) reads a local it has not assigned")
    refs(ctx, rep)
    self_attrs(ctx, rep)
    calls(ctx, rep)
    unbound(ctx, rep)
    rep.need("name references", 2000)
    rep.need("internal calls matched", 150)
    rep.need("functions walked for unbound locals", 200)
    rep.need("internal imports", 50)
