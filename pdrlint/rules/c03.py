"""C03: reading a product never writes to the filesystem."""
from __future__ import annotations

import ast

from .. import writes
from ..domains import DATA
from ..effects import Effects, Refs, load_roots, owner, short, where
from ..flow import AV, FALSE, Interp, NONE
from ..program import own_walk
from .c01 import _toplevel

EXPORT = {"dump_browse"}
PATHS = {"pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath",
         "pathlib.Path.cwd", "pathlib.Path.home"}
PATH_TO_PATH = {"absolute", "resolve", "with_suffix", "with_name",
                "joinpath", "expanduser", "relative_to", "with_stem",
                "parent"}


class Files(Effects):
    def ext_call(self, name, args, kwargs, node, caller):
        r = super().ext_call(name, args, kwargs, node, caller)
        if r is None and name in PATHS:
            return AV(unk=True, insts=frozenset(["%path"]))
        return r

    def method(self, recv, name, args, kwargs, node, caller):
        r = super().method(recv, name, args, kwargs, node, caller)
        if r is None and "%path" in recv.insts and not (
                recv.insts - {"%path"}):
            if name in PATH_TO_PATH or name in ("iterdir", "glob", "rglob"):
                return AV(unk=True, insts=frozenset(["%path"]))
            return AV(unk=True)
        return r

    def attr(self, recv, name, node, caller):
        r = super().attr(recv, name, node, caller)
        if r is None and "%path" in recv.insts:
            if name in ("parent", "parents"):
                return AV(unk=True, insts=frozenset(["%path"]))
            if not (recv.insts - {"%path"}) and name in (
                    "name", "stem", "suffix", "suffixes", "parts"):
                return AV(unk=True)
        return r

    def binop(self, op, a, b, node, caller):
        if isinstance(op, ast.Div) and ("%path" in a.insts
                                        or "%path" in b.insts):
            return AV(unk=True, insts=frozenset(["%path"]))
        return None


def own_methods(prog):
    return {m for c in prog.classes.values() if not c.module.vendored
            for m in c.methods}


def tracker_like(recv, node):
    f = node.func if isinstance(node, ast.Call) else None
    if isinstance(f, ast.Attribute):
        return "tracker" in ast.unparse(f.value).lower()
    return False


def check(ctx, rep, tier):
    rep.rule("C03.write", "nothing reachable from opening, loading, scaling "
             "or showing opens a file other than for reading, or calls an "
             "operation that creates, changes, renames or deletes files")
    rep.rule("C03.who", "filesystem changes occur only in code reachable "
             "from the browse export")
    rep.rule("C03.log", "the load log is only kept in debug mode")
    prog = ctx.prog
    own = own_methods(prog)
    box = []
    state = {"opens": 0, "und": 0}

    def flag(node, caller, what, rule="C03.write"):
        if caller is None:
            return
        if what == "?":
            state["und"] += 1
            rep.undecide(f"{caller.qual}: mode of `{short(node)}`")
            return
        rep.find(rule, f"{caller.qual}|{what}",
                 f"{caller.file}:{getattr(node, 'lineno', 0)}",
                 f"{caller.qual}: {what} (`{short(node)}`) while reading",
                 ["call chain: " + " -> ".join(box[0].chain())])

    def see(op, name, recv, args, kwargs, node, caller):
        if op == "ext":
            if name.split(".")[-1] in ("open", "memmap", "GzipFile",
                                       "BZ2File", "ZipFile"):
                state["opens"] += 1
            w = writes.ext_write(name, args, kwargs, node)
            if w:
                flag(node, caller, w)
        elif op == "method":
            if tracker_like(recv, node):
                return None
            w = writes.method_write(recv, name, args, kwargs,
                                    writes.is_path(recv), name in own)
            if w:
                flag(node, caller, w)
        return None

    dom = Files(see)
    box.append(dom)
    it = Interp(prog, dom)
    it.never_star = {"save"}
    roots = [(f, a) for f, a in load_roots(prog) if f.name not in EXPORT]
    it.run_roots(roots)
    rep.count("functions reachable from reading", len(it.entered))
    rep.count("operations examined", dom.ops)
    rep.count("file openings examined", state["opens"])
    rep.need("functions reachable from reading", 100)
    rep.need("file openings examined", 5)

    # who may write: everything else
    data = prog.classes.get(DATA)
    exp = [data.methods[n] for n in EXPORT if n in data.methods]
    exp += [f for f in prog.funcs.values()
            if f.module.name == "pdr.browsify" and f.parent is None]
    allowed = set(ctx.cg.reach(exp)) if exp else set()
    n = 0
    for q, f in sorted(prog.funcs.items()):
        if f.vendored or ".tests" in f.module.name or q in it.entered or \
                q in allowed:
            continue
        n += 1
        for node in own_walk(f.node):
            w = _syntactic(prog, node, f, f.module, own)
            if w and w != "?":
                rep.find("C03.who", f"{q}|{w}", f"{f.file}:{node.lineno}",
                         f"{q}: {w} (`{short(node)}`) outside the browse "
                         f"export")
    for m in prog.modules.values():
        if m.vendored or ".tests" in m.name:
            continue
        for node in _toplevel(m.tree):
            w = _syntactic(prog, node, None, m, own)
            if w and w != "?":
                rep.find("C03.who", f"{m.name}|{w}",
                         f"{m.relpath}:{node.lineno}",
                         f"{m.name}: {w} when the module is imported")
    rep.count("functions outside reading and export", n)

    # the load log
    init = data.methods.get("__init__")
    if init is not None and {"debug", "tracker"} <= set(
            init.all_param_names()):
        logs = []

        def see2(op, name, recv, args, kwargs, node, caller):
            if op == "ext" and name.split(".")[-1] == "Tracker":
                logs.append((node, caller))
            return None
        d2 = Effects(see2)
        Interp(prog, d2).call_root(init, {"debug": FALSE, "tracker": NONE})
        rep.count("constructor interpreted without debug mode", 1)
        for node, caller in logs:
            rep.find("C03.log", f"{caller.qual}|Tracker",
                     f"{caller.file}:{node.lineno}",
                     f"{caller.qual}: a load log is kept outside debug mode")


def _syntactic(prog, node, func, module, own):
    if not isinstance(node, ast.Call):
        return None
    r = prog.resolve_expr_static(node.func, module, func)
    if r and r[0] in ("ext", "builtin"):
        name = r[1] if r[0] == "ext" else "builtins." + r[1]
        args = [_const(a) for a in node.args]
        kw = {k.arg or "**": _const(k.value) for k in node.keywords}
        return writes.ext_write(name, args, kw, node)
    if r is None and isinstance(node.func, ast.Attribute):
        if tracker_like(None, node):
            return None
        args = [_const(a) for a in node.args]
        kw = {k.arg or "**": _const(k.value) for k in node.keywords}
        return writes.method_write(AV(unk=True), node.func.attr, args, kw,
                                   False, node.func.attr in own)
    return None


def _const(e):
    from ..flow import K, TOP
    if isinstance(e, ast.Constant):
        return K(e.value)
    return TOP
