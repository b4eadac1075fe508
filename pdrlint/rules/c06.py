"""C06: loading objects never alters the label metadata."""
from __future__ import annotations

import ast

from ..domains import Alias, DATA, META, inst, data_param
from ..flow import AV, Interp, TOP, K
from ..program import unparse

ACCESSORS = {"metaget", "metaget_", "metablock", "metablock_",
             "metaget_fuzzy", "_metaget_interior", "_metablock_interior"}
LABEL_ATTRS = {"metadata", "identifiers", "_metaget_interior",
               "_metablock_interior"}


FRAME = AV(unk=True, insts=frozenset(["%pandas"]))


class Meta(Alias):
    KIND = "label"
    value_insts = frozenset(["%pandas"])

    def __init__(self, rep):
        super().__init__()
        self.rep = rep
        self.events = 0
        self.sources = set()
        self.reported = {}

    # single label values (numbers, strings) stored next to fresh nested
    # blocks do not make those blocks part of the label
    def hold_tags(self, v):
        return frozenset(t for t in self.container_tags([v])
                         if not (t[1] == 1 and t[2].startswith("metaget")))

    # table frames copy what is stored in them
    def frame(self, v):
        return "%pandas" in v.insts and not v.tags

    def subscript(self, recv, key, node, caller):
        if self.frame(recv):
            return FRAME
        return None

    def ext_call(self, name, args, kwargs, node, caller):
        if name.startswith("pandas."):
            return FRAME
        return super().ext_call(name, args, kwargs, node, caller)

    # -- sources
    def param(self, func, name):
        return data_param(name)

    def label(self, node, caller, what):
        if node is not None and caller is not None:
            self.sources.add((caller.file, getattr(node, "lineno", 0)))
        return AV(tags=frozenset([(self.KIND, 0, what)]), unk=True)

    def own_call(self, func, bound, node, caller):
        if func.cls is not None and func.cls.qual in (DATA, META) and \
                func.name in ACCESSORS:
            v = self.label(node, caller, func.name)
            if "default" in bound:
                v = self.it.J(v, bound["default"])
            return v
        return None

    def method(self, recv, name, args, kwargs, node, caller):
        if self.frame(recv):
            return FRAME
        if name in ACCESSORS and (recv.insts & {DATA, META} or recv.unk
                                  or recv.tags):
            v = self.label(node, caller, name)
            for a in args[1:2] + ([kwargs["default"]] if "default" in kwargs
                                  else []):
                v = self.it.J(v, a)
            return v
        return None

    def attr(self, recv, name, node, caller):
        if self.frame(recv):
            return FRAME
        if name == "metadata" and (DATA in recv.insts):
            return AV(tags=frozenset([(self.KIND, 0, "metadata")]),
                      insts=frozenset([META]))
        if name == "identifiers" and recv.insts & {DATA, META}:
            return self.label(node, caller, "identifiers")
        return None

    # -- events
    def exempt(self, caller):
        """building the metadata object itself"""
        while caller is not None:
            if caller.cls is not None and caller.cls.qual == META:
                return True
            if caller.name == "load_metadata_changes":
                return True
            caller = caller.parent
        return False

    def flag(self, hot, what, node, caller):
        if caller is None or self.exempt(caller):
            return
        key = f"{caller.qual}|{what}"
        loc = f"{caller.file}:{getattr(node, 'lineno', 0)}"
        origin = ", ".join(sorted({h[2] for h in hot}))
        chain = [s.qual for s in self.it.stack]
        if key not in self.reported:
            self.reported[key] = True
            self.rep.find(
                "C06.mutate", key, loc,
                f"{caller.qual}: {what} changes the label metadata "
                f"(obtained through {origin})",
                ["call chain: " + " -> ".join(chain)])

    def on_setitem(self, base, key, value, node, caller):
        self.events += 1
        h = self.hot(base)
        if h:
            self.flag(h, f"assignment to `{_txt(node)}`", node, caller)

    def on_setattr(self, base, attr, value, node, caller):
        self.events += 1
        h = self.hot(base)
        if h and not base.insts - {META}:
            self.flag(h, f"assignment to attribute `{_txt(node)}`", node,
                      caller)

    def on_delete(self, base, node, caller):
        self.events += 1
        h = self.hot(base)
        if h:
            self.flag(h, f"`{_txt(node)}`", node, caller)

    def on_mutator(self, recv, name, args, kwargs, node, caller):
        self.events += 1
        h = self.hot(recv)
        if h:
            self.flag(h, f"`.{name}(...)` on `{_txt(node.func.value)}`"
                      if isinstance(node, ast.Call) else name, node, caller)

    def on_aug(self, cur, value, node, caller):
        self.events += 1
        h = self.hot(cur)
        if h and isinstance(node.target, ast.Name) and (
                value.elts is not None and value.elts[0] in ("list", "set")
                or value.fields is not None):
            self.flag(h, f"`{unparse(node, 60)}`", node, caller)
            return cur
        return None


def _txt(node):
    if isinstance(node, ast.Delete):
        return unparse(node, 60)
    return unparse(node, 60)


def loader_roots(prog):
    base = prog.classes.get("pdr.loaders.datawrap.Loader")
    out = []
    if base is None:
        return out
    for c in prog.subclasses(base):
        out.append(c)
    return out


def run_loads(prog, dom):
    it = Interp(prog, dom)
    d = inst(DATA)
    roots = []
    data = prog.classes.get(DATA)
    if data is not None:
        for n, m in sorted(data.methods.items()):
            roots.append((m, {}))
    calls = []
    for q in ("pdr.read", "pdr.open", "pdr.fastread"):
        if q in prog.funcs:
            roots.append((prog.funcs[q], {}))
    for c in loader_roots(prog):
        init = prog.find_method(c, "__init__")
        call = prog.find_method(c, "__call__")
        if init is not None and len(init.param_names()) == 1:
            roots.insert(0, (init, {init.param_names()[0]: inst(c.qual)}))
        if call is not None:
            pn = call.param_names()
            a = {pn[0]: inst(c.qual)}
            if len(pn) > 1:
                a[pn[1]] = d
            roots.append((call, a))
    # everything else that loading reaches by name, with label-derived
    # arguments taken from the loaders' own wiring
    it.run_roots(roots)
    return it


def check(ctx, rep, tier):
    rep.rule("C06.mutate", "no statement reachable from loading assigns into, "
             "deletes from or calls a mutating method on a value that is "
             "(part of) the label metadata; copies are tracked by depth, so "
             "changing a nested block of a shallow copy counts")
    prog = ctx.prog
    dom = Meta(rep)
    it = run_loads(prog, dom)
    own = [q for q in it.entered]
    rep.count("functions analysed", len(own))
    rep.count("label reads", len(dom.sources))
    rep.count("mutation operations examined", dom.events)
    for q in sorted(own)[:8]:
        rep.sample({"function": q})
    rep.dbg = it
