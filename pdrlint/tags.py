"""Provenance along paths: every tracked value is a heap object carrying a
set of tags; copies derive, in-place operations extend.  A rule says which
calls add which tags and inspects the state at the points it cares about."""
from __future__ import annotations

import ast

from .paths import PathDomain

NONE = frozenset()
INPLACE = {"append", "extend", "insert", "update", "setdefault", "add",
           "sort", "reverse", "fill", "put", "resize", "setflags", "pop",
           "clear", "popitem", "remove", "discard", "__setitem__"}
PURE = {"len", "isinstance", "type", "print", "id", "hasattr", "bool",
        "range", "repr", "issubclass", "callable", "any", "all"}


class TagDomain(PathDomain):
    """state: (heap, facts, events), each a sorted tuple"""

    EMPTY = ((), (), ())

    def __init__(self, prog):
        super().__init__()
        self.p = prog

    # ------------------------------------------------------------- state
    def heap(self, dom):
        return dict(dom[0])

    def fact(self, dom, key):
        return dict(dom[1]).get(key)

    def with_fact(self, dom, key, val):
        f = dict(dom[1])
        if f.get(key, val) != val:
            return None
        f[key] = val
        return (dom[0], tuple(sorted(f.items(), key=repr)), dom[2])

    def event(self, dom, *ev):
        if ev in dom[2]:
            return dom
        return (dom[0], dom[1], dom[2] + (ev,))

    def ident(self, node, fr, extra=""):
        return (fr.func.qual if fr.func is not None else fr.module.name,
                getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                extra)

    def new(self, node, tags, dom, fr, extra=""):
        i = self.ident(node, fr, extra)
        return ("o", i), self.put(i, tags, dom)

    def put(self, i, tags, dom):
        h = dict(dom[0])
        h[i] = frozenset(tags)
        return (tuple(sorted(h.items(), key=lambda x: x[0])), dom[1], dom[2])

    def tags(self, v, dom):
        if not isinstance(v, tuple) or not v:
            return NONE
        if v[0] == "o":
            return dict(dom[0]).get(v[1], NONE)
        if v[0] == "t":
            return v[1]
        if v[0] == "L":
            out = NONE
            for x in v[1]:
                out |= self.tags(x, dom)
            return out
        if v[0] == "D":
            out = NONE
            for _, x in v[1]:
                out |= self.tags(x, dom)
            return out
        if v[0] == "b":
            return NONE
        return NONE

    def mark(self, v, tags, dom):
        """add tags in place"""
        if isinstance(v, tuple) and v and v[0] == "o":
            return self.put(v[1], dict(dom[0]).get(v[1], NONE) | set(tags),
                            dom)
        return dom

    # ------------------------------------------------------------- values
    def attr(self, val, name, node, dom, fr):
        if isinstance(val, tuple) and val and val[0] == "D":
            return None
        t = self.view(self.tags(val, dom), name)
        return ("t", t) if t else None

    def view(self, tags, name):
        """tags of a part of the object"""
        return tags

    def subscript(self, val, k, node, dom, fr):
        els = self.elements(val, dom)
        if isinstance(val, tuple) and val and val[0] == "D":
            if isinstance(k, tuple) and k and k[0] == "k":
                for kk, x in val[1]:
                    if kk == k:
                        return [("ok", x, dom)]
            return None
        if els is not None:
            if isinstance(k, tuple) and k and k[0] == "k" and isinstance(
                    k[2], int) and -len(els) <= k[2] < len(els):
                return [("ok", els[k[2]], dom)]
            return None
        t = self.view(self.tags(val, dom), None)
        if t:
            v, d = self.new(node, t, dom, fr)
            return [("ok", v, d)]
        return None

    def elements(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "L":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "k" and isinstance(
                v[2], tuple):
            return tuple(self.const(x) for x in v[2])
        return None

    def element(self, v, dom):
        t = self.view(self.tags(v, dom), None)
        return ("t", t) if t else None

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list", "set") and vals is not None:
            return ("L", tuple(vals))
        return None

    def comp(self, e, acc, dom):
        return None

    def build_dict(self, pairs, node, dom):
        out = []
        for k, v in pairs:
            if k is None:
                if isinstance(v, tuple) and v and v[0] == "D":
                    out += list(v[1])
                    continue
                return None
            k = k[0]
            if not (isinstance(k, tuple) and k and k[0] == "k"):
                return None
            out.append((k, v))
        return ("D", tuple(dict(out).items()))

    def negate(self, val):
        if isinstance(val, tuple) and val and val[0] == "b":
            return ("b", val[1], not val[2])
        return None

    def truth(self, val, dom):
        if isinstance(val, tuple) and val:
            if val[0] == "k":
                return bool(val[2])
            if val[0] == "b":
                f = self.fact(dom, val[1])
                return None if f is None else f is val[2]
            if val[0] in ("clos",):
                return True
        return None

    def branch(self, val, b, dom, fr):
        if isinstance(val, tuple) and val and val[0] == "b":
            return self.with_fact(dom, val[1], b is val[2])
        return dom

    def joined(self, vals, node, dom, fr):
        t = NONE
        for v in vals:
            t |= self.tags(v, dom)
        return t

    def binop(self, op, a, b, node, dom, fr):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == b[0] == "D" and isinstance(op, ast.BitOr):
                return ("D", tuple(dict(a[1] + b[1]).items()))
            if a[0] == b[0] == "L" and isinstance(op, ast.Add):
                return ("L", a[1] + b[1])
        t = self.on_binop(op, self.tags(a, dom), self.tags(b, dom), node,
                          dom, fr)
        return ("t", t) if t else None

    def on_binop(self, op, a, b, node, dom, fr):
        return a | b

    def augassign(self, op, old, val, node, dom, fr):
        t = self.on_binop(op, self.tags(old, dom), self.tags(val, dom), node,
                          dom, fr)
        if isinstance(old, tuple) and old and old[0] == "o":
            return old, self.put(old[1], t, dom)
        return (("t", t) if t else None), dom

    def joinstr(self, vals, node, dom):
        t = NONE
        for v in vals:
            t |= self.tags(v, dom)
        return ("t", t) if t else None

    def store_attr(self, base, attr, val, node, dom, fr):
        return self.mark(base, self.tags(val, dom), dom)

    def store_item(self, base, keyv, val, node, dom, fr):
        return self.mark(base, self.tags(val, dom), dom)

    def ctx_enter(self, val, node, dom, fr):
        return val, dom

    # -------------------------------------------------------------- calls
    def on_call(self, q, recv, name, args, kwargs, node, dom, fr):
        """q: qualified name of the callee when known.  -> list of outcomes,
        "inline", or None for the default"""
        return None

    def follow(self, f, args, kwargs, recv, dom):
        return not f.vendored and bool(self.joined(
            list(args) + list(kwargs.values()) + [recv], None, dom, None))

    def call(self, t, recv, name, args, kwargs, node, dom, fr):
        q = None
        if t is not None:
            if t[0] in ("func", "class"):
                q = t[1].qual
            elif t[0] in ("ext", "builtin"):
                q = t[1]
        method = t is None
        r = self.on_call(q, recv if method else None, name, args, kwargs,
                         node, dom, fr)
        if r == "inline" and t is not None and t[0] == "func":
            return ("inline", t[1], None)
        if r is not None and r != "inline":
            return r
        if t is not None and t[0] == "clos":
            return None
        if t is not None and t[0] == "func" and self.follow(
                t[1], args, kwargs, None, dom):
            return ("inline", t[1], None)
        vals = list(args) + list(kwargs.values()) + (
            [recv] if method else [])
        if t is not None and t[0] == "builtin":
            if t[1] in PURE:
                return [("ok", None, dom)]
            if t[1] in ("tuple", "list") and len(args) == 1 and \
                    self.elements(args[0], dom) is not None:
                return [("ok", ("L", self.elements(args[0], dom)), dom)]
            if t[1] == "dict" and not args and "*" not in kwargs:
                return [("ok", ("D", tuple(
                    (self.const(k), v) for k, v in kwargs.items())), dom)]
        tg = self.derive(q, name, vals, dom)
        if method and name in INPLACE or self.truthy(kwargs.get("inplace")):
            d = self.mark(recv, self.joined(list(args) + list(
                kwargs.values()), node, dom, fr), dom)
            return [("ok", ("t", tg) if tg else None, d)]
        if not tg:
            if t is not None and t[0] in ("class", "builtin"):
                return None
            return [("ok", None, dom)]
        v, d = self.new(node, tg, dom, fr)
        return [("ok", v, d)]

    def derive(self, q, name, vals, dom):
        t = NONE
        for v in vals:
            t |= self.tags(v, dom)
        return t

    def truthy(self, v):
        return isinstance(v, tuple) and bool(v) and v[0] == "k" and bool(v[2])


def arg(args, kwargs, i, *names):
    """positional i or any of the keyword names"""
    for n in names:
        if n in kwargs:
            return kwargs[n]
    if i is not None and i < len(args):
        return args[i]
    return None
