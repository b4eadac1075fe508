"""C26: equivalent front doors behave identically.

The front doors and the accessors are interpreted on arguments nobody knows
anything about, and on metadata holding one key of every kind; what reaches
the product constructor, and what the accessors give, is compared."""
from __future__ import annotations

import ast

from ..absint import (AExc, AObj, Env, Ext, Fn, Inst, Machine, Model,
                      Undecided)
from ..frames import MD

DATA = "pdr.pdr.Data"
META = "pdr.pdr.Metadata"


class Arg(AObj):
    """an argument nothing is known about"""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return f"<{self.name}>"

    __repr__ = __str__


class Val(AObj):
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return f"<value of {self.name}>"

    __repr__ = __str__

    def a_isinstance(self, m, names):
        return False

    def a_truth(self, m):
        return True

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "==", "is not", "!="):
            return (other is self) is (op in ("is", "=="))
        return NotImplemented


class Cached(AObj):
    """functools.cache(f)"""

    def __init__(self, f):
        self.f, self.memo = f, {}

    def a_call(self, m, args, kw, node):
        key = (tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        for a in list(args) + list(kw.values()):
            if isinstance(a, (list, dict, set)):
                raise AExc("TypeError")
        for k, v in self.memo.items():
            if same(k, key):
                return v
        v = m.call_value(self.f, list(args), dict(kw), node)
        self.memo[key] = v
        return v

    def a_method(self, m, name, args, kw, node):
        if name == "cache_clear":
            self.memo.clear()
            return None
        return NotImplemented


def same(a, b):
    """equal the way a cache's key is"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, AObj) or isinstance(b, AObj):
        return a is b
    return a == b


def ident(a, b):
    if a is b:
        return True
    if isinstance(a, AObj) or isinstance(b, AObj):
        return False
    return type(a) is type(b) and isinstance(
        a, (str, int, float, bool, tuple, type(None))) and a == b


def check(ctx, rep, tier):
    rep.rule("C26.arguments", "read, open and fastread hand every argument "
             "they accept to the product constructor unchanged, and leave "
             "the others at the constructor's defaults; fastread gives the "
             "path as label and skips the existence check")
    rep.rule("C26.accessors", "the product's metadata accessors give what "
             "the metadata's own give, and the quiet variants differ only "
             "in not warning")
    rep.rule("C26.default", "a default of any kind is returned as given for "
             "a key the metadata does not hold")
    doors(ctx, rep)
    accessors(ctx, rep)


# ------------------------------------------------------------- front doors
class DoorModel(Model):
    def __init__(self):
        self.made = []

    def new(self, m, cls, args, kw, node):
        if cls.qual == DATA:
            v = Val("the product")
            m.event("made", list(args), dict(kw), v)
            return v
        return NotImplemented


def opened(prog):
    """what the package's `open` is: the last thing bound to it"""
    mod = prog.modules.get("pdr")
    if mod is None:
        return None
    if "pdr.open" in prog.funcs:
        return prog.funcs["pdr.open"]
    last = None
    for st in ast.walk(mod.tree):
        e = None
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == "open" or isinstance(
                        t, ast.Subscript) and isinstance(
                            t.slice, ast.Constant) and \
                        t.slice.value == "open" or isinstance(
                            t, ast.Attribute) and t.attr == "open":
                    e = st.value
        elif isinstance(st, ast.Call) and isinstance(
                st.func, ast.Name) and st.func.id == "setattr" and len(
                    st.args) == 3 and isinstance(
                        st.args[1], ast.Constant) and \
                st.args[1].value == "open":
            e = st.args[2]
        elif isinstance(st, ast.Call) and isinstance(
                st.func, ast.Attribute) and st.func.attr == "update":
            for k in st.keywords:
                if k.arg == "open":
                    e = k.value
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if (a.asname or a.name) == "open":
                    r = prog.resolve_module_attr(mod, "open")
                    return r[1] if r and r[0] == "func" else None
        if e is not None:
            last = e
    if last is None:
        return "missing"
    return last


def doors(ctx, rep):
    prog = ctx.prog
    init = prog.funcs.get(DATA + ".__init__")
    if init is None:
        rep.undecide("the product constructor was not found")
        return
    model = DoorModel()
    x = Machine(prog, model, steps=60_000)
    found = {}
    mod = prog.modules.get("pdr")
    names = {}
    for n in ("read", "fastread"):
        f = prog.funcs.get("pdr." + n)
        if f is None:
            r = prog.resolve_module_attr(mod, n) if mod else None
            f = r[1] if r and r[0] == "func" else None
        names[n] = f
    o = opened(prog)
    if o == "missing":
        found[("C26.arguments", "pdr.open|missing")] = (
            "pdr/__init__.py:1", "the package's `open` is not `read`")
    elif o is not None:
        names["open"] = o
    for n, f in names.items():
        if f is None:
            rep.undecide(f"pdr.{n} was not found as a function")
            continue
        door(rep, x, init, n, f, mod, found)
    for (rule, key), (w, msg) in sorted(found.items()):
        rep.find(rule, key, w, msg)


def door(rep, x, init, n, f, mod, found):
    prog = x.p
    ipars = [p for p in init.param_names(skip_self=True)]
    a = init.node.args
    ipars += [k.arg for k in a.kwonlyargs if k.arg not in ipars]
    first = ipars[0]
    if n == "fastread":
        order = ["fp", "debug", "search_paths"]
    else:
        order = ["fp", "debug", "label_fn", "search_paths",
                 "skip_existence_check"]
    forced = {"label_fn", "skip_existence_check"} if n == "fastread" else \
        set()
    optional = [p for p in ipars[1:] if p not in forced]

    def calls():
        yield [], {"fp": Arg("fp")}
        yield [Arg("fp")], {}
        for p in optional:
            yield [Arg("fp")], {p: Arg(p)}
        yield [Arg("fp")], {p: Arg(p) for p in optional}
        yield [Arg(p) for p in order], {
            p: Arg(p) for p in optional if p not in order}

    for args, kw in calls():
        rep.count("front-door calls")
        given = {**dict(zip(order, args)), **kw}

        def go(m, args=args, kw=kw):
            if isinstance(f, ast.AST):
                v = m.ev(f, Env(), mod, None)
            else:
                v = Fn(f)
            if not isinstance(v, (Fn,)) and not callable(v):
                raise Undecided("not a function")
            m.event("default", {
                k: m.ev(d, Env(), init.module, init)
                for k, d in defaults(init).items()})
            return m.call_value(v, list(args), dict(kw), None)
        what = ", ".join(k for k in given)
        where = "pdr/__init__.py:1" if isinstance(f, ast.AST) else \
            f"{f.file}:{f.line}"
        try:
            for p in x.paths(go, lambda m: ((), {})):
                rep.count("front-door paths")
                made = [e for e in p.events if e[0] == "made"]
                dflt = [e for e in p.events if e[0] == "default"]
                bad = judge(n, p, made, dflt[0][1] if dflt else {}, given,
                            ipars, first, forced)
                if bad:
                    found.setdefault(
                        ("C26.arguments", f"pdr.{n}|{bad[0]}"),
                        (where, f"pdr.{n}({what}): {bad[1]}"))
        except Undecided as e:
            rep.undecide(f"pdr.{n}({what}): {e}")


def defaults(init):
    a = init.node.args
    ps = a.posonlyargs + a.args
    out = {}
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def judge(n, p, made, dflt, given, ipars, first, forced):
    if p.kind == "raise":
        return "raises", f"raises {p.value.name}"
    if not made:
        return "no product", "does not construct a product"
    _, args, kw, v = made[-1]
    if p.value is not v:
        return "other result", "does not return the product it constructs"
    got = dict(zip(ipars, args))
    if len(args) > 1:
        return "raises", "gives the constructor more positional arguments " \
            "than it takes"
    for k, val in kw.items():
        if k in got:
            return "raises", f"gives the constructor {k} twice"
        if k not in ipars:
            return "raises", f"gives the constructor an unknown {k}"
        got[k] = val
    want = {first: given["fp"]}
    for k in ipars[1:]:
        if k in given:
            want[k] = given[k]
        elif k in forced:
            want[k] = given["fp"] if k == "label_fn" else True
        else:
            want[k] = dflt.get(k)
    for k in ipars:
        g = got[k] if k in got else dflt.get(k)
        if not ident(g, want[k]):
            said = "as given" if k in given or k == first else \
                "the path itself" if k == "label_fn" and forced else \
                f"{want[k]!r}"
            return k, f"the product gets {k} = {show(g)}, not {said}"
    return None


def show(v):
    return str(v) if isinstance(v, AObj) else repr(v)


# --------------------------------------------------------------- accessors
KEYS = {"ONE": 1, "TWO": 2, "NOTHING": 1, "BLOCK": 1, "BLOCKS": 3,
        "ZERO": 1, "EMPTY": 2}


class MetaModel(Model):
    def __init__(self):
        self.block, self.blocks = MD([("A", 1)]), MD([("A", 2)])
        self.values = {"ONE": Val("ONE"), "TWO": Val("TWO"), "NOTHING": None,
                       "ZERO": 0, "EMPTY": "",
                       "BLOCK": self.block, "BLOCKS": self.blocks}
        self.meta = None

    def ext_call(self, m, name, args, kw, node):
        last = name.split(".")[-1]
        if last == "dig_for_value" and len(args) >= 2 and isinstance(
                args[1], str):
            if args[0] is not self.meta:
                raise Undecided("looks into something else")
            return self.values.get(args[1])
        if name in ("functools.cache",) and args:
            return Cached(args[0])
        if name == "functools.lru_cache":
            if args and not isinstance(args[0], (int, type(None))):
                return Cached(args[0])
            return lambda f: Cached(f)
        if last == "countby" and len(args) == 2:
            return dict(KEYS)
        if name == "collections.Counter":
            return dict(KEYS)
        if name == "warnings.warn":
            c = args[1] if len(args) > 1 else kw.get("category")
            m.event("warn", getattr(c, "name", None) or getattr(
                getattr(c, "cls", None), "qual", None) or str(c))
            return None
        return NotImplemented

    def func_call(self, m, func, args, kw, node, me):
        if func.name == "_init_identifiers":
            return Val("identifiers")
        return NotImplemented


VARIANTS = [
    ("metaget", "metaget", True), ("metaget_", "metaget", False),
    ("metablock", "metablock", True), ("metablock_", "metablock", False)]


def forms(base, quiet, text, d):
    """(positional, keywords) of a call of the accessor, and of the loud
    call on the metadata it is equivalent to"""
    if base == "metaget":
        yield [text], {}
        yield [text, d], {}
        yield [text], {"default": d}
        yield [], {"text": text, "default": d}
        if not quiet:
            for w in (True, False):
                yield [text, d, w], {}
                yield [text], {"warn": w}
                yield [text, d], {"warn": w}
    else:
        yield [text], {}
        yield [], {"text": text}
        if not quiet:
            for w in (True, False):
                yield [text, w], {}
                yield [text], {"warn": w}


def accessors(ctx, rep):
    prog = ctx.prog
    data, meta = prog.classes.get(DATA), prog.classes.get(META)
    if data is None or meta is None:
        rep.undecide("the product or metadata class was not found")
        return
    found = {}
    x = None
    for text in list(KEYS) + ["ABSENT"]:
        for d in (Val("default"), None, [], 0, False):
            for name, base, loud in VARIANTS:
                if base == "metablock" and d is not None:
                    continue
                for args, kw in forms(base, not loud, text, d):
                    w = kw.get("warn", args[-1] if len(args) > (
                        2 if base == "metaget" else 1) else True)
                    model = MetaModel()
                    x = Machine(prog, model, steps=60_000)
                    one(rep, x, model, data, meta, name, base, loud, args,
                        kw, d if "default" in kw or len(args) > 1
                        and base == "metaget" else None, w is True and loud,
                        text, found)
    sequence(rep, prog, data, meta, found)
    for (rule, key), (w, msg) in sorted(found.items()):
        rep.find(rule, key, w, msg)


def build(m, model, data, meta):
    f = m.p.find_method(meta, "__init__")
    o = Inst(meta)
    model.meta = o
    if f is None:
        raise Undecided("no constructor")
    m.call_func(f, [o, (MD(), list(KEYS))], {}, None, None, o)
    return o, Inst(data, {
        "metadata": o, "index": ["LABEL"], "debug": False,
        "loaded_objects": [], "file_mapping": {}})


def call(m, o, name, args, kw):
    f = m.p.find_method(o.cls, name)
    if f is None:
        raise Undecided(f"no {name}")
    n = len(m.events)
    try:
        r = ("gives", m.call_func(f, [o, *args], dict(kw), None, None, o))
    except AExc as e:
        r = ("raises", e.name)
    return r, [e[1] for e in m.events[n:] if e[0] == "warn"]


def one(rep, x, model, data, meta, name, base, loud, args, kw, d, warns,
        text, found):
    rep.count("accessor calls")

    def go(m):
        o, p = build(m, model, data, meta)
        # the metadata's own loud accessor, told whether to warn
        ref, rw = call(m, o, base, [text] + (
            [d] if base == "metaget" else []), {"warn": warns})
        own, ow = call(m, o, name, args, kw)
        got, gw = call(m, p, name, args, kw)
        return ref, rw, own, ow, got, gw
    f = x.p.find_method(data, name)
    g = x.p.find_method(meta, name)
    shown = f"{name}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])})"
    try:
        for p in x.paths(go, lambda m: ((), {})):
            if p.kind == "raise":
                raise Undecided(f"raises {p.value.name}")
            ref, rw, own, ow, got, gw = p.value
            rep.count("accessor paths")
            for who, h, r, ws in (("Metadata", g, own, ow),
                                  ("Data", f, got, gw)):
                if r[0] != ref[0] or not ident(r[1], ref[1]) and not (
                        isinstance(r[1], list) and r[1] is ref[1]):
                    found.setdefault(
                        ("C26.accessors", f"{who}.{name}|result"),
                        (f"{h.file}:{h.line}", f"{who}.{shown} {r[0]} "
                         f"{show(r[1])} where the metadata's own accessor "
                         f"{ref[0]} {show(ref[1])}"))
                elif ws != rw:
                    found.setdefault(
                        ("C26.accessors", f"{who}.{name}|warning"),
                        (f"{h.file}:{h.line}", f"{who}.{shown} warns "
                         f"{len(ws)} times where it should {len(rw)}"))
            if base == "metaget" and text in ("ABSENT", "NOTHING"):
                r = ref
                if r[0] == "raises" or r[1] is not d and not (
                        text == "NOTHING" and r[1] is None):
                    h = x.p.find_method(meta, "metaget")
                    found.setdefault(
                        ("C26.default", "Metadata.metaget"),
                        (f"{h.file}:{h.line}", f"metaget with the default "
                         f"{show(d)} {r[0]} {show(r[1])}"))
            if base == "metaget" and text == "ONE" and ref[0] == "raises":
                h = x.p.find_method(meta, "metaget")
                found.setdefault(
                    ("C26.default", "Metadata.metaget"),
                    (f"{h.file}:{h.line}", f"metaget with the default "
                     f"{show(d)} raises {ref[1]}"))
    except Undecided as e:
        rep.undecide(f"{shown}: {e}")


def sequence(rep, prog, data, meta, found):
    """one call after another with other defaults"""
    for text in ("NOTHING", "ABSENT"):
        for a, b in ((0, False), (Val("d1"), Val("d2")), (1, True)):
            model = MetaModel()
            x = Machine(prog, model, steps=60_000)
            rep.count("accessor calls", 2)

            def go(m):
                o, p = build(m, model, data, meta)
                call(m, p, "metaget", [text, a], {})
                return call(m, p, "metaget", [text, b], {})[0]
            try:
                for p in x.paths(go, lambda m: ((), {})):
                    if p.kind == "raise":
                        raise Undecided(f"raises {p.value.name}")
                    if p.value[0] == "raises" or p.value[1] is not b and \
                            p.value[1] is not None:
                        h = prog.find_method(meta, "metaget")
                        found.setdefault(
                            ("C26.default", "Metadata.metaget"),
                            (f"{h.file}:{h.line}", "metaget gives an "
                             "earlier call's default instead of its own"))
            except Undecided as e:
                rep.undecide(f"metaget twice: {e}")
