"""C02: a data object that cannot be loaded warns and falls back to metadata.

Data.load / Data.load_all are executed path by path with faults injected at
every locating or decoding step."""
from __future__ import annotations

import ast
import re

from ..domains import DATA
from ..paths import Overflow, PathDomain, Paths
from ..program import AnalysisError, own_walk

S = ("S",)
INDEX, DIR, UNL, MD, DICT = ("INDEX",), ("DIR",), ("UNLOADED",), ("MD",), (
    "DICT",)
FAULTS = ["ORD", "FileNotFoundError", "NotImplementedError", "KeyError",
          "ValueError", "OSError", "UnicodeDecodeError", "AttributeError",
          "TypeError", "IndexError", "NotADirectoryError",
          "KeyboardInterrupt"]
SAFE = {"metaget", "metaget_", "metablock", "metablock_"}
IO = {"open", "iterdir", "glob", "stat", "listdir", "scandir", "exists",
      "getsize"}
SEQ = {"list", "tuple", "sorted", "reversed", "set", "iter", "frozenset"}


class Load(PathDomain):
    def __init__(self, ctx, names, loaded, indexed, standard, inject,
                 leaf_load=None, ignored=None, listed=()):
        super().__init__()
        self.ctx, self.p = ctx, ctx.prog
        self.loaded, self.indexed = loaded, indexed
        self.standard = standard
        self.inject = inject
        self.leaf_load = leaf_load      # name index -> outcomes
        self.ignored = ignored or {}
        self.listed = listed
        self.data = ctx.prog.classes[DATA]
        self.sites = set()
        self._risky = {}

    # ------------------------------------------------------------- values
    def truth(self, v, dom):
        t = super().truth(v, dom)
        if t is None and isinstance(v, tuple) and v and v[0] in (
                "ref", "clos", "N", "S", "exc"):
            return True
        return t

    def name_ref(self, ref, node, dom, fr):
        if ref[0] == "global":
            es = [e for e in ref[1].assigns.get(ref[2], [])
                  if isinstance(e, ast.AST)]
            if len(es) == 1:
                try:
                    v = ast.literal_eval(es[0])
                    if isinstance(v, (list, set)):
                        v = tuple(v)
                    if isinstance(v, (str, int, tuple, bool)):
                        return ("k", type(v).__name__, v)
                except (ValueError, TypeError, SyntaxError):
                    pass
        return None

    def attr(self, v, name, node, dom, fr):
        if v == S:
            if name == "index":
                return INDEX
            if name == "standard":
                return ("k", "str", self.standard)
            if name == "debug":
                return ("k", "bool", False)
            if name == "metadata":
                return MD
            if name == "__dict__":
                return DIR
            m = self.p.find_method(self.data, name)
            if m is not None:
                return ("bm", m)
        return None

    def subscript(self, v, k, node, dom, fr):
        if v == INDEX or isinstance(v, tuple) and v and v[0] == "L":
            if isinstance(node.slice, ast.Slice):
                return [("ok", v, dom)]
        if v == MD:
            return self.risk(("META", k), node, dom, fr)
        if isinstance(v, tuple) and v and v[0] == "META":
            return self.risk(("META", None), node, dom, fr)
        return None

    def elements(self, v, dom):
        if v == INDEX:
            return self.listed or None
        if v == UNL:
            return tuple(n for n in self.listed if self.indexed[n[1]] and
                         not self.loaded[n[1]]) if self.listed else None
        if isinstance(v, tuple) and v:
            if v[0] == "L":
                return v[1]
            if v[0] == "k" and isinstance(v[2], tuple):
                return tuple(self.const(x) for x in v[2])
        return None

    def element(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "META":
            return ("META", None)
        return None

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list"):
            return ("L", tuple(vals))
        return None

    def comp(self, e, vs, dom):
        return None

    def compare(self, op, a, b, node, dom, fr):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b, dom)
            return None if r is None else (
                r if isinstance(op, ast.In) else not r)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x and x[0] == "N" and isinstance(
                        y, tuple) and y and y[0] in ("k", "N"):
                    if y[0] == "N":
                        eq = x == y
                    elif y[2] == "all" or not isinstance(y[2], str):
                        eq = False
                    else:
                        return None
                    return eq if isinstance(op, (ast.Eq, ast.Is)) else not eq
        return None

    def member(self, a, b, dom):
        if isinstance(a, tuple) and a and a[0] == "N":
            i = a[1]
            if b in (INDEX, S):
                return self.indexed[i]
            if b in (DIR, DICT):
                if self.loaded[i]:
                    return True
                return None if "setany" in dom or "setmeta" in dom else False
            if b == UNL:
                return self.indexed[i] and not self.loaded[i]
        if isinstance(a, tuple) and a and a[0] == "k":
            if a[2] == "all" and b in (INDEX, DIR, S, UNL):
                return False
            if a[2] == "PDS3" and b is None or isinstance(
                    b, tuple) and b and b[0] == "ref" and a[2] == "PDS3":
                return False
        return None

    # -------------------------------------------------------------- events
    def risk(self, val, node, dom, fr, label=None):
        out = [("ok", val, dom)]
        if self.inject and not any(x.startswith("inj") for x in dom):
            self.sites.add((fr.func.qual, ast.unparse(node)[:60]))
            w = f"{fr.func.file}:{node.lineno} `{ast.unparse(node)[:60]}`"
            for f in FAULTS:
                out.append(("raise", f, dom | {f"inj|{f}|{w}"}))
        return out

    def risky(self, func):
        if func.qual not in self._risky:
            r = False
            for q in self.ctx.cg.reach([func]):
                f = self.p.funcs.get(q)
                if f is None:
                    continue
                for n in own_walk(f.node):
                    if isinstance(n, (ast.Raise, ast.Assert)):
                        r = True
                    elif isinstance(n, ast.Call):
                        g = n.func
                        nm = g.attr if isinstance(g, ast.Attribute) else \
                            getattr(g, "id", "")
                        if nm in IO:
                            r = True
            self._risky[func.qual] = r
        return self._risky[func.qual]

    def set_(self, dom, name, val):
        if isinstance(name, tuple) and name and name[0] == "N" and \
                isinstance(val, tuple) and val and val[0] == "META" and \
                val[1] == name:
            return dom | {"setmeta"}
        return dom | {"setany"}

    def store_attr(self, base, attr, val, node, dom, fr):
        return dom | {"setany"} if base == S and attr not in (
            "loaders", "file_mapping", "tracker") else dom

    def store_item(self, base, k, val, node, dom, fr):
        if base == DIR:
            return self.set_(dom, k, val)
        return dom

    def call(self, t, recv, name, args, kwargs, node, dom, fr):
        if isinstance(recv, tuple) and recv and recv[0] == "bm" and t is None:
            recv, name = S, recv[1].name
        allv = list(args) + list(kwargs.values())
        if t is None and recv == S:
            if name in SAFE:
                return [("ok", ("META", args[0] if args else None), dom)]
            if name == "load" and self.leaf_load is not None:
                n = args[0] if args else kwargs.get("name")
                if isinstance(n, tuple) and n and n[0] == "N":
                    d = dom | {f"attempt{n[1]}"}
                    return [("ok", self.const(None), d) if o == "ok" else
                            ("raise", o, d) for o in self.leaf_load[n[1]]]
                return None
            if name in ("__dir__",):
                return [("ok", DIR, dom)]
            if name == "__setattr__" and len(args) == 2:
                return [("ok", None, self.set_(dom, args[0], args[1]))]
            if name == "unloaded":
                return [("ok", UNL, dom)]
            if name == "__contains__" and args:
                r = self.member(args[0], INDEX, dom)
                return [("ok", self.const(r) if r is not None else None,
                         dom)]
            m = self.p.find_method(self.data, name)
            if m is not None:
                return ("inline", m, S)
            return None
        if t is None and recv == MD:
            return [("ok", ("META", args[0] if args else None), dom)]
        if t is not None and t[0] == "builtin":
            n = t[1]
            if n == "dir" and args == [S] or n == "vars" and args == [S]:
                return [("ok", DIR, dom)]
            if n == "setattr" and len(args) == 3 and args[0] == S:
                return [("ok", None, self.set_(dom, args[1], args[2]))]
            if n == "isinstance" and len(args) == 2 and isinstance(
                    args[0], tuple) and args[0] and args[0][0] == "N":
                r = self.name_isinstance(node.args[1], fr)
                return None if r is None else [("ok", self.const(r), dom)]
            if n in SEQ and len(args) == 1 and self.elements(
                    args[0], dom) is not None:
                return [("ok", args[0], dom)]
            if n in SEQ and args and args[0] in (DIR, INDEX):
                return [("ok", args[0], dom)]
            if n == "enumerate" and args:
                els = self.elements(args[0], dom)
                if els is not None:
                    return [("ok", ("L", tuple(
                        ("L", (self.const(i), x)) for i, x in enumerate(
                            els))), dom)]
            if n == "filter" and len(args) == 2:
                return self.filter(args, dom, fr)
            return None
        if t is not None and t[0] == "ext":
            if t[1].startswith("warnings.warn"):
                return [("ok", None, dom | {"warn"})]
            if t[1] in ("re.match", "re.search", "re.fullmatch") and len(
                    args) > 1:
                return self.regex(args[1], dom)
            if t[1] in ("itertools.filterfalse",) and len(args) == 2:
                return self.filter(args, dom, fr, True)
            return None
        if name in ("match", "search", "fullmatch") and args and t is None:
            return self.regex(args[0], dom)
        if name == "copy" and recv in (INDEX, UNL):
            return [("ok", recv, dom)]
        if t is not None and t[0] == "func":
            f = t[1]
            if f.vendored:
                return None
            if f.cls is not None and f.cls.qual == DATA or \
                    f.module.name == self.data.module.name:
                return ("inline", f, None)
            if S in allv or self.risky(f):
                return self.risk(None, node, dom, fr)
            return ("inline", f, None)
        if t is not None and t[0] == "class":
            if S in allv:
                return self.risk(None, node, dom, fr)
            return None
        if S in allv:       # an unknown callee given the product: a loader
            return self.risk(None, node, dom, fr)
        return None

    def name_isinstance(self, e, fr):
        """an object name is a str"""
        if isinstance(e, ast.Tuple):
            rs = [self.name_isinstance(x, fr) for x in e.elts]
            return True if True in rs else None if None in rs else False
        r = self.p.resolve_expr_static(e, fr.module, fr.func)
        if r is None:
            return None
        if r[0] == "builtin":
            return r[1] in ("str", "object")
        if r[0] == "ext":
            tail = r[1].split(".")[-1]
            if tail in ("Sequence", "Collection", "Iterable", "Hashable",
                        "Container", "Sized", "Reversible"):
                return True
            if tail in ("Path", "PurePath", "Mapping", "Set", "MutableSet",
                        "MutableMapping", "MutableSequence", "Number",
                        "ndarray", "Integral"):
                return False
            return None
        if r[0] == "class":
            return False
        return None

    def regex(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "N" and \
                v[1] in self.ignored:
            return [("ok", ("ref", "match") if self.ignored[v[1]] else
                     self.const(None), dom)]
        return None

    def filter(self, args, dom, fr, neg=False):
        els = self.elements(args[1], dom)
        f = args[0]
        if els is None:
            return None
        keep = []
        for x in els:
            r = None
            if isinstance(f, tuple) and f and f[0] == "clos":
                bound = self.x.bind(f[1], [x], {})
                res = self.x.run(f[1], bound, dom, fr.depth + 1, dict(f[2]))
                ts = {self.truth(v, d) for k, v, d in res if k == "return"}
                if len(ts) == 1:
                    r = ts.pop()
            elif isinstance(f, tuple) and f[:2] == ("ref", "func"):
                bound = self.x.bind(f[2], [x], {})
                res = self.x.run(f[2], bound, dom, fr.depth + 1)
                ts = {self.truth(v, d) for k, v, d in res if k == "return"}
                if len(ts) == 1:
                    r = ts.pop()
            if r is None:
                return None
            if r is not neg:
                keep.append(x)
        return [("ok", ("L", tuple(keep)), dom)]


def check(ctx, rep, tier):
    rep.rule("C02.fallback", "on every path through loading a PDS3 object on "
             "which one locating or decoding step raises an ordinary "
             "exception, loading returns after a warning with the object set "
             "to its own label metadata")
    rep.rule("C02.interrupt", "a keyboard interrupt raised by any step "
             "leaves the loading call")
    rep.rule("C02.refuse", "loading an unknown name raises KeyError, loading "
             "a loaded one without reload raises AlreadyLoadedError, on "
             "every path and before any locating or decoding step")
    rep.rule("C02.all", "load-all attempts every object that is not an "
             "ignored description file, whether or not an earlier one was "
             "already loaded")
    prog = ctx.prog
    data = prog.classes.get(DATA)
    load = data.methods.get("load") if data else None
    if load is None:
        raise AnalysisError("C02: Data.load not found")
    ale = next((c.qual for c in prog.classes.values()
                if c.name == "AlreadyLoadedError"), None)
    E = frozenset()
    N0, N1 = ("N", 0), ("N", 1)
    pn = load.param_names()
    where = f"{load.file}:{load.line}"

    def run(dom, bound, func=load):
        x = Paths(prog, dom)
        b = {n: None for n in func.all_param_names()}
        a = func.node.args
        for n, d in list(zip(func.param_names()[::-1], a.defaults[::-1])) + [
                (k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults)]:
            if isinstance(d, ast.Constant):
                b[n] = dom.const(d.value)
        b[func.param_names()[0]] = S
        b.update({k: v for k, v in bound.items() if k in b})
        try:
            return x.run(func, b, E), x
        except Overflow:
            rep.undecide(f"{func.qual}: too many paths")
            return [], x

    # ---- fallback
    for reload in (False, True):
        dom = Load(ctx, 1, [reload], [True], "PDS3", True)
        res, x = run(dom, {pn[1]: N0, "reload": dom.const(reload)})
        rep.count("paths through loading a PDS3 object", len(res))
        if not reload:
            rep.count("locating and decoding steps given a fault",
                      len(dom.sites))
            for s in sorted(dom.sites):
                rep.sample(f"fault injected at {s[0]}: {s[1]}", 20)
            rep.count("functions followed", len(x.functions))
        for kind, v, ev in res:
            inj = [e for e in ev if e.startswith("inj|")]
            if not inj:
                if kind == "raise":
                    rep.find("C02.fallback", f"{load.qual}|raises|{v}",
                             where, f"{load.qual}: raises {v} for an object "
                             f"of the product although no step failed")
                continue
            _, exc, site = inj[0].split("|", 2)
            key = f"{load.qual}|{site.split(' ', 1)[1]}"
            if exc == "KeyboardInterrupt":
                if kind == "return":
                    rep.find("C02.interrupt", key, where,
                             f"{load.qual}: a keyboard interrupt at {site} "
                             f"is swallowed")
                continue
            if kind == "raise":
                rep.find("C02.fallback", key + "|escapes", where,
                         f"{load.qual}: {_n(exc)} raised at {site} leaves "
                         f"the loading call as {v}")
                continue
            if "setany" in ev:
                continue
            if "warn" not in ev:
                rep.find("C02.fallback", key + "|silent", where,
                         f"{load.qual}: {_n(exc)} raised at {site} is not "
                         f"reported by a warning")
            if "setmeta" not in ev:
                rep.find("C02.fallback", key + "|unset", where,
                         f"{load.qual}: after {_n(exc)} raised at {site} the "
                         f"object is not set to its label metadata")
    rep.need("locating and decoding steps given a fault", 2)

    # ---- refusals
    for std in ("PDS3", "PDS4", "FITS", "TIFF"):
        dom = Load(ctx, 1, [False], [False], std, True)
        res, _ = run(dom, {pn[1]: N0})
        for kind, v, ev in res:
            rep.count("refusal paths")
            if kind != "raise" or "KeyError" not in _mro(prog, v) or any(
                    e.startswith("inj") for e in ev):
                rep.find("C02.refuse", f"unknown|{std}|{kind}|{v}", where,
                         f"{load.qual}: an unknown name is not refused with "
                         f"KeyError ({kind} {v or ''}, {std} product)")
        dom = Load(ctx, 1, [True], [True], std, True)
        res, _ = run(dom, {pn[1]: N0, "reload": dom.const(False)})
        for kind, v, ev in res:
            rep.count("refusal paths")
            if kind != "raise" or v != ale or any(
                    e.startswith("inj") for e in ev):
                rep.find("C02.refuse", f"loaded|{std}|{kind}|{v}", where,
                         f"{load.qual}: a loaded name is not refused with "
                         f"AlreadyLoadedError ({kind} {v or ''}, {std} "
                         f"product)")
        dom = Load(ctx, 1, [True], [True], std, False)
        res, _ = run(dom, {pn[1]: N0, "reload": dom.const(True)})
        for kind, v, ev in res:
            if kind == "raise" and v == ale:
                rep.find("C02.refuse", f"reload|{std}", where,
                         f"{load.qual}: a requested reload is refused")

    # ---- load all
    la = data.methods.get("load_all")
    if la is not None:
        for via, func, bound in (("load_all", la, {}),
                                 ("load('all')", load, {pn[1]: (
                                     "k", "str", "all")})):
            for o0 in (["ok"], [ale]):
                for ign in ({0: False, 1: False}, {0: True, 1: False},
                            {0: False, 1: True}):
                    dom = Load(ctx, 2, [o0 == [ale], False], [True, True],
                               "PDS3", False, [o0, ["ok"]], ign, (N0, N1))
                    x = None
                    if func is load:
                        # the outer call is the root, inner ones are leaves
                        pass
                    res, x = run(dom, bound, func)
                    rep.count("load-all paths", len(res))
                    for kind, v, ev in res:
                        _judge_all(rep, la, via, kind, v, ev, ign,
                                   o0 == [ale])
        rep.need("load-all paths", 6)
    pat = ignored_pattern(prog)
    if pat is None:
        rep.undecide("the pattern of ignored objects")
    else:
        p, f, line = pat
        rx = re.compile(p)
        rep.count("names tried against the ignore pattern", len(IGN + KEEP))
        for n in IGN:
            if not rx.match(n):
                rep.find("C02.all", f"pattern|{n}", f"{f}:{line}",
                         f"the ignore pattern {p!r} does not cover {n}")
        for n in KEEP:
            if rx.match(n):
                rep.find("C02.all", f"pattern|{n}", f"{f}:{line}",
                         f"the ignore pattern {p!r} makes load-all skip {n}")


IGN = ["DATA_SET_MAP_PROJECTION", "DATA_SET_MAP_PROJECTION_CATALOG",
       "INSTRUMENT_DESC", "IMAGE_DESC", "DESCRIPTION", "DESCRIPTION_1",
       "TABLE_DESCRIPTION", "SOFTWARE_DESCRIPTION_22"]
KEEP = ["IMAGE", "TABLE", "DESC_TABLE", "DESCRIPTION_TABLE", "HEADER",
        "IMAGE_MAP_PROJECTION", "DESCRIPTOR", "SPECTRUM", "TEXT", "QUBE",
        "DESCRIPTIVE_STATISTICS", "MAP_PROJECTION_IMAGE", "LABEL"]


def _n(exc):
    return "an ordinary exception" if exc == "ORD" else exc


def _mro(prog, exc):
    return Paths(prog, PathDomain()).mro(exc) if isinstance(exc, str) else ()


def _judge_all(rep, la, via, kind, v, ev, ign, first_loaded):
    where = f"{la.file}:{la.line}"
    case = ("with the first object already loaded" if first_loaded
            else "") or "with nothing loaded"
    if kind == "raise":
        rep.find("C02.all", f"{via}|raise|{v}|{first_loaded}", where,
                 f"{la.qual} ({via}): raises {v} {case}")
        return
    for i in (0, 1):
        if ign[i] is False and f"attempt{i}" not in ev and not (
                i == 0 and first_loaded):
            rep.find("C02.all", f"{via}|skip|{i}|{first_loaded}|{ign}", where,
                     f"{la.qual} ({via}): an object is not attempted {case}")
        if ign[i] is True and f"attempt{i}" in ev:
            rep.find("C02.all", f"{via}|ignored|{i}", where,
                     f"{la.qual} ({via}): an ignored object is attempted")


def ignored_pattern(prog):
    """the compiled pattern load-all tests names with, folded from source"""
    from .c07 import Fold
    from ..flow import Interp
    m = prog.modules.get("pdr.loaders.dispatch")
    if m is None:
        return None
    dom = Fold(lambda *a: None)
    it = Interp(prog, dom)
    for name, es in m.assigns.items():
        for e in es:
            if isinstance(e, ast.Call):
                r = prog.resolve_expr_static(e.func, m, None)
                if r and r[0] == "ext" and r[1] == "re.compile":
                    v = it.module_expr(e.args[0], m)
                    s = v.strs()
                    if s and len(s) == 1 and "DESC" in next(iter(s)):
                        return next(iter(s)), m.relpath, e.lineno
    return None
