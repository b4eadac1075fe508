"""C08: every file handle the library opens itself is closed on every path.

Typestate of handles over every path of every function that acquires one."""
from __future__ import annotations

import ast

from ..paths import Overflow, PathDomain, Paths
from ..program import own_walk

# external calls that acquire a handle; value: kind
ACQUIRE = {
    "open": "file", "io.open": "file", "io.FileIO": "file",
    "codecs.open": "file", "os.open": "fd", "os.fdopen": "file",
    "gzip.open": "file", "bz2.open": "file", "lzma.open": "file",
    "tarfile.open": "file", "mmap.mmap": "file", "os.popen": "file",
    "tempfile.TemporaryFile": "file", "tempfile.NamedTemporaryFile": "file",
    "PIL.Image.open": "image",
}
# constructors that open their first argument when it is a name, and leave a
# stream they are handed to whoever opened it
BYNAME = {"gzip.GzipFile": "fileobj", "bz2.BZ2File": None,
          "lzma.LZMAFile": None, "zipfile.ZipFile": None,
          "isal.igzip.GzipFile": "fileobj",
          "isal.igzip.IGzipFile": "fileobj", "PIL.Image.open": None}
# constructors whose close() closes the stream they are handed
WRAP = {"io.TextIOWrapper", "io.BufferedReader", "io.BufferedWriter",
        "io.BufferedRandom", "contextlib.closing", "os.fdopen"}
MEMORY = {"io.BytesIO", "io.StringIO"}
# calls that do not fail in ordinary use (so that code between acquiring and
# protecting a handle is not reported for them)
CALM = {"len", "isinstance", "str", "repr", "print", "type", "list", "dict",
        "tuple", "set", "bool", "range", "enumerate", "zip", "id", "hasattr",
        "issubclass", "callable", "pathlib.Path", "pathlib.PurePath",
        "warnings.warn", "io.BytesIO", "io.StringIO", "bytearray", "sorted",
        "getattr", "min", "max", "abs", "frozenset", "super"}
CALM_METHODS = {"lower", "upper", "strip", "append", "extend", "startswith",
                "endswith", "format", "copy", "keys", "values", "items",
                "get", "info", "debug", "warning", "is_file", "exists",
                "stem", "join", "replace", "split"}
KEEP = {"enter_context", "push", "callback"}
STORE = {"append", "add", "extend", "insert", "setdefault", "update", "put",
         "appendleft"}


def handles(v):
    if isinstance(v, tuple) and v:
        if v[0] == "h":
            return {v}
        if v[0] in ("wrap", "bm"):
            return handles(v[1])
        if v[0] in ("tuple", "list"):
            out = set()
            for x in v[1]:
                out |= handles(x)
            return out
        if v[0] == "clos":
            out = set()
            for _, x in v[2]:
                out |= handles(x)
            return out
    return set()


class Handles(PathDomain):
    """dom: frozenset of (handle, state), state in open/closed/lost"""

    def __init__(self, prog, sources):
        super().__init__()
        self.p = prog
        self.sources = sources
        self.double = {}
        self.ends = []
        self.sites = {}
        self.released = 0

    def state(self, h, dom):
        for x, s in dom:
            if x == h:
                return s
        return None

    def set(self, h, s, dom):
        return frozenset([(x, y) for x, y in dom if x != h] + [(h, s)])

    def live(self, dom):
        return [h for h, s in dom if s in ("open", "lost")]

    def acquire(self, kind, node, dom, fr):
        h = ("h", kind, f"{fr.func.qual}", node.lineno, node.col_offset)
        self.sites[h] = (fr.func, node)
        s = self.state(h, dom)
        return h, self.set(h, "lost" if s == "open" else "open", dom)

    def close(self, h, dom, node, fr, strict=False):
        s = self.state(h, dom)
        if s is None:
            return dom
        if s == "closed" and strict and h[1] == "fd":
            self.double.setdefault((h, fr.func.qual), (fr.func, node))
        if s == "open":
            self.released += 1
            return self.set(h, "closed", dom)
        return dom

    def escape(self, v, dom):
        for h in handles(v):
            if self.state(h, dom) == "open":
                dom = frozenset(x for x in dom if x[0] != h)
        return dom

    # ---------------------------------------------------------------- hooks
    def truth(self, v, dom):
        t = super().truth(v, dom)
        if t is None and isinstance(v, tuple) and v and v[0] in (
                "h", "wrap") and v[1] != "fd":
            return True
        return t

    def compare(self, op, a, b, node, dom, fr):
        none = self.const(None)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                if y == none and isinstance(x, tuple) and x and x[0] in (
                        "h", "wrap", "tuple", "list"):
                    return isinstance(op, (ast.IsNot, ast.NotEq))
        return None

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list") and any(handles(v) for v in vals):
            return ("tuple", tuple(vals))
        return None

    def elements(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "tuple":
            return v[1]
        return None

    def attr(self, v, name, node, dom, fr):
        if isinstance(v, tuple) and v:
            if v[0] in ("h", "wrap"):
                if name in ("raw", "buffer", "fp", "fileobj"):
                    return v
                return ("bm", v, name)
        return None

    def store_attr(self, base, attr, val, node, dom, fr):
        return self.escape(val, dom)

    def store_item(self, base, keyv, val, node, dom, fr):
        return self.escape(val, dom)

    def ctx_enter(self, val, node, dom, fr):
        return val, dom

    def ctx_exit(self, val, node, dom, fr, exc):
        for h in self.owned(val):
            dom = self.close(h, dom, node, fr)
        return dom, False

    def owned(self, v):
        """handles that closing v closes"""
        if isinstance(v, tuple) and v:
            if v[0] == "h":
                return {v}
            if v[0] == "wrap":
                return self.owned(v[1])
        return set()

    # ----------------------------------------------------------------- calls
    def call(self, target, recv, name, args, kwargs, node, dom, fr):
        vals = list(args) + list(kwargs.values())
        if isinstance(recv, tuple) and recv and recv[0] == "bm" and \
                target is None:
            # bound method taken earlier: h.close passed around
            return self.method(recv[1], recv[2], vals, node, dom, fr)
        if target is None:
            return self.method(recv, name, vals, node, dom, fr)
        if target[0] == "func":
            f = target[1]
            if f.vendored or f.node is None:
                return self.leaf(vals, dom, None)
            cls = None
            if f.qual in self.sources or any(handles(v) for v in vals):
                return ("inline", f, cls)
            return self.leaf(vals, dom, f.qual)
        if target[0] == "clos":
            return None
        if target[0] in ("ext", "builtin"):
            return self.external(target[1], args, kwargs, node, dom, fr)
        if target[0] == "class":
            # an object that is handed a handle may keep it
            c = target[1]
            init = self.p.find_method(c, "__init__")
            if any(handles(v) for v in vals):
                for v in vals:
                    dom = self.escape(v, dom)
            return self.leaf([], dom, c.qual if init else None)
        return self.leaf(vals, dom, None)

    def external(self, q, args, kwargs, node, dom, fr):
        vals = list(args) + list(kwargs.values())
        first = args[0] if args else kwargs.get("file", kwargs.get("fp"))
        if q == "os.close":
            for v in vals:
                for h in self.owned(v):
                    dom = self.close(h, dom, node, fr, strict=True)
            return [("ok", self.const(None), dom)]
        if q in WRAP and first is not None and handles(first):
            return [("ok", ("wrap", first), dom)]
        if q in BYNAME:
            kw = BYNAME[q]
            stream = kwargs.get(kw) if kw else None
            if kw and kw in kwargs and stream != self.const(None):
                return self.leaf([], dom, q)
            if first is not None and (handles(first) or isinstance(
                    first, tuple) and first and first[0] == "mem"):
                return self.leaf([], dom, q)
            h, d = self.acquire("file" if q != "PIL.Image.open" else "image",
                                node, dom, fr)
            return [("ok", h, d), ("raise", "OSError", dom)]
        if q in MEMORY:
            return [("ok", ("mem",), dom)]
        if q in ACQUIRE:
            if q == "mmap.mmap" or first is not None and handles(first):
                if q == "os.fdopen":
                    return [("ok", ("wrap", first), dom)]
            h, d = self.acquire(ACQUIRE[q], node, dom, fr)
            return [("ok", h, d), ("raise", "OSError", dom)]
        if q in ("contextlib.ExitStack", "contextlib.AsyncExitStack"):
            return [("ok", None, dom)]
        if q in ("functools.partial", "setattr"):
            for v in vals:
                dom = self.escape(v, dom)
            return [("ok", None, dom)]
        if q in ("iter", "next", "reversed", "typing.cast", "copy.copy"):
            hv = [v for v in vals if handles(v)]
            if q == "typing.cast" and hv:
                return [("ok", hv[0], dom)]
        if q in CALM:
            return [("ok", None, dom)]
        return self.leaf(vals, dom, q)

    def method(self, recv, name, vals, node, dom, fr):
        hs = self.owned(recv)
        if isinstance(recv, tuple) and recv and recv[0] in ("h", "wrap"):
            if name in ("close", "__exit__", "terminate"):
                for h in hs:
                    dom = self.close(h, dom, node, fr)
                return [("ok", self.const(None), dom)]
            if name == "__enter__":
                return [("ok", recv, dom)]
            if name == "detach":
                inner = recv[1] if recv[0] == "wrap" else recv
                return [("ok", inner, dom)]
            if name == "fileno":
                return [("ok", None, dom)]
            if name == "open":      # member of an archive
                h, d = self.acquire("file", node, dom, fr)
                return [("ok", h, d), ("raise", "?", dom)]
            return self.leaf([], dom, name)
        if name in KEEP or name in STORE or name == "register":
            for v in vals:
                dom = self.escape(v, dom)
            return [("ok", vals[0] if vals and name == "enter_context"
                     else None, dom)]
        if name in ("open", "fdopen") and isinstance(node.func,
                                                     ast.Attribute):
            # Path(...).open() and its like
            h, d = self.acquire("file", node, dom, fr)
            return [("ok", h, d), ("raise", "OSError", dom)]
        if name == "GzipFile":
            # library chosen at run time: same constructor
            kws = {k.arg for k in node.keywords}
            if "fileobj" in kws or vals and handles(vals[0]):
                return self.leaf([], dom, name)
            h, d = self.acquire("file", node, dom, fr)
            return [("ok", h, d), ("raise", "OSError", dom)]
        if isinstance(recv, tuple) and recv and recv[0] == "k" or \
                name in CALM_METHODS:
            return [("ok", None, dom)]
        return self.leaf(vals, dom, name)

    def leaf(self, vals, dom, q):
        if not self.live(dom):
            return [("ok", None, dom)]
        return [("ok", None, dom), ("raise", "?", dom)]


class Run(Paths):
    def matches(self, hname, exc):
        if exc == "?" and hname in ("Exception", "BaseException"):
            return True
        return super().matches(hname, exc)


def dedupe_q(fs):
    return sorted(fs, key=lambda f: f.qual)


def direct(prog, f, cg):
    """does f acquire a handle itself?"""
    for n in own_walk(f.node):
        if isinstance(n, ast.Call):
            r = prog.resolve_expr_static(n.func, f.module, f)
            if r is not None and r[0] in ("ext", "builtin"):
                if r[1] in ACQUIRE or r[1] in BYNAME:
                    return True
            elif r is None and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("open", "GzipFile"):
                return True
    return False


def callees(prog, f):
    for n in own_walk(f.node):
        if isinstance(n, ast.Call):
            r = prog.resolve_expr_static(n.func, f.module, f)
            if r is not None and r[0] == "func":
                yield r[1].qual


def check(ctx, rep, tier):
    rep.rule("C08.closed", "on every path out of a function, returning or "
             "raising (any call may raise), each handle it acquired is "
             "closed by with, close() or finally, or is handed on in its "
             "return value to a caller held to the same rule")
    rep.rule("C08.once", "no file descriptor is passed to os.close on a path "
             "where it is already closed")
    prog = ctx.prog
    cg = ctx.cg
    own = [f for f in prog.funcs.values() if not f.vendored
           and f.node is not None]
    acq = {f.qual for f in own if direct(prog, f, cg)}
    # which functions give a handle to their caller
    sources, judged = set(), {}
    todo = set(acq)
    done = set()
    while todo:
        q = sorted(todo)[0]
        todo.discard(q)
        done.add(q)
        f = prog.funcs[q]
        gives, res, dom = run(prog, f, sources, rep)
        judged[q] = (res, dom)
        if gives and q not in sources:
            sources.add(q)
            for g in own:
                if q in set(callees(prog, g)):
                    todo.add(g.qual)
    # judge everything again with the final set of sources
    for q in sorted(done):
        f = prog.funcs[q]
        gives, res, dom = run(prog, f, sources, rep)
        rep.count("functions holding handles")
        if res is None:
            rep.undecide(f"{q}: too many paths")
            continue
        rep.count("path outcomes", len(res))
        rep.count("acquisitions followed", len(dom.sites))
        rep.count("releases on paths", dom.released)
        rep.sample({"function": q, "outcomes": len(res),
                    "acquires": [f"{s[0].qual}:{s[1].lineno}"
                                 for s in dom.sites.values()][:4]})
        for kind, v, d in res:
            kept = handles(v) if kind == "return" else set()
            for h, s in d:
                if s == "lost" or s == "open" and h not in kept:
                    g, node = dom.sites[h]
                    rep.find("C08.closed", f"{q}|{g.qual}|{h[1]}|"
                             + ast.unparse(node)[:80],
                             f"{g.file}:{node.lineno}",
                             f"{q} can {'return' if kind == 'return' else 'raise'}"
                             f" while the {h[1]} opened by `"
                             f"{ast.unparse(node)[:60]}` in {g.qual} is "
                             f"still open")
        for (h, gq), (g, node) in dom.double.items():
            rep.find("C08.once", f"{gq}|{ast.unparse(node)[:80]}",
                     f"{g.file}:{node.lineno}",
                     f"{gq} closes a descriptor that is already closed on "
                     f"some path of {q}")
    rep.count("functions giving handles to callers", len(sources))
    rep.assume("FITS files are opened by astropy, which keeps them open for "
               "its lazily loaded data: not handles the library opens itself")
    rep.assume("handles stored in attributes or containers, or given to an "
               "ExitStack, are not judged")
    rep.need("functions holding handles", 8)
    rep.need("acquisitions followed", 8)


def run(prog, f, sources, rep):
    dom = Handles(prog, sources)
    x = Run(prog, dom)
    try:
        res = x.run(f, {p: None for p in f.all_param_names()}, frozenset())
    except Overflow:
        return False, None, dom
    gives = any(k == "return" and any(dom.state(h, d) == "open"
                                      for h in handles(v))
                for k, v, d in res)
    return gives, res, dom
