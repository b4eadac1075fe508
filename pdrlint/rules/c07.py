"""C07: label and data content is never executed or fetched."""
from __future__ import annotations

import ast
import os.path
import re
import urllib.parse

from ..domains import DATA
from ..effects import Effects, Refs, call_of, owner, short, where
from ..flow import AV, BOT, FALSE, Interp, K, NONE, TRUE
from ..program import own_walk

EXACT = {
    "builtins.eval": "evaluates text as code",
    "builtins.exec": "executes text as code",
    "builtins.compile": "compiles text as code",
    "builtins.breakpoint": "hands control to a debugger",
    "builtins.input": "reads from the terminal",
    "pandas.eval": "evaluates text as an expression",
    "pandas.read_pickle": "unpickles",
    "pandas.read_html": "can reach the network",
    "pandas.io.pickle.read_pickle": "unpickles",
    "numpy.lib.format.read_array": "can unpickle",
    "numexpr.evaluate": "evaluates text as code",
    "os.system": "runs a shell command", "os.popen": "runs a shell command",
    "os.startfile": "runs a program", "pty.spawn": "runs a program",
    "platform.popen": "runs a program",
    "code.interact": "runs code", "runpy.run_path": "runs code",
    "runpy.run_module": "runs code", "imp.load_source": "runs code",
    "yaml.load": "can construct arbitrary objects",
    "yaml.load_all": "can construct arbitrary objects",
    "yaml.unsafe_load": "can construct arbitrary objects",
    "yaml.full_load": "can construct arbitrary objects",
    "joblib.load": "unpickles", "marshal.load": "loads code objects",
    "marshal.loads": "loads code objects",
    "pvl.loadu": "reaches the network",
    "sympy.sympify": "evaluates text as code",
    "typing.get_type_hints": None,
    "astropy.utils.data.download_file": "reaches the network",
    "astropy.utils.data.get_readable_fileobj": "can reach the network",
    "importlib.import_module": "imports a computed name",
    "builtins.__import__": "imports a computed name",
    "ctypes.CDLL": "loads a library", "ctypes.cdll": "loads a library",
}
PREFIX = {
    "subprocess.": "runs a program", "os.exec": "runs a program",
    "os.spawn": "runs a program", "os.posix_spawn": "runs a program",
    "asyncio.create_subprocess": "runs a program",
    "pexpect.": "runs a program", "sh.": "runs a program",
    "urllib.request.": "reaches the network",
    "urllib2.": "reaches the network", "urllib3.": "reaches the network",
    "requests.": "reaches the network", "httpx.": "reaches the network",
    "aiohttp.": "reaches the network", "http.client.": "reaches the network",
    "ftplib.": "reaches the network", "socket.": "reaches the network",
    "smtplib.": "reaches the network", "telnetlib.": "reaches the network",
    "xmlrpc.": "reaches the network", "paramiko.": "reaches the network",
    "fsspec.": "can reach the network", "s3fs.": "reaches the network",
    "boto3.": "reaches the network", "webbrowser.": "runs a program",
    "dill.load": "unpickles", "cloudpickle.load": "unpickles",
    "jsonpickle.": "unpickles", "shelve.": "unpickles",
    "pickle.load": "unpickles", "pickle.Unpickler": "unpickles",
    "_pickle.load": "unpickles", "cPickle.load": "unpickles",
    "pickle._load": "unpickles", "pickle._Unpickler": "unpickles",
    "xml.sax.handler.feature_external": "fetches external entities",
}
COMPUTED = ("importlib.import_module", "builtins.__import__")
FRAME_EVAL = {"eval", "query"}
URLS = [s + "://" + t for s in (
    "http", "https", "ftp", "HTTP", "HTTPS", "FTP", "Http", "fTp")
    for t in ("example.org/data/x.lbl", "127.0.0.1:8080/A.IMG")]
OPENS = {"builtins.open", "io.open", "os.open", "os.stat", "os.listdir",
         "os.path.exists", "os.path.isfile", "os.scandir",
         "PIL.Image.open", "astropy.io.fits.open", "bz2.open", "gzip.open",
         "zipfile.ZipFile", "os.path.getsize", "os.path.isdir"}
OPEN_METHODS = {"exists", "iterdir", "is_file", "is_dir", "stat", "open",
                "read_text", "read_bytes", "glob", "rglob", "resolve",
                "touch", "mkdir"}


def check(ctx, rep, tier):
    rep.rule("C07.sink", "no reference in the library to an evaluator, "
             "unpickler, shell, dynamic importer or network client")
    rep.rule("C07.literal", "pickled arrays are refused and data frames are "
             "not asked to evaluate text")
    rep.rule("C07.url", "interpreting the constructor with a URL as the "
             "product name ends in an exception before any file operation; "
             "the front doors hand the name on as text")
    prog = ctx.prog
    refs = Refs(prog)
    n = 0
    seen = {}
    for name, node, func, module in refs:
        n += 1
        if name in ("ast.literal_eval",):
            seen[name] = seen.get(name, 0) + 1
        why = EXACT.get(name)
        if why is None:
            for p, w in PREFIX.items():
                if name.startswith(p) or name == p.rstrip("."):
                    why = w
                    break
        if name == "socket" or name.startswith("urllib.parse"):
            why = None
        call = call_of(node)
        if name in COMPUTED:
            if call is not None and call.args and isinstance(
                    call.args[0], ast.Constant):
                continue
            if call is not None and call.args and _literal_table(
                    prog, call.args[0], func, module):
                continue
        if name in ("builtins.exec", "builtins.eval", "builtins.compile") \
                and call is not None and call.args and isinstance(
                    call.args[0], ast.Constant):
            continue
        if why:
            par = getattr(node, "_parent", None)
            if isinstance(par, ast.Attribute) and name == par.attr:
                continue
            rep.find("C07.sink", f"{owner(func, module)}|{name}",
                     where(func, module, node),
                     f"{owner(func, module)}: `{name}` {why}")
    for node, func, module in _calls(prog, refs):
        kw = {k.arg: k.value for k in node.keywords}
        v = kw.get("allow_pickle")
        if v is not None and not (isinstance(v, ast.Constant)
                                  and v.value is False):
            rep.find("C07.literal", f"{owner(func, module)}|allow_pickle",
                     where(func, module, node),
                     f"{owner(func, module)}: `{short(node)}` may unpickle "
                     f"file contents")
        v = kw.get("shell")
        if isinstance(v, ast.Constant) and v.value:
            rep.find("C07.literal", f"{owner(func, module)}|shell",
                     where(func, module, node),
                     f"{owner(func, module)}: `{short(node)}` runs a shell")
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in FRAME_EVAL and \
                node.args and not isinstance(node.args[0], ast.Constant):
            r = prog.resolve_expr_static(f, module, func)
            if r is None and not _own_method(prog, f.attr):
                rep.find("C07.literal", f"{owner(func, module)}|{f.attr}",
                         where(func, module, node),
                         f"{owner(func, module)}: `{short(node)}` evaluates "
                         f"text as an expression")
    rep.count("library references examined", n)
    rep.count("literal interpretations", seen.get("ast.literal_eval", 0))
    rep.need("library references examined", 200)
    _urls(prog, rep)


def _own_method(prog, name):
    return any(name in c.methods for c in prog.classes.values())


def _literal_table(prog, e, func, module):
    """the name comes from a literal table in the same module"""
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    for n in names:
        r = prog.resolve_name(n, module, func)
        if r and r[0] == "global":
            vs = r[1].assigns.get(r[2])
            try:
                if vs:
                    ast.literal_eval(vs[-1])
                    continue
            except (ValueError, TypeError):
                pass
        return False
    return bool(names)


def _calls(prog, refs):
    done = set()
    for func, module, node in refs.scopes():
        for n in own_walk(node):
            if isinstance(n, ast.Call) and id(n) not in done:
                done.add(id(n))
                yield n, func, module


def _py(v: AV):
    """python value of an abstract constant"""
    ok, c = v.const()
    if ok:
        return True, c
    if v.elts is not None and not v.unk and not v.tags and not v.consts:
        xs = [_py(x) for x in v.elts[1]]
        if all(o for o, _ in xs):
            seq = [x for _, x in xs]
            return True, (tuple(seq) if v.elts[0] != "list" else seq)
    return False, None


PURE_STR = {"lower", "upper", "casefold", "strip", "lstrip", "rstrip",
            "startswith", "endswith", "partition", "split", "replace",
            "find", "index", "removeprefix", "count", "rpartition",
            "__contains__", "isalpha", "title", "swapcase", "encode", "join"}
RE_FUNCS = {"re.match": re.match, "re.search": re.search,
            "re.fullmatch": re.fullmatch}


def lift(x):
    if x is None:
        return NONE
    if isinstance(x, (list, tuple)):
        return AV(elts=("list" if isinstance(x, list) else "tuple",
                        tuple(lift(y) for y in x)))
    return K(x)


class Fold(Effects):
    """constant folding of the operations a URL test is made of"""

    def ext_call(self, name, args, kwargs, node, caller):
        vs = [_py(a) for a in args]
        if name == "builtins.isinstance" and len(args) == 2 and vs[0][0]:
            got = self.isinst(vs[0][1], args[1])
            if got is not None:
                return K(got)
        if name == "builtins.hasattr" and all(o for o, _ in vs) and len(
                vs) == 2:
            return K(hasattr(vs[0][1], vs[1][1]))
        if all(o for o, _ in vs) and not kwargs:
            xs = [x for _, x in vs]
            try:
                if name in RE_FUNCS:
                    m = RE_FUNCS[name](*xs)
                    return NONE if m is None else K(True)
                if name == "re.compile":
                    return K(re.compile(*xs))
                if name in ("urllib.parse.urlparse",
                            "urllib.parse.urlsplit"):
                    return AV(consts=K(urllib.parse.urlparse(xs[0])).consts)
                if name in ("os.fspath", "builtins.str"):
                    return K(str(xs[0]))
                if name == "os.path.isabs":
                    return K(os.path.isabs(xs[0]))
                if name in ("builtins.any", "builtins.all",
                            "builtins.bool"):
                    return K({"any": any, "all": all, "bool": bool}[
                        name.split(".")[1]](*xs))
            except Exception:
                return None
        if name in ("pathlib.Path", "pathlib.PurePath") and args:
            self.see("ext", name, None, args, kwargs, node, caller)
            return AV(unk=True, insts=frozenset(["%path"]))
        return super().ext_call(name, args, kwargs, node, caller)

    def isinst(self, c, ty):
        names = {r[1] for r in ty.refs if r[0] in ("builtin", "ext")}
        if ty.elts is not None:
            for x in ty.elts[1]:
                names |= {r[1] for r in x.refs if r[0] in ("builtin", "ext")}
        if not names:
            return None
        return type(c).__name__ in {n.split(".")[-1] for n in names}

    def method(self, recv, name, args, kwargs, node, caller):
        ok, c = _py(recv)
        vs = [_py(a) for a in args]
        if ok and all(o for o, _ in vs) and not kwargs:
            xs = [x for _, x in vs]
            try:
                if isinstance(c, re.Pattern) and name in (
                        "match", "search", "fullmatch"):
                    m = getattr(c, name)(*xs)
                    return NONE if m is None else K(True)
                if isinstance(c, str) and name in PURE_STR:
                    return lift(getattr(c, name)(*xs))
            except Exception:
                return None
        if "%path" in recv.insts:
            self.see("method", name, recv, args, kwargs, node, caller)
            return AV(unk=True, insts=frozenset(["%path"]))
        return super().method(recv, name, args, kwargs, node, caller)

    def attr(self, recv, name, node, caller):
        ok, c = _py(recv)
        if ok and isinstance(c, tuple) and hasattr(c, name) and not callable(
                getattr(c, name)):
            return lift(getattr(c, name))
        return super().attr(recv, name, node, caller)


def _urls(prog, rep):
    data = prog.classes.get(DATA)
    init = data.methods.get("__init__") if data else None
    if init is None:
        rep.undecide("no Data constructor")
        return
    pn = init.param_names()
    if len(pn) < 2:
        rep.undecide("the constructor takes no product name")
        return
    slf = AV(insts=frozenset([DATA]))
    bad = {}
    handed = 0
    for url in URLS:
        events = []
        box = []

        def see(op, name, recv, args, kwargs, node, caller):
            if caller is None:
                return None
            hit = op == "ext" and (name in OPENS or name.startswith((
                "pandas.read_", "urllib.request", "numpy.fromfile"))) or \
                op == "method" and name in OPEN_METHODS and (
                    recv is None or "%path" in recv.insts)
            if hit:
                events.append((caller, node, [
                    s.qual for s in box[0].it.stack]))
            return None

        dom = Fold(see)
        box.append(dom)
        it = Interp(prog, dom)
        it.noreturn = True
        args = {pn[0]: slf, pn[1]: K(url)}
        res = it.call_root(init, args)
        if events:
            c, node, chain = events[0]
            bad.setdefault(("opened", c.qual), (c, node, url, chain))
        elif not res.is_bottom():
            bad.setdefault(("accepted", init.qual), (init, init.node, url,
                                                     [init.qual]))
        # front doors
        for q in ("pdr.read", "pdr.open", "pdr.fastread"):
            f = prog.funcs.get(q)
            if f is None:
                continue
            got = []

            class Door(Fold):
                def own_call(self, func, bound, node, caller):
                    if func is init:
                        got.append((bound.get(pn[1]), node, caller))
                        return NONE
                    return super().own_call(func, bound, node, caller)
            d2 = Door(lambda *a: None)
            Interp(prog, d2).call_root(f, {f.param_names()[0]: K(url)})
            for v, node, caller in got:
                handed += 1
                if v is not None and "%path" in v.insts:
                    bad.setdefault(("door", q), (f, node, url, [q]))
    for (what, q), (f, node, url, chain) in sorted(
            bad.items(), key=lambda x: x[0]):
        msg = {"opened": f"a file operation is reached when the product name "
                         f"is {url!r}, before it is rejected",
               "accepted": f"the product name {url!r} is not rejected",
               "door": f"the product name {url!r} is turned into a path, so "
                       f"the URL test never sees it"}[what]
        rep.find("C07.url", f"{q}|{what}",
                 f"{f.file}:{getattr(node, 'lineno', 0)}", f"{q}: {msg}",
                 ["call chain: " + " -> ".join(chain)])
    rep.count("URL names interpreted", len(URLS))
    rep.count("front-door hand-overs", handed)
