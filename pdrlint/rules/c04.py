"""C04: browse export writes only the files it was asked to write.

Every path that reaches a writing operation is evaluated as a string
template over the markers OUT (requested folder), PREFIX (requested prefix or
file stem), OBJ (object name) and ? (anything else)."""
from __future__ import annotations

import ast
import itertools

from .. import writes
from ..domains import DATA, inst
from ..effects import Effects, short
from ..flow import AV, BOT, FALSE, Interp, K, NONE, TOP
from ..program import own_walk
from .c03 import own_methods, tracker_like

OUT, PRE, OBJ, ANY = "<out>", "<prefix>", "<object>", "<?>"
FILE, NAME, CUT = "<file>", "<filename>", "<cut>"
MARKS = {OUT, PRE, OBJ, ANY, FILE, NAME, CUT}
CAP = 14
SAME = {"resolve", "absolute", "expanduser", "as_posix", "__str__",
        "__fspath__", "strip_"}
CUTTERS = {"with_suffix", "replace", "lower", "upper", "split", "rsplit",
           "strip", "rstrip", "lstrip", "partition", "rpartition", "title",
           "capitalize", "translate", "removesuffix", "removeprefix",
           "casefold", "swapcase", "encode", "with_stem", "zfill"}
HANDLE = {"pickle.dump", "json.dump", "marshal.dump"}
PATHKW = ("path_or_buf", "path", "fp", "fname", "file", "filename", "buf",
          "path_or_buffer", "excel_writer")


def T(parts, d=0, path=False):
    return AV(frozenset([(d, norm(parts))]), unk=True,
              insts=frozenset(["%path"]) if path else frozenset())


def norm(parts):
    out = []
    for p in parts:
        if p == "":
            continue
        if out and p not in MARKS and out[-1] not in MARKS:
            out[-1] += p
        elif p == ANY and out and out[-1] == ANY:
            pass
        else:
            out.append(p)
    if len(out) > CAP:
        out = out[:CAP - 1] + [ANY]
    return tuple(out)


def show(parts):
    return "".join(parts) or "''"


class Names(Effects):
    def container_tags(self, vals):
        return frozenset((min(d + 1, 4), p) for v in vals
                         for d, p in self.all_tags(v))

    def element_tags(self, tags):
        return frozenset((max(d - 1, 0), p) for d, p in tags)

    def copy_tags(self, tags):
        return tags

    def tmpl(self, v):
        """possible templates of a value; None when it is no string"""
        out = {p for d, p in v.tags if d == 0}
        for _, c in v.consts:
            if isinstance(c, str):
                out.add(norm((c,)))
            elif c is not None:
                out.add((ANY,))
        if not out or v.unk and not v.tags:
            out.add((ANY,))
        return out

    def mk(self, seqs, path=False):
        out = set()
        for combo in itertools.islice(itertools.product(*seqs), 12):
            out.add((0, norm([x for c in combo for x in c])))
        marks = any(m in p for _, p in out for m in (OUT, PRE, OBJ, FILE,
                                                      NAME, CUT))
        if not marks:
            if not path and all(not (MARKS & set(p)) for _, p in out):
                return AV(consts=frozenset(("str", show(p) if p else "")
                                           for _, p in out))
            if not path:
                return AV(unk=True)
        return AV(frozenset(out), unk=True,
                  insts=frozenset(["%path"]) if path else frozenset())

    def hot(self, *vs):
        return any(any(d == 0 for d, _ in v.tags) for v in vs)

    def join(self, vals):
        """path join"""
        seqs = []
        for i, v in enumerate(vals):
            if i:
                seqs.append([("/",)])
            seqs.append(sorted(self.tmpl(v)))
        r = self.mk(seqs, path=True)
        out = set()
        for d, p in r.tags:
            p = list(p)
            # `./x` and `/`-less joins
            if p and p[0] not in MARKS and p[0].startswith("./"):
                p[0] = p[0][2:]
            elif p and p[0] not in MARKS and p[0] == "/" and vals and \
                    () in self.tmpl(vals[0]):
                p = p[1:]
            out.add((d, norm(p)))
        return AV(frozenset(out), unk=True, insts=frozenset(["%path"]))

    def truth(self, v):
        if v.tags and not v.consts and all(
                d == 0 and set(p) & MARKS - {ANY} for d, p in v.tags):
            return True
        return None

    def compare(self, a, b, node, caller):
        if len(node.ops) != 1 or not isinstance(
                node.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            return None
        for x, y in ((a, b), (b, a)):
            ok, c = y.const()
            if ok and c is None and self.truth(x):
                return K(isinstance(node.ops[0], (ast.IsNot, ast.NotEq)))
        return None

    def fstring(self, e, vals, func):
        if not self.hot(*vals):
            return None
        seqs, i = [], 0
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                t = sorted(self.tmpl(vals[i]))
                i += 1
                seqs.append(t)
            else:
                seqs.append([(v.value,)])
        return self.mk(seqs)

    def binop(self, op, a, b, node, caller):
        if isinstance(op, ast.Div) and (writes.is_path(a) or
                                        writes.is_path(b)):
            return self.join([a, b])
        if not self.hot(a, b):
            return None
        if isinstance(op, ast.Add):
            return self.mk([sorted(self.tmpl(a)), sorted(self.tmpl(b))])
        if isinstance(op, ast.Mod):
            ok, c = a.const()
            if ok and isinstance(c, str):
                args = list(b.elts[1]) if b.elts is not None else [b]
                return self.fmt(c.replace("%s", "{}").replace("%d", "{}"),
                                args, {})
        return AV(frozenset([(0, (CUT,))]), unk=True)

    def fmt(self, text, args, kw):
        import string
        seqs, auto = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(text):
                seqs.append([(lit,)])
                if name is None:
                    continue
                key = name.split(".")[0].split("[")[0]
                if key == "":
                    v = args[auto] if auto < len(args) else TOP
                    auto += 1
                elif key.isdigit():
                    v = args[int(key)] if int(key) < len(args) else TOP
                else:
                    v = kw.get(key, TOP)
                seqs.append(sorted(self.tmpl(v)))
        except (ValueError, IndexError):
            return TOP
        return self.mk(seqs)

    def attr(self, recv, name, node, caller):
        r = super().attr(recv, name, node, caller)
        if r is not None:
            return r
        if DATA in recv.insts:
            if name == "index":
                return AV(frozenset([(1, (OBJ,))]), unk=True)
            if name == "filename":
                return T((FILE,))
        if writes.is_path(recv) and self.hot(recv):
            if name in ("stem", "name", "suffix", "parent"):
                out = set()
                for p in self.tmpl(recv):
                    out.add((0, self.part(p, name)))
                return AV(frozenset(out), unk=True, insts=frozenset(
                    ["%path"]) if name == "parent" else frozenset())
            return AV(unk=True)
        return None

    def part(self, p, name):
        if p == (FILE,):
            return {"stem": (PRE,), "name": (NAME,)}.get(name, (ANY,))
        if p == (NAME,):
            return {"stem": (PRE,), "name": (NAME,)}.get(name, (ANY,))
        if name in ("parent", "name"):
            for i in range(len(p) - 1, -1, -1):
                if p[i] not in MARKS and "/" in p[i]:
                    a, b = p[i].rsplit("/", 1)
                    return norm(p[:i] + (a,)) if name == "parent" else \
                        norm((b,) + p[i + 1:])
            return p if name == "name" else (ANY,)
        return (ANY,) if name == "suffix" else (CUT,)

    def own_call(self, func, bound, node, caller):
        if func.cls is not None and func.cls.qual == DATA and \
                func.name == "keys":
            return AV(frozenset([(1, (OBJ,))]), unk=True)
        return super().own_call(func, bound, node, caller)

    def ext_call(self, name, args, kwargs, node, caller):
        r = super().ext_call(name, args, kwargs, node, caller)
        if r is not None:
            return r
        last = name.split(".")[-1]
        if name.startswith("pathlib.") and last.endswith("Path") or \
                name == "os.path.join":
            if not args:
                return AV(frozenset([(0, ())]), unk=True,
                          insts=frozenset(["%path"]))
            v = self.join(args)
            return v if name != "os.path.join" else v.with_(
                insts=frozenset())
        if name in ("pathlib.Path.cwd", "os.getcwd"):
            return AV(frozenset([(0, ())]), unk=True, insts=frozenset(
                ["%path"]) if last == "cwd" else frozenset())
        if name in ("builtins.str", "os.fspath", "os.fsdecode",
                    "os.path.abspath", "os.path.expanduser",
                    "os.path.realpath", "os.path.normpath") and args and \
                self.hot(args[0]):
            return args[0].with_(insts=frozenset())
        if name == "builtins.format" and args and self.hot(args[0]):
            return args[0].with_(insts=frozenset())
        if name == "os.path.basename" and args and self.hot(args[0]):
            return AV(frozenset((0, self.part(p, "name"))
                                for p in self.tmpl(args[0])), unk=True)
        if name == "os.path.splitext" and args and self.hot(args[0]):
            return AV(elts=("tuple", (AV(frozenset(
                (0, self.part(p, "stem")) for p in self.tmpl(args[0])),
                unk=True), TOP)))
        if name in ("builtins.open", "io.open"):
            return AV(unk=True, insts=frozenset(["%handle"]))
        if name in ("PIL.Image.fromarray", "PIL.Image.new",
                    "PIL.Image.frombytes", "PIL.Image.merge"):
            return AV(unk=True, insts=frozenset(["%pil"]))
        return None

    def method(self, recv, name, args, kwargs, node, caller):
        r = super().method(recv, name, args, kwargs, node, caller)
        if r is not None:
            return r
        if name == "join":
            ok, c = recv.const()
            if ok and isinstance(c, str) and args:
                els = self.it.iter_avs(args[0])
                if els is not None and self.hot(*els):
                    seqs = []
                    for i, v in enumerate(els):
                        if i:
                            seqs.append([(c,)])
                        seqs.append(sorted(self.tmpl(v)))
                    return self.mk(seqs)
                if any(d == 1 for d, _ in args[0].tags):
                    return AV(unk=True)
        if name == "format":
            ok, c = recv.const()
            if ok and isinstance(c, str) and self.hot(
                    *args, *kwargs.values()):
                return self.fmt(c, args, kwargs)
        if self.hot(recv):
            t = self.tmpl(recv)
            path = writes.is_path(recv)
            if name == "joinpath":
                return self.join([recv] + list(args))
            if name in SAME:
                return recv if name not in ("as_posix", "__str__",
                                            "__fspath__") else \
                    recv.with_(insts=frozenset())
            if name == "with_name" and args:
                par = AV(frozenset((0, self.part(p, "parent")) for p in t),
                         unk=True)
                return self.join([par, args[0]])
            if name == "open" and path:
                return AV(unk=True, insts=frozenset(["%handle"]))
            if name in CUTTERS:
                if any(OBJ in p or CUT in p for p in t):
                    return AV(frozenset([(0, (CUT,)), (1, (CUT,))]),
                              unk=True, insts=recv.insts)
                return AV(frozenset([(0, (ANY,))]), unk=True,
                          insts=recv.insts)
            return AV(unk=True)
        return None

    def subscript(self, recv, key, node, caller):
        if self.hot(recv) and not any(d for d, _ in recv.tags):
            if any(OBJ in p for p in self.tmpl(recv)):
                return AV(frozenset([(0, (CUT,))]), unk=True)
            return AV(unk=True)
        return None


def judge(parts, given):
    """problem text, None when fine, '?' when unknown"""
    p = list(parts)
    if CUT in p:
        return "the name is cut or altered, so distinct objects can share it"
    if given:
        if not p or p[0] != OUT:
            return "?" if p and p[0] == ANY else \
                "it is outside the requested folder"
        p = p[1:]
        if not p or p[0] in MARKS or not p[0].startswith("/"):
            return "it is not inside the requested folder"
        p[0] = p[0][1:]
        p = [x for x in p if x != ""]
    else:
        if p and p[0] not in MARKS and p[0].startswith("./"):
            p[0] = p[0][2:]
            p = [x for x in p if x != ""]
        if len(p) > 2 and p[0] == ANY and p[1] not in MARKS and \
                p[1] == "/":
            p = p[2:]
        elif p and p[0] not in MARKS and p[0].startswith("/"):
            p[0] = p[0][1:]
            p = [x for x in p if x != ""]
    if not p or p[0] != PRE:
        return "?" if p and p[0] == ANY else \
            "its name does not start with the prefix"
    if len(p) < 3 or p[1] != "_" or p[2] != OBJ:
        if OBJ not in p:
            return "?" if ANY in p[:3] else \
                "the object's name is not part of it"
        if ANY in p[:p.index(OBJ)]:
            return "?"
        return "prefix and object name are not joined as documented"
    rest = p[3:]
    if not rest:
        return None
    if any(x not in MARKS and ("/" in x or "\\" in x or ".." in x)
           for x in rest):
        return "it leaves the requested folder"
    if any(x in (OUT, PRE, OBJ, FILE, NAME) for x in rest):
        return "?"
    if rest[0] in MARKS:
        return "?"
    if rest[0][0] not in "_.":
        return "the suffix is not set apart from the object's name"
    return None


def path_args(op, name, recv, args, kwargs):
    if op == "method" and writes.is_path(recv):
        return [recv] + ([args[0]] if name in ("rename", "replace")
                         and args else [])
    if op == "ext" and name.split(".")[-1] in (
            "rename", "replace", "copy", "copyfile", "move", "copy2"):
        return list(args[:2])
    for k in PATHKW:
        if k in kwargs:
            return [kwargs[k]]
    return list(args[:1])


def check(ctx, rep, tier):
    rep.rule("C04.name", "every path handed to a writing operation reachable "
             "from the browse export is, as a string template, the requested "
             "folder / prefix _ object name, then a suffix without folder "
             "separators")
    rep.rule("C04.distinct", "two exports that can both happen for one "
             "object, or in one loop, never use one name")
    rep.rule("C04.off", "with saving disabled no image is saved; showing "
             "reaches no writing operation at all")
    prog = ctx.prog
    data = prog.classes.get(DATA)
    dump = data.methods.get("dump_browse") if data else None
    if dump is None:
        from ..program import AnalysisError
        raise AnalysisError("C04: Data.dump_browse not found")
    own = own_methods(prog)
    state = {"sinks": set(), "tmpl": set()}
    calls = {}          # (caller qual, node) -> {ctx index: set of templates}

    def run(root, args, mode, given):
        box = []

        def see(op, name, recv, a, kw, node, caller):
            if caller is None or caller.vendored:
                return None
            if op == "own":
                ts = set()
                for v in a.values():
                    if isinstance(v, AV):
                        ts |= {p for d, p in v.tags if d == 0 and OBJ in p}
                if ts and isinstance(node, ast.Call) and mode == "name":
                    calls.setdefault((caller.qual, id(node)), (
                        caller, node, name, set()))[3].update(ts)
                return None
            w = None
            if op == "ext":
                if name in HANDLE:
                    return None
                w = writes.ext_write(name, a, kw, node)
            elif op == "method":
                if tracker_like(recv, node):
                    return None
                if "%handle" in recv.insts:
                    return None
                w = writes.method_write(recv, name, a, kw,
                                        writes.is_path(recv), name in own)
            if not w or w == "?":
                return None
            where = f"{caller.file}:{getattr(node, 'lineno', 0)}"
            if mode == "show":
                rep.find("C04.off", f"show|{caller.qual}|{w}", where,
                         f"{caller.qual}: {w} (`{short(node)}`) while "
                         f"showing an image",
                         ["call chain: " + " -> ".join(box[0].chain())])
                return None
            if mode == "off":
                if recv is not None and "%pil" in recv.insts or \
                        name == "save":
                    rep.find("C04.off", f"save|{caller.qual}|{w}", where,
                             f"{caller.qual}: {w} (`{short(node)}`) "
                             f"although saving is disabled",
                             ["call chain: " + " -> ".join(box[0].chain())])
                return None
            pa = path_args(op, name, recv, a, kw)
            for v in pa:
                if "%handle" in v.insts:
                    continue
                exact = not v.unk and bool(v.consts)
                if not v.tags and not exact:
                    if v.unk:
                        rep.undecide(f"{caller.qual}: target of "
                                     f"`{short(node)}`")
                    continue
                for p in sorted(dom.tmpl(v)):
                    state["sinks"].add((caller.qual, id(node)))
                    state["tmpl"].add(show(p))
                    last = name.split(".")[-1]
                    if last in ("mkdir", "makedirs") and p in (
                            (OUT,), (), (".",)):
                        continue
                    if p == (ANY,):
                        rep.undecide(f"{caller.qual}: target of "
                                     f"`{short(node)}`")
                        continue
                    j = judge(p, given)
                    if j == "?":
                        rep.undecide(f"{caller.qual}: name {show(p)}")
                    elif j:
                        rep.find("C04.name",
                                 f"{caller.qual}|{w}|{show(p)}", where,
                                 f"{caller.qual}: {w} named {show(p)}: {j}",
                                 ["call chain: " + " -> ".join(
                                     box[0].chain())])
                if op == "ext" or op == "method":
                    ts = {p for d, p in v.tags if d == 0 and OBJ in p}
                    if ts:
                        calls.setdefault((caller.qual, id(node)), (
                            caller, node, None, set()))[3].update(ts)
            return None

        dom = Names(see)
        box.append(dom)
        it = Interp(prog, dom)
        it.never_star = {"save"}
        it.call_root(root, args)
        return it

    self_ = {dump.param_names()[0]: inst(DATA)}
    names = dump.all_param_names()
    kwn = dump.node.args.kwarg.arg if dump.node.args.kwarg else None
    extra = {kwn: TOP} if kwn else {}
    given = dict(self_)
    if "prefix" in names:
        given["prefix"] = T((PRE,))
    if "outpath" in names:
        given["outpath"] = T((OUT,))
    it1 = run(dump, {**given, **extra}, "name", True)
    it2 = run(dump, {**self_, "prefix": NONE, "outpath": NONE, **extra},
              "name", False)
    rep.count("export functions interpreted", len(
        {q for q in it1.entered | it2.entered
         if not prog.funcs[q].vendored}))
    rep.count("writing operations with a decided name", len(state["sinks"]))
    rep.need("writing operations with a decided name", 2)
    for s in sorted(state["tmpl"]):
        rep.sample("name template: " + s, 20)
    if kwn:
        run(dump, {**given, kwn: AV(fields=(("save", FALSE),))}, "off", True)
        rep.count("export interpreted with saving disabled", 1)
    sh = data.methods.get("show")
    if sh is not None:
        run(sh, {sh.param_names()[0]: inst(DATA)}, "show", True)
        rep.count("show interpreted", 1)

    # ---- distinctness
    writers = writing_funcs(ctx, own)
    groups = {}
    for (q, _), (caller, node, callee, ts) in calls.items():
        if callee is not None and callee not in writers:
            continue
        groups.setdefault(q, []).append((caller, node, ts))
    n = 0
    for q, lst in sorted(groups.items()):
        lst.sort(key=lambda x: (x[1].lineno, x[1].col_offset))
        for caller, node, ts in lst:
            n += 1
            bad = loop_fixed(caller, node, ts)
            if bad:
                rep.find("C04.distinct", f"{q}|loop|{short(node)}",
                         f"{caller.file}:{node.lineno}",
                         f"{q}: `{short(node)}` in a loop over `{bad}` "
                         f"writes under the same name on every pass")
        for a, b in itertools.combinations(lst, 2):
            if a[1] is b[1] or not (a[2] & b[2]) or a[2] != b[2]:
                continue
            if compatible(a[0].node, a[1], b[1]):
                rep.find("C04.distinct",
                         f"{q}|{short(a[1])}|{short(b[1])}",
                         f"{a[0].file}:{b[1].lineno}",
                         f"{q}: `{short(a[1])}` and `{short(b[1])}` write "
                         f"under the same name one after the other")
    rep.count("calls that export under a decided name", n)


def writing_funcs(ctx, own):
    from .c03 import _syntactic
    prog = ctx.prog
    base = set()
    for q, f in prog.funcs.items():
        if f.vendored or ".tests" in f.module.name:
            continue
        for n in own_walk(f.node):
            if isinstance(n, ast.Call):
                w = _syntactic(prog, n, f, f.module, own)
                if w and w != "?" and not (
                        isinstance(n.func, ast.Attribute) and
                        n.func.attr in ("dump",)):
                    base.add(q)
    out = set()
    for q, f in prog.funcs.items():
        if not f.vendored and set(ctx.cg.reach([f])) & base:
            out.add(q)
    return out


def parents(node, stop):
    p = getattr(node, "_parent", None)
    prev = node
    while p is not None and prev is not stop:
        yield p, prev
        prev, p = p, getattr(p, "_parent", None)


def loop_fixed(func, node, ts):
    """the loop whose target the call's arguments do not depend on"""
    for p, prev in parents(node, func.node):
        if p is func.node:
            break
        if isinstance(p, (ast.For, ast.AsyncFor)) and prev in p.body:
            if leaves(p.body, node):
                continue
            dep = {n.id for n in ast.walk(p.target)
                   if isinstance(n, ast.Name)}
            body = p.body
        elif isinstance(p, ast.While) and prev in p.body:
            if leaves(p.body, node):
                continue
            dep = None
            body = p.body
        elif isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                            ast.DictComp)):
            dep = {n.id for g in p.generators for n in ast.walk(g.target)
                   if isinstance(n, ast.Name)}
            body = []
        else:
            continue
        if dep is None:
            dep = set()
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.AugAssign) and isinstance(
                            n.target, ast.Name):
                        dep.add(n.target.id)
                    elif isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == "next":
                        dep.add("next")
        # names changed per pass
        changed = True
        while changed:
            changed = False
            for s in body:
                for n in ast.walk(s):
                    tg = None
                    if isinstance(n, ast.Assign):
                        tg, val = n.targets, n.value
                    elif isinstance(n, (ast.AugAssign, ast.NamedExpr,
                                        ast.AnnAssign)) and n.value:
                        tg, val = [n.target], n.value
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        tg, val = [n.target], n.iter
                    elif isinstance(n, ast.withitem) and n.optional_vars:
                        tg, val = [n.optional_vars], n.context_expr
                    if not tg:
                        continue
                    used = {x.id for x in ast.walk(val)
                            if isinstance(x, ast.Name)}
                    if isinstance(n, ast.AugAssign) or used & dep:
                        for t in tg:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and \
                                        x.id not in dep:
                                    dep.add(x.id)
                                    changed = True
        name_args = naming_args(node)
        used = {x.id for a in name_args for x in ast.walk(a)
                if isinstance(x, ast.Name)}
        recvn = node.func.value if isinstance(
            node.func, ast.Attribute) else None
        if recvn is not None:
            pass
        if not used & dep:
            if isinstance(p, ast.While) and not dep:
                continue
            return ast.unparse(p.iter)[:40] if isinstance(
                p, (ast.For, ast.AsyncFor)) else "the loop"
    return None


def naming_args(node):
    """arguments that can carry the name: everything but plain data that is
    the loop element itself"""
    out = []
    for i, a in enumerate(list(node.args) + [k.value for k in
                                             node.keywords]):
        out.append(a)
    # the exported object is the first argument of a two-argument export;
    # only string-like arguments can carry a name
    if len(out) > 1:
        strs = [a for a in out if not data_like(a, node)]
        return strs
    return out


def data_like(a, node):
    """the first positional argument is the exported object"""
    return node.args and a is node.args[0] and len(node.args) > 1


def leaves(body, node):
    """the loop body always leaves the loop after the call"""
    for s in body:
        if any(n is node for n in ast.walk(s)):
            i = body.index(s)
            return any(isinstance(x, (ast.Break, ast.Return, ast.Raise))
                       for x in body[i:])
    return False


def chain_of(node, stop):
    out = []
    prev = node
    p = getattr(node, "_parent", None)
    while p is not None and prev is not stop:
        out.append((p, prev))
        prev, p = p, getattr(p, "_parent", None)
    return out


def compatible(root, a, b):
    """can both calls happen in one run of the function, a before b?"""
    ca = {id(p): (p, c) for p, c in chain_of(a, root)}
    for p, cb in chain_of(b, root):
        if id(p) not in ca:
            continue
        x = ca[id(p)][1]
        if isinstance(p, ast.If):
            in_body = lambda n: any(n is s for s in p.body)
            return in_body(x) == in_body(cb)
        if isinstance(p, ast.IfExp):
            return False
        if isinstance(p, ast.Try):
            arm = lambda n: "body" if any(n is s for s in p.body) else \
                "else" if any(n is s for s in p.orelse) else \
                "final" if any(n is s for s in p.finalbody) else id(n)
            aa, ab = arm(x), arm(cb)
            if aa == ab:
                return True
            return "final" in (aa, ab) or {aa, ab} == {"body", "else"}
        if hasattr(ast, "match_case") and isinstance(p, ast.Match):
            return x is cb
        # two statements of one block: does the first always leave?
        return not always_leaves(x)
    return True


def always_leaves(st):
    if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(st, ast.If):
        # the call is somewhere inside: leaving in its arm is enough
        return any(isinstance(s, (ast.Return, ast.Raise, ast.Continue,
                                  ast.Break))
                   for arm in (st.body, st.orelse) for s in arm[-1:])
    if isinstance(st, ast.With):
        return always_leaves(st.body[-1])
    return False
