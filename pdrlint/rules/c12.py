"""C12: every reader can always obtain the inputs it requires.

The query table and reader of every Loader class are evaluated from the
source; the pipeline is then played on the signatures."""
from __future__ import annotations

import ast

from ..paths import Overflow, PathDomain, Paths
from ..program import own_walk

SPECIALIZE = "pdr.func.specialize"
SOFT = "pdr.func.softquery"
KWF = "pdr.func.call_kwargfiltered"
LOADER = "pdr.loaders.datawrap.Loader"

# query names whose value special-case checks may replace
CHECKS = {
    "block": ["check_special_block"],
    "start_byte": ["check_special_offset"],
    "table_props": ["check_special_position"],
    "fmtdef_dt": ["check_special_structure"],
    "sample_type": ["check_special_sample_type"],
    "band_storage_type": ["check_special_qube_band_storage"],
    "hdu_id": ["check_special_fits_start_byte"],
    "gen_props": ["check_if_qube"],
}
READER_CHECKS = {
    "ReadImage": "check_special_compressed_file_reader",
    "ReadTable": "check_special_table_reader",
    "ReadLabel": "check_special_label",
}


class Unknown(Exception):
    pass


class Eval:
    """values: ("fn", Func) ("spec", f, check) ("any",) ("dict", items)
    ("partial", f, names) or Unknown"""

    def __init__(self, prog):
        self.p = prog
        self.depth = 0

    def expr(self, e, env, mod, func, cls=None):
        p = self.p
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = p.resolve_name(e.id, mod, func)
            return self.ref(r)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in env and \
                    env[e.value.id] == ("self",):
                if "self." + e.attr in env:
                    return env["self." + e.attr]
                v = self.class_attr(cls, e.attr)
                if v is not None:
                    return v
                raise Unknown(ast.unparse(e))
            r = p.resolve_expr_static(e, mod, func)
            if r is not None and r[0] == "classattr":
                v = self.class_attr(r[1], r[2])
                if v is not None:
                    return v
            return self.ref(r)
        if isinstance(e, ast.Lambda):
            f = p.node2func.get(e)
            if f is None:
                raise Unknown("lambda")
            return ("fn", f)
        if isinstance(e, ast.Dict):
            items = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    items = self.merge(items, self.items(
                        self.expr(v, env, mod, func, cls)))
                else:
                    items = self.merge(items, [(
                        self.key(k, env, mod, func),
                        self.expr(v, env, mod, func, cls))])
            return ("dict", tuple(items))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a = self.expr(e.left, env, mod, func, cls)
            b = self.expr(e.right, env, mod, func, cls)
            return ("dict", tuple(self.merge(self.items(a), self.items(b))))
        if isinstance(e, ast.IfExp):
            raise Unknown("conditional")
        if isinstance(e, ast.Call):
            return self.call(e, env, mod, func, cls)
        if isinstance(e, (ast.Constant, ast.Tuple, ast.List)):
            return ("any",)
        raise Unknown(ast.unparse(e)[:60])

    def key(self, k, env, mod, func):
        if isinstance(k, ast.Constant):
            return k.value
        r = self.p.resolve_expr_static(k, mod, func)
        if r and r[0] == "global":
            es = r[1].assigns.get(r[2], [])
            if len(es) == 1 and isinstance(es[0], ast.Constant):
                return es[0].value
        raise Unknown("key " + ast.unparse(k))

    def ref(self, r):
        if r is None:
            raise Unknown("name")
        if r[0] == "func":
            return ("fn", r[1])
        if r[0] == "global":
            es = [x for x in r[1].assigns.get(r[2], [])
                  if isinstance(x, ast.AST)]
            if len(es) == 1:
                return self.expr(es[0], {}, r[1], None)
            raise Unknown(r[2])
        if r[0] in ("ext", "builtin", "class"):
            return ("any",)
        raise Unknown(str(r[0]))

    def class_attr(self, cls, name, seen=()):
        if cls is None or cls.qual in seen:
            return None
        for st in reversed(cls.node.body):
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in st.targets) or isinstance(
                    st, ast.AnnAssign) and isinstance(
                    st.target, ast.Name) and st.target.id == name and \
                    st.value is not None:
                return self.expr(st.value, {}, cls.module, None, cls)
        for b in cls.bases:
            if b and b[0] == "class":
                v = self.class_attr(b[1], name, seen + (cls.qual,))
                if v is not None:
                    return v
        return None

    def items(self, v):
        if v[0] != "dict":
            raise Unknown("mapping")
        return list(v[1])

    def merge(self, a, b):
        out = list(a)
        for k, v in b:
            for i, (k2, _) in enumerate(out):
                if k2 == k:
                    out[i] = (k, v)
                    break
            else:
                out.append((k, v))
        return out

    def call(self, e, env, mod, func, cls):
        p = self.p
        r = p.resolve_expr_static(e.func, mod, func)
        if r and r[0] == "func" and r[1].qual == SPECIALIZE:
            kw = {k.arg: k.value for k in e.keywords}
            a = list(e.args)
            f = a[0] if a else kw.get("func")
            c = a[1] if len(a) > 1 else kw.get("check")
            if f is None or c is None:
                raise Unknown("specialize")
            return ("spec", self.expr(f, env, mod, func, cls),
                    self.expr(c, env, mod, func, cls))
        if r and r[0] in ("ext", "builtin"):
            if r[1] in ("types.MappingProxyType", "copy.copy", "dict",
                        "collections.OrderedDict", "copy.deepcopy"):
                items = []
                if e.args:
                    items = self.items(self.expr(e.args[0], env, mod, func,
                                                 cls))
                for k in e.keywords:
                    v = self.expr(k.value, env, mod, func, cls)
                    items = self.merge(items, self.items(v) if k.arg is None
                                       else [(k.arg, v)])
                return ("dict", tuple(items))
            if r[1] == "functools.partial":
                v = self.expr(e.args[0], env, mod, func, cls)
                return ("partial", v, frozenset(
                    k.arg for k in e.keywords))
            if r[1] == "dustgoggles.func.constant":
                return ("constant",)
            return ("any",)
        if r and r[0] == "func" and self.depth < 6:
            # a helper that builds part of a table
            f = r[1]
            a = f.node.args
            env2 = {}
            pos = [x.arg for x in a.posonlyargs + a.args]
            for n, v in zip(pos, e.args):
                env2[n] = self.expr(v, env, mod, func, cls)
            for k in e.keywords:
                if k.arg:
                    env2[k.arg] = self.expr(k.value, env, mod, func, cls)
            self.depth += 1
            try:
                return self.block(f.body(), env2, f.module, f, None)
            finally:
                self.depth -= 1
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                "copy", "__or__"):
            v = self.expr(e.func.value, env, mod, func, cls)
            if e.func.attr == "copy":
                return v
            return ("dict", tuple(self.merge(self.items(v), self.items(
                self.expr(e.args[0], env, mod, func, cls)))))
        raise Unknown(ast.unparse(e)[:60])

    def block(self, stmts, env, mod, func, cls):
        """straight-line execution; -> returned value"""
        for st in stmts:
            if isinstance(st, ast.Return):
                return self.expr(st.value, env, mod, func, cls) if \
                    st.value is not None else ("any",)
            if isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass)):
                continue
            if isinstance(st, ast.Expr):
                self.effect(st.value, env, mod, func, cls)
                continue
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                tgts = st.targets if isinstance(st, ast.Assign) else [
                    st.target]
                try:
                    v = self.expr(st.value, env, mod, func, cls)
                except Unknown as x:
                    v = ("unknown", str(x))
                for t in tgts:
                    self.store(t, v, env, mod, func)
                continue
            if isinstance(st, ast.AugAssign) and isinstance(
                    st.op, ast.BitOr):
                ld = st.target
                a = self.expr(ld, env, mod, func, cls)
                b = self.expr(st.value, env, mod, func, cls)
                self.store(ld, ("dict", tuple(self.merge(
                    self.items(a), self.items(b)))), env, mod, func)
                continue
            if isinstance(st, ast.FunctionDef):
                self.nested(st, env, mod, func)
                continue
            if isinstance(st, (ast.ClassDef, ast.Assert)):
                continue
            raise Unknown(type(st).__name__)
        return ("any",)

    def nested(self, st, env, mod, func):
        """a wrapper made with functools.wraps has the signature of what it
        wraps (and calls it); any other nested function is itself"""
        for d in st.decorator_list:
            if isinstance(d, ast.Call) and d.args and isinstance(
                    d.args[0], ast.Name) and d.args[0].id in env:
                r = self.p.resolve_expr_static(d.func, mod, func)
                w = d.args[0].id
                if r and r[1] == "functools.wraps" and any(
                        isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == w
                        for n in ast.walk(st)):
                    env[st.name] = env[w]
                    return
        f = self.p.node2func.get(st)
        if f is not None and not st.decorator_list:
            env[st.name] = ("fn", f)
        else:
            env.pop(st.name, None)

    def store(self, t, v, env, mod, func):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and env.get(t.value.id) == ("self",):
            env["self." + t.attr] = v
        elif isinstance(t, ast.Attribute) and t.attr.startswith("__"):
            return      # __signature__, __doc__ ... of a wrapper
        elif isinstance(t, ast.Subscript):
            k = self.key(t.slice, env, mod, func)
            base = self.expr(t.value, env, mod, func)
            self.store(t.value, ("dict", tuple(self.merge(
                self.items(base), [(k, v)]))), env, mod, func)
        else:
            raise Unknown("assignment")

    def effect(self, e, env, mod, func, cls):
        if isinstance(e, ast.Constant):
            return
        if not isinstance(e, ast.Call):
            raise Unknown(ast.unparse(e)[:40])
        fe = e.func
        if isinstance(fe, ast.Attribute) and fe.attr == "__init__":
            parent = None
            args = list(e.args)
            if isinstance(fe.value, ast.Call) and isinstance(
                    fe.value.func, ast.Name) and \
                    fe.value.func.id == "super":
                for b in cls.bases:
                    if b and b[0] == "class":
                        parent = b[1]
                        break
            else:
                r = self.p.resolve_expr_static(fe.value, mod, func)
                if r and r[0] == "class":
                    parent = r[1]
                    args = args[1:]
            if parent is None:
                raise Unknown("super")
            vals = [self.expr(a, env, mod, func, cls) for a in args]
            kws = {k.arg: self.expr(k.value, env, mod, func, cls)
                   for k in e.keywords if k.arg}
            self.init(parent, vals, kws, env)
            return
        if isinstance(fe, ast.Attribute) and fe.attr == "update":
            a = self.expr(fe.value, env, mod, func, cls)
            items = self.items(a)
            for x in e.args:
                items = self.merge(items, self.items(
                    self.expr(x, env, mod, func, cls)))
            for k in e.keywords:
                items = self.merge(items, [(k.arg, self.expr(
                    k.value, env, mod, func, cls))])
            self.store(fe.value, ("dict", tuple(items)), env, mod, func)
            return
        if isinstance(fe, ast.Attribute) and isinstance(
                fe.value, ast.Name) and env.get(fe.value.id) == ("self",):
            m = self.p.find_method(cls, fe.attr)
            if m is not None and self.depth < 5:
                env2 = {k: v for k, v in env.items() if k.startswith(
                    "self.")}
                pos = m.param_names()
                env2[pos[0]] = ("self",)
                for n, v in zip(pos[1:], e.args):
                    env2[n] = self.expr(v, env, mod, func, cls)
                self.depth += 1
                try:
                    self.block(m.body(), env2, m.module, m, cls)
                finally:
                    self.depth -= 1
                env.update({k: v for k, v in env2.items()
                            if k.startswith("self.")})
                return
        raise Unknown(ast.unparse(e)[:40])

    def init(self, cls, vals, kws, outer):
        m = self.p.find_method(cls, "__init__")
        if m is None:
            return
        pos = m.param_names()
        env = {k: v for k, v in outer.items() if k.startswith("self.")}
        env[pos[0]] = ("self",)
        for n, v in zip(pos[1:], vals):
            env[n] = v
        env.update(kws)
        self.depth += 1
        try:
            if self.depth < 8:
                self.block(m.body(), env, m.module, m,
                           m.cls or cls)
        finally:
            self.depth -= 1
        outer.update({k: v for k, v in env.items()
                      if k.startswith("self.")})

    def loader(self, cls):
        """-> (reader value, [(query name, value)])"""
        env = {}
        m = self.p.find_method(cls, "__init__")
        if m is not None:
            self.init_of(cls, m, env)
        reader = env.get("self.loader_function")
        if reader is None:
            reader = self.class_attr(cls, "loader_function")
        q = env.get("self.queries") or self.class_attr(cls, "queries")
        if reader is None or reader[0] == "unknown":
            raise Unknown("reader")
        if q is None or q[0] != "dict":
            raise Unknown("queries")
        return reader, list(q[1])

    def init_of(self, cls, m, env):
        env2 = {m.param_names()[0]: ("self",)}
        # attributes of self default to the class's
        self.block(m.body(), env2, m.module, m, m.cls)
        env.update({k: v for k, v in env2.items() if k.startswith("self.")})


# ------------------------------------------------------------ signatures
class Param:
    def __init__(self, name, ann, default, kind):
        self.name, self.ann, self.default, self.kind = (
            name, ann, default, kind)

    @property
    def required(self):
        """by the conventions of pdr.func"""
        if self.name in ("_", "__"):
            return False
        a = (self.ann or "").strip(" '\"")
        return not (a.startswith("Optional[") or a.endswith(" | None")
                    or a.startswith("None | "))


def params(v):
    """[Param] of a callable value; None when not known"""
    if v[0] == "fn":
        f = v[1]
        a = f.node.args
        out = []
        pos = a.posonlyargs + a.args
        dfl = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):],
                       a.defaults)) if a.defaults else {}
        for x in pos:
            out.append(Param(x.arg, ann(x), dfl.get(x.arg), "pos"))
        if a.vararg:
            out.append(Param(a.vararg.arg, ann(a.vararg), None, "var"))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append(Param(x.arg, ann(x), d, "kwonly"))
        if a.kwarg:
            out.append(Param(a.kwarg.arg, ann(a.kwarg), None, "kw"))
        if f.cls is not None and not f.is_static and out:
            out = out[1:]
        return out
    if v[0] == "spec":
        a, b = params(v[1]), params(v[2])
        if a is None or b is None:
            return None
        out = list(a)
        for x in b:
            same = [y for y in out if y.name == x.name]
            if not same:
                out.append(x)
            elif same[0].ann is None:
                out[out.index(same[0])] = x
        return out
    if v[0] == "partial":
        a = params(v[1])
        return None if a is None else [x for x in a if x.name not in v[2]]
    return None


def ann(x):
    return ast.unparse(x.annotation) if x.annotation is not None else None


def show(v):
    if v[0] == "fn":
        return v[1].qual
    if v[0] == "spec":
        return f"specialize({show(v[1])}, {show(v[2])})"
    if v[0] == "partial":
        return f"partial({show(v[1])})"
    return v[0]


def leaves(v):
    if v[0] == "fn":
        return [v[1]]
    if v[0] == "spec":
        return leaves(v[1]) + leaves(v[2])
    if v[0] == "partial":
        return leaves(v[1])
    return []


def where(v, cls):
    fs = leaves(v)
    return f"{fs[0].file}:{fs[0].line}" if fs else (
        f"{cls.module.relpath}:{cls.node.lineno}")


def conflicts(v):
    """same-named parameters annotated differently: sig_union refuses"""
    if v[0] != "spec":
        return []
    a, b = params(v[1]), params(v[2])
    if a is None or b is None:
        return conflicts(v[1])
    out = conflicts(v[1])
    for x in a:
        for y in b:
            if x.name == y.name and x.ann and y.ann and x.ann != y.ann:
                out.append((x.name, x.ann, y.ann))
    return out


# --------------------------------------------------------------- the rules
def given(prog):
    """names the loading call itself provides"""
    out = {"tracker"}
    m = prog.funcs.get(LOADER + ".__call__")
    if m is None:
        return None
    for n in own_walk(m.node):
        if isinstance(n, ast.Dict):
            ks = [k.value for k in n.keys if isinstance(k, ast.Constant)]
            if "data" in ks or "name" in ks:
                out |= {k for k in ks if isinstance(k, str)}
    if not {"data", "name"} & out:
        for n in own_walk(m.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(
                    n.slice, ast.Constant):
                out.add(n.slice.value)
            if isinstance(n, ast.Call):
                out |= {k.arg for k in n.keywords if k.arg in (
                    "data", "name")}
    return out


def consults(ctx, v, check):
    """is the named check part of this query (directly or by calls)?"""
    fs = leaves(v)
    if any(f.name == check for f in fs):
        return True
    for f in fs:
        if any(q.split(".")[-1] == check for q in ctx.cg.reach([f])):
            return True
    return False


def play(ctx, rep, cls, reader, queries, have):
    """run the pipeline on signatures"""
    name = cls if isinstance(cls, str) else cls.qual
    loc = "" if isinstance(cls, str) else (
        f"{cls.module.relpath}:{cls.node.lineno}")
    ps = params(reader)
    sigs = {k: params(v) for k, v in queries}
    if ps is None:
        rep.undecide(f"{name}: signature of {show(reader)}")
        return
    need = {p.name for p in ps if p.required}
    for k, s in sigs.items():
        if s is None:
            if dict(queries)[k][0] not in ("constant",):
                rep.undecide(f"{name}: signature of query {k}")
                return
            sigs[k] = []
    for s in sigs.values():
        need |= {p.name for p in s if p.required}
    rep.count("inputs required", len(need))
    missing = need - have - set(sigs)
    for m in sorted(missing):
        by = [show(reader)] if m in {p.name for p in ps} else [
            show(v) for k, v in queries if m in {
                p.name for p in sigs[k]}]
        rep.find("C12.inputs", f"{name}|{m}", loc,
                 f"{name}: nothing provides the input {m} that {by[0]} "
                 f"requires")
    avail = set(have)
    for k, v in queries:
        if k not in need or k in have:
            continue
        rep.count("queries played")
        for p in sigs[k]:
            if p.kind in ("var", "kw") or p.default is not None:
                continue
            if p.name not in avail and p.name not in missing:
                rep.find("C12.order", f"{name}|{k}|{p.name}", loc,
                         f"{name}: the query {k} ({show(v)}) runs before "
                         f"its input {p.name} is available")
        avail.add(k)
    for p in ps:
        if p.kind in ("var", "kw") or p.default is not None:
            continue
        if p.name not in avail and p.name not in missing:
            rep.find("C12.inputs", f"{name}|{p.name}", loc,
                     f"{name}: {show(reader)} is called without its "
                     f"argument {p.name}")


def check(ctx, rep, tier):
    rep.rule("C12.inputs", "for every Loader class, evaluated with its query "
             "table, each input required by the reader, its queries and "
             "their special-case checks is given by the loading call or by "
             "a query")
    rep.rule("C12.order", "each query that runs comes after the queries that "
             "provide its inputs")
    rep.rule("C12.special", "block, offset, position, structure, sample "
             "type, band storage and reader special-case checks are "
             "consulted by every loader that uses those inputs")
    rep.rule("C12.signature", "a function and the check that preempts it "
             "agree on the annotations of shared parameters (otherwise "
             "combining them fails)")
    rep.rule("C12.engine", "specialize asks the check first and uses its "
             "answer exactly when it says yes; softquery runs exactly the "
             "needed queries in order")
    prog = ctx.prog
    base = prog.need_class(LOADER)
    have = given(prog)
    ev = Eval(prog)
    classes = sorted(prog.subclasses(base), key=lambda c: c.qual)
    seen = set()
    for cls in classes:
        if cls.qual in seen:
            continue
        seen.add(cls.qual)
        rep.count("loader classes")
        try:
            reader, queries = ev.loader(cls)
        except (Unknown, RecursionError, IndexError, KeyError) as x:
            rep.undecide(f"{cls.qual}: {x}")
            continue
        rep.count("loaders evaluated")
        rep.sample({"loader": cls.name, "reader": show(reader),
                    "queries": {k: show(v)[:70] for k, v in queries}})
        play(ctx, rep, cls, reader, queries, have)
        special(ctx, rep, cls, reader, queries, have)
        for k, v in [("reader", reader)] + queries:
            rep.count("signatures combined", v[0] == "spec")
            for n, a, b in conflicts(v):
                rep.find("C12.signature", f"{show(v)}|{n}", where(v, cls),
                         f"{cls.name}: {show(v)} disagree on the annotation "
                         f"of {n} ({a} / {b}), so they cannot be combined")
    standalone(ctx, rep, ev)
    engine(ctx, rep)
    rep.assume("annotations are compared as written; a parameter marked "
               "Optional, or named _ or __, is not required (pdr.func's "
               "convention)")
    rep.need("loader classes", 8)


def special(ctx, rep, cls, reader, queries, have):
    q = dict(queries)
    ps = params(reader) or []
    need = {p.name for p in ps if p.required}
    for k, v in queries:
        need |= {p.name for p in (params(v) or []) if p.required}
    for k, checks in CHECKS.items():
        if k not in need or k not in q:
            continue
        for c in checks:
            if not exists(ctx.prog, c):
                continue
            rep.count("special-case checks expected")
            if not consults(ctx, q[k], c):
                rep.find("C12.special", f"{cls.qual}|{k}|{c}",
                         f"{cls.module.relpath}:{cls.node.lineno}",
                         f"{cls.name} obtains {k} from {show(q[k])} without "
                         f"consulting {c}")
    c = READER_CHECKS.get(cls.name)
    if c and exists(ctx.prog, c):
        rep.count("special-case checks expected")
        if not consults(ctx, reader, c):
            rep.find("C12.special", f"{cls.qual}|reader|{c}",
                     f"{cls.module.relpath}:{cls.node.lineno}",
                     f"{cls.name} reads with {show(reader)} without "
                     f"consulting {c}")


def exists(prog, name):
    return any(f.name == name for f in prog.own_funcs())


def standalone(ctx, rep, ev):
    """direct uses of softquery"""
    prog = ctx.prog
    for f in prog.own_funcs():
        for n in own_walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = prog.resolve_expr_static(n.func, f.module, f)
            if not (r and r[0] == "func" and r[1].qual == SOFT):
                continue
            if f.cls is not None and f.cls.qual == LOADER:
                continue
            kw = {k.arg: k.value for k in n.keywords}
            pos = r[1].param_names()
            arg = dict(zip(pos, n.args))
            arg.update(kw)
            if len(pos) < 3:
                continue
            fn, qd, kd = (arg.get(x) for x in pos[:3])
            env = {}
            try:
                reader = ev.expr(fn, env, f.module, f)
                queries = list(ev.items(ev.expr(qd, env, f.module, f)))
                if not isinstance(kd, ast.Dict):
                    raise Unknown("arguments")
                have = {k.value for k in kd.keys
                        if isinstance(k, ast.Constant)}
            except (Unknown, AttributeError) as x:
                rep.undecide(f"{f.qual}: softquery: {x}")
                continue
            rep.count("direct pipelines")
            play(ctx, rep, f.qual, reader, queries, have)
            for k, checks in CHECKS.items():
                for c in checks:
                    if k in dict(queries) and exists(prog, c) and not \
                            consults(ctx, dict(queries)[k], c):
                        rep.find("C12.special", f"{f.qual}|{k}|{c}",
                                 f"{f.file}:{n.lineno}",
                                 f"{f.qual} obtains {k} from "
                                 f"{show(dict(queries)[k])} without "
                                 f"consulting {c}")


# ------------------------------------------------------------------ engine
class Spec(PathDomain):
    """dom: tuple of events"""

    def __init__(self, prog, answers):
        super().__init__()
        self.p = prog
        self.answers = answers

    def elements(self, v, dom):
        if v == ("ANS", True):
            return (self.const(True), ("SPECIAL",))
        if v == ("ANS", False):
            return (self.const(False), self.const(None))
        if isinstance(v, tuple) and v and v[0] == "L":
            return v[1]
        return None

    def subscript(self, v, k, node, dom, fr):
        els = self.elements(v, dom)
        if els is not None and isinstance(k, tuple) and k and \
                k[0] == "k" and isinstance(k[2], int) and \
                -len(els) <= k[2] < len(els):
            return [("ok", els[k[2]], dom)]
        return None

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list"):
            return ("L", tuple(vals))
        return None

    def call(self, target, recv, name, args, kwargs, node, dom, fr):
        subj = None
        rest = list(args)
        if recv in (("F",), ("C",)) and target is None:
            subj = recv
        elif args and args[0] in (("F",), ("C",)):
            subj = args[0]
            rest = rest[1:]
        if subj is not None and (target is None or target[0] == "func"):
            # track(check, ...) is not a call of the check
            if name in ("track", "getattr", "repr"):
                return [("ok", None, dom)]
            filt = target is not None
            full = kwargs.get("*") == ("KW",) and (
                any(isinstance(a, ast.Starred) for a in node.args))
            ev = (subj[0], full, filt)
            if subj == ("C",):
                return [("ok", ("ANS", b), dom + (ev + (b,),))
                        for b in (True, False)] + [
                    ("raise", "ORD", dom + (ev + (None,),))]
            return [("ok", ("RESULT",), dom + (ev + (None,),)),
                    ("raise", "ORD", dom + (ev + ("x",),))]
        if recv == ("E",):
            return [("ok", ("HANDLED",), dom)]
        if target is not None and target[0] == "func" and any(
                a in (("F",), ("C",)) for a in list(args) + list(
                    kwargs.values())):
            return ("inline", target[1], None)
        return [("ok", None, dom)]

    def truth(self, v, dom):
        t = super().truth(v, dom)
        if t is None and v in (("F",), ("C",), ("E",), ("SPECIAL",)):
            return None if v == ("SPECIAL",) else True
        return t


def engine(ctx, rep):
    prog = ctx.prog
    f = prog.funcs.get(SPECIALIZE)
    if f is None:
        rep.undecide("specialize")
        return
    pos = f.param_names()
    inner = [g for g in f.children.values() if isinstance(
        g.node, ast.FunctionDef)]
    if len(inner) != 1 or len(pos) < 2:
        rep.undecide("specialize: shape")
        return
    g = inner[0]
    a = g.node.args
    if a.vararg is None or a.kwarg is None:
        rep.undecide("specialize: wrapper signature")
        return
    dom = Spec(prog, None)
    x = Paths(prog, dom)
    cenv = {pos[0]: ("F",), pos[1]: ("C",)}
    if len(pos) > 2:
        cenv[pos[2]] = dom.const(None)
    bound = {n: None for n in g.all_param_names()}
    bound[a.kwarg.arg] = ("KW",)
    try:
        res = x.run(g, bound, (), cenv=cenv)
    except Overflow:
        rep.undecide("specialize: paths")
        return
    loc = f"{g.file}:{g.line}"
    for kind, v, evs in res:
        rep.count("specialize outcomes")
        cs = [e for e in evs if e[0] == "C"]
        fs = [e for e in evs if e[0] == "F"]
        if any(e[2] and not e[1] for e in cs + fs):
            rep.find("C12.engine", "specialize|arguments", loc,
                     "specialize does not pass every argument on")
        if any(not e[2] for e in cs):
            rep.find("C12.engine", "specialize|filter", loc,
                     "specialize passes the check arguments it may not "
                     "accept")
        if kind != "return":
            if cs and cs[-1][3] is None and fs:
                pass
            continue
        if not cs:
            if fs or v is not None:
                rep.find("C12.engine", "specialize|unchecked", loc,
                         "specialize can answer without asking the check")
            continue
        ans = cs[-1][3]
        if ans is True and (fs or v not in (("SPECIAL",), None)):
            rep.find("C12.engine", "specialize|yes", loc,
                     "specialize does not answer with the check's value "
                     "when the check says yes")
        if ans is False and (not fs or v not in (("RESULT",), None)):
            rep.find("C12.engine", "specialize|no", loc,
                     "specialize does not fall through to the generic "
                     "function when the check says no")
        if ans is None:
            rep.find("C12.engine", "specialize|fault", loc,
                     "specialize answers although the check failed")
        if fs and evs.index(fs[0]) < evs.index(cs[0]):
            rep.find("C12.engine", "specialize|order", loc,
                     "specialize runs the generic function before the "
                     "check")
    # the combined signature is published for softquery
    pub = False
    for n in own_walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "__signature__" and \
                isinstance(n.ctx, ast.Store):
            st = getattr(n, "_parent", None)
            names = {y.id for y in ast.walk(st.value) if isinstance(
                y, ast.Name)} if isinstance(st, ast.Assign) else set()
            pub = pub or {pos[0], pos[1]} <= names
            if not isinstance(st, ast.Assign) or isinstance(
                    st.value, ast.Name):
                pub = True      # computed elsewhere
    if not pub and not any(isinstance(n, ast.Call) and isinstance(
            n.func, ast.Name) and n.func.id == "setattr"
            for n in own_walk(f.node)):
        rep.find("C12.engine", "specialize|signature", loc,
                 "specialize does not publish the combined signature of the "
                 "function and its check")
    soft(ctx, rep)


class Soft(PathDomain):
    """dom: (available names, calls made)"""

    SIGS = {"F": ("data", "b", "z"), "Qa": ("data",), "Qb": ("c",),
            "Qc": ("data",), "Qd": ("data",), "Qz": ("b", "given")}

    def __init__(self, prog, keys):
        super().__init__()
        self.p = prog
        self.keys = keys

    def fs(self, x):
        return ("k", "frozenset", frozenset(x))

    def elements(self, v, dom):
        if v == ("QD",) or v == ("QK",):
            return tuple(self.const(k) for k in self.keys)
        if v == ("QI",):
            return tuple(("L", (self.const(k), ("Q", k)))
                         for k in self.keys)
        if v == ("QV",):
            return tuple(("Q", k) for k in self.keys)
        if isinstance(v, tuple) and v:
            if v[0] == "L":
                return v[1]
            if v[0] == "k" and isinstance(v[2], (tuple, list)):
                return tuple(self.const(x) for x in v[2])
            if v[0] == "k" and isinstance(v[2], frozenset):
                return None
        return None

    def asset(self, v, dom):
        if v == ("KD",) or v == ("KK",):
            return dom[0]
        if v in (("QD",), ("QK",)):
            return frozenset(self.keys)
        if isinstance(v, tuple) and v and v[0] == "k" and isinstance(
                v[2], (frozenset, tuple, list)):
            return frozenset(v[2])
        if isinstance(v, tuple) and v and v[0] == "L" and all(
                isinstance(x, tuple) and x and x[0] == "k" for x in v[1]):
            return frozenset(x[2] for x in v[1])
        return None

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list"):
            return ("L", tuple(vals))
        if kind == "set" and all(isinstance(x, tuple) and x and
                                 x[0] == "k" for x in vals):
            return self.fs(x[2] for x in vals)
        return None

    def truth(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "L":
            return bool(v[1])
        if v == ("KD",):
            return bool(dom[0])
        return super().truth(v, dom)

    def compare(self, op, a, b, node, dom, fr):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                a, tuple) and a and a[0] == "k":
            s = self.asset(b, dom)
            if s is not None:
                return (a[2] in s) is isinstance(op, ast.In)
        x, y = self.asset(a, dom), self.asset(b, dom)
        if x is not None and y is not None:
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Lt):
                return x < y
            if isinstance(op, ast.GtE):
                return x >= y
            if isinstance(op, ast.Eq):
                return x == y
            if isinstance(op, ast.NotEq):
                return x != y
        return None

    def binop(self, op, a, b, node, dom, fr):
        x, y = self.asset(a, dom), self.asset(b, dom)
        if x is None or y is None:
            return None
        if isinstance(op, ast.Sub):
            return self.fs(x - y)
        if isinstance(op, ast.BitAnd):
            return self.fs(x & y)
        if isinstance(op, ast.BitOr):
            return self.fs(x | y)
        return None

    def subscript(self, v, k, node, dom, fr):
        if v == ("QD",) and isinstance(k, tuple) and k[0] == "k":
            return [("ok", ("Q", k[2]), dom)]
        return [("ok", None, dom)]

    def store_item(self, base, k, v, node, dom, fr):
        if base == ("KD",) and isinstance(k, tuple) and k and k[0] == "k":
            return (dom[0] | {k[2]}, dom[1] + (("set", k[2], v),))
        return dom

    def names(self, v):
        if v == ("F",):
            return self.SIGS["F"]
        if isinstance(v, tuple) and v and v[0] == "Q":
            return self.SIGS["Q" + v[1]]
        return None

    def call(self, target, recv, name, args, kwargs, node, dom, fr):
        if target is not None and target[0] == "func":
            q = target[1].qual
            if q == KWF:
                return self.run_query(args[0] if args else None, kwargs,
                                      dom, True)
            if q.startswith("pdr.func.get_"):
                out = set()
                for a in args:
                    ns = self.names(a)
                    if ns is None:
                        return [("ok", None, (dom[0], dom[1] + (
                            ("lost",),)))]
                    out |= set(ns)
                return [("ok", self.fs(out), dom)]
            return ("inline", target[1], None)
        if target is not None and target[0] == "builtin":
            n = target[1]
            if n in ("set", "frozenset") and len(args) < 2:
                s = self.asset(args[0], dom) if args else frozenset()
                return [("ok", None if s is None else self.fs(s), dom)]
            if n in ("list", "tuple", "iter") and args:
                els = self.elements(args[0], dom)
                return [("ok", None if els is None else ("L", els), dom)]
            if n == "dict" and args and args[0] == ("QD",):
                return [("ok", ("QD",), dom)]
            if n == "len" and args:
                s = self.asset(args[0], dom)
                return [("ok", None if s is None else self.const(len(s)),
                         dom)]
            if n == "any" or n == "all":
                return [("ok", None, dom)]
            if n == "TypeError":
                return None
            return None
        if target is not None:
            return None
        if name == "keys":
            return [("ok", {("QD",): ("QK",), ("KD",): ("KK",)}.get(recv),
                     dom)]
        if recv == ("QD",) and name == "values":
            return [("ok", ("QV",), dom)]
        if recv == ("QD",) and name == "items":
            return [("ok", ("QI",), dom)]
        if recv == ("QD",) and name == "get" and args and args[0] and \
                args[0][0] == "k":
            return [("ok", ("Q", args[0][2]), dom)]
        s = self.asset(recv, dom)
        if s is not None and name in ("difference", "union", "intersection",
                                      "issubset", "issuperset", "copy"):
            o = [self.asset(a, dom) for a in args]
            if None in o:
                return [("ok", None, dom)]
            for t in o:
                s = {"difference": s - t, "union": s | t,
                     "intersection": s & t, "issubset": s <= t,
                     "issuperset": s >= t}[name]
            return [("ok", self.const(s) if isinstance(s, bool)
                     else self.fs(s), dom)]
        if recv == ("KD",) and name == "update":
            return [("ok", None, (dom[0], dom[1] + (("lost",),)))]
        if isinstance(recv, tuple) and recv and recv[0] == "Q":
            return self.run_query(recv, kwargs, dom, False)
        return [("ok", None, dom)]

    def run_query(self, q, kwargs, dom, filt):
        if not (isinstance(q, tuple) and q and q[0] in ("Q", "F")):
            return [("ok", None, (dom[0], dom[1] + (("lost",),)))]
        full = kwargs.get("*") == ("KD",)
        return [("ok", ("R", q[-1]), (dom[0], dom[1] + (
            ("run", q[-1], dom[0] if full else None, filt),)))]


def soft(ctx, rep):
    prog = ctx.prog
    f = prog.funcs.get(SOFT)
    if f is None or len(f.param_names()) < 3:
        rep.undecide("softquery")
        return
    pos = f.param_names()
    loc = f"{f.file}:{f.line}"
    # data -> c -> b -> z; a is not needed; d is given by the caller
    have = frozenset({"data", "given", "d"})
    for keys, want in ((("a", "c", "b", "d", "z"), ["c", "b", "z"]),
                       (("c", "b"), None)):
        dom = Soft(prog, keys)
        x = Paths(prog, dom)
        try:
            res = x.run(f, {pos[0]: ("F",), pos[1]: ("QD",),
                            pos[2]: ("KD",)}, (have, ()))
        except Overflow:
            rep.undecide("softquery: paths")
            return
        for kind, v, (avail, evs) in res:
            rep.count("softquery outcomes")
            if ("lost",) in evs:
                rep.undecide("softquery: not followed")
                continue
            runs = [e for e in evs if e[0] == "run"]
            sets = [e for e in evs if e[0] == "set"]
            if want is None:
                if kind == "return":
                    rep.find("C12.engine", "softquery|missing", loc,
                             "softquery goes on although no query provides "
                             "an input the reader requires")
                continue
            if kind != "return":
                rep.find("C12.engine", "softquery|refuses", loc,
                         "softquery refuses a pipeline that has every "
                         "input")
                continue
            if [e[1] for e in runs] != want:
                rep.find("C12.engine", "softquery|runs", loc,
                         f"softquery runs the queries "
                         f"{[e[1] for e in runs]}, needed are {want}")
                continue
            for e in runs:
                if e[2] is None or not e[3]:
                    rep.find("C12.engine", f"softquery|args|{e[1]}", loc,
                             "softquery does not pass a query everything "
                             "gathered so far, filtered by its signature")
            for e in sets:
                if e[2] is not None and e[2] != ("R", e[1]):
                    rep.find("C12.engine", f"softquery|store|{e[1]}", loc,
                             f"softquery stores something else than the "
                             f"query's answer as {e[1]}")
            if v not in (("KD",), None) or not set(want) <= avail:
                rep.find("C12.engine", "softquery|result", loc,
                         "softquery does not answer with everything "
                         "gathered")
