"""C31: corrections computed while loading always take effect.

Every place where the library's own code computes something and nothing can
ever see it: results of operations that change nothing themselves, values
stored in names that are never read again, and changes made to a copy that is
then dropped (a temporary, a named copy, or a part of a data frame, which
pandas always copies)."""
from __future__ import annotations

import ast

from ..callgraph import CallGraph
from ..effects import Refs, owner, where
from ..program import own_walk, unparse

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
# methods which, on anything that has them, only ever return something new
PURE = set("""strip lstrip rstrip lower upper title zfill ljust rjust center
 expandtabs translate removeprefix removesuffix splitlines partition
 rpartition capitalize casefold swapcase rsplit split
 with_suffix with_name joinpath
 union intersection difference symmetric_difference
 fillna drop reset_index set_index sort_values sort_index drop_duplicates
 dropna ffill bfill interpolate assign merge reindex astype applymap
 infer_objects convert_dtypes rename_axis add_prefix add_suffix squeeze
 where mask replace rename clip round isin notna isna combine_first
 reshape swapaxes transpose ravel flatten byteswap newbyteorder filled
 decode encode to_dict to_numpy to_frame explode pivot melt stack unstack
 """.split())
# ... of data frames and columns only; other things have effects under these
FRAME_PURE = {"map", "apply", "transform", "filter", "groupby", "join",
              "append", "pop_"}
CHECKING = {"decode", "encode", "split", "index", "astype", "reshape"}
NP_EFFECT = {"put", "copyto", "place", "putmask", "fill_diagonal", "shuffle",
             "save", "savez", "savetxt", "savez_compressed", "seterr",
             "seterrcall", "set_printoptions", "errstate", "at", "seed",
             "setbufsize", "set_string_function", "put_along_axis",
             "tofile", "printoptions", "setfield"}
PD_PURE = {"concat", "merge", "to_numeric", "DataFrame", "Series",
           "to_datetime", "cut", "isna", "notna", "melt", "pivot"}
BUILTIN_PURE = {"sorted", "reversed", "map", "filter", "zip", "round", "abs",
                "enumerate"}
FRESH_CALLS = {"builtins.list", "builtins.dict", "builtins.set",
               "builtins.sorted", "builtins.bytearray", "copy.copy",
               "copy.deepcopy", "numpy.array", "numpy.copy", "numpy.zeros",
               "numpy.ones", "numpy.full", "numpy.empty", "numpy.zeros_like",
               "numpy.ones_like", "numpy.full_like", "numpy.concatenate",
               "numpy.flipud_"}
FRESH_METHODS = {"copy", "deepcopy", "astype", "to_dict", "tolist", "flatten",
                 "reset_index", "fillna", "drop", "assign", "sort_values",
                 "rename", "replace", "set_index", "merge", "byteswap",
                 "dropna", "drop_duplicates"}
MUTATING = {"append", "extend", "insert", "update", "pop", "popitem",
            "remove", "clear", "add", "discard", "setdefault", "sort",
            "reverse", "fill", "popall", "popone"}
PART = {"loc", "iloc"}
READING = {"get", "keys", "values", "items", "count", "index", "lower",
           "upper", "strip", "any", "all", "max", "min", "sum", "startswith",
           "endswith", "getall", "getone", "copy", "unique", "nunique"}


def check(ctx, rep, tier):
    rep.rule("C31.result", "the result of an operation that changes nothing "
             "itself is used")
    rep.rule("C31.stored", "a corrected value stored in a name is read "
             "somewhere afterwards")
    rep.rule("C31.temporary", "in-place changes are not made to a temporary "
             "copy of something, or of part of a data frame")
    rep.rule("C31.copy", "a named copy that is corrected in place is used "
             "afterwards")
    Check(ctx, rep).run()


class Check:
    def __init__(self, ctx, rep):
        self.prog, self.rep = ctx.prog, rep
        self.refs = Refs(ctx.prog)
        self.cg = CallGraph(ctx.prog)
        self.found = {}
        self._pure = {}
        self._frame = {}
        self.by_target = {}
        for s in self.cg.sites:
            if s.target[0] == "func" and s.kind == "call":
                self.by_target.setdefault(s.target[1].qual, []).append(s)
        self.targets = {}
        for s in self.cg.sites:
            if s.kind == "call":
                self.targets.setdefault(id(s.node), []).append(s.target)

    def note(self, rule, what, func, module, node, msg):
        self.found.setdefault((rule, f"{owner(func, module)}|{what}"),
                              (where(func, module, node), msg))

    def run(self):
        for func, module, node in self.refs.scopes():
            if func is not None:
                self.rep.count("functions")
            for n in own_walk(node):
                if isinstance(n, ast.Expr) and not isinstance(
                        n.value, (ast.Constant, ast.Name)):
                    self.discarded(n, func, module)
                elif isinstance(n, (ast.Assign, ast.AugAssign,
                                    ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [
                        n.target]
                    for t in ts:
                        for x in flat(t):
                            if isinstance(x, (ast.Subscript, ast.Attribute)):
                                self.rep.count("in-place changes")
                                self.temporary(x.value, x, func, module)
            if func is not None and not isinstance(node, ast.Lambda):
                self.stored(func, module)
                self.copies(func, module)
        for (rule, key), (w, msg) in sorted(self.found.items()):
            self.rep.find(rule, key, w, msg)

    # --------------------------------------------------------- discarded
    def discarded(self, st, func, module):
        e = st.value
        self.rep.count("expression statements")
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return
        if isinstance(e, ast.IfExp):
            for b in (e.body, e.orelse):
                if isinstance(b, ast.Call):
                    self.call(b, st, func, module)
            return
        if isinstance(e, ast.BoolOp):
            if isinstance(e.values[-1], ast.Call):
                self.call(e.values[-1], st, func, module)
            return
        if isinstance(e, (ast.GeneratorExp,)):
            self.note("C31.result", "generator", func, module, st,
                      f"{owner(func, module)} never runs a generator")
            return
        if isinstance(e, ast.BinOp) and not self.tried(st, func) and any(
                isinstance(x, ast.Name) for x in ast.walk(e)):
            self.note("C31.result", unparse(e, 40), func, module, st,
                      f"{owner(func, module)} discards {unparse(e, 60)}")
            return
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], ast.Eq) and isinstance(
                    e.left, (ast.Subscript, ast.Attribute)):
            self.note("C31.result", unparse(e, 40), func, module, st,
                      f"{owner(func, module)} compares where it means to "
                      f"set: {unparse(e, 60)}")
            return
        if isinstance(e, ast.Call):
            self.call(e, st, func, module)

    def tried(self, st, func):
        """is this evaluated to see whether it raises: in a `try`, or in a
        function that returns nothing and is called from one?"""
        if in_try(st):
            return True
        if func is None or isinstance(func.node, ast.Lambda) or any(
                isinstance(x, ast.Return) and x.value is not None
                for x in own_walk(func.node)):
            return False
        return any(in_try(s.node) for s in self.by_target.get(
            func.qual, []))

    def call(self, c, st, func, module):
        what = self.pure_call(c, st, func, module)
        if what:
            self.note("C31.result", what, func, module, c,
                      f"{owner(func, module)} discards the result of "
                      f"{unparse(c, 60)}, which changes nothing itself")
            return
        f = c.func
        if not isinstance(f, ast.Attribute):
            return
        if truthy(kw(c, "inplace")) or f.attr in MUTATING or \
                f.attr in ("sort_values",) and truthy(kw(c, "inplace")):
            self.rep.count("in-place changes")
            self.temporary(f.value, c, func, module)

    def pure_call(self, c, st, func, module):
        f = c.func
        names = [x for a in list(c.args) + [k.value for k in c.keywords] + (
            [f.value] if isinstance(f, ast.Attribute) else [])
            for x in ast.walk(a) if isinstance(x, ast.Name)]
        data = [x for x in names if self.prog.resolve_name(
            x.id, module, func) is None or self.prog.resolve_name(
                x.id, module, func)[0] in ("local", "global")]
        if not data:
            return None
        if any(k.arg in ("out", "inplace") and not falsy(k.value)
               for k in c.keywords) or any(
                   k.arg is None for k in c.keywords):
            return None
        d = self.refs.dotted(f, module, func)
        checking = self.tried(st, func)
        if d:
            h, _, t = d.rpartition(".")
            if h == "builtins":
                return t if t in BUILTIN_PURE else None
            if h.split(".")[0] == "numpy":
                if checking or t in NP_EFFECT or h.startswith(
                        ("numpy.testing", "numpy.random")) or \
                        t.startswith(("set", "save", "test")):
                    return None
                return t
            if h == "pandas":
                return t if t in PD_PURE and not checking else None
            if d in ("re.sub", "re.split", "functools.reduce_"):
                return t
            return None
        ts = self.targets.get(id(c), [])
        own = [t for t in ts if t[0] == "func"]
        if own:
            if all(self.pure_func(t[1]) for t in own) and len(
                    own) == len(ts):
                return own[0][1].name
            return None
        if ts and any(t[0] in ("class",) for t in ts):
            return None
        if isinstance(f, ast.Attribute):
            a = f.attr
            if a in FRAME_PURE and self.frame(
                    f.value, func, module) in ("df", "series") and \
                    all(not isinstance(x, ast.Name) or not self.impure_fn(
                        x, func, module) for x in c.args):
                return a
            if a not in PURE:
                return None
            if a in CHECKING and checking:
                return None
            if a in ("replace", "rename") and len(c.args) < 2 and \
                    not c.keywords and self.frame(
                        f.value, func, module) is None:
                return None             # of a Path
            if a == "byteswap" and c.args and not falsy(c.args[0]):
                return None
            r = self.prog.resolve_expr_static(f.value, module, func)
            if r and r[0] not in ("local", "global"):
                return None
            return a
        return None

    def impure_fn(self, x, func, module):
        r = self.prog.resolve_expr_static(x, module, func)
        return not (r and r[0] == "func" and self.pure_func(r[1])
                    or r and r[0] == "builtin")

    # ------------------------------------------------------------ purity
    def pure_func(self, f):
        """returns something, changes nothing and refuses nothing"""
        if f.qual in self._pure:
            return self._pure[f.qual]
        self._pure[f.qual] = False
        n = f.node
        if isinstance(n, ast.Lambda):
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for x in own_walk(n)):
            # nothing of it has run at all when its result is discarded
            deco = [unparse(d) for d in n.decorator_list]
            self._pure[f.qual] = not deco
            return self._pure[f.qual]
        if n.decorator_list:
            return False
        rets = [x for x in own_walk(n) if isinstance(x, ast.Return)
                and x.value is not None and not (
                    isinstance(x.value, ast.Constant)
                    and x.value.value is None)]
        if not rets:
            return False
        fresh = self.fresh_names(f)
        fw = Fresh(self, f, f.module, anything=True)
        fw.function(n)
        for x in own_walk(n):
            if isinstance(x, (ast.Raise, ast.Assert, ast.Global,
                              ast.Nonlocal, ast.Import, ast.ImportFrom,
                              ast.With, ast.AsyncWith, ast.Delete,
                              ast.Await)):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    continue
                return False
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    for y in flat(t):
                        if isinstance(y, (ast.Subscript, ast.Attribute)) \
                                and id(x) not in fw.changes:
                            return False
                if isinstance(x, ast.AugAssign) and isinstance(
                        x.target, ast.Name) and \
                        x.target.id in f.all_param_names():
                    return False
            if isinstance(x, ast.Call) and not self.quiet_call(
                    x, f, fresh) and not (
                        isinstance(getattr(x, "_parent", None), ast.Expr)
                        and id(x._parent) in fw.changes):
                return False
        self._pure[f.qual] = True
        return True

    def quiet_call(self, c, f, fresh):
        d = self.refs.dotted(c.func, f.module, f)
        if d:
            h = d.split(".")[0]
            t = d.rpartition(".")[2]
            if h == "builtins":
                return t not in ("print", "open", "setattr", "delattr",
                                 "exec", "eval", "next", "input")
            if h == "numpy":
                return t not in NP_EFFECT and kw(c, "out") is None
            return h in ("pandas", "re", "itertools", "operator", "math",
                         "copy", "collections", "functools", "multidict",
                         "more_itertools", "cytoolz", "toolz", "dustgoggles",
                         "pathlib", "string")
        ts = [t for t in self.targets.get(id(c), [])
              if t[0] in ("func", "class")]
        if ts:
            return all(t[0] == "func" and self.pure_func(t[1]) for t in ts)
        if isinstance(c.func, ast.Attribute):
            if truthy(kw(c, "inplace")):
                return False
            if c.func.attr in PURE | READING:
                return True
            v = c.func.value
            return isinstance(v, ast.Name) and v.id in fresh and \
                c.func.attr in MUTATING
        return False

    def fresh_names(self, f):
        """local names only ever bound to something new"""
        out, bad = set(), set(f.all_param_names())
        for x in own_walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in flat(t):
                        if isinstance(y, ast.Name):
                            (out if y is t and self.fresh(
                                x.value, f, f.module) else bad).add(y.id)
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                bad |= {y.id for y in flat(x.target)
                        if isinstance(y, ast.Name)}
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and \
                    isinstance(x.target, ast.Name) and x.value is not None:
                (out if self.fresh(x.value, f, f.module) else bad).add(
                    x.target.id)
            elif isinstance(x, ast.withitem) and isinstance(
                    x.optional_vars, ast.Name):
                bad.add(x.optional_vars.id)
        return out - bad

    # -------------------------------------------------------- freshness
    def fresh(self, e, func, module):
        """is this expression's value a new object nobody else holds?"""
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)):
            return True
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.BitOr, ast.Add, ast.Mult, ast.Sub))
        if isinstance(e, ast.IfExp):
            return self.fresh(e.body, func, module) and self.fresh(
                e.orelse, func, module)
        if isinstance(e, ast.Call):
            d = self.refs.dotted(e.func, module, func)
            if d:
                return d in FRESH_CALLS
            if any(t[0] in ("func", "class")
                   for t in self.targets.get(id(e), ())):
                return False
            return isinstance(e.func, ast.Attribute) and \
                e.func.attr in FRESH_METHODS and not truthy(
                    kw(e, "inplace")) and not truthy_no(kw(e, "copy"))
        return self.part(e, func, module)

    def part(self, e, func, module):
        """part of a data frame, which pandas hands out as a copy"""
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Attribute) and v.attr in PART and \
                    self.frame(v.value, func, module) in ("df", "series"):
                return not cell(e.slice, self.frame(
                    v.value, func, module))
            k = self.frame(v, func, module)
            if k == "df":
                return True
            if k == "series":
                return selecting(e.slice)
            return False
        if isinstance(e, ast.Attribute):
            return self.frame(e.value, func, module) == "df" and \
                e.attr.isupper()
        return False

    # ---------------------------------------------------------- temporary
    def temporary(self, base, node, func, module):
        """is what is changed in place a copy that nothing else holds?"""
        e = base
        if isinstance(e, ast.Attribute) and e.attr in ("loc", "iloc", "at",
                                                       "iat", "str"):
            e = e.value
        if isinstance(e, (ast.List, ast.Dict, ast.Name, ast.BinOp)):
            return
        hit = False
        if isinstance(e, ast.Call):
            hit = self.fresh(e, func, module) and any(
                isinstance(x, ast.Name) for x in ast.walk(e))
        elif isinstance(e, (ast.Subscript, ast.Attribute)):
            hit = self.part(e, func, module)
            if not hit and isinstance(e, ast.Subscript) and selecting(
                    e.slice) and not isinstance(e.value, ast.Attribute):
                hit = True
        if hit:
            self.note("C31.temporary", unparse(e, 40), func, module, node,
                      f"{owner(func, module)} changes a temporary copy in "
                      f"place: {unparse(node, 60)}")

    # -------------------------------------------------------- frame kinds
    def frame(self, e, func, module, depth=0):
        """'df', 'series' or None (something else, or not known)"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            return self.name_kind(e.id, func, module, depth)
        if isinstance(e, ast.Call):
            d = self.refs.dotted(e.func, module, func)
            if d:
                if d.startswith("pandas."):
                    t = d.rpartition(".")[2]
                    if t in ("DataFrame",) or t.startswith("read_"):
                        return "df"
                    if t == "Series":
                        return "series"
                return None
            ts = self.targets.get(id(e), [])
            if ts:
                ks = {self.returned(t[1], depth) if t[0] == "func" else None
                      for t in ts}
                ks = {k if isinstance(k, str) else None for k in ks}
                return ks.pop() if len(ks) == 1 else None
            if isinstance(e.func, ast.Attribute):
                k = self.frame(e.func.value, func, module, depth + 1)
                if k and e.func.attr in FRESH_METHODS | {
                        "reindex", "sort_index", "convert_dtypes"} and \
                        e.func.attr not in ("to_dict", "tolist", "flatten",
                                            "byteswap"):
                    return k
            return None
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Attribute) and v.attr in PART:
                k = self.frame(v.value, func, module, depth + 1)
                if k == "df":
                    s = e.slice
                    if isinstance(s, ast.Tuple):
                        return "df" if any(isinstance(
                            x, (ast.Slice, ast.List)) for x in s.elts[
                                1:]) else "series" if selecting(
                                    s.elts[0]) else None
                    return "df" if selecting(s) or isinstance(
                        s, ast.Slice) else "series"
                return k
            k = self.frame(v, func, module, depth + 1)
            if k == "df":
                return "df" if selecting(e.slice) else "series"
            if k == "series":
                return "series" if selecting(e.slice) else None
            return None
        if isinstance(e, ast.Attribute) and e.attr.isupper() and len(
                e.attr) > 1:
            if self.frame(e.value, func, module, depth + 1) == "df":
                return "series"
        if isinstance(e, ast.IfExp):
            a = self.frame(e.body, func, module, depth + 1)
            return a if a == self.frame(e.orelse, func, module,
                                        depth + 1) else None
        return None

    def name_kind(self, name, func, module, depth):
        if func is None:
            return None
        key = (func.qual, name)
        if key in self._frame:
            return self._frame[key]
        self._frame[key] = None
        ks = []
        a = func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                k = self.annotated(p.annotation)
                if p.annotation is None:
                    k = self.passed(name, func, depth)
                ks.append(k)
        for x in own_walk(func.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        if mentions_self(x.value, name):
                            # judged by what it was before
                            if ks and ks[0] and self.keeps(x.value, name):
                                continue
                        ks.append(self.frame(x.value, func, module,
                                             depth + 1))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, y in enumerate(t.elts):
                            if isinstance(y, ast.Name) and y.id == name:
                                ks.append(self.element(
                                    x.value, i, func, module, depth + 1))
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and \
                    isinstance(x.target, ast.Name) and \
                    x.target.id == name and x.value is not None:
                ks.append(self.frame(x.value, func, module, depth + 1))
            elif isinstance(x, (ast.For, ast.AsyncFor)) and any(
                    isinstance(y, ast.Name) and y.id == name
                    for y in flat(x.target)):
                k = None
                if isinstance(x.iter, ast.Call) and isinstance(
                        x.iter.func, ast.Attribute) and \
                        x.iter.func.attr == "iterrows" and isinstance(
                            x.target, ast.Tuple) and isinstance(
                                x.target.elts[-1], ast.Name) and \
                        x.target.elts[-1].id == name:
                    k = "series"
                ks.append(k)
            elif isinstance(x, ast.withitem) and any(
                    isinstance(y, ast.Name) and y.id == name
                    for y in flat(x.optional_vars or ast.Pass())):
                ks.append(None)
        out = ks[0] if ks and all(k == ks[0] for k in ks) else None
        self._frame[key] = out
        return out

    def keeps(self, e, name):
        """an expression that gives the same kind of thing `name` is"""
        while True:
            if isinstance(e, ast.Name):
                return e.id == name
            if isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Attribute) and e.func.attr in \
                    FRESH_METHODS - {"to_dict", "tolist", "flatten",
                                     "byteswap"}:
                e = e.func.value
            elif isinstance(e, ast.Subscript) and isinstance(
                    e.value, ast.Attribute) and e.value.attr in PART:
                if isinstance(e.slice, ast.Tuple) or selecting(
                        e.slice) or isinstance(e.slice, ast.Slice):
                    e = e.value.value
                else:
                    return False
            elif isinstance(e, ast.Subscript) and selecting(e.slice):
                e = e.value
            else:
                return False

    def annotated(self, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            t = ann.value
        elif ann is None:
            return None
        else:
            t = unparse(ann, 200)
        t = t.replace("'", "").replace('"', "").strip()
        if t in ("pd.DataFrame", "pandas.DataFrame", "DataFrame"):
            return "df"
        if t in ("pd.Series", "pandas.Series", "Series"):
            return "series"
        return None

    def passed(self, name, func, depth):
        sites = self.by_target.get(func.qual, [])
        if not sites or depth > 4:
            return None
        ps = func.param_names()
        ks = set()
        for s in sites:
            c, v = s.node, None
            if not isinstance(c, ast.Call):
                return None
            for k in c.keywords:
                if k.arg == name:
                    v = k.value
            if v is None and name in ps and ps.index(name) < len(c.args) \
                    and func.cls is None:
                v = c.args[ps.index(name)]
            if v is None or isinstance(v, ast.Starred):
                return None
            ks.add(self.frame(v, s.caller, s.module, depth + 2))
        return ks.pop() if len(ks) == 1 else None

    def returned(self, f, depth, index=None):
        r = getattr(f.node, "returns", None)
        if r is not None:
            if index is None:
                return self.annotated(r)
            if isinstance(r, ast.Subscript) and isinstance(
                    r.slice, ast.Tuple) and index < len(r.slice.elts):
                return self.annotated(r.slice.elts[index])
            return None
        if depth > 4 or isinstance(f.node, ast.Lambda):
            return None
        ks = set()
        for x in own_walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                v = x.value
                if index is not None:
                    if not isinstance(v, ast.Tuple) or index >= len(v.elts):
                        return None
                    v = v.elts[index]
                ks.add(self.frame(v, f, f.module, depth + 2))
        return ks.pop() if len(ks) == 1 else None

    def element(self, e, i, func, module, depth):
        if isinstance(e, ast.Tuple) and i < len(e.elts):
            return self.frame(e.elts[i], func, module, depth)
        if isinstance(e, ast.Call):
            ts = self.targets.get(id(e), [])
            ks = {self.returned(t[1], depth, i) if t[0] == "func" else None
                  for t in ts}
            return ks.pop() if len(ks) == 1 else None
        return None

    # ------------------------------------------------------------- stored
    def stored(self, func, module):
        node = func.node
        lv = Live(func)
        lv.function(node)
        self.rep.count("stored values", len(lv.stores))
        bound = {}
        for st, name in lv.stores.values():
            bound[name] = bound.get(name, 0) + 1
        params = set(func.all_param_names())
        for key, (st, name) in lv.stores.items():
            if name in lv.live_at.get(key, ()) or name in lv.free or \
                    name.startswith("_"):
                continue
            if isinstance(st, ast.AugAssign):
                if not self.immutable(st, name, func):
                    continue
            elif not self.correcting(st.value, name, name in params or
                                     bound[name] > 1 or name in lv.others,
                                     func, module):
                continue
            self.note("C31.stored", name, func, module, st,
                      f"{owner(func, module)} computes "
                      f"{unparse(st, 60)!r}, which is never read")

    def immutable(self, st, name, func):
        v = st.value
        if isinstance(v, ast.JoinedStr) or isinstance(
                v, ast.Constant) and isinstance(v.value, (str, bytes)):
            return True
        for p in (func.node.args.posonlyargs + func.node.args.args
                  + func.node.args.kwonlyargs):
            if p.arg == name and p.annotation is not None:
                return unparse(p.annotation) in ("int", "float", "str",
                                                 "bytes")
        return False

    def correcting(self, v, name, again, func, module):
        if isinstance(v, (ast.Constant, ast.Name, ast.Lambda, ast.Await,
                          ast.Yield, ast.YieldFrom, ast.Attribute)):
            return False
        own = mentions_self(v, name)
        local = [x for x in ast.walk(v) if isinstance(x, ast.Name)
                 and isinstance(x.ctx, ast.Load) and (
                     self.prog.resolve_name(x.id, module, func)
                     or ("", ))[0] == "local"]
        if not local:
            return False
        if isinstance(v, ast.Call):
            d = self.refs.dotted(v.func, module, func) or ""
            if d in ("builtins.len", "builtins.isinstance", "builtins.type",
                     "builtins.id", "builtins.repr", "builtins.str",
                     "builtins.bool", "builtins.hasattr",
                     "builtins.callable", "builtins.getattr"):
                return own
            if own or again:
                return True
            return bool(self.pure_call(v, ast.Pass(), func, module))
        if isinstance(v, (ast.BinOp, ast.Subscript, ast.DictComp,
                          ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.JoinedStr, ast.Dict, ast.List)):
            return own or (again and not isinstance(
                v, (ast.Dict, ast.List))) or isinstance(
                    v, (ast.BinOp, ast.DictComp, ast.ListComp))
        return own

    # ------------------------------------------------------------- copies
    def copies(self, func, module):
        """named copies that are changed in place and then dropped"""
        lv = Live(func, changes=False)
        lv.function(func.node)
        fw = Fresh(self, func, module)
        fw.function(func.node)
        for key, (st, name) in fw.changes.items():
            self.rep.count("changes of copies")
            if name in lv.free or name in lv.live_after.get(key, ()) or \
                    name.startswith("_"):
                continue
            self.note("C31.copy", name, func, module, st,
                      f"{owner(func, module)} changes its own copy {name} "
                      f"({unparse(st, 50)}), which nothing then uses")


class Live:
    """backward liveness of local names over the structured body"""

    def __init__(self, func, changes=True):
        self.changes = changes
        self.stores, self.live_at, self.live_after = {}, {}, {}
        self.free, self.others = set(), set()
        n = func.node
        for x in ast.walk(n):
            if x is n:
                continue
            if isinstance(x, FUNCS + (ast.ClassDef,)):
                self.free |= {y.id for y in ast.walk(x)
                              if isinstance(y, ast.Name)}
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.free |= set(x.names)
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                self.others |= {y.id for y in flat(x.target)
                                if isinstance(y, ast.Name)}
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id in (
                        "locals", "vars", "eval", "exec"):
                self.free |= {y.id for y in ast.walk(n)
                              if isinstance(y, ast.Name)}
        self.brk, self.cont, self.exc, self.ret = [], [], [], []

    def function(self, n):
        self.block(n.body, frozenset())

    def reads(self, e):
        if e is None:
            return frozenset()
        return frozenset(x.id for x in ast.walk(e)
                         if isinstance(x, ast.Name)
                         and isinstance(x.ctx, ast.Load))

    def block(self, body, out):
        for st in reversed(body):
            out = self.stmt(st, out)
        return out

    def exits(self):
        s = frozenset()
        for x in self.ret:
            s |= x
        return s

    def stmt(self, st, out):
        base = self.exc[-1] if self.exc else frozenset()
        out = out | base
        k = id(st)
        self.live_after[k] = self.live_after.get(k, frozenset()) | out
        if isinstance(st, ast.Return):
            return self.reads(st.value) | self.exits() | base
        if isinstance(st, ast.Raise):
            return self.reads(st.exc) | self.reads(
                st.cause) | base | self.exits()
        if isinstance(st, ast.Break):
            return (self.brk[-1] if self.brk else frozenset()) | base | \
                self.exits()
        if isinstance(st, ast.Continue):
            return (self.cont[-1] if self.cont else frozenset()) | base | \
                self.exits()
        if isinstance(st, ast.Assign):
            names = [t for t in st.targets if isinstance(t, ast.Name)]
            for t in names:
                if len(st.targets) == 1:
                    self.store(st, t.id, out)
            kill = {x.id for t in st.targets for x in flat(t)
                    if isinstance(x, ast.Name)}
            r = self.reads(st.value)
            for t in st.targets:
                r |= self.target_reads(t)
            return (out - kill) | r | base
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return out
            if isinstance(st.target, ast.Name):
                self.store(st, st.target.id, out)
                out = out - {st.target.id}
            return out | self.reads(st.value) | self.target_reads(
                st.target) | base
        if isinstance(st, ast.AugAssign):
            r = self.reads(st.value)
            if isinstance(st.target, ast.Name):
                self.store(st, st.target.id, out)
                if self.changes or st.target.id in out:
                    r |= {st.target.id}
                return out | r
            return out | r | self.target_reads(st.target)
        if isinstance(st, ast.Expr):
            r = self.reads(st.value)
            m = changed(st)
            if m and not self.changes:
                # the receiver is not what is read here
                n = [x for x in ast.walk(st.value) if isinstance(
                    x, ast.Name) and x.id == m]
                if len(n) == 1:
                    r = r - {m}
            return out | r
        if isinstance(st, ast.If):
            a, b = self.block(st.body, out), self.block(st.orelse, out)
            return a | b | self.reads(st.test)
        if isinstance(st, (ast.While,)):
            after = self.block(st.orelse, out) | self.reads(st.test)
            head = after
            for _ in range(4):
                self.brk.append(out)
                self.cont.append(head)
                new = self.block(st.body, head) | head
                self.brk.pop()
                self.cont.pop()
                if new == head:
                    break
                head = new
            return head
        if isinstance(st, (ast.For, ast.AsyncFor)):
            kill = {x.id for x in flat(st.target) if isinstance(x, ast.Name)}
            after = self.block(st.orelse, out)
            head = after
            for _ in range(4):
                self.brk.append(out)
                self.cont.append(head)
                new = (self.block(st.body, head) - kill) | head | \
                    self.target_reads(st.target)
                self.brk.pop()
                self.cont.pop()
                if new == head:
                    break
                head = new
            return head | self.reads(st.iter)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            # a manager may swallow what is raised within
            self.exc.append(out | base)
            o = self.block(st.body, out)
            self.exc.pop()
            for i in reversed(st.items):
                if i.optional_vars is not None:
                    o = o - {x.id for x in flat(i.optional_vars)
                             if isinstance(x, ast.Name)}
                o |= self.reads(i.context_expr)
            return o
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            fin = self.block(st.finalbody, out) if st.finalbody else out
            if st.finalbody:
                self.ret.append(self.block(st.finalbody, self.exits()
                                           | base))
            hs = frozenset()
            for h in st.handlers:
                b = self.block(h.body, fin) | self.reads(h.type)
                hs |= b - ({h.name} if h.name else set())
            esc = hs | base
            if st.finalbody:
                esc |= self.ret[-1]
            self.exc.append(esc)
            o = self.block(st.orelse, fin)
            o = self.block(st.body, o)
            self.exc.pop()
            if st.finalbody:
                self.ret.pop()
            return o | esc
        if isinstance(st, ast.Match):
            r = self.reads(st.subject)
            o = out
            for c in st.cases:
                o |= self.block(c.body, out) | self.reads(c.guard)
                o |= frozenset(x.id for x in ast.walk(c.pattern)
                               if isinstance(x, ast.Name))
            return o | r
        if isinstance(st, FUNCS + (ast.ClassDef,)):
            return out | self.reads_all(st)
        if isinstance(st, ast.Delete):
            r = frozenset()
            for t in st.targets:
                r |= self.target_reads(t)
            return out | r
        return out | self.reads_all(st)

    def reads_all(self, st):
        return frozenset(x.id for x in ast.walk(st)
                         if isinstance(x, ast.Name))

    def target_reads(self, t):
        r = frozenset()
        for x in flat(t):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                b = x
                while isinstance(b, ast.Attribute) and b is not x and \
                        b.attr in ("loc", "iloc", "at", "iat"):
                    b = b.value
                names = self.reads(x)
                if not self.changes:
                    v = x.value
                    if isinstance(v, ast.Attribute) and v.attr in (
                            "loc", "iloc", "at", "iat"):
                        v = v.value
                    if isinstance(v, ast.Name) and not any(
                            isinstance(y, ast.Name) and y.id == v.id
                            for y in (ast.walk(x.slice) if isinstance(
                                x, ast.Subscript) else ())):
                        names = names - {v.id}
                r |= names
        return r

    def store(self, st, name, out):
        self.stores[id(st)] = (st, name)
        self.live_at[id(st)] = self.live_at.get(
            id(st), frozenset()) | (out & {name})


class Fresh:
    """forward: which names hold a copy nobody else does, on every path"""

    def __init__(self, chk, func, module, anything=False):
        self.c, self.func, self.module = chk, func, module
        self.anything = anything
        self.changes, self.not_fresh = {}, set()

    def function(self, n):
        self.block(n.body, frozenset())
        for k in self.not_fresh:
            self.changes.pop(k, None)

    def block(self, body, s):
        for st in body:
            s = self.stmt(st, s)
        return s

    def hit(self, st, name, s):
        if name in s:
            self.changes[id(st)] = (st, name)
        else:
            self.not_fresh.add(id(st))

    def copying(self, e):
        """a copy of something else, rather than something built up here"""
        return self.c.fresh(e, self.func, self.module) and (
            self.anything or any(
            isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
            and (self.c.prog.resolve_name(x.id, self.module, self.func)
                 or ("",))[0] in ("local", "global")
            for x in ast.walk(e)))

    def escape(self, e, s):
        """names that may become known elsewhere through this expression"""
        if e is None or not s:
            return s
        out = set()
        for x in ast.walk(e):
            if not (isinstance(x, ast.Name) and x.id in s
                    and isinstance(x.ctx, ast.Load)):
                continue
            p = getattr(x, "_parent", None)
            if isinstance(p, ast.Subscript) and p.value is x:
                continue
            if isinstance(p, ast.Attribute):
                g = getattr(p, "_parent", None)
                if isinstance(g, ast.Call) and g.func is p and (
                        p.attr in PURE | READING | MUTATING):
                    continue
                if p.attr in ("loc", "iloc", "at", "iat", "shape", "columns",
                              "dtype", "index", "size", "ndim"):
                    continue
            if isinstance(p, ast.Compare):
                continue
            if isinstance(p, ast.Call) and isinstance(
                    p.func, ast.Name) and p.func.id in (
                        "len", "isinstance", "any", "all", "max", "min",
                        "sum", "range", "print", "str", "repr"):
                continue
            out.add(x.id)
        return s - out

    def stmt(self, st, s):
        if isinstance(st, ast.Assign):
            s = self.escape(st.value, s)
            for t in st.targets:
                for x in flat(t):
                    if isinstance(x, ast.Name):
                        s = s - {x.id}
                    else:
                        self.target(st, x, s)
            if len(st.targets) == 1 and isinstance(
                    st.targets[0], ast.Name) and self.copying(st.value):
                s = s | {st.targets[0].id}
            return s
        if isinstance(st, ast.AnnAssign):
            s = self.escape(st.value, s)
            if isinstance(st.target, ast.Name):
                s = s - {st.target.id}
                if st.value is not None and self.copying(st.value):
                    s = s | {st.target.id}
            return s
        if isinstance(st, ast.AugAssign):
            s = self.escape(st.value, s)
            if not isinstance(st.target, ast.Name):
                self.target(st, st.target, s)
            return s
        if isinstance(st, ast.Expr):
            m = changed(st)
            s = self.escape(st.value, s)
            if m:
                self.hit(st, m, s)
            return s
        if isinstance(st, ast.Return):
            return self.escape(st.value, s)
        if isinstance(st, ast.If):
            s = self.escape(st.test, s)
            return self.block(st.body, s) & self.block(st.orelse, s)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            head = st.iter if not isinstance(st, ast.While) else st.test
            s = self.escape(head, s)
            kill = set()
            row = None
            if not isinstance(st, ast.While):
                kill = {x.id for x in flat(st.target)
                        if isinstance(x, ast.Name)}
                if isinstance(st.iter, ast.Call) and isinstance(
                        st.iter.func, ast.Attribute) and \
                        st.iter.func.attr == "iterrows" and isinstance(
                            st.target, ast.Tuple) and isinstance(
                                st.target.elts[-1], ast.Name):
                    row = st.target.elts[-1].id
            inn = s - kill
            for _ in range(3):
                b = inn | {row} if row else inn
                new = inn & (self.block(st.body, b) - kill)
                if new == inn:
                    break
                inn = new
            self.block(st.orelse, inn)
            return inn
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                s = self.escape(i.context_expr, s)
                if i.optional_vars is not None:
                    s = s - {x.id for x in flat(i.optional_vars)
                             if isinstance(x, ast.Name)}
            return self.block(st.body, s)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            b = self.block(st.body, s)
            outs = [self.block(st.orelse, b)]
            for h in st.handlers:
                outs.append(self.block(h.body, b & s))
            o = outs[0]
            for x in outs[1:]:
                o = o & x
            return self.block(st.finalbody, o & s | (o if not st.handlers
                                                     else frozenset()))
        if isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Import,
                           ast.ImportFrom)):
            return s
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.target(st, t, s)
            return s
        names = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
        return s - names

    def target(self, st, x, s):
        v = x.value if isinstance(x, (ast.Subscript, ast.Attribute)) else None
        if isinstance(v, ast.Attribute) and v.attr in ("loc", "iloc", "at",
                                                       "iat"):
            v = v.value
        if isinstance(v, ast.Name):
            self.hit(st, v.id, s)


def changed(st):
    """the name whose object an expression statement changes in place"""
    c = st.value
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
            isinstance(c.func.value, ast.Name) and (
                c.func.attr in MUTATING or truthy(kw(c, "inplace"))):
        return c.func.value.id
    return None


def flat(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from flat(e)
    elif isinstance(t, ast.Starred):
        yield from flat(t.value)
    else:
        yield t


def kw(c, name):
    for k in c.keywords:
        if k.arg == name:
            return k.value
    return None


def truthy(e):
    return isinstance(e, ast.Constant) and bool(e.value)


def falsy(e):
    return isinstance(e, ast.Constant) and not e.value


def truthy_no(e):
    return e is not None and not truthy(e)


def selecting(s):
    """an index that selects elements (a mask, or a list of them)"""
    if isinstance(s, (ast.List, ast.ListComp)):
        return True
    if isinstance(s, ast.Compare):
        return not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn))
                       for o in s.ops)
    if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
        return True
    if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd,
                                                      ast.BitOr)):
        return selecting(s.left) or selecting(s.right)
    if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute):
        return s.func.attr in ("isna", "notna", "isin", "contains",
                               "isnull", "notnull", "duplicated")
    return False


def cell(s, kind):
    """could .loc[...] with this index name one single cell?"""
    if kind == "series":
        return not (selecting(s) or isinstance(s, ast.Slice))
    if not isinstance(s, ast.Tuple):
        return False
    return not any(isinstance(x, ast.Slice) or selecting(x) for x in s.elts)


def mentions_self(e, name):
    return any(isinstance(x, ast.Name) and x.id == name
               for x in ast.walk(e))


def in_try(st):
    prev, x = st, getattr(st, "_parent", None)
    while x is not None and not isinstance(x, FUNCS):
        if isinstance(x, ast.Try) and prev in x.body and x.handlers:
            return True
        if isinstance(x, (ast.With, ast.AsyncWith)) and any(
                "suppress" in unparse(i.context_expr, 60)
                for i in x.items):
            return True
        prev, x = x, getattr(x, "_parent", None)
    return False
