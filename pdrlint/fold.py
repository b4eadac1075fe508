"""Constant folding of module-level tables and of pure expressions: the
value of an expression computed from the syntax tree, or Unknown.  Only a
fixed set of side-effect free operations is understood."""
from __future__ import annotations

import ast
import itertools
import math
import operator
import re
import struct
import types

from .program import own_walk

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
       ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
       ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift}
UN = {ast.USub: operator.neg, ast.UAdd: operator.pos,
      ast.Invert: operator.invert, ast.Not: operator.not_}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
       ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
       ast.Is: operator.is_, ast.IsNot: operator.is_not,
       ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
BUILTINS = {"int": int, "float": float, "str": str, "bytes": bytes,
            "tuple": tuple, "list": list, "set": set, "dict": dict,
            "frozenset": frozenset, "len": len, "min": min, "max": max,
            "sum": sum, "range": range, "sorted": sorted, "zip": zip,
            "enumerate": enumerate, "abs": abs, "bool": bool, "map": None,
            "round": round, "any": any, "all": all, "reversed": reversed,
            "hex": hex, "isinstance": None}
EXT = {"itertools.product": itertools.product,
       "itertools.chain": itertools.chain,
       "itertools.chain.from_iterable": itertools.chain.from_iterable,
       "types.MappingProxyType": dict, "struct.unpack": struct.unpack,
       "re.compile": re.compile, "re.match": re.match,
       "re.search": re.search, "re.fullmatch": re.fullmatch,
       "math.ceil": math.ceil, "math.floor": math.floor,
       "multidict.MultiDict": dict, "operator.add": operator.add}
SAFE = {str: {"upper", "lower", "strip", "lstrip", "rstrip", "split", "join",
              "replace", "startswith", "endswith", "format", "title",
              "casefold", "removesuffix", "removeprefix", "partition",
              "rpartition", "count", "find", "index", "zfill", "encode",
              "isdigit", "isalpha"},
        bytes: {"hex", "decode", "strip"},
        dict: {"keys", "values", "items", "get", "copy"},
        tuple: {"index", "count"}, list: {"index", "count", "copy"},
        set: {"union", "intersection", "difference", "issubset", "copy"},
        frozenset: {"union", "intersection", "difference"}}


class Unknown(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Folder:
    def __init__(self, prog, steps=200_000):
        self.p = prog
        self.steps = steps
        self.cache = {}
        self.depth = 0

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown()

    def module_value(self, module, name):
        """the value a module-level name has once the module is imported"""
        k = (module.name, name)
        if k in self.cache:
            if self.cache[k] is Unknown:
                raise Unknown()
            return self.cache[k]
        self.cache[k] = Unknown
        v = self._module_value(module, name, None)
        self.cache[k] = v
        return v

    def _module_value(self, module, name, before):
        last = None
        got = False
        for st in module.tree.body:
            if before is not None and st.lineno >= before:
                break
            if any(isinstance(n, ast.Name) and n.id == name and isinstance(
                    n.ctx, (ast.Store, ast.Del)) for n in ast.walk(st)
                    ) and not isinstance(st, (ast.FunctionDef,
                                              ast.ClassDef)):
                if isinstance(st, ast.Assign) and len(
                        st.targets) == 1 and isinstance(
                        st.targets[0], ast.Name) or isinstance(
                        st, ast.AnnAssign) and st.value is not None:
                    last, got = (st, None), True
                elif isinstance(st, ast.AugAssign):
                    last, got = (st, last), True
                else:
                    raise Unknown()
        if not got:
            raise Unknown()
        return self._assigned(module, last)

    def _assigned(self, module, rec):
        st, prev = rec
        env = _Mod(self, module, st.lineno)
        if isinstance(st, ast.AugAssign):
            if prev is None:
                raise Unknown()
            a = self._assigned(module, prev)
            return self.apply(BIN.get(type(st.op)), a,
                              self.ev(st.value, env, module, None))
        return self.ev(st.value, env, module, None)

    def apply(self, f, *a):
        if f is None:
            raise Unknown()
        self.tick()
        try:
            return f(*a)
        except Unknown:
            raise
        except Exception:
            raise Unknown()

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, module, func):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown()
        return m(e, env, module, func)

    def e_Constant(self, e, env, module, func):
        return e.value

    def seq(self, es, env, module, func):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.ev(x.value, env, module, func))
            else:
                out.append(self.ev(x, env, module, func))
        return out

    def e_Tuple(self, e, env, module, func):
        return tuple(self.seq(e.elts, env, module, func))

    def e_List(self, e, env, module, func):
        return self.seq(e.elts, env, module, func)

    def e_Set(self, e, env, module, func):
        return self.apply(set, self.seq(e.elts, env, module, func))

    def e_Dict(self, e, env, module, func):
        out = {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env, module, func)
            if k is None:
                self.apply(out.update, x)
            else:
                kk = self.ev(k, env, module, func)
                self.apply(out.__setitem__, kk, x)
        return out

    def e_Name(self, e, env, module, func):
        try:
            return env[e.id]
        except KeyError:
            pass
        r = self.p.resolve_name(e.id, module, func)
        return self.ref(r, module)

    def ref(self, r, module):
        if r is None:
            raise Unknown()
        if r[0] == "global":
            return self.module_value(r[1], r[2])
        if r[0] == "builtin" and r[1] in BUILTINS and BUILTINS[r[1]]:
            return BUILTINS[r[1]]
        if r[0] == "ext" and r[1] in EXT:
            return EXT[r[1]]
        if r[0] == "func":
            return ("$func", r[1])
        raise Unknown()

    def e_Attribute(self, e, env, module, func):
        r = self.p.resolve_expr_static(e, module, func)
        if r is not None:
            return self.ref(r, module)
        v = self.ev(e.value, env, module, func)
        if v is bytes and e.attr == "fromhex":
            return bytes.fromhex
        if v is dict and e.attr == "fromkeys":
            return dict.fromkeys
        for ty, names in SAFE.items():
            if isinstance(v, ty) and e.attr in names:
                return getattr(v, e.attr)
        raise Unknown()

    def e_UnaryOp(self, e, env, module, func):
        return self.apply(UN.get(type(e.op)), self.ev(
            e.operand, env, module, func))

    def e_BinOp(self, e, env, module, func):
        a = self.ev(e.left, env, module, func)
        b = self.ev(e.right, env, module, func)
        if isinstance(e.op, (ast.Pow, ast.LShift)) and isinstance(
                b, (int, float)) and b > 4096:
            raise Unknown()
        return self.apply(BIN.get(type(e.op)), a, b)

    def e_BoolOp(self, e, env, module, func):
        v = None
        for x in e.values:
            v = self.ev(x, env, module, func)
            if bool(v) is not isinstance(e.op, ast.And):
                return v
        return v

    def e_Compare(self, e, env, module, func):
        a = self.ev(e.left, env, module, func)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env, module, func)
            if not self.apply(CMP.get(type(op)), a, b):
                return False
            a = b
        return True

    def e_IfExp(self, e, env, module, func):
        return self.ev(e.body if self.ev(e.test, env, module, func)
                       else e.orelse, env, module, func)

    def e_JoinedStr(self, e, env, module, func):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
                continue
            x = self.ev(v.value, env, module, func)
            spec = self.ev(v.format_spec, env, module, func) if \
                v.format_spec else ""
            if v.conversion == 114:
                x = repr(x)
            out += self.apply(format, x, spec)
        return out

    def e_Subscript(self, e, env, module, func):
        b = self.ev(e.value, env, module, func)
        if isinstance(e.slice, ast.Slice):
            s = slice(*[None if x is None else self.ev(
                x, env, module, func) for x in (
                e.slice.lower, e.slice.upper, e.slice.step)])
            return self.apply(operator.getitem, b, s)
        return self.apply(operator.getitem, b, self.ev(
            e.slice, env, module, func))

    def comp(self, e, env, module, func, elt):
        out = []

        def gen(i, en):
            if i == len(e.generators):
                out.append(elt(en))
                return
            g = e.generators[i]
            for x in list(self.apply(list, self.ev(
                    g.iter, en, module, func))):
                en2 = _Env(en)
                self.bind(g.target, x, en2)
                if all(self.ev(c, en2, module, func) for c in g.ifs):
                    gen(i + 1, en2)
        gen(0, env)
        return out

    def bind(self, t, v, env):
        self.tick()
        if isinstance(t, ast.Name):
            env.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.apply(list, v)
            if len(vs) != len(t.elts):
                raise Unknown()
            for a, b in zip(t.elts, vs):
                self.bind(a, b, env)
        else:
            raise Unknown()

    def e_ListComp(self, e, env, module, func):
        return self.comp(e, env, module, func, lambda en: self.ev(
            e.elt, en, module, func))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, module, func):
        return set(self.e_ListComp(e, env, module, func))

    def e_DictComp(self, e, env, module, func):
        return dict(self.comp(e, env, module, func, lambda en: (
            self.ev(e.key, en, module, func),
            self.ev(e.value, en, module, func))))

    def e_NamedExpr(self, e, env, module, func):
        v = self.ev(e.value, env, module, func)
        self.bind(e.target, v, env)
        return v

    def e_Call(self, e, env, module, func):
        f = self.ev(e.func, env, module, func)
        args = self.seq(e.args, env, module, func)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, module, func)
            if k.arg is None:
                self.apply(kw.update, v)
            else:
                kw[k.arg] = v
        if isinstance(f, tuple) and f and f[0] == "$func":
            return self.run(f[1], args, kw)
        if not callable(f):
            raise Unknown()
        r = self.apply(lambda: f(*args, **kw))
        if f in (zip, enumerate, map, reversed, range) or f is \
                itertools.product or f is itertools.chain:
            return self.apply(list, r)
        return r

    # ------------------------------------------------------------ functions
    def run(self, f, args=(), kw=None):
        kw = dict(kw or {})
        if self.depth > 20:
            raise Unknown()
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos, args))
        if len(args) > len(pos):
            if not a.vararg:
                raise Unknown()
            d[a.vararg.arg] = tuple(args[len(pos):])
        for k, v in kw.items():
            d[k] = v
        base = _Env(None)
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults)
                    if y is not None})
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in d:
                if n not in dfl:
                    raise Unknown()
                d[n] = self.ev(dfl[n], base, f.module, f)
        env = _Env(None)
        env.d = d
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env, f.module, f)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global,
                              ast.Nonlocal)) for n in own_walk(f.node)):
            raise Unknown()
        self.depth += 1
        try:
            self.block(f.body(), env, f)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def block(self, stmts, env, f):
        for st in stmts:
            self.tick()
            if isinstance(st, ast.Return):
                raise _Return(None if st.value is None else self.ev(
                    st.value, env, f.module, f))
            if isinstance(st, ast.Assign):
                v = self.ev(st.value, env, f.module, f)
                for t in st.targets:
                    self.bind(t, v, env)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.bind(st.target, self.ev(
                    st.value, env, f.module, f), env)
            elif isinstance(st, ast.AugAssign) and isinstance(
                    st.target, ast.Name):
                self.bind(st.target, self.apply(
                    BIN.get(type(st.op)), env[st.target.id],
                    self.ev(st.value, env, f.module, f)), env)
            elif isinstance(st, ast.If):
                self.block(st.body if self.ev(
                    st.test, env, f.module, f) else st.orelse, env, f)
            elif isinstance(st, ast.For) and not st.orelse and not any(
                    isinstance(n, (ast.Break, ast.Continue))
                    for n in ast.walk(st)):
                for x in self.apply(list, self.ev(
                        st.iter, env, f.module, f)):
                    self.bind(st.target, x, env)
                    self.block(st.body, env, f)
            elif isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(st, ast.Expr) and isinstance(
                    st.value, ast.Constant):
                pass
            else:
                raise Unknown()


class _Env:
    def __init__(self, up):
        self.up = up
        self.d = {}

    def __getitem__(self, k):
        if k in self.d:
            return self.d[k]
        if self.up is not None:
            return self.up[k]
        raise KeyError(k)


class _Mod(_Env):
    """module scope while the statement at `line` executes"""

    def __init__(self, folder, module, line):
        super().__init__(None)
        self.f, self.m, self.line = folder, module, line

    def __getitem__(self, k):
        if k in self.d:
            return self.d[k]
        if k in self.m.assigns:
            v = self.f._module_value(self.m, k, self.line)
            self.d[k] = v
            return v
        raise KeyError(k)
