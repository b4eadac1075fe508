"""Interprocedural, flow-sensitive abstract interpreter over the resolved
program.  Values carry a set of domain tags plus what is known of their shape
(constants, callables, instances, fixed-length elements, fixed dict keys).
A Domain says where tags come from, how operations move them, and which
operations are events worth reporting.  Branches whose test is decided by
constant arguments are pruned; loops and recursion are iterated to a fixpoint;
calls are analysed per abstract arguments (context-sensitive, memoised).
"""
from __future__ import annotations

import ast
import itertools

from .program import Program, Func, Class, Module, unparse, import_bindings

MAXCONST = 8
MAXDEPTH = 3


class AV:
    """abstract value; immutable"""
    __slots__ = ("tags", "unk", "consts", "refs", "insts", "elts", "fields",
                 "_h", "_key")

    def __init__(self, tags=frozenset(), unk=False, consts=frozenset(),
                 refs=frozenset(), insts=frozenset(), elts=None, fields=None):
        self.tags = frozenset(tags)
        self.unk = unk
        self.consts = frozenset(consts)
        self.refs = frozenset(refs)
        self.insts = frozenset(insts)
        self.elts = elts            # tuple of AV (kind, AVs) or None
        self.fields = fields        # tuple of (key, AV) or None
        self._key = (self.tags, unk, self.consts, self.refs, self.insts,
                     elts, fields)
        self._h = hash(self._key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, AV) and self._h == o._h
                             and self._key == o._key)

    def __repr__(self):
        bits = []
        if self.tags:
            bits.append("tags=" + ",".join(sorted(map(str, self.tags))))
        if self.consts:
            bits.append("consts=" + ",".join(sorted(
                repr(c[1]) for c in self.consts)))
        if self.refs:
            bits.append("refs=" + ",".join(sorted(
                str(r[0]) + ":" + str(getattr(r[1], "qual", r[1]))
                for r in self.refs)))
        if self.insts:
            bits.append("insts=" + ",".join(sorted(self.insts)))
        if self.elts is not None:
            bits.append(f"elts={self.elts}")
        if self.fields is not None:
            bits.append(f"fields={[k for k, _ in self.fields]}")
        if self.unk:
            bits.append("unk")
        return "AV(" + " ".join(bits) + ")"

    # -- helpers
    def with_(self, **kw):
        d = dict(tags=self.tags, unk=self.unk, consts=self.consts,
                 refs=self.refs, insts=self.insts, elts=self.elts,
                 fields=self.fields)
        d.update(kw)
        return AV(**d)

    def is_bottom(self):
        return not (self.unk or self.consts or self.refs or self.insts
                    or self.elts is not None or self.fields is not None
                    or self.tags)

    def const(self):
        """the single constant, as (True, value), else (False, None)"""
        if len(self.consts) == 1 and not (
                self.unk or self.refs or self.insts or
                self.elts is not None or self.fields is not None):
            return True, next(iter(self.consts))[1]
        return False, None

    def strs(self):
        """set of possible string values, or None when not fully known"""
        if self.unk or self.refs or self.insts or self.elts is not None or \
                self.fields is not None or not self.consts:
            return None
        out = set()
        for _, v in self.consts:
            if not isinstance(v, str):
                return None
            out.add(v)
        return out


BOT = AV()
TOP = AV(unk=True)


def K(v):
    return AV(consts=frozenset([(type(v).__name__, v)]))


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
BOOL = AV(consts=frozenset([("bool", True), ("bool", False)]))


def depth(v, n=0):
    if n > MAXDEPTH + 2:
        return n
    d = 0
    if v.elts is not None:
        d = max([depth(e, n + 1) for e in v.elts[1]], default=0) + 1
    if v.fields is not None:
        d = max(d, max([depth(e, n + 1) for _, e in v.fields],
                       default=0) + 1)
    return d


def join(a: AV, b: AV, dom=None) -> AV:
    if a is b or a == b:
        return a
    if a.is_bottom():
        return b
    if b.is_bottom():
        return a
    tags = a.tags | b.tags
    unk = a.unk or b.unk
    consts = a.consts | b.consts
    if len(consts) > MAXCONST:
        consts, unk = frozenset(), True
    elts = fields = None
    if a.elts is not None and b.elts is not None and \
            a.elts[0] == b.elts[0] and len(a.elts[1]) == len(b.elts[1]):
        elts = (a.elts[0], tuple(join(x, y, dom) for x, y in zip(
            a.elts[1], b.elts[1])))
    elif a.elts is not None or b.elts is not None:
        if a.elts is None and not (a.unk or a.fields is not None
                                   or a.insts or a.refs):
            elts = b.elts       # e.g. None | (x, y)
        elif b.elts is None and not (b.unk or b.fields is not None
                                     or b.insts or b.refs):
            elts = a.elts
        else:
            unk = True
            for x in (a, b):
                if x.elts is not None and dom is not None:
                    tags = tags | dom.container_tags(x.elts[1])
    if a.fields is not None and b.fields is not None:
        da, db = dict(a.fields), dict(b.fields)
        if set(da) == set(db):
            fields = tuple((k, join(da[k], db[k], dom)) for k in sorted(
                da, key=repr))
        else:
            unk = True
            for x in (a, b):
                if dom is not None:
                    tags = tags | dom.container_tags(
                        [v for _, v in x.fields])
    elif a.fields is not None or b.fields is not None:
        x, y = (a, b) if a.fields is not None else (b, a)
        if not (y.unk or y.elts is not None or y.insts or y.refs):
            fields = x.fields
        else:
            unk = True
            if dom is not None:
                tags = tags | dom.container_tags([v for _, v in x.fields])
    refs = a.refs | b.refs
    if len(refs) > 80:
        unk = True
    return AV(tags, unk, consts, refs, a.insts | b.insts, elts, fields)


class Domain:
    """override what matters"""
    name = "domain"
    value_insts = frozenset()   # external kinds whose stores copy

    def __init__(self):
        self.it = None

    # tags of a container holding these values / of an element of a container
    def container_tags(self, vals):
        out = frozenset()
        for v in vals:
            out |= self.all_tags(v)
        return out

    def hold_tags(self, v):
        """tags a container gains when v is stored in it"""
        return self.container_tags([v])

    def element_tags(self, tags):
        return tags

    def all_tags(self, v, n=0):
        t = v.tags
        if n < 4:
            if v.elts is not None:
                t = t | self.container_tags(v.elts[1])
            if v.fields is not None:
                t = t | self.container_tags([x for _, x in v.fields])
        return t

    def copy_tags(self, tags):
        """shallow copy"""
        return tags

    # hooks: return AV, or None for the default treatment
    def param(self, func, name):
        return None

    def own_call(self, func, bound, node, caller):
        return None

    def ext_call(self, name, args, kwargs, node, caller):
        return None

    def method(self, recv, name, args, kwargs, node, caller):
        return None

    def attr(self, recv, name, node, caller):
        return None

    def subscript(self, recv, key, node, caller):
        return None

    def binop(self, op, a, b, node, caller):
        return None

    def compare(self, a, b, node, caller):
        return None

    def default_call_tags(self, vals, node):
        out = frozenset()
        for v in vals:
            out |= self.all_tags(v)
        return out

    # events
    def on_setitem(self, base, key, value, node, caller):
        pass

    def on_setattr(self, base, attr, value, node, caller):
        pass

    def on_delete(self, base, node, caller):
        pass

    def on_aug(self, cur, value, node, caller):
        """-> AV for the result or None"""
        return None

    def on_mutator(self, recv, name, args, kwargs, node, caller):
        pass

    def on_return(self, func, value, node):
        pass

    def on_enter(self, func, bound):
        pass

    def opaque_own(self, func):
        """do not enter this function"""
        return False


MUTATORS = {
    "append", "add", "update", "extend", "pop", "insert", "remove", "clear",
    "sort", "reverse", "setdefault", "popall", "popone", "discard",
    "popitem", "appendleft", "extendleft", "popleft",
}
ADDERS = {"append": 0, "add": 0, "insert": 1, "appendleft": 0,
          "setdefault": 1, "extend": 0, "update": 0}
SHALLOW_COPIES = {"list", "tuple", "dict", "set", "frozenset", "sorted",
                  "reversed"}


class Interp:
    def __init__(self, prog: Program, dom: Domain, max_depth=24,
                 budget=400_000):
        self.p = prog
        self.dom = dom
        dom.it = self
        self.attrs = {}             # (class qual, attr) -> AV
        self.attrs_changed = False
        self.memo = {}
        self.active = {}
        self.stack = []
        self.max_depth = max_depth
        self.budget = budget
        self.globals = {}
        self.gbusy = set()
        self.env_ids = {}
        self.entered = set()
        self.noreturn = False       # calls that never return end the path
        self.active_hit = False     # recursion was met
        self.never_star = frozenset()   # names never filled from * or **
        self.enter_vendored = None
        self.bindings = {}          # parameter name -> AV (dynamic calls)

    # ------------------------------------------------------------------ API
    def J(self, a, b):
        return join(a, b, self.dom)

    def run_roots(self, roots, rounds=3):
        """roots: list of (Func, {param: AV})"""
        for r in range(rounds):
            self.attrs_changed = False
            self.memo = {}
            self.round = r
            for f, args in roots:
                self.call_root(f, args)
            if not self.attrs_changed:
                break

    def call_root(self, f, args):
        bound = {}
        for n in f.all_param_names():
            if n in args:
                bound[n] = args[n]
            else:
                v = self.dom.param(f, n)
                bound[n] = v if v is not None else TOP
        if f.cls is not None and not f.is_static and f.param_names() and \
                f.param_names()[0] not in args:
            bound[f.param_names()[0]] = AV(insts=frozenset([f.cls.qual]))
        return self.enter(f, bound, {})

    # ---------------------------------------------------------------- calls
    def enter(self, f: Func, bound, cenv):
        key = (f.qual, tuple(sorted(bound.items(), key=lambda x: x[0])),
               self.envkey(cenv))
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            self.active[key][0] = True
            self.active_hit = True
            return self.active[key][1]
        if len(self.stack) >= self.max_depth or self.budget <= 0 or \
                sum(1 for s in self.stack if s is f) >= 3:
            return AV(self.dom.default_call_tags(list(bound.values()), None),
                      unk=True)
        self.entered.add(f.qual)
        self.dom.on_enter(f, bound)
        rec = [False, BOT]
        self.active[key] = rec
        for _ in range(4):
            rec[0] = False
            res = self.body(f, bound, cenv)
            if not rec[0] or res == rec[1]:
                break
            rec[1] = self.J(rec[1], res)
        del self.active[key]
        self.memo[key] = res
        return res

    def envkey(self, cenv):
        if not cenv:
            return ()
        return tuple(sorted(((k, v) for k, v in cenv.items()),
                            key=lambda x: x[0]))

    def body(self, f: Func, bound, cenv):
        self.stack.append(f)
        fr = Frame(f)
        env = dict(cenv)
        env.update(bound)
        fr.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                        for n in _own(f.node))
        out = self.block(f.body(), env, fr)
        self.stack.pop()
        ret = fr.ret
        if out is not None:
            ret = self.J(ret, NONE)
            fr.end_envs.append(out)
        if fr.is_gen:
            v = fr.yields
            ret = AV(self.dom.container_tags([v]), unk=True,
                     elts=None)
        fr.final = fr.end_envs
        return ret

    def bind(self, f: Func, args, kwargs, star, dstar, node, self_av=None):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound = {}
        args = list(args)
        if self_av is not None:
            args = [self_av] + args
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
            else:
                extra.append(v)
        kwextra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                bound[k] = v
            else:
                kwextra[k] = v
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None})
        for n in pos + kwonly:
            if n in bound:
                continue
            v = BOT
            if n in dfl:
                v = self.J(v, self.module_expr(dfl[n], f.module))
            loose = n not in self.never_star
            if star is not None and n in pos and loose:
                v = self.J(v, star)
            if dstar is not None and loose:
                v = self.J(v, dstar)
            if v.is_bottom():
                v = TOP
            bound[n] = v
        if a.vararg:
            vs = extra + ([star] if star is not None else [])
            if star is None:
                bound[a.vararg.arg] = AV(elts=("tuple", tuple(extra)))
            else:
                bound[a.vararg.arg] = AV(self.dom.container_tags(vs),
                                         unk=True)
        if a.kwarg:
            if dstar is None:
                bound[a.kwarg.arg] = AV(fields=tuple(sorted(
                    kwextra.items())))
            else:
                bound[a.kwarg.arg] = AV(self.dom.container_tags(
                    list(kwextra.values()) + [dstar]), unk=True)
        return bound

    def call_av(self, fv: AV, args, kwargs, star, dstar, node, fr):
        """call any callable value"""
        self.budget -= 1
        out = BOT
        done = False
        allv = list(args) + list(kwargs.values()) + [
            x for x in (star, dstar) if x is not None]
        for r in sorted(fv.refs, key=_refkey):
            out = self.J(out, self.call_ref(r, args, kwargs, star, dstar,
                                            node, fr))
            done = True
        for c in sorted(fv.insts):
            cl = self.p.classes.get(c)
            m = self.p.find_method(cl, "__call__") if cl else None
            if m is not None:
                out = self.J(out, self.call_func(
                    m, args, kwargs, star, dstar, node, fr,
                    AV(insts=frozenset([c]))))
                done = True
        if not done or fv.unk:
            t = self.dom.default_call_tags([fv] + allv, node)
            out = self.J(out, AV(t, unk=True))
        return out

    def call_ref(self, r, args, kwargs, star, dstar, node, fr):
        kind = r[0]
        if kind == "func":
            return self.call_func(r[1], args, kwargs, star, dstar, node, fr,
                                  r[2], r[3])
        if kind == "class":
            return self.construct(r[1], args, kwargs, star, dstar, node, fr)
        if kind == "partial":
            base, pa, pk = r[1], r[2], r[3]
            kw = dict(pk)
            kw.update(kwargs)
            return self.call_av(base, list(pa) + list(args), kw, star,
                                dstar, node, fr)
        if kind == "bmeth":     # bound method of an unknown receiver
            return self.method_call(r[1], r[2], args, kwargs, star, dstar,
                                    node, fr)
        if kind == "dynattr":   # the attribute itself, not the override
            out = BOT
            for c in sorted(r[1].insts):
                out = self.J(out, self.dyn_attr(c, args, node, fr))
            return TOP if out.is_bottom() else out
        if kind == "ext":
            return self.ext(r[1], args, kwargs, star, dstar, node, fr)
        if kind == "builtin":
            return self.builtin(r[1], args, kwargs, star, dstar, node, fr)
        if kind == "specialize":
            out = BOT
            for f in (r[2], r[1]):
                v = self.dynamic_call(f, args, kwargs, star, dstar, node, fr)
                if f is r[2]:
                    v = self.nth(v, 1)
                out = self.J(out, v)
            return out
        return AV(self.dom.default_call_tags(list(args) + list(
            kwargs.values()), node), unk=True)

    def call_func(self, f, args, kwargs, star, dstar, node, fr, self_av=None,
                  cenv=()):
        if f.cls is not None and self_av is None and not f.is_static and \
                any(isinstance(d, ast.Name) and d.id == "classmethod"
                    for d in f.decorators):
            self_av = AV(refs=frozenset([("class", f.cls)]))
        if f.is_static:
            self_av = None
        bound = self.bind(f, args, kwargs, star, dstar, node, self_av)
        r = self.dom.own_call(f, bound, node, fr.func if fr else None)
        if r is not None:
            return r
        r = self.model(f, bound, args, kwargs, star, dstar, node, fr)
        if r is not None:
            return r
        if f.vendored and not (self.enter_vendored is not None and
                               self.enter_vendored(f, bound)) or \
                self.dom.opaque_own(f):
            return AV(self.dom.default_call_tags(list(bound.values()), node),
                      unk=True)
        res = self.enter(f, bound, dict(cenv))
        if f.decorators and not f.is_static and any(
                True for d in f.decorators) and f.cls is None:
            pass
        return res

    def model(self, f, bound, args, kwargs, star, dstar, node, fr):
        """the library's own dynamic-call helpers, found by name"""
        if f.module.name != "pdr.func":
            return None
        n = f.name
        if n == "specialize":
            return AV(refs=frozenset([("specialize", bound["func"],
                                       bound["check"])]))
        if n == "call_kwargfiltered":
            fv = bound["func"]
            return self.dynamic_call(fv, list(args[1:]), {
                k: v for k, v in kwargs.items() if k != "func"}, star,
                dstar, node, fr)
        if n == "softquery":
            qs = bound["querydict"]
            fields = dict(bound["kwargdict"].fields or ())
            for q, fv in (qs.fields or ()):
                v = self.dynamic_call(fv, [], {}, None, None, node, fr)
                fields[q] = self.J(fields.get(q, BOT), v)
                old = self.bindings.get(q, BOT)
                self.bindings[q] = self.J(old, v)
                if self.bindings[q] != old:
                    self.attrs_changed = True
            return AV(fields=tuple(sorted(fields.items())))
        return None

    def dynamic_call(self, fv, args, kwargs, star, dstar, node, fr):
        """call by parameter name: missing parameters come from the
        accumulated bindings"""
        out = BOT
        n = 0
        for r in sorted(fv.refs, key=_refkey):
            if r[0] == "specialize":
                for which, g in enumerate((r[2], r[1])):
                    v = self.dynamic_call(g, args, kwargs, star, dstar, node,
                                          fr)
                    if which == 0:
                        v = self.nth(v, 1)
                    out = self.J(out, v)
                n += 1
                continue
            if r[0] == "func":
                f = r[1]
                names = f.all_param_names()
                kw = {k: v for k, v in kwargs.items() if k in names}
                taken = set(names[:len(args) + (1 if r[2] is not None
                                                else 0)])
                for p in names:
                    if p in kw or p in taken:
                        continue
                    v = self.dom.param(f, p)
                    b = self.bindings.get(p)
                    if b is not None:
                        v = b if v is None else self.J(v, b)
                    if v is None:
                        v = dstar if dstar is not None and not \
                            dstar.is_bottom() else None
                    if v is not None:
                        kw[p] = v
                out = self.J(out, self.call_func(
                    f, args, kw, None, None, node, fr, r[2], r[3]))
                n += 1
                continue
            out = self.J(out, self.call_ref(r, args, kwargs, star, dstar,
                                            node, fr))
            n += 1
        if not n or fv.unk:
            out = self.J(out, TOP)
        return out

    def construct(self, c: Class, args, kwargs, star, dstar, node, fr):
        inst = AV(insts=frozenset([c.qual]))
        init = self.p.find_method(c, "__init__")
        if init is not None:
            self.call_func(init, args, kwargs, star, dstar, node, fr, inst)
        else:
            # dataclass-like
            fields = [n for n in c.node.body if isinstance(n, ast.AnnAssign)
                      and isinstance(n.target, ast.Name)]
            for n, v in zip(fields, args):
                self.set_attr_table(c, n.target.id, v)
            for k, v in kwargs.items():
                self.set_attr_table(c, k, v)
        new = self.p.find_method(c, "__new__")
        r = self.dom.ext_call("new:" + c.qual, list(args), dict(kwargs),
                              node, fr.func if fr else None)
        return r if r is not None else inst

    def set_attr_table(self, c: Class, attr, v):
        k = (c.qual, attr)
        old = self.attrs.get(k, BOT)
        new = self.J(old, v)
        if depth(new) > MAXDEPTH + 1:
            new = self.flatten(new)
        if new != old:
            self.attrs[k] = new
            self.attrs_changed = True

    def flatten(self, v):
        return AV(self.dom.all_tags(v), unk=True, refs=v.refs, insts=v.insts)

    def get_attr_table(self, cqual, attr):
        c = self.p.classes.get(cqual)
        out = BOT
        seen = set()
        todo = [c] if c else []
        while todo:
            x = todo.pop()
            if x.qual in seen:
                continue
            seen.add(x.qual)
            v = self.attrs.get((x.qual, attr))
            if v is not None:
                out = self.J(out, v)
                break
            elif attr in x.attrs:
                e = x.attrs[attr]
                e = e[-1] if isinstance(e, list) else e
                if isinstance(e, ast.AST):
                    out = self.J(out, self.module_expr(e, x.module))
                    break
            for b in x.bases:
                if b and b[0] == "class":
                    todo.append(b[1])
        return out

    # -------------------------------------------------------------- globals
    def module_expr(self, e, module):
        fr = Frame(None, module)
        return self.expr(e, {}, fr)

    def global_av(self, module: Module, name):
        k = (module.name, name)
        if k in self.globals:
            return self.globals[k]
        if k in self.gbusy:
            return TOP
        self.gbusy.add(k)
        out = BOT
        for e in module.assigns.get(name, []):
            if isinstance(e, ast.AST):
                out = self.J(out, self.module_expr(e, module))
        if out.is_bottom():
            out = TOP
        self.gbusy.discard(k)
        self.globals[k] = out
        return out

    def ref_av(self, r, env=None, fr=None):
        if r is None:
            return TOP
        if r[0] == "func":
            f = r[1]
            v = AV(refs=frozenset([("func", f, None, ())]))
            return v
        if r[0] == "class":
            return AV(refs=frozenset([("class", r[1])]))
        if r[0] == "ext":
            return AV(refs=frozenset([("ext", r[1])]))
        if r[0] == "builtin":
            return AV(refs=frozenset([("builtin", r[1])]))
        if r[0] == "module":
            return AV(refs=frozenset([("module", r[1])]))
        if r[0] == "global":
            return self.global_av(r[1], r[2])
        if r[0] == "classattr":
            return self.get_attr_table(r[1].qual, r[2]) or TOP
        return TOP

    def name(self, n, env, fr):
        if n in env:
            return env[n]
        f = fr.func
        module = fr.module
        r = self.p.resolve_name(n, module, f)
        if r and r[0] == "local":
            return BOT
        if r and r[0] == "func" and r[1].parent is not None:
            return AV(refs=frozenset([("func", r[1], None, ())]))
        return self.ref_av(r)

    # ----------------------------------------------------------- statements
    def block(self, stmts, env, fr):
        """-> env at the end, or None when the end is not reached"""
        for st in stmts:
            if env is None:
                return None
            env = self.stmt(st, env, fr)
            if fr.tries:
                for t in fr.tries:
                    if env is not None:
                        t.append(env)
        return env

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is None:
                out[k] = y
            elif y is None:
                out[k] = x
            else:
                out[k] = self.J(x, y)
        return out

    def stmt(self, st, env, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is not None:
            return m(st, env, fr)
        return env

    def s_Return(self, st, env, fr):
        v = self.expr(st.value, env, fr) if st.value else NONE
        if fr.func is not None:
            self.dom.on_return(fr.func, v, st)
        fr.ret = self.J(fr.ret, v)
        fr.end_envs.append(env)
        return None

    def s_Raise(self, st, env, fr):
        if st.exc is not None:
            self.expr(st.exc, env, fr)
        return None

    def s_Expr(self, st, env, fr):
        env = dict(env)
        v = self.expr(st.value, env, fr, stmt=True)
        if self.noreturn and v.is_bottom() and not self.active_hit and \
                isinstance(st.value, ast.Call):
            return None
        return env

    def s_Assign(self, st, env, fr):
        env = dict(env)
        v = self.expr(st.value, env, fr)
        if self.noreturn and v.is_bottom() and not self.active_hit and \
                isinstance(st.value, ast.Call):
            return None
        for t in st.targets:
            self.assign(t, v, env, fr)
        return env

    def s_AnnAssign(self, st, env, fr):
        if st.value is None:
            return env
        env = dict(env)
        self.assign(st.target, self.expr(st.value, env, fr), env, fr)
        return env

    def s_AugAssign(self, st, env, fr):
        env = dict(env)
        t = st.target
        lt = _load(t)
        cur = self.expr(lt, env, fr)
        v = self.expr(st.value, env, fr)
        r = self.dom.on_aug(cur, v, st, fr.func)
        if r is None:
            r = self.binop_av(st.op, cur, v, st, fr)
        if isinstance(t, ast.Subscript):
            base = self.expr(t.value, env, fr)
            self.dom.on_setitem(base, self.expr(t.slice, env, fr), r, st,
                                fr.func)
            self.weak_update(t.value, r, env, fr)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, env, fr)
            self.dom.on_setattr(base, t.attr, r, st, fr.func)
            self.store_attr(t, base, r, env, fr)
        else:
            self.assign(t, r, env, fr)
        return env

    def s_If(self, st, env, fr):
        env = dict(env)
        c = self.truth(self.expr(st.test, env, fr))
        e1 = e2 = None
        if c is not False:
            e1 = self.block(st.body, self.refine(st.test, True, dict(env),
                                                 fr), fr)
        if c is not True:
            e2 = self.block(st.orelse, self.refine(
                st.test, False, dict(env), fr), fr)
        return self.merge(e1, e2)

    def s_For(self, st, env, fr):
        env = dict(env)
        it = self.expr(st.iter, env, fr)
        els = self.iter_avs(it)
        if els is not None and len(els) <= 40 and not any(
                isinstance(n, (ast.Break, ast.Continue))
                for n in _own_stmts(st.body)):
            for e in els:
                if env is None:
                    return None
                env = dict(env)
                self.assign(st.target, e, env, fr)
                env = self.block(st.body, env, fr)
            if env is not None:
                env = self.block(st.orelse, env, fr)
            return env
        el = self.element(it)
        fr.loops.append([])
        brk = fr.loops[-1]
        cur = env
        for _ in range(6):
            e = dict(cur)
            self.assign(st.target, el, e, fr)
            out = self.block(st.body, e, fr)
            nxt = self.merge(cur, out)
            for b in brk:
                nxt = self.merge(nxt, b)
            if nxt == cur:
                break
            cur = nxt
        fr.loops.pop()
        res = self.block(st.orelse, cur, fr)
        for b in brk:
            res = self.merge(res, b)
        return res

    s_AsyncFor = s_For

    def s_While(self, st, env, fr):
        fr.loops.append([])
        brk = fr.loops[-1]
        cur = dict(env)
        exited = None
        for _ in range(6):
            e = dict(cur)
            c = self.truth(self.expr(st.test, e, fr))
            exited = None if c is True else self.refine(
                st.test, False, dict(e), fr)
            out = None
            if c is not False:
                out = self.block(st.body, self.refine(
                    st.test, True, e, fr), fr)
            nxt = self.merge(cur, out)
            if nxt == cur:
                break
            cur = nxt
        fr.loops.pop()
        if exited is not None:
            exited = self.block(st.orelse, exited, fr)
        for b in brk:
            exited = self.merge(exited, b)
        return exited

    def s_Break(self, st, env, fr):
        if fr.loops:
            fr.loops[-1].append(env)
        return None

    def s_Continue(self, st, env, fr):
        if fr.loops:
            fr.loops[-1].append(env)
        return None

    def s_With(self, st, env, fr):
        env = dict(env)
        for i in st.items:
            v = self.expr(i.context_expr, env, fr)
            if i.optional_vars is not None:
                v = self.context_value(v)
                self.assign(i.optional_vars, v, env, fr)
        return self.block(st.body, env, fr)

    s_AsyncWith = s_With

    def context_value(self, v):
        for c in sorted(v.insts):
            cl = self.p.classes.get(c)
            m = self.p.find_method(cl, "__enter__") if cl else None
            if m is not None:
                return self.call_func(m, [], {}, None, None, None,
                                      Frame(None, cl.module),
                                      AV(insts=frozenset([c])))
        return v

    def s_Try(self, st, env, fr):
        seen = [env]
        fr.tries.append(seen)
        out = self.block(st.body, dict(env), fr)
        fr.tries.pop()
        entry = None
        for e in seen:
            entry = self.merge(entry, e)
        if out is not None:
            res = self.block(st.orelse, out, fr)
        else:
            res = None
        inner = [entry]
        for h in st.handlers:
            e = dict(entry)
            if h.name:
                e[h.name] = TOP
            fr.tries.append(inner)
            r = self.block(h.body, e, fr)
            fr.tries.pop()
            res = self.merge(res, r)
        if st.finalbody:
            alle = res
            for e in inner:
                alle = self.merge(alle, e)
            fin = self.block(st.finalbody, dict(alle or entry), fr)
            if res is None:
                return None
            return self.block_quiet(st.finalbody, dict(res), fr)
        return res

    s_TryStar = s_Try

    def block_quiet(self, stmts, env, fr):
        return self.block(stmts, env, fr)

    def s_FunctionDef(self, st, env, fr):
        env = dict(env)
        f = self.p.node2func.get(st)
        if f is None:
            return env
        env[st.name] = self.closure(f, env)
        for d in reversed(st.decorator_list):
            dv = self.expr(d, env, fr)
            if any(r[0] == "ext" and r[1] in ("functools.wraps",)
                   for r in dv.refs) or isinstance(d, ast.Call):
                continue
            if any(r[0] in ("func",) for r in dv.refs):
                env[st.name] = self.call_av(dv, [env[st.name]], {}, None,
                                            None, st, fr)
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, env, fr):
        env = dict(env)
        env[st.name] = TOP
        return env

    def s_Import(self, st, env, fr):
        env = dict(env)
        for local, target in import_bindings(st, fr.module.name,
                                             fr.module.is_pkg):
            env[local] = self.ref_av(self.p.resolve_dotted(target))
        return env

    s_ImportFrom = s_Import

    def s_Assert(self, st, env, fr):
        env = dict(env)
        self.expr(st.test, env, fr)
        return self.refine(st.test, True, env, fr)

    def s_Delete(self, st, env, fr):
        env = dict(env)
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                self.dom.on_delete(self.expr(t.value, env, fr), st, fr.func)
        return env

    def s_Match(self, st, env, fr):
        env = dict(env)
        subj = self.expr(st.subject, env, fr)
        res = None
        full = False
        for c in st.cases:
            e = dict(env)
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    e[n.name] = subj if isinstance(
                        n, ast.MatchAs) and n is c.pattern else AV(
                        self.dom.element_tags(self.dom.all_tags(subj)),
                        unk=True)
            if c.guard is not None:
                self.expr(c.guard, e, fr)
            elif isinstance(c.pattern, ast.MatchAs) and \
                    c.pattern.pattern is None:
                full = True
            res = self.merge(res, self.block(c.body, e, fr))
        return res if full else self.merge(res, env)

    # -------------------------------------------------------------- refine
    def refine(self, test, val, env, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, env, fr)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) is val:
                for v in test.values:
                    env = self.refine(v, val, env, fr)
            return env
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.target, val, env, fr)
        if isinstance(test, ast.Name) and test.id in env:
            v = env[test.id]
            keep = frozenset(c for c in v.consts if bool(c[1]) is val)
            if keep != v.consts:
                n = v.with_(consts=keep)
                if not n.is_bottom():
                    env[test.id] = n
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, (ast.Name, ast.NamedExpr)):
            nm = test.left.id if isinstance(test.left, ast.Name) else \
                test.left.target.id
            if nm not in env:
                return env
            op = test.ops[0]
            pos = isinstance(op, (ast.Is, ast.Eq))
            if not pos and not isinstance(op, (ast.IsNot, ast.NotEq)):
                return env
            rv = self.expr(test.comparators[0], dict(env), fr)
            ok, c = rv.const()
            if not ok:
                return env
            eq = pos is val
            v = env[nm]
            ck = (type(c).__name__, c)
            if eq:
                if c is None or isinstance(c, bool):
                    env[nm] = AV(v.tags if c is not None else frozenset(),
                                 consts=frozenset([ck]))
                return env
            keep = frozenset(k for k in v.consts if k != ck)
            if keep != v.consts:
                n = v.with_(consts=keep)
                if not n.is_bottom():
                    env[nm] = n
        return env

    # --------------------------------------------------------------- assign
    def assign(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            if depth(v) > MAXDEPTH:
                v = self.flatten(v)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            els = self.iter_avs(v)
            st = [i for i, x in enumerate(t.elts)
                  if isinstance(x, ast.Starred)]
            if els is not None and not st and len(els) == len(t.elts):
                for x, e in zip(t.elts, els):
                    self.assign(x, e, env, fr)
            elif els is not None and len(st) == 1 and len(els) >= \
                    len(t.elts) - 1:
                i = st[0]
                after = len(t.elts) - i - 1
                for x, e in zip(t.elts[:i], els[:i]):
                    self.assign(x, e, env, fr)
                mid = els[i:len(els) - after]
                self.assign(t.elts[i].value, AV(elts=("list", tuple(mid))),
                            env, fr)
                if after:
                    for x, e in zip(t.elts[i + 1:], els[-after:]):
                        self.assign(x, e, env, fr)
            else:
                e = self.element(v)
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, AV(
                            self.dom.container_tags([e]), unk=True), env, fr)
                    else:
                        self.assign(x, e, env, fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, env, fr)
            key = self.expr(t.slice, env, fr)
            self.dom.on_setitem(base, key, v, t, fr.func)
            self.weak_update(t.value, v, env, fr, key)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, env, fr)
            self.dom.on_setattr(base, t.attr, v, t, fr.func)
            self.store_attr(t, base, v, env, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)

    def store_attr(self, t, base, v, env, fr):
        for c in base.insts:
            cl = self.p.classes.get(c)
            if cl is not None:
                self.set_attr_table(cl, t.attr, v)
        for r in base.refs:
            if r[0] == "class":
                self.set_attr_table(r[1], t.attr, v)

    def weak_update(self, target, v, env, fr, key=None):
        """target (an expression) is a container that now also holds v"""
        if isinstance(target, ast.Name):
            old = env.get(target.id)
            if old is None:
                old = self.name(target.id, env, fr)
            env[target.id] = self.hold(old, v, key)
        elif isinstance(target, ast.Attribute):
            base = self.expr(target.value, env, fr)
            for c in base.insts:
                cl = self.p.classes.get(c)
                if cl is not None:
                    old = self.get_attr_table(c, target.attr)
                    self.set_attr_table(cl, target.attr,
                                        self.hold(old, v, key))
        elif isinstance(target, ast.Subscript):
            base = self.expr(target.value, env, fr)
            inner = AV(self.dom.container_tags([v]), unk=True)
            self.weak_update(target.value, inner, env, fr)

    def hold(self, old, v, key=None):
        if old.fields is not None and key is not None and not old.unk:
            ok, c = key.const()
            if ok and _hashable(c):
                d = dict(old.fields)
                d[c] = v
                if len(d) <= 60 and depth(v) <= MAXDEPTH:
                    return old.with_(fields=tuple(sorted(
                        d.items(), key=lambda x: repr(x[0]))))
        if any(i in self.dom.value_insts for i in old.insts) and \
                not old.tags:
            return old          # storing copies
        t = self.dom.all_tags(old) | self.dom.hold_tags(v)
        return AV(t, unk=True, insts=old.insts,
                  refs=old.refs | (v.refs if old.refs else frozenset()))

    # ---------------------------------------------------------- value utils
    def truth(self, v: AV):
        """True/False/None (unknown)"""
        hook = getattr(self.dom, "truth", None)
        if hook is not None:
            r = hook(v)
            if r is not None:
                return r
        if v.unk or v.is_bottom():
            return None
        res = set()
        for _, c in v.consts:
            res.add(bool(c))
        if v.refs:
            res.add(True)
        for c in v.insts:
            cl = self.p.classes.get(c)
            if cl is None or self.p.find_method(cl, "__len__") or \
                    self.p.find_method(cl, "__bool__"):
                return None
            res.add(True)
        if v.elts is not None:
            res.add(bool(v.elts[1]))
        if v.fields is not None:
            res.add(bool(v.fields))
        if len(res) == 1:
            return res.pop()
        return None

    def iter_avs(self, v: AV):
        """fixed list of elements or None"""
        if v.unk or v.refs or v.insts:
            return None
        if v.elts is not None and not v.consts and v.fields is None:
            return list(v.elts[1])
        ok, c = v.const()
        if ok and isinstance(c, (tuple, frozenset)):
            return [self.lift(x) for x in c]
        if v.fields is not None and not v.consts and v.elts is None:
            return [K(k) for k, _ in v.fields]
        return None

    def lift(self, c):
        if isinstance(c, tuple):
            return AV(elts=("tuple", tuple(self.lift(x) for x in c)))
        return K(c)

    def element(self, v: AV):
        """an element obtained by iteration or an unknown subscript"""
        out = BOT
        if v.elts is not None:
            for e in v.elts[1]:
                out = self.J(out, e)
        if v.fields is not None:
            for _, e in v.fields:
                out = self.J(out, e)
        t = self.dom.element_tags(v.tags)
        if v.elts is None and v.fields is None or v.unk or t:
            out = self.J(out, AV(t, unk=(v.unk or (
                v.elts is None and v.fields is None))))
        for _, c in v.consts:
            if isinstance(c, (tuple, frozenset)):
                for x in c:
                    out = self.J(out, self.lift(x))
        for c in v.insts:
            out = self.J(out, AV(t, unk=True, insts=frozenset(
                [c] if c.startswith("%") else [])))
        if v.refs and v.unk:
            out = self.J(out, AV(refs=v.refs))
        return out if not out.is_bottom() else AV(t, unk=True)

    def nth(self, v: AV, i):
        if v.elts is not None:
            els = v.elts[1]
            out = BOT
            if -len(els) <= i < len(els):
                out = els[i]
            if v.unk or v.tags:
                out = self.J(out, AV(self.dom.element_tags(v.tags),
                                     unk=v.unk))
            return out if not out.is_bottom() else TOP
        ok, c = v.const()
        if ok and isinstance(c, tuple) and -len(c) <= i < len(c):
            return self.lift(c[i])
        return AV(self.dom.element_tags(self.dom.all_tags(v)), unk=True)

    # ---------------------------------------------------------- expressions
    def expr(self, e, env, fr, stmt=False) -> AV:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            vals = [self.expr(c, env, fr) for c in ast.iter_child_nodes(e)
                    if isinstance(c, ast.expr)]
            return AV(self.dom.container_tags(vals), unk=True)
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        if isinstance(e.value, type(Ellipsis)):
            return TOP
        return K(e.value)

    def e_Name(self, e, env, fr):
        v = self.name(e.id, env, fr)
        return v if not v.is_bottom() else TOP

    def e_NamedExpr(self, e, env, fr):
        v = self.expr(e.value, env, fr)
        env[e.target.id] = v
        return v

    def e_Attribute(self, e, env, fr):
        r = self.p.resolve_expr_static(e, fr.module, fr.func)
        if r is not None and not (
                isinstance(_root(e), ast.Name) and _root(e).id in env
                and r[0] not in ("ext", "func", "class", "module")):
            if r[0] != "ext" or not self._shadowed(e, env):
                return self.ref_av(r)
        base = self.expr(e.value, env, fr)
        return self.getattr_av(base, e.attr, e, fr)

    def _shadowed(self, e, env):
        n = _root(e)
        return isinstance(n, ast.Name) and n.id in env and not any(
            r[0] in ("ext", "module") for r in env[n.id].refs)

    def getattr_av(self, base, attr, node, fr):
        r = self.dom.attr(base, attr, node, fr.func)
        if r is not None:
            return r
        out = BOT
        for c in sorted(base.insts):
            cl = self.p.classes.get(c)
            if cl is None:
                out = self.J(out, TOP)
                continue
            m = self.p.find_method(cl, attr)
            if m is not None:
                slf = AV(insts=frozenset([c]), tags=base.tags)
                if any(isinstance(d, ast.Name) and d.id in (
                        "property", "cached_property") or
                        isinstance(d, ast.Attribute) and d.attr in (
                        "cached_property",) for d in m.decorators):
                    out = self.J(out, self.call_func(
                        m, [], {}, None, None, node, fr, slf))
                else:
                    out = self.J(out, AV(refs=frozenset(
                        [("func", m, slf, ())])))
            else:
                v = self.get_attr_table(c, attr)
                out = self.J(out, v)
        for r in base.refs:
            if r[0] in ("module", "ext", "class"):
                q = self.p.resolve_member(r, attr)
                out = self.J(out, self.ref_av(q) if q else TOP)
        if base.insts and out.is_bottom() and not base.unk:
            out = AV(unk=True)
        if base.unk or base.consts or base.elts is not None or \
                base.fields is not None or out.is_bottom() or (
                base.tags and not base.insts):
            out = self.J(out, AV(self.dom.all_tags(base), unk=True,
                                 ))
        return out

    def e_Subscript(self, e, env, fr):
        base = self.expr(e.value, env, fr)
        if isinstance(e.slice, ast.Slice):
            key = AV(tags=frozenset(), unk=True)
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.expr(x, env, fr)
            r = self.dom.subscript(base, None, e, fr.func)
            if r is not None:
                return r
            if base.elts is not None and not base.unk:
                try:
                    sl = slice(*[None if x is None else ast.literal_eval(x)
                                 for x in (e.slice.lower, e.slice.upper,
                                           e.slice.step)])
                    return AV(base.tags, elts=(base.elts[0],
                                               base.elts[1][sl]))
                except (ValueError, TypeError):
                    pass
            return AV(self.dom.copy_tags(self.dom.all_tags(base)), unk=True)
        key = self.expr(e.slice, env, fr)
        r = self.dom.subscript(base, key, e, fr.func)
        if r is not None:
            return r
        return self.item(base, key, e, fr)

    def item(self, base, key, node, fr):
        ok, c = key.const()
        if ok and isinstance(c, int) and not isinstance(c, bool) and (
                base.elts is not None or base.consts):
            return self.nth(base, c)
        if ok and base.fields is not None:
            d = dict(base.fields)
            if _hashable(c) and c in d:
                v = d[c]
                if base.unk or base.tags:
                    v = self.J(v, AV(self.dom.element_tags(base.tags),
                                     unk=base.unk))
                return v
        out = BOT
        for cq in sorted(base.insts):
            cl = self.p.classes.get(cq)
            m = self.p.find_method(cl, "__getitem__") if cl else None
            if m is not None:
                out = self.J(out, self.call_func(
                    m, [key], {}, None, None, node, fr,
                    AV(insts=frozenset([cq]))))
        if out.is_bottom():
            out = self.element(base)
        return out

    def e_Tuple(self, e, env, fr):
        return self.seq("tuple", e, env, fr)

    def e_List(self, e, env, fr):
        return self.seq("list", e, env, fr)

    def e_Set(self, e, env, fr):
        return self.seq("set", e, env, fr)

    def seq(self, kind, e, env, fr):
        out = []
        fixed = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, env, fr)
                els = self.iter_avs(v)
                if els is None:
                    fixed = False
                    out.append(self.element(v))
                else:
                    out += els
            else:
                out.append(self.expr(x, env, fr))
        if fixed and len(out) <= 60:
            out = [x if depth(x) < MAXDEPTH else self.flatten(x)
                   for x in out]
            return AV(elts=(kind, tuple(out)))
        refs = frozenset().union(*[x.refs for x in out]) if out else \
            frozenset()
        return AV(self.dom.container_tags(out), unk=True, refs=refs)

    def e_Dict(self, e, env, fr):
        fields = {}
        fixed = True
        vals = []
        for k, v in zip(e.keys, e.values):
            vv = self.expr(v, env, fr)
            if depth(vv) >= MAXDEPTH:
                vv = self.flatten(vv)
            if k is None:
                if vv.fields is not None and not vv.unk:
                    fields.update(dict(vv.fields))
                else:
                    fixed = False
                vals.append(self.element(vv))
                continue
            kv = self.expr(k, env, fr)
            ok, c = kv.const()
            vals.append(vv)
            if ok and _hashable(c):
                fields[c] = vv
            else:
                fixed = False
        if fixed and len(fields) <= 80:
            return AV(fields=tuple(sorted(fields.items(),
                                          key=lambda x: repr(x[0]))))
        refs = frozenset().union(*[x.refs for x in vals]) if vals else \
            frozenset()
        return AV(self.dom.container_tags(vals), unk=True, refs=refs)

    def comp_env(self, e, env, fr):
        """bind the generators; returns list of envs (one if abstract)"""
        envs = [dict(env)]
        for g in e.generators:
            nxt = []
            for en in envs:
                it = self.expr(g.iter, en, fr)
                els = self.iter_avs(it)
                if els is not None and len(els) * len(envs) <= 40:
                    for x in els:
                        en2 = dict(en)
                        self.assign(g.target, x, en2, fr)
                        keep = True
                        for c in g.ifs:
                            t = self.truth(self.expr(c, en2, fr))
                            if t is False:
                                keep = False
                            elif t is None:
                                keep = None if keep else keep
                            en2 = self.refine(c, True, en2, fr)
                        if keep is not False:
                            nxt.append((en2, keep is True))
                else:
                    en2 = dict(en)
                    self.assign(g.target, self.element(it), en2, fr)
                    for c in g.ifs:
                        self.expr(c, en2, fr)
                        en2 = self.refine(c, True, en2, fr)
                    nxt.append((en2, None))
            fixed = all(k is True for _, k in nxt)
            envs = [n for n, _ in nxt]
            if not fixed:
                return envs, False
        return envs, True

    def e_ListComp(self, e, env, fr):
        envs, fixed = self.comp_env(e, env, fr)
        vals = [self.expr(e.elt, en, fr) for en in envs]
        if fixed:
            return AV(elts=("list", tuple(vals)))
        refs = frozenset().union(*[x.refs for x in vals]) if vals else \
            frozenset()
        return AV(self.dom.container_tags(vals), unk=True, refs=refs)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env, fr):
        envs, fixed = self.comp_env(e, env, fr)
        fields = {}
        vals = []
        for en in envs:
            k = self.expr(e.key, en, fr)
            v = self.expr(e.value, en, fr)
            vals.append(v)
            ok, c = k.const()
            if ok and _hashable(c):
                fields[c] = v
            else:
                fixed = False
        if fixed:
            return AV(fields=tuple(sorted(fields.items(),
                                          key=lambda x: repr(x[0]))))
        refs = frozenset().union(*[x.refs for x in vals]) if vals else \
            frozenset()
        return AV(self.dom.container_tags(vals), unk=True, refs=refs)

    def e_Lambda(self, e, env, fr):
        f = self.p.node2func.get(e)
        return self.closure(f, env) if f else TOP

    def closure(self, f, env):
        # capture only what the function reads
        names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        cap = tuple(sorted(((k, v) for k, v in env.items()
                            if k in names and k != f.name),
                           key=lambda x: x[0]))
        cap = tuple((k, v if depth(v) < MAXDEPTH else self.flatten(v))
                    for k, v in cap)
        return AV(refs=frozenset([("func", f, None, cap)]))

    def e_IfExp(self, e, env, fr):
        c = self.truth(self.expr(e.test, env, fr))
        out = BOT
        if c is not False:
            out = self.J(out, self.expr(
                e.body, self.refine(e.test, True, dict(env), fr), fr))
        if c is not True:
            out = self.J(out, self.expr(
                e.orelse, self.refine(e.test, False, dict(env), fr), fr))
        return out

    def e_BoolOp(self, e, env, fr):
        is_and = isinstance(e.op, ast.And)
        out = BOT
        en = env
        for i, v in enumerate(e.values):
            x = self.expr(v, en, fr)
            t = self.truth(x)
            last = i == len(e.values) - 1
            if last:
                out = self.J(out, x)
                break
            if t is (not is_and):      # short-circuits here
                out = self.J(out, x)
                break
            if t is None:
                # the short-circuit value
                keep = x.with_(consts=frozenset(
                    c for c in x.consts if bool(c[1]) is (not is_and)))
                if is_and and not x.tags and not x.unk:
                    pass
                out = self.J(out, keep)
            en2 = self.refine(v, is_and, dict(en), fr)
            en = en2
        return out

    def e_UnaryOp(self, e, env, fr):
        v = self.expr(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return BOOL if t is None else K(not t)
        ok, c = v.const()
        if ok and isinstance(c, (int, float)) and isinstance(e.op, ast.USub):
            return K(-c)
        r = self.dom.binop(e.op, v, v, e, fr.func)
        if r is not None:
            return r
        return AV(self.dom.default_call_tags([v], e), unk=True)

    def e_BinOp(self, e, env, fr):
        a = self.expr(e.left, env, fr)
        b = self.expr(e.right, env, fr)
        return self.binop_av(e.op, a, b, e, fr)

    def binop_av(self, op, a, b, node, fr):
        r = self.dom.binop(op, a, b, node, fr.func if fr else None)
        if r is not None:
            return r
        if isinstance(op, ast.Add) and a.elts is not None and b.elts is not \
                None and not (a.unk or b.unk or a.consts or b.consts):
            return AV(a.tags | b.tags, elts=(a.elts[0],
                                             a.elts[1] + b.elts[1]))
        if isinstance(op, ast.BitOr) and a.fields is not None and \
                b.fields is not None and not (a.unk or b.unk):
            d = dict(a.fields)
            d.update(dict(b.fields))
            return AV(a.tags | b.tags, fields=tuple(sorted(
                d.items(), key=lambda x: repr(x[0]))))
        if isinstance(op, (ast.BitOr, ast.Add)) and (
                a.refs or b.refs) and (a.unk or b.unk):
            return AV(self.dom.default_call_tags([a, b], node), unk=True,
                      refs=a.refs | b.refs)
        if isinstance(op, ast.Add):
            sa, sb = a.strs(), b.strs()
            if sa and sb and len(sa) * len(sb) <= MAXCONST:
                return AV(a.tags | b.tags, consts=frozenset(
                    ("str", x + y) for x in sa for y in sb))
        return AV(self.dom.default_call_tags([a, b], node), unk=True)

    def e_Compare(self, e, env, fr):
        left = self.expr(e.left, env, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, env, fr)
            r = self.dom.compare(left, right, e, fr.func)
            if r is not None:
                return r
            t = self.cmp(op, left, right)
            res = t if res is None else (
                False if (t is False or res is False)
                else (None if (t is None or res is None) else True))
            if t is None:
                res = None if res is not False else False
            left = right
        return BOOL if res is None else K(res)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            ca, cb = a.const(), b.const()
            if ca[0] and cb[0]:
                x, y = ca[1], cb[1]
                r = (x == y and type(x) == type(y)) if isinstance(
                    op, (ast.Is, ast.IsNot)) else x == y
                return r if pos else not r
            # disjoint possibilities
            for x, y in ((a, b), (b, a)):
                ok, c = y.const()
                if ok and not x.unk and not x.is_bottom() and (
                        "%" + type(c).__name__, c) and not any(
                        k[1] == c and k[0] == type(c).__name__
                        for k in x.consts):
                    if c is None or isinstance(c, bool) or not (
                            x.insts or x.tags):
                        return not pos
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            ok, c = a.const()
            els = self.iter_avs(b)
            if ok and els is not None:
                cs = [x.const() for x in els]
                if all(k for k, _ in cs):
                    r = any(v == c for _, v in cs)
                    return r if pos else not r
            bo, bc = b.const()
            if ok and bo and isinstance(c, str) and isinstance(bc, str):
                r = c in bc
                return r if pos else not r
            return None
        ca, cb = a.const(), b.const()
        if ca[0] and cb[0]:
            try:
                x, y = ca[1], cb[1]
                return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                        ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[
                    type(op)]()
            except (TypeError, KeyError):
                return None
        return None

    def e_JoinedStr(self, e, env, fr):
        vals = []
        parts = [[""]]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.expr(v.value, env, fr)
                vals.append(x)
                s = x.strs()
                if s and parts is not None and v.format_spec is None and \
                        v.conversion == -1:
                    parts.append(sorted(s))
                else:
                    parts = None
            elif parts is not None:
                parts.append([v.value])
        hook = getattr(self.dom, "fstring", None)
        if hook is not None:
            r = hook(e, vals, fr.func)
            if r is not None:
                return r
        if parts is not None:
            out = ["".join(c) for c in itertools.islice(
                itertools.product(*parts), MAXCONST + 1)]
            if len(out) <= MAXCONST:
                return AV(self.dom.default_call_tags(vals, e),
                          consts=frozenset(("str", s) for s in out))
        return AV(self.dom.default_call_tags(vals, e), unk=True)

    def e_Starred(self, e, env, fr):
        return self.expr(e.value, env, fr)

    def e_Yield(self, e, env, fr):
        v = self.expr(e.value, env, fr) if e.value else NONE
        fr.yields = self.J(fr.yields, v)
        return TOP

    def e_YieldFrom(self, e, env, fr):
        v = self.expr(e.value, env, fr)
        fr.yields = self.J(fr.yields, self.element(v))
        return TOP

    def e_Await(self, e, env, fr):
        return self.expr(e.value, env, fr)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env, fr):
        args, kwargs = [], {}
        star = dstar = None
        fe = e.func
        recv = None
        fv = None
        if isinstance(fe, ast.Attribute):
            if isinstance(fe.value, ast.Call) and isinstance(
                    fe.value.func, ast.Name) and \
                    fe.value.func.id == "super" and fr.func is not None:
                fv = self.super_method(fe.attr, env, fr)
            else:
                r = self.p.resolve_expr_static(fe, fr.module, fr.func)
                if r is not None and r[0] in ("func", "class", "ext") and \
                        not (self._shadowed(fe, env)):
                    fv = self.ref_av(r)
                else:
                    recv = self.expr(fe.value, env, fr)
        else:
            fv = self.expr(fe, env, fr)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env, fr)
                els = self.iter_avs(v)
                if els is not None and star is None:
                    args += els
                else:
                    x = self.element(v)
                    star = x if star is None else self.J(star, x)
            else:
                v = self.expr(a, env, fr)
                if star is not None:
                    star = self.J(star, v)
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.expr(k.value, env, fr)
            if k.arg is None:
                if v.fields is not None and not v.unk and all(
                        isinstance(n, str) for n, _ in v.fields):
                    kwargs.update(dict(v.fields))
                else:
                    x = self.element(v)
                    dstar = x if dstar is None else self.J(dstar, x)
            else:
                kwargs[k.arg] = v
        if recv is not None:
            return self.method_call(recv, fe.attr, args, kwargs, star, dstar,
                                    e, fr, fe.value, env)
        return self.call_av(fv, args, kwargs, star, dstar, e, fr)

    def super_method(self, attr, env, fr):
        f = fr.func
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            return TOP
        slf = env.get(f.param_names()[0]) if f.param_names() else None
        for b in f.cls.bases:
            if b and b[0] == "class":
                m = self.p.find_method(b[1], attr)
                if m is not None:
                    return AV(refs=frozenset([("func", m, slf, ())]))
            if b and b[0] == "ext":
                return AV(refs=frozenset([("ext", f"{b[1]}.{attr}")]))
        if attr in ("__getattribute__", "__getattr__"):
            return AV(refs=frozenset([("dynattr", slf or TOP)]))
        return AV(refs=frozenset([("ext", "object." + attr)]))

    def method_call(self, recv, name, args, kwargs, star, dstar, node, fr,
                    rexpr=None, env=None):
        func = fr.func if fr else None
        allargs = list(args) + ([star] if star is not None else [])
        allkw = dict(kwargs)
        if dstar is not None:
            allkw["**"] = dstar
        r = self.dom.method(recv, name, allargs, allkw, node, func)
        if r is not None:
            if name in MUTATORS and rexpr is not None:
                self.mutate_holder(recv, name, args, kwargs, star, rexpr,
                                   env, fr, node)
            return r
        out = BOT
        done = False
        for c in sorted(recv.insts):
            cl = self.p.classes.get(c)
            m = self.p.find_method(cl, name) if cl else None
            if m is not None:
                out = self.J(out, self.call_func(
                    m, args, kwargs, star, dstar, node, fr,
                    AV(insts=frozenset([c]), tags=recv.tags)))
                done = True
                continue
            v = self.get_attr_table(c, name)
            if v.refs or v.insts:
                out = self.J(out, self.call_av(v, args, kwargs, star, dstar,
                                               node, fr))
                done = True
            elif name in ("__getattribute__", "getattr"):
                out = self.J(out, self.dyn_attr(c, args, node, fr))
                done = True
        for rf in sorted(recv.refs, key=_refkey):
            if rf[0] in ("module", "ext", "class"):
                q = self.p.resolve_member(rf, name)
                fv = self.ref_av(q) if q else TOP
                a2 = args
                if rf[0] == "class" and q and q[0] == "func":
                    a2 = args
                out = self.J(out, self.call_av(fv, a2, kwargs, star, dstar,
                                               node, fr))
                done = True
        if name in MUTATORS and rexpr is not None:
            self.mutate_holder(recv, name, args, kwargs, star, rexpr, env,
                               fr, node)
        if not done or recv.unk or recv.tags or recv.consts or \
                recv.elts is not None or recv.fields is not None:
            out = self.J(out, self.builtin_method(
                recv, name, args, kwargs, star, dstar, node, fr))
        return out

    def dyn_attr(self, c, args, node, fr):
        if args:
            s = args[0].strs()
            if s is not None:
                out = BOT
                for n in sorted(s):
                    out = self.J(out, self.getattr_av(
                        AV(insts=frozenset([c])), n, node, fr))
                return out
        return TOP

    def mutate_holder(self, recv, name, args, kwargs, star, rexpr, env, fr,
                      node):
        self.dom.on_mutator(recv, name, args, kwargs, node,
                            fr.func if fr else None)
        if name not in ADDERS:
            if recv.elts is not None or recv.fields is not None:
                self.rebind(rexpr, self.flatten(recv), env, fr)
            return
        i = ADDERS[name]
        vals = list(args[i:i + 1]) + list(kwargs.values()) + (
            [star] if star is not None else [])
        if name == "update":
            vals = list(args) + list(kwargs.values())
        if not vals:
            return
        # keep fixed lists fixed
        if name == "append" and recv.elts is not None and not recv.unk and \
                recv.elts[0] == "list" and len(recv.elts[1]) < 40 and \
                depth(vals[0]) < MAXDEPTH:
            self.rebind(rexpr, recv.with_(
                elts=("list", recv.elts[1] + (vals[0],))), env, fr)
            return
        if name == "update" and recv.fields is not None and not recv.unk \
                and len(args) <= 1 and all(
                a.fields is not None and not a.unk for a in args):
            d = dict(recv.fields)
            for a in args:
                d.update(dict(a.fields))
            d.update(kwargs)
            self.rebind(rexpr, recv.with_(fields=tuple(sorted(
                d.items(), key=lambda x: repr(x[0])))), env, fr)
            return
        if name in ("extend", "update"):
            vals = [self.element(v) for v in vals]
        for v in vals:
            self.weak_update(rexpr, v, env, fr,
                             args[0] if name == "setdefault" and args
                             else None)

    def rebind(self, rexpr, v, env, fr):
        if isinstance(rexpr, ast.Name):
            env[rexpr.id] = v
        elif isinstance(rexpr, ast.Attribute):
            base = self.expr(rexpr.value, env, fr)
            for c in base.insts:
                cl = self.p.classes.get(c)
                if cl is not None:
                    self.set_attr_table(cl, rexpr.attr, v)

    def builtin_method(self, recv, name, args, kwargs, star, dstar, node,
                       fr):
        D = self.dom
        allv = [recv] + list(args) + list(kwargs.values()) + [
            x for x in (star, dstar) if x is not None]
        if name in ("get", "pop", "getone", "popone", "setdefault"):
            out = BOT
            if args:
                ok, c = args[0].const()
                if recv.fields is not None and ok and not recv.unk:
                    d = dict(recv.fields)
                    if _hashable(c) and c in d:
                        return d[c]
                    return args[1] if len(args) > 1 else NONE
            out = self.element(recv)
            if len(args) > 1:
                out = self.J(out, args[1])
            else:
                out = self.J(out, NONE)
            return out
        if name == "values":
            if recv.fields is not None and not recv.unk:
                return AV(recv.tags, elts=("list", tuple(
                    v for _, v in recv.fields)))
            return AV(D.copy_tags(D.all_tags(recv)), unk=True,
                      refs=recv.refs)
        if name == "items":
            if recv.fields is not None and not recv.unk:
                return AV(recv.tags, elts=("list", tuple(
                    AV(elts=("tuple", (K(k), v)))
                    for k, v in recv.fields)))
            el = self.element(recv)
            return AV(D.container_tags([AV(D.container_tags([el]),
                                           unk=True)]), unk=True)
        if name == "keys":
            if recv.fields is not None and not recv.unk:
                return AV(elts=("list", tuple(K(k) for k, _ in
                                              recv.fields)))
            return AV(D.default_call_tags([recv], node), unk=True)
        if name in ("copy",) and not args:
            return recv.with_(tags=D.copy_tags(recv.tags))
        if name in MUTATORS:
            return NONE
        ok, c = recv.const()
        if ok and isinstance(c, str) and name in (
                "lower", "upper", "strip", "format", "replace", "split",
                "startswith", "endswith", "join", "rstrip", "lstrip"):
            cs = [a.const() for a in args]
            if all(k for k, _ in cs) and not kwargs and star is None:
                try:
                    r = getattr(c, name)(*[v for _, v in cs])
                    if isinstance(r, list):
                        return AV(D.default_call_tags(allv, node), elts=(
                            "list", tuple(K(x) for x in r)))
                    return AV(D.default_call_tags(allv, node),
                              consts=K(r).consts)
                except Exception:
                    pass
        return AV(D.default_call_tags(allv, node), unk=True)

    def ext(self, name, args, kwargs, star, dstar, node, fr):
        func = fr.func if fr else None
        allargs = list(args) + ([star] if star is not None else [])
        allkw = dict(kwargs)
        if dstar is not None:
            allkw["**"] = dstar
        r = self.dom.ext_call(name, allargs, allkw, node, func)
        if r is not None:
            return r
        last = name.split(".")[-1]
        if name in ("functools.partial", "cytoolz.curry") and args:
            return AV(refs=frozenset([(
                "partial", args[0], tuple(args[1:]),
                tuple(sorted(kwargs.items())))]))
        if name in ("functools.cache", "functools.lru_cache",
                    "functools.wraps") and args:
            return args[0]
        if name in ("dustgoggles.func.constant",) and args:
            return AV(refs=frozenset([("const", args[0])]))
        if name in ("types.MappingProxyType",) and len(args) == 1:
            return args[0]
        if name in ("cytoolz.identity", "cytoolz.functoolz.identity"):
            return args[0] if args else TOP
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            els = []
            fixed = True
            src = args
            if last == "from_iterable":
                src = self.iter_avs(args[0]) if args else []
                if src is None:
                    return AV(self.dom.element_tags(
                        self.dom.all_tags(args[0])), unk=True)
            for a in src:
                x = self.iter_avs(a)
                if x is None:
                    fixed = False
                    els.append(self.element(a))
                else:
                    els += x
            if star is not None:
                fixed = False
                els.append(self.element(star))
            if fixed:
                return AV(elts=("tuple", tuple(els)))
            return AV(self.dom.container_tags(els), unk=True)
        if name in ("itertools.filterfalse", "cytoolz.filter") and len(
                args) == 2:
            return self.builtin("filter", args, kwargs, star, dstar, node,
                                fr)
        if name in ("dustgoggles.func.gmap",) and len(args) >= 2:
            return self.builtin("map", args, {}, star, dstar, node, fr)
        # callables handed to library code are called with unknown values
        self.call_handed(args, kwargs, star, node, fr)
        t = self.dom.default_call_tags(allargs + list(allkw.values()), node)
        return AV(t, unk=True)

    def call_handed(self, args, kwargs, star, node, fr):
        vals = list(args) + list(kwargs.values())
        data = [v for v in vals if not v.refs]
        t = frozenset()
        for d in data:
            t |= self.dom.all_tags(d)
        el = AV(self.dom.element_tags(t), unk=True)
        for v in vals:
            for r in sorted(v.refs, key=_refkey):
                if r[0] == "func" and not r[1].vendored:
                    n = len(r[1].param_names()) - (
                        1 if r[2] is not None else 0)
                    self.call_ref(r, [el] * max(n, 0), {}, None, None, node,
                                  fr)

    def builtin(self, name, args, kwargs, star, dstar, node, fr):
        func = fr.func if fr else None
        D = self.dom
        allargs = list(args) + ([star] if star is not None else [])
        allkw = dict(kwargs)
        if dstar is not None:
            allkw["**"] = dstar
        r = D.ext_call("builtins." + name, allargs, allkw, node, func)
        if r is not None:
            return r
        if name in ("map", "filter") and len(args) >= 2:
            its = [self.iter_avs(a) for a in args[1:]]
            if name == "map":
                if all(x is not None for x in its) and len(
                        {len(x) for x in its}) == 1 and len(its[0]) <= 40:
                    return AV(elts=("list", tuple(
                        self.call_av(args[0], list(xs), {}, None, None, node,
                                     fr) for xs in zip(*its))))
                v = self.call_av(args[0], [self.element(a)
                                           for a in args[1:]], {}, None,
                                 None, node, fr)
                return AV(D.container_tags([v]), unk=True, refs=v.refs)
            el = self.element(args[1])
            self.call_av(args[0], [el], {}, None, None, node, fr)
            return AV(D.container_tags([el]), unk=True)
        if name in SHALLOW_COPIES and args:
            v = args[0]
            if name == "sorted" and "key" in kwargs:
                self.call_av(kwargs["key"], [self.element(v)], {}, None,
                             None, node, fr)
            if name == "dict":
                if v.fields is not None and not v.unk:
                    d = dict(v.fields)
                    d.update(kwargs)
                    return AV(D.copy_tags(v.tags), fields=tuple(sorted(
                        d.items(), key=lambda x: repr(x[0]))))
                t = D.copy_tags(D.all_tags(v)) | D.container_tags(
                    list(kwargs.values()))
                els = self.iter_avs(v)
                if els is not None:
                    t = D.container_tags([self.nth(x, 1) for x in els])
                return AV(t, unk=True, refs=v.refs)
            els = self.iter_avs(v)
            if els is not None and name in ("list", "tuple"):
                return AV(D.copy_tags(v.tags), elts=(name, tuple(els)))
            ok, c = v.const()
            if ok and isinstance(c, str):
                return TOP
            return AV(D.copy_tags(D.all_tags(v)), unk=True, refs=v.refs)
        if name == "dict" and not args:
            if dstar is None:
                return AV(fields=tuple(sorted(kwargs.items())))
            return AV(D.container_tags(list(kwargs.values()) + [dstar]),
                      unk=True)
        if name in ("list", "tuple", "set") and not args:
            return AV(elts=(name, ()))
        if name == "zip":
            its = [self.iter_avs(a) for a in args]
            if all(x is not None for x in its) and its and star is None:
                return AV(elts=("list", tuple(
                    AV(elts=("tuple", tuple(xs))) for xs in zip(*its))))
            els = [self.element(a) for a in allargs]
            if star is None:
                return AV(D.container_tags([AV(D.container_tags(els),
                                               unk=True)]), unk=True)
            return AV(D.container_tags([AV(D.container_tags(els),
                                           unk=True)]), unk=True)
        if name == "enumerate" and args:
            els = self.iter_avs(args[0])
            if els is not None:
                return AV(elts=("list", tuple(
                    AV(elts=("tuple", (K(i), x)))
                    for i, x in enumerate(els))))
            el = self.element(args[0])
            return AV(D.container_tags([AV(D.container_tags([el]),
                                           unk=True)]), unk=True)
        if name == "getattr" and len(args) >= 2:
            s = args[1].strs()
            if s is not None:
                out = BOT
                for n in sorted(s):
                    out = self.J(out, self.getattr_av(args[0], n, node, fr))
                if len(args) > 2:
                    out = self.J(out, args[2])
                return out
            return AV(D.default_call_tags(args[:1], node), unk=True)
        if name == "setattr" and len(args) == 3:
            s = args[1].strs()
            D.on_setattr(args[0], next(iter(s)) if s and len(s) == 1
                         else None, args[2], node, func)
            for c in args[0].insts:
                cl = self.p.classes.get(c)
                for n in sorted(s or ()):
                    if cl is not None:
                        self.set_attr_table(cl, n, args[2])
            return NONE
        if name == "iter" and len(args) == 1:
            v = args[0]
            return AV(D.copy_tags(v.tags), unk=v.unk, consts=v.consts,
                      refs=v.refs, elts=v.elts, fields=v.fields,
                      insts=v.insts)
        if name in ("next",) and args:
            v = self.element(args[0])
            if len(args) > 1:
                v = self.J(v, args[1])
            return v
        if name in ("min", "max", "sum") and args:
            self.call_handed([], {k: v for k, v in kwargs.items()
                                  if k == "key"}, None, node, fr)
            return AV(D.default_call_tags(allargs, node), unk=True)
        if name == "len" and args:
            els = self.iter_avs(args[0])
            if els is not None:
                return K(len(els))
            return TOP
        if name in ("isinstance", "issubclass", "hasattr", "callable",
                    "any", "all", "bool"):
            if name == "bool" and args:
                t = self.truth(args[0])
                return BOOL if t is None else K(t)
            return BOOL
        if name in ("int", "float", "str", "repr", "bytes") and args:
            ok, c = args[0].const()
            if ok and len(args) == 1:
                try:
                    v = K({"int": int, "float": float, "str": str,
                           "repr": repr}[name](c))
                    return v.with_(tags=D.default_call_tags(allargs, node))
                except Exception:
                    pass
            return AV(D.default_call_tags(allargs, node), unk=True)
        if name in ("print",):
            return NONE
        self.call_handed(args, kwargs, star, node, fr)
        return AV(D.default_call_tags(allargs + list(allkw.values()), node),
                  unk=True)


class Frame:
    __slots__ = ("func", "module", "ret", "loops", "tries", "yields",
                 "is_gen", "end_envs", "final")

    def __init__(self, func, module=None):
        self.func = func
        self.module = module or func.module
        self.ret = BOT
        self.loops = []
        self.tries = []
        self.yields = BOT
        self.is_gen = False
        self.end_envs = []
        self.final = None


def _refkey(r):
    q = getattr(r[1], "qual", None) or getattr(r[1], "name", None) or \
        str(r[1])
    return (r[0], q)


def _hashable(c):
    try:
        hash(c)
        return True
    except TypeError:
        return False


def _load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(n):
        ast.copy_location(x, t)
    return n


def _root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e


def _own(node):
    """nodes of a function, without nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _own_stmts(stmts):
    for s in stmts:
        yield s
        yield from _own(s)
