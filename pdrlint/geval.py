"""Gated evaluator: turns a function into a gated value (value numbering with
decision-diagram gates).  Joins are gates, constant loops are unrolled, other
loops are summarised by opaque terms, resolvable helpers are inlined."""
from __future__ import annotations

import ast
import re

from .gval import Space, Term, Ite, TooBig, show
from .program import Program, Func, Module, AnalysisError, unparse

MUTATORS = {
    "append", "add", "update", "extend", "pop", "insert", "remove", "clear",
    "sort", "reverse", "setdefault", "popall", "popone", "fill", "discard",
    "popitem", "appendleft",
}


class Exit:
    __slots__ = ("kind", "guard", "value", "env", "node")

    def __init__(self, kind, guard, value, env, node):
        self.kind, self.guard, self.value = kind, guard, value
        self.env, self.node = env, node


class Result:
    """value: gated return value ('raise' terms for raising exits)"""

    def __init__(self, value, effects, exits):
        self.value, self.effects, self.exits = value, effects, exits


class Evaluator:
    def __init__(self, prog: Program, inline=None, max_depth=8,
                 budget=3_000_000, space=None, unroll=64,
                 keep_effects=True, assume_param=None, alias=None,
                 models=None):
        self.p = prog
        self.sp = space or Space(budget)
        self.inline = inline or (lambda f: False)
        self.max_depth = max_depth
        self.unroll = unroll
        self.stack = []
        self.closures = {}
        self.global_cache = {}
        self.loop_n = 0
        self.effects = []
        self.guard_stack = []
        self.keep_effects = keep_effects
        self.alias = alias or {}
        self.models = models or {}
        self.inlined = set()

    # ------------------------------------------------------------------
    def run(self, func: Func, args=None, depth=0):
        """evaluate func with symbolic parameters; args: name -> value"""
        env = {}
        a = func.node.args
        for n in func.all_param_names():
            env[n] = self.sp.term("param", n)
        if args:
            env.update(args)
        return self._run_body(func, env)

    def _run_body(self, func, env):
        sp = self.sp
        self.stack.append(func)
        try:
            fall, env2, exits = self.block(func.body(), env, func)
            value = sp.NONE
            for e in reversed(exits):
                if e.kind in ("return", "raise"):
                    value = sp.ite(e.guard, e.value, value)
            return Result(value, list(self.effects), exits)
        finally:
            self.stack.pop()

    # ---- statements ----------------------------------------------------
    def block(self, stmts, env, func):
        sp = self.sp
        env = dict(env)
        exits = []
        fall = sp.TRUE
        for st in stmts:
            if fall is sp.FALSE:
                break
            self.guard_stack.append(fall)
            f, env2, ex = self.stmt(st, env, func)
            self.guard_stack.pop()
            for e in ex:
                exits.append(Exit(e.kind, sp.and_(fall, e.guard), e.value,
                                  e.env, e.node))
            fall = sp.and_(fall, f)
            env = env2
        return fall, env, exits

    def merge_env(self, c, e1, e2):
        sp = self.sp
        if e1 is e2:
            return e1
        out = {}
        for k in sorted(set(e1) | set(e2)):
            a = e1.get(k)
            b = e2.get(k)
            if a is None:
                a = sp.term("unbound", k)
            if b is None:
                b = sp.term("unbound", k)
            out[k] = a if a is b else self.safe_ite(c, a, b)
        return out

    def safe_ite(self, c, a, b):
        return self.sp.ite(c, a, b)

    def stmt(self, st, env, func):
        sp = self.sp
        T, F = sp.TRUE, sp.FALSE
        if isinstance(st, ast.Return):
            v = self.expr(st.value, env, func) if st.value else sp.NONE
            return F, env, [Exit("return", T, v, env, st)]
        if isinstance(st, ast.Raise):
            v = self.expr(st.exc, env, func) if st.exc else sp.term("reraise")
            return F, env, [Exit("raise", T, sp.term("raise", v), env, st)]
        if isinstance(st, ast.Expr):
            return self.expr_stmt(st, env, func)
        if isinstance(st, ast.Assign):
            v = self.expr(st.value, env, func)
            env = dict(env)
            for t in st.targets:
                self.assign(t, v, env, func)
            return T, env, []
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return T, env, []
            v = self.expr(st.value, env, func)
            env = dict(env)
            self.assign(st.target, v, env, func)
            return T, env, []
        if isinstance(st, ast.AugAssign):
            cur = self.expr(_as_load(st.target), env, func)
            v = self.binop(st.op, cur, self.expr(st.value, env, func))
            env = dict(env)
            self.assign(st.target, v, env, func)
            return T, env, []
        if isinstance(st, ast.If):
            env = dict(env)
            c = self.cond(st.test, env, func)
            if c is T:
                return self.block(st.body, env, func)
            if c is F:
                return self.block(st.orelse, env, func)
            self.guard_stack.append(c)
            f1, e1, x1 = self.block(st.body, env, func)
            self.guard_stack.pop()
            nc = sp.not_(c)
            self.guard_stack.append(nc)
            f2, e2, x2 = self.block(st.orelse, env, func)
            self.guard_stack.pop()
            exits = [Exit(e.kind, sp.and_(c, e.guard), e.value, e.env, e.node)
                     for e in x1]
            exits += [Exit(e.kind, sp.and_(nc, e.guard), e.value, e.env,
                           e.node) for e in x2]
            if f1 is F:
                envm = e2
            elif f2 is F:
                envm = e1
            else:
                envm = self.merge_env(c, e1, e2)
            return sp.ite(c, f1, f2), envm, exits
        if isinstance(st, (ast.For, ast.AsyncFor)):
            return self.for_stmt(st, env, func)
        if isinstance(st, ast.While):
            return self.while_stmt(st, env, func)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for i in st.items:
                c = self.expr(i.context_expr, env, func)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, c, env, func)
            return self.block(st.body, env, func)
        if isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            return self.try_stmt(st, env, func)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env = dict(env)
            f = self.p.node2func.get(st)
            env[st.name] = self.closure(f, env)
            for d in reversed(st.decorator_list):
                dv = self.expr(d, env, func)
                env[st.name] = self.call_value(
                    dv, [env[st.name]], [], st, func)
            return T, env, []
        if isinstance(st, ast.ClassDef):
            env = dict(env)
            env[st.name] = sp.term("localclass", st.name)
            return T, env, []
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            from .program import import_bindings
            env = dict(env)
            for local, target in import_bindings(
                    st, func.module.name if func else "", func.module.is_pkg
                    if func else False):
                env[local] = self.refvalue(self.p.resolve_dotted(target),
                                           target)
            return T, env, []
        if isinstance(st, ast.Assert):
            c = self.cond(st.test, env, func)
            x = Exit("raise", sp.not_(c),
                     sp.term("raise", sp.term("ext", "AssertionError")),
                     env, st)
            return c, env, [x]
        if isinstance(st, ast.Break):
            return F, env, [Exit("break", T, sp.NONE, env, st)]
        if isinstance(st, ast.Continue):
            return F, env, [Exit("continue", T, sp.NONE, env, st)]
        if isinstance(st, ast.Delete):
            env = dict(env)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.effect("del", self.expr(_as_load(t), env, func), st)
                    self.update_base(t, "delitem", env, func)
            return T, env, []
        if isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            return T, env, []
        if isinstance(st, ast.Match):
            return self.match_stmt(st, env, func)
        return T, env, []

    def match_stmt(self, st, env, func):
        sp = self.sp
        subj = self.expr(st.subject, env, func)
        stmts_env = dict(env)
        # desugar sequentially
        rem = sp.TRUE
        exits = []
        fall = sp.FALSE
        envm = None
        for case in st.cases:
            e = dict(stmts_env)
            c = self.pattern(case.pattern, subj, e, func)
            if case.guard is not None:
                c = sp.and_(c, self.cond(case.guard, e, func))
            g = sp.and_(rem, c)
            f, e2, x = self.block(case.body, e, func)
            exits += [Exit(q.kind, sp.and_(g, q.guard), q.value, q.env,
                           q.node) for q in x]
            gf = sp.and_(g, f)
            if gf is not sp.FALSE:
                envm = e2 if envm is None else self.merge_env(gf, e2, envm)
                fall = sp.or_(fall, gf)
            rem = sp.and_(rem, sp.not_(c))
        if rem is not sp.FALSE:
            envm = stmts_env if envm is None else self.merge_env(
                rem, stmts_env, envm)
            fall = sp.or_(fall, rem)
        return fall, envm or stmts_env, exits

    def pattern(self, pat, subj, env, func):
        sp = self.sp
        if isinstance(pat, ast.MatchValue):
            return self.compare(ast.Eq(), subj,
                                self.expr(pat.value, env, func))
        if isinstance(pat, ast.MatchSingleton):
            return self.compare(ast.Is(), subj, sp.const(pat.value))
        if isinstance(pat, ast.MatchOr):
            r = sp.FALSE
            for q in pat.patterns:
                r = sp.or_(r, self.pattern(q, subj, env, func))
            return r
        if isinstance(pat, ast.MatchAs):
            c = sp.TRUE if pat.pattern is None else self.pattern(
                pat.pattern, subj, env, func)
            if pat.name:
                env[pat.name] = subj
            return c
        if isinstance(pat, ast.MatchSequence) and not any(
                isinstance(q, ast.MatchStar) for q in pat.patterns):
            c = sp.TRUE
            for i, q in enumerate(pat.patterns):
                c = sp.and_(c, self.pattern(
                    q, self.subscript(subj, sp.const(i)), env, func))
            return c
        return sp.atomv(sp.term("matches", sp.const(unparse(pat)), subj)) \
            if not isinstance(subj, Ite) else sp.atomv(
                sp.term("matches", sp.const(unparse(pat)),
                        sp.term("gated", subj)))

    def expr_stmt(self, st, env, func):
        sp = self.sp
        e = st.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            env = dict(env)
            v = self.expr(e, env, func)
            self.effect("call", v, st)
            name = e.func.attr
            inplace = any(k.arg == "inplace" and not (
                isinstance(k.value, ast.Constant) and k.value.value is False)
                for k in e.keywords)
            if name in MUTATORS or inplace:
                base = e.func.value
                if isinstance(base, (ast.Name, ast.Attribute, ast.Subscript)):
                    nv = sp.term("mut", sp.const(name),
                                 self.box(self.expr(base, env, func)),
                                 *[self.box(self.expr(a, env, func))
                                   for a in e.args
                                   if not isinstance(a, ast.Starred)])
                    self.store(base, nv, env, func)
            return sp.TRUE, env, []
        env = dict(env)
        v = self.expr(e, env, func)
        if not isinstance(e, ast.Constant):
            self.effect("call", v, st)
        return sp.TRUE, env, []

    def box(self, v):
        return v

    def store(self, target, value, env, func):
        """strong update of a Name / weak of Attribute on a name"""
        if isinstance(target, ast.Name):
            env[target.id] = value
        elif isinstance(target, ast.Attribute) and isinstance(
                target.value, ast.Name):
            env[f"{target.value.id}.{target.attr}"] = value
        elif isinstance(target, ast.Subscript):
            self.update_base(target, "setitem", env, func, value)

    def update_base(self, t, op, env, func, value=None):
        sp = self.sp
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name):
                if op == "setitem":
                    env[f"{t.value.id}.{t.attr}"] = value
                else:
                    env.pop(f"{t.value.id}.{t.attr}", None)
            return
        base = t.value
        chain = [t]
        while isinstance(base, (ast.Subscript,)) or (
                isinstance(base, ast.Attribute) and base.attr in (
                    "loc", "iloc", "at", "iat")):
            chain.append(base)
            base = base.value
        key = self.expr(t.slice, env, func)
        cur = self.expr(base, env, func)
        via = "/".join(type(c).__name__ if isinstance(c, ast.Subscript)
                       else c.attr for c in chain[1:])
        nv = sp.term(op, cur, sp.const(via), key,
                     value if value is not None else sp.NONE)
        if op == "setitem":
            self.effect("setitem", nv, t)
        if isinstance(base, ast.Name):
            env[base.id] = nv
        elif isinstance(base, ast.Attribute) and isinstance(
                base.value, ast.Name):
            env[f"{base.value.id}.{base.attr}"] = nv

    def assign(self, t, v, env, func):
        sp = self.sp
        if isinstance(t, ast.Name):
            env[t.id] = v
            pre = t.id + "."
            for k in [k for k in env if k.startswith(pre)]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, sp.term("star", v, sp.const(i)),
                                env, func)
                elif star and i > star[0]:
                    self.assign(x, self.subscript(
                        v, sp.const(i - len(t.elts))), env, func)
                else:
                    self.assign(x, self.subscript(v, sp.const(i)), env, func)
        elif isinstance(t, ast.Attribute):
            self.effect("setattr", sp.term(
                "setattr", self.expr(t.value, env, func), sp.const(t.attr),
                v), t)
            self.update_base(t, "setitem", env, func, v)
        elif isinstance(t, ast.Subscript):
            self.update_base(t, "setitem", env, func, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, func)

    def effect(self, kind, v, node):
        if self.keep_effects:
            g = self.sp.TRUE
            self.effects.append((list(self.guard_stack), kind, v, node,
                                 self.stack[-1] if self.stack else None))

    def assigned_names(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        out.add(b.id)
                if isinstance(n, ast.Expr) and isinstance(
                        n.value, ast.Call) and isinstance(
                        n.value.func, ast.Attribute) and \
                        n.value.func.attr in MUTATORS:
                    b = n.value.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        out.add(b.id)
        return out

    def iter_elements(self, v):
        """python list of element values if v is a constant-shape iterable"""
        sp = self.sp
        if isinstance(v, Ite):
            return None
        if v.op in ("tuple", "list", "set"):
            if any(isinstance(x, Term) and x.op == "starred" for x in v.args):
                return None
            return list(v.args)
        if v.op == "const":
            x = v.value
            if isinstance(x, (tuple, list, frozenset)):
                return [sp.const(y) for y in x]
            if isinstance(x, str) and len(x) <= 64:
                return [sp.const(y) for y in x]
        if v.op == "dict":
            return list(v.args[0::2])
        return None

    def for_stmt(self, st, env, func):
        sp = self.sp
        env = dict(env)
        it = self.expr(st.iter, env, func)
        els = self.iter_elements(it)
        if els is not None and len(els) <= self.unroll:
            return self.unrolled(st, els, env, func)
        # opaque loop
        self.loop_n += 1
        elem = sp.term("elem", it)
        names = self.assigned_names(st.body) | self.assigned_names(
            [ast.Expr(value=st.iter)])
        benv = dict(env)
        for n in names:
            if n in env:
                benv[n] = sp.term("loopin", sp.const(n), env[n])
            for k in [k for k in benv if k.startswith(n + ".")]:
                del benv[k]
        self.assign(st.target, elem, benv, func)
        return self.loop_common(st, it, benv, env, names, func)

    def loop_common(self, st, it, benv, env, names, func):
        sp = self.sp
        lg = sp.atomv(sp.term("iterates", self.box(it)))
        self.guard_stack.append(lg)
        fall, e2, exits = self.block(st.body, benv, func)
        self.guard_stack.pop()
        out_exits = []
        exited = sp.FALSE
        broke = False
        for x in exits:
            if x.kind in ("return", "raise"):
                a = sp.atomv(sp.term("loopexit", self.box(it),
                                     sp.const(x.kind), x.guard))
                g = sp.and_(sp.not_(exited), a)
                out_exits.append(Exit(x.kind, g, x.value, x.env, x.node))
                exited = sp.or_(exited, a)
            elif x.kind == "break":
                broke = True
        env3 = dict(env)
        for n in names:
            if n in e2:
                env3[n] = sp.term("looped", sp.const(n),
                                  self.box(env.get(n, sp.NONE)),
                                  self.box(it), self.box(e2[n]))
            # break environments
            for x in exits:
                if x.kind == "break" and n in x.env and x.env[n] is not \
                        e2.get(n):
                    env3[n] = sp.term("looped", sp.const(n + "!b"),
                                      self.box(env3.get(n, sp.NONE)),
                                      self.box(it), self.box(x.env[n]))
            for k in [k for k in env3 if k.startswith(n + ".")]:
                del env3[k]
        ft = sp.not_(exited)
        if st.orelse:
            if broke:
                b = sp.atomv(sp.term("loopbreak", self.box(it)))
                f, e4, x4 = self.block(st.orelse, env3, func)
                g = sp.and_(ft, sp.not_(b))
                out_exits += [Exit(x.kind, sp.and_(g, x.guard), x.value,
                                   x.env, x.node) for x in x4]
                env3 = self.merge_env(b, env3, e4)
                ft = sp.and_(ft, sp.ite(b, sp.TRUE, f))
            else:
                f, env3, x4 = self.block(st.orelse, env3, func)
                out_exits += [Exit(x.kind, sp.and_(ft, x.guard), x.value,
                                   x.env, x.node) for x in x4]
                ft = sp.and_(ft, f)
        return ft, env3, out_exits

    def unrolled(self, st, els, env, func):
        sp = self.sp
        live = sp.TRUE
        exits = []
        cur = dict(env)
        broken = []           # (guard, env)
        for el in els:
            if live is sp.FALSE:
                break
            e = dict(cur)
            self.assign(st.target, el, e, func)
            self.guard_stack.append(live)
            f, e2, x = self.block(st.body, e, func)
            self.guard_stack.pop()
            nxt, nenv = f, e2
            for q in x:
                if q.kind in ("return", "raise"):
                    exits.append(Exit(q.kind, sp.and_(live, q.guard),
                                      q.value, q.env, q.node))
                elif q.kind == "break":
                    broken.append((sp.and_(live, q.guard), q.env))
                elif q.kind == "continue":
                    nenv = self.merge_env(q.guard, q.env, nenv) \
                        if nxt is not sp.FALSE else q.env
                    nxt = sp.or_(nxt, q.guard)
            live = sp.and_(live, nxt)
            cur = nenv
        fall = live
        if st.orelse and live is not sp.FALSE:
            f, e2, x = self.block(st.orelse, cur, func)
            exits += [Exit(q.kind, sp.and_(live, q.guard), q.value, q.env,
                           q.node) for q in x]
            fall, cur = sp.and_(live, f), e2
        for g, e in broken:
            cur = self.merge_env(g, e, cur) if fall is not sp.FALSE else e
            fall = sp.or_(fall, g)
        return fall, cur, exits

    def while_stmt(self, st, env, func):
        sp = self.sp
        self.loop_n += 1
        names = self.assigned_names(st.body) | self.assigned_names(
            [ast.Expr(value=st.test)])
        benv = dict(env)
        for n in names:
            if n in env:
                benv[n] = sp.term("loopin", sp.const(n), env[n])
            for k in [k for k in benv if k.startswith(n + ".")]:
                del benv[k]
        c = self.cond(st.test, benv, func)
        it = sp.term("while", c)
        f, e, x = self.loop_common(st, it, benv, env, names, func)
        if c is sp.TRUE and not _has_break(st.body):
            # left only through return/raise
            if x:
                last = x[-1]
                g = sp.FALSE
                for q in x[:-1]:
                    g = sp.or_(g, q.guard)
                x[-1] = Exit(last.kind, sp.not_(g), last.value, last.env,
                             last.node)
            f = sp.FALSE
        return f, e, x

    def try_stmt(self, st, env, func):
        sp = self.sp
        f1, e1, x1 = self.block(st.body, env, func)
        fall, envm, exits = f1, e1, list(x1)
        if st.handlers:
            exits = []
            # each handler guarded by an opaque atom naming the tried code
            sig = self.try_sig(st, env, func)
            taken = sp.FALSE
            hres = []
            for h in st.handlers:
                tn = unparse(h.type) if h.type else "*"
                a = sp.atomv(sp.term("raises", sp.const(tn), sig))
                g = sp.and_(sp.not_(taken), a)
                taken = sp.or_(taken, a)
                henv = dict(env)
                for n in self.assigned_names(st.body):
                    if n in e1 and e1[n] is not env.get(n):
                        henv[n] = sp.term("maybe", sp.const(n),
                                          self.box(env.get(n, sp.NONE)),
                                          self.box(e1[n]))
                if h.name:
                    henv[h.name] = sp.term("exc", sp.const(tn))
                self.guard_stack.append(g)
                hf, he, hx = self.block(h.body, henv, func)
                self.guard_stack.pop()
                hres.append((g, hf, he, hx))
            ok = sp.not_(taken)
            # orelse
            if st.orelse:
                f2, e2, x2 = self.block(st.orelse, e1, func)
                x1 = x1 + [Exit(q.kind, sp.and_(f1, q.guard), q.value, q.env,
                                q.node) for q in x2]
                f1, e1 = sp.and_(f1, f2), e2
            exits = [Exit(q.kind, sp.and_(ok, q.guard), q.value, q.env,
                          q.node) for q in x1]
            fall = sp.and_(ok, f1)
            envm = e1
            for g, hf, he, hx in hres:
                exits += [Exit(q.kind, sp.and_(g, q.guard), q.value, q.env,
                               q.node) for q in hx]
                gf = sp.and_(g, hf)
                if gf is not sp.FALSE:
                    envm = he if fall is sp.FALSE else self.merge_env(
                        gf, he, envm)
                    fall = sp.or_(fall, gf)
        if st.finalbody:
            f3, e3, x3 = self.block(st.finalbody, envm, func)
            if x3:
                exits = [Exit(q.kind, q.guard, q.value, q.env, q.node)
                         for q in x3] + exits
            fall, envm = sp.and_(fall, f3), e3
        return fall, envm, exits

    def try_sig(self, st, env, func):
        sp = self.sp
        names = []
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    names.append(unparse(n.func, 40))
        return sp.const("try:" + ",".join(sorted(set(names)))[:120])

    # ---- expressions ---------------------------------------------------
    def refvalue(self, r, text):
        sp = self.sp
        if r is None:
            return sp.term("ext", text)
        if r[0] == "func":
            return sp.term("func", r[1].qual)
        if r[0] == "class":
            return sp.term("class", r[1].qual)
        if r[0] == "module":
            return sp.term("module", r[1].name)
        if r[0] == "ext":
            return sp.term("ext", r[1])
        if r[0] == "builtin":
            return sp.term("builtin", r[1])
        if r[0] == "global":
            return self.global_value(r[1], r[2])
        if r[0] == "classattr":
            return sp.term("ext", f"{r[1].qual}.{r[2]}")
        return sp.term("ext", text)

    def global_value(self, module, name):
        k = (module.name, name)
        if k in self.global_cache:
            return self.global_cache[k]
        sp = self.sp
        self.global_cache[k] = sp.term("global", f"{module.name}.{name}")
        vs = module.assigns.get(name, [])
        if len(vs) == 1 and self._pure_const(vs[0]) and not \
                self._aug_assigned(module, name):
            ge, gs = self.effects, self.guard_stack
            self.effects, self.guard_stack = [], []
            try:
                dummy = _ModScope(module)
                v = self.expr(vs[0], {}, dummy)
                self.global_cache[k] = v
            finally:
                self.effects, self.guard_stack = ge, gs
        return self.global_cache[k]

    def _aug_assigned(self, module, name):
        for n in module.tree.body:
            if isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Name) and n.target.id == name:
                return True
        return False

    def _pure_const(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda, ast.Await, ast.Yield,
                              ast.YieldFrom, ast.NamedExpr)):
                return False
        return sum(1 for _ in ast.walk(e)) < 3000

    def closure(self, f, env):
        if f is None:
            return self.sp.term("closure", "?")
        key = (f.qual, tuple(sorted((k, v.uid) for k, v in env.items())))
        t = self.sp.term("closure", f.qual, hash(key))
        self.closures[t.uid] = (f, dict(env))
        return t

    def expr(self, e, env, func):
        sp = self.sp
        sp.tick()
        if isinstance(e, ast.Constant):
            return sp.const(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            module = func.module
            real = func if isinstance(func, Func) else None
            r = self.p.resolve_name(e.id, module, real)
            if r is None:
                return sp.term("unresolved", e.id)
            if r[0] == "local":
                return sp.term("unbound", e.id)
            return self.refvalue(r, e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                k = f"{e.value.id}.{e.attr}"
                if k in env:
                    return env[k]
            base = self.expr(e.value, env, func)
            return self.getattr(base, e.attr)
        if isinstance(e, ast.Subscript):
            base = self.expr(e.value, env, func)
            return self.subscript(base, self.expr(e.slice, env, func))
        if isinstance(e, ast.Slice):
            return sp.term("slice", *[
                self.expr(x, env, func) if x is not None else sp.NONE
                for x in (e.lower, e.upper, e.step)])
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            op = type(e).__name__.lower()
            vals = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.expr(x.value, env, func)
                    els = self.iter_elements(v)
                    if els is not None:
                        vals += els
                    else:
                        vals.append(sp.term("starred", v))
                else:
                    vals.append(self.expr(x, env, func))
            return sp.term(op, *vals)
        if isinstance(e, ast.Dict):
            vals = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.expr(v, env, func)
                    if isinstance(d, Term) and d.op == "dict":
                        vals += list(d.args)
                    else:
                        vals += [sp.term("starred"), d]
                else:
                    vals += [self.expr(k, env, func), self.expr(v, env,
                                                                func)]
            return sp.term("dict", *vals)
        if isinstance(e, ast.BoolOp):
            vals = []
            first = self.expr(e.values[0], env, func)
            acc = first
            for x in e.values[1:]:
                t = self.truth(acc)
                if isinstance(e.op, ast.And):
                    if t is sp.FALSE:
                        return acc
                    v = self.expr(x, env, func)
                    acc = sp.ite(t, v, acc)
                else:
                    if t is sp.TRUE:
                        return acc
                    v = self.expr(x, env, func)
                    acc = sp.ite(t, acc, v)
            return acc
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env, func)
            if isinstance(e.op, ast.Not):
                return sp.not_(self.truth(v))
            return sp.map(lambda x: self.unop(e.op, x), v)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, env, func),
                              self.expr(e.right, env, func))
        if isinstance(e, ast.Compare):
            left = self.expr(e.left, env, func)
            acc = sp.TRUE
            for op, r in zip(e.ops, e.comparators):
                right = self.expr(r, env, func)
                acc = sp.and_(acc, self.compare(op, left, right))
                left = right
            return acc
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, env, func)
            if c is sp.TRUE:
                return self.expr(e.body, env, func)
            if c is sp.FALSE:
                return self.expr(e.orelse, env, func)
            return sp.ite(c, self.expr(e.body, env, func),
                          self.expr(e.orelse, env, func))
        if isinstance(e, ast.Call):
            return self.call(e, env, func)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env, func)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.JoinedStr):
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(sp.const(x.value))
                else:
                    v = self.expr(x.value, env, func)
                    spec = self.expr(x.format_spec, env, func) if \
                        x.format_spec else sp.NONE
                    if x.conversion == -1 and spec is sp.NONE and isinstance(
                            v, Term) and v.op == "const":
                        v = sp.const(str(v.value))
                    elif x.conversion != -1 or spec is not sp.NONE:
                        v = sp.term("fmt", v, sp.const(x.conversion), spec)
                    parts.append(v)
            return self.concat(parts)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            return self.comp(e, env, func)
        if isinstance(e, ast.DictComp):
            env2 = dict(env)
            its = []
            for g in e.generators:
                it = self.expr(g.iter, env2, func)
                its.append(it)
                self.assign(g.target, self.elem_of(it), env2, func)
                for c in g.ifs:
                    its.append(self.cond(c, env2, func))
            return sp.term("dictcomp", self.expr(e.key, env2, func),
                           self.expr(e.value, env2, func), *its)
        if isinstance(e, ast.Lambda):
            f = self.p.node2func.get(e)
            return self.closure(f, env)
        if isinstance(e, ast.Starred):
            return sp.term("starred", self.expr(e.value, env, func))
        if isinstance(e, ast.Await):
            return self.expr(e.value, env, func)
        return sp.term("opaque", sp.const(unparse(e)))

    def concat(self, parts):
        sp = self.sp
        out = []
        for p in parts:
            if isinstance(p, Term) and p.op == "concat":
                sub = list(p.args)
            else:
                sub = [p]
            for q in sub:
                if isinstance(q, Term) and q.op == "const" and isinstance(
                        q.value, str):
                    if q.value == "":
                        continue
                    if out and isinstance(out[-1], Term) and \
                            out[-1].op == "const" and isinstance(
                                out[-1].value, str):
                        out[-1] = sp.const(out[-1].value + q.value)
                        continue
                out.append(q)
        if not out:
            return sp.const("")
        if len(out) == 1 and isinstance(out[0], Term) and \
                out[0].op == "const":
            return out[0]
        return sp.term("concat", *out)

    def elem_of(self, it):
        return self.sp.term("elem", it)

    def comp(self, e, env, func):
        sp = self.sp
        op = {"GeneratorExp": "gen", "ListComp": "list",
              "SetComp": "set"}[type(e).__name__]
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.expr(g.iter, env, func)
            els = self.iter_elements(it)
            if els is not None and len(els) <= self.unroll:
                vals, ok = [], True
                for el in els:
                    env2 = dict(env)
                    self.assign(g.target, el, env2, func)
                    c = sp.TRUE
                    for t in g.ifs:
                        c = sp.and_(c, self.cond(t, env2, func))
                    if c is sp.FALSE:
                        continue
                    v = self.expr(e.elt, env2, func)
                    if c is not sp.TRUE:
                        vals.append(sp.term("optional", c, v))
                    else:
                        vals.append(v)
                return sp.term("list" if op == "gen" else op, *vals)
        env2 = dict(env)
        its = []
        for g in e.generators:
            it = self.expr(g.iter, env2, func)
            its.append(it)
            self.assign(g.target, self.elem_of(it), env2, func)
            for c in g.ifs:
                its.append(self.cond(c, env2, func))
        return sp.term("comp", self.expr(e.elt, env2, func), *its)

    # ---- operations ------------------------------------------------------
    def cond(self, e, env, func):
        return self.truth(self.expr(e, env, func))

    def truth(self, v):
        return self.sp.map(self._truth1, v, tag="truth")

    def _truth1(self, t):
        sp = self.sp
        if t.op == "const":
            return sp.const(bool(t.value))
        if t.op in ("tuple", "list", "set", "dict"):
            if not t.args:
                return sp.FALSE
            if not any(isinstance(x, Term) and x.op in (
                    "starred", "optional") for x in t.args):
                return sp.TRUE
        if t.op in ("func", "class", "closure", "module"):
            return sp.TRUE
        if t.op == "rematch_true":
            return sp.TRUE
        if t.op == "rematch_obj":
            return sp.atomv(sp.term(t.args[0], t.args[1], t.args[2]))
        if t.op == "call" and t.args[0].op == "class":
            c = self.p.classes.get(t.args[0].args[0])
            if c is not None and not any(
                    self.p.find_method(c, m) for m in (
                        "__bool__", "__len__")):
                return sp.TRUE
        if t.op == "boolof":
            return t.args[0]
        return sp.atomv(sp.term("truth", t))

    def getattr(self, base, attr):
        sp = self.sp
        if isinstance(base, Ite):
            return sp.map(lambda b: self.getattr(b, attr), base,
                          tag=("ga", attr))
        if base.op == "module":
            m = self.p.modules[base.args[0]]
            r = self.p.resolve_module_attr(m, attr)
            return self.refvalue(r, f"{m.name}.{attr}")
        if base.op == "ext":
            return sp.term("ext", f"{base.args[0]}.{attr}")
        if base.op == "class":
            c = self.p.classes[base.args[0]]
            m = self.p.find_method(c, attr)
            if m:
                return sp.term("func", m.qual)
        return sp.term("attr", base, attr)

    def subscript(self, base, key):
        sp = self.sp
        if isinstance(base, Ite) or isinstance(key, Ite):
            return sp.map(self.subscript, base, key, tag="sub")
        if key.op == "const":
            k = key.value
            if base.op in ("tuple", "list") and isinstance(k, int) and not \
                    any(isinstance(x, Term) and x.op in (
                        "starred", "optional") for x in base.args):
                if -len(base.args) <= k < len(base.args):
                    return base.args[k]
            if base.op == "const" and isinstance(base.value, (str, tuple)):
                try:
                    return sp.const(base.value[k])
                except Exception:
                    pass
            if base.op == "dict":
                for a, b in zip(base.args[0::2], base.args[1::2]):
                    if a is key:
                        return b
            if base.op == "setitem" and base.args[1].value == "" and \
                    isinstance(base.args[2], Term) and \
                    base.args[2].op == "const":
                if base.args[2] is key:
                    return base.args[3]
                if isinstance(base.args[0], Term):
                    inner = base.args[0]
                    if inner.op in ("dict", "setitem", "param"):
                        return self.subscript(inner, key)
        if key.op == "slice" and base.op == "const" and isinstance(
                base.value, (str, tuple)):
            try:
                s = slice(*[x.value for x in key.args])
                return sp.const(base.value[s])
            except Exception:
                pass
        return sp.term("sub", base, key)

    def unop(self, op, v):
        sp = self.sp
        if v.op == "const":
            try:
                if isinstance(op, ast.USub):
                    return sp.const(-v.value)
                if isinstance(op, ast.UAdd):
                    return sp.const(+v.value)
                if isinstance(op, ast.Invert):
                    return sp.const(~v.value)
            except Exception:
                pass
        return sp.term("unop", sp.const(type(op).__name__), v)

    def binop(self, op, a, b):
        sp = self.sp
        name = type(op).__name__
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op == "const" and b.op == "const":
                try:
                    fn = {"Add": lambda x, y: x + y,
                          "Sub": lambda x, y: x - y,
                          "Mult": lambda x, y: x * y,
                          "Div": lambda x, y: x / y,
                          "FloorDiv": lambda x, y: x // y,
                          "Mod": lambda x, y: x % y,
                          "Pow": lambda x, y: x ** y if y < 100 else 1 / 0,
                          "BitOr": lambda x, y: x | y,
                          "BitAnd": lambda x, y: x & y,
                          "LShift": lambda x, y: x << y if y < 100
                          else 1 / 0,
                          "RShift": lambda x, y: x >> y}[name]
                    r = fn(a.value, b.value)
                    if isinstance(r, (int, float, str, bool, tuple)) and (
                            not isinstance(r, (str, tuple))
                            or len(r) < 2000):
                        return sp.const(r)
                except Exception:
                    pass
            if name == "Add":
                if a.op in ("tuple", "list") and b.op == a.op:
                    return sp.term(a.op, *a.args, *b.args)
                if _stringy(a) or _stringy(b):
                    return self.concat([a, b])
            if name == "BitOr" and a.op == "dict" and b.op == "dict":
                return self.dict_merge(a, b)
        return sp.term("bin", sp.const(name), a, b)

    def dict_merge(self, a, b):
        sp = self.sp
        ks = {}
        order = []
        for d in (a, b):
            for k, v in zip(d.args[0::2], d.args[1::2]):
                if k.op == "starred":
                    return sp.term("bin", sp.const("BitOr"), a, b)
                if k.uid not in ks:
                    order.append(k)
                ks[k.uid] = v
        return sp.term("dict", *[x for k in order for x in (k, ks[k.uid])])

    # ---- comparisons -----------------------------------------------------
    def compare(self, op, a, b):
        sp = self.sp
        name = type(op).__name__
        if name in ("NotEq", "NotIn", "IsNot"):
            base = {"NotEq": ast.Eq(), "NotIn": ast.In(),
                    "IsNot": ast.Is()}[name]
            return sp.not_(self.compare(base, a, b))
        if name == "In" and isinstance(a, Term) and isinstance(b, Term) \
                and b.op in ("tuple", "list", "set", "dict", "const"):
            return self._in(a, b)
        return sp.map(lambda x, y: self._cmp1(name, x, y), a, b,
                      tag=("cmp", name))

    def _in(self, a, b):
        sp = self.sp
        if b.op in ("tuple", "list", "set", "dict"):
            els = b.args if b.op != "dict" else b.args[0::2]
            acc = sp.FALSE
            for x in els:
                if isinstance(x, Term) and x.op in ("starred", "optional"):
                    return sp.atomv(sp.term("in", a, b))
                acc = sp.or_(acc, self.compare(ast.Eq(), a, x))
            return acc
        v = b.value
        if isinstance(v, (tuple, frozenset, list)):
            acc = sp.FALSE
            for x in v:
                acc = sp.or_(acc, self.compare(ast.Eq(), a, sp.const(x)))
            return acc
        if isinstance(v, str):
            if a.op == "const":
                try:
                    return sp.const(a.value in v)
                except TypeError:
                    return sp.atomv(sp.term("in", a, b))
            return sp.atomv(sp.term("substrof", a, b))
        return sp.atomv(sp.term("in", a, b))

    def _cmp1(self, name, a, b):
        sp = self.sp
        if name == "In":
            if b.op in ("tuple", "list", "set", "dict") or b.op == "const":
                return self._in(a, b)
            if a.op == "const" and isinstance(a.value, str):
                # `k in mapping` and `sub in string` share one atom
                t = self._strip_views(b)
                if t.op == "concat":
                    return sp.atomv(sp.term("contains", t, a))
                return sp.atomv(sp.term("contains", t, a))
            return sp.atomv(sp.term("in", a, b))
        if a.op == "const" and b.op == "const":
            x, y = a.value, b.value
            try:
                r = {"Eq": lambda: x == y, "Is": lambda: x is y or (
                    x == y and type(x) == type(y)),
                    "Lt": lambda: x < y, "LtE": lambda: x <= y,
                    "Gt": lambda: x > y, "GtE": lambda: x >= y}[name]()
                return sp.const(bool(r))
            except TypeError:
                return sp.atomv(sp.term("cmp", sp.const(name), a, b))
        if name in ("Eq", "Is"):
            if a is b and name == "Is":
                return sp.TRUE
            if a.op == "const":
                a, b = b, a
            if b.op == "const":
                if b.value is None:
                    if a.op in ("tuple", "list", "dict", "set", "func",
                                "class", "closure", "concat", "module"):
                        return sp.FALSE
                    if a.op == "rematch_obj":
                        return sp.not_(self._truth1(a))
                    if a.op == "call" and a.args[0].op == "class":
                        return sp.FALSE
                    return sp.atomv(sp.term("isnone", a))
                if isinstance(b.value, bool):
                    # x is True / x == True : on boolean-valued terms
                    if a.op in ("boolcall",):
                        t = self._truth1(a)
                        return t if b.value else sp.not_(t)
                    return sp.atomv(sp.term("eq", a, b))
                if a.op in ("tuple", "list", "dict", "func", "class",
                            "closure"):
                    return sp.FALSE
                return sp.atomv(sp.term("eq", a, b))
            if a is b:
                return sp.TRUE
            if a.op in ("class", "func", "module") and b.op in (
                    "class", "func", "module"):
                return sp.FALSE
            if show(b) < show(a):
                a, b = b, a
            return sp.atomv(sp.term("eq", a, b))
        # orderings
        if a.op == "const":
            a, b = b, a
            name = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[name]
        if name == "GtE":
            return sp.atomv(sp.term("ge", a, b))
        if name == "Gt":
            return sp.atomv(sp.term("gt", a, b))
        if name == "Lt":
            return sp.not_(sp.atomv(sp.term("ge", a, b)))
        return sp.not_(sp.atomv(sp.term("gt", a, b)))

    def _strip_views(self, t):
        """x.keys() -> x for membership"""
        if t.op == "method" and t.args[1] == "keys":
            return t.args[0]
        return t

    # ---- calls -----------------------------------------------------------
    def call(self, e, env, func):
        sp = self.sp
        args, kwargs, star = [], [], False
        fv = None
        recv = None
        # method-ish
        if isinstance(e.func, ast.Attribute):
            k = None
            if isinstance(e.func.value, ast.Name):
                k = f"{e.func.value.id}.{e.func.attr}"
            if k and k in env:
                fv = env[k]
            else:
                base = self.expr(e.func.value, env, func)
                cand = self.getattr(base, e.func.attr)
                if isinstance(cand, Ite) or cand.op != "attr":
                    fv = cand
                else:
                    recv = base
        else:
            fv = self.expr(e.func, env, func)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env, func)
                els = self.iter_elements(v)
                if els is not None:
                    args += els
                else:
                    star = True
                    args.append(sp.term("starred", v))
            else:
                args.append(self.expr(a, env, func))
        for kw in e.keywords:
            v = self.expr(kw.value, env, func)
            if kw.arg is None:
                if isinstance(v, Term) and v.op == "dict" and all(
                        isinstance(x, Term) and x.op == "const"
                        for x in v.args[0::2]):
                    kwargs += [(x.value, y) for x, y in zip(
                        v.args[0::2], v.args[1::2])]
                else:
                    star = True
                    kwargs.append(("**", v))
            else:
                kwargs.append((kw.arg, v))
        if recv is not None:
            return self.method(recv, e.func.attr, args, kwargs, e, func)
        return self.call_value(fv, args, kwargs, e, func)

    def call_value(self, fv, args, kwargs, node, func):
        sp = self.sp
        if isinstance(fv, Ite):
            return sp.map(lambda f: self.call_value(f, args, kwargs, node,
                                                    func), fv)
        if fv.op == "closure" and fv.uid in self.closures:
            f, cenv = self.closures[fv.uid]
            return self.do_inline(f, args, kwargs, cenv, fv, node)
        if fv.op == "func":
            f = self.p.funcs.get(fv.args[0])
            if fv.args[0] in self.models and f is not None:
                t = self.mkcall(fv, args, kwargs)
                bound = {k.value: v for k, v in zip(
                    t.args[2].args[0::2], t.args[2].args[1::2])}
                r = self.models[fv.args[0]](self, bound)
                if r is not None:
                    return r
            if f is not None and self.inline(f):
                return self.do_inline(f, args, kwargs, {}, fv, node)
            return self.mkcall(fv, args, kwargs)
        if fv.op == "builtin":
            return self.builtin(fv.args[0], args, kwargs, fv, node, func)
        if fv.op == "ext":
            r = self.ext_call(fv.args[0], args, kwargs, fv, node, func)
            if r is not None:
                return r
        if fv.op == "partial":
            base = fv.args[0]
            pa, pk = fv.args[1], fv.args[2]
            return self.call_value(
                base, list(pa.args) + args,
                [(k.value, v) for k, v in zip(pk.args[0::2], pk.args[1::2])]
                + kwargs, node, func)
        return self.mkcall(fv, args, kwargs)

    def mkcall(self, fv, args, kwargs):
        sp = self.sp
        ks = []
        for k, v in sorted(kwargs, key=lambda x: x[0]):
            ks += [sp.const(k), v]
        # canonicalise positional/keyword for known functions
        if fv.op in ("func", "class") and not any(
                isinstance(a, Term) and a.op == "starred" for a in args):
            f = None
            skip = 0
            if fv.op == "func":
                f = self.p.funcs.get(fv.args[0])
            else:
                c = self.p.classes.get(fv.args[0])
                f = self.p.find_method(c, "__init__") if c else None
                skip = 1
            if f is not None and not f.node.args.vararg and not any(
                    k == "**" for k, _ in kwargs):
                names = [x.arg for x in f.node.args.posonlyargs
                         + f.node.args.args][skip:]
                if len(args) <= len(names):
                    bound = dict(zip(names, args))
                    bound.update(kwargs)
                    ks = []
                    for k in sorted(bound):
                        ks += [sp.const(k), bound[k]]
                    args = []
        return sp.term("call", fv, sp.term("args", *args),
                       sp.term("kwargs", *ks))

    def do_inline(self, f, args, kwargs, cenv, fv, node):
        sp = self.sp
        if len(self.stack) > self.max_depth or f in self.stack:
            return self.mkcall(fv, args, kwargs)
        if any(isinstance(a, Term) and a.op == "starred" for a in args) or \
                any(k == "**" for k, _ in kwargs):
            return self.mkcall(fv, args, kwargs)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in ast.walk(f.node)):
            return self.mkcall(fv, args, kwargs)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = dict(cenv)
        bound = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                return self.mkcall(fv, args, kwargs)
        kwextra = []
        allnames = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs:
            if k in allnames:
                bound[k] = v
            elif a.kwarg:
                kwextra += [sp.const(k), v]
            else:
                return self.mkcall(fv, args, kwargs)
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None})
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in bound:
                if n in dfl:
                    bound[n] = self.expr(dfl[n], cenv, _ModScope(f.module))
                else:
                    return self.mkcall(fv, args, kwargs)
        if a.vararg:
            bound[a.vararg.arg] = sp.term("tuple", *extra)
        if a.kwarg:
            bound[a.kwarg.arg] = sp.term("dict", *kwextra)
        env.update(bound)
        self.inlined.add(f.qual)
        res = self._run_body(f, env)
        # a raising leaf inside a call is kept as a value
        return res.value

    def method(self, recv, name, args, kwargs, node, func):
        sp = self.sp
        if isinstance(recv, Ite):
            return sp.map(lambda r: self.method(r, name, args, kwargs, node,
                                                func), recv)
        cargs = [a for a in args]
        # dict-like get on identifiers etc.
        if name == "get" and len(cargs) in (1, 2) and not kwargs and \
                recv.op == "dict" and isinstance(cargs[0], Term) and \
                cargs[0].op == "const":
            for k, v in zip(recv.args[0::2], recv.args[1::2]):
                if k is cargs[0]:
                    return v
            if not any(k.op != "const" for k in recv.args[0::2]):
                return cargs[1] if len(cargs) > 1 else sp.NONE
        if name == "get" and self.is_identifiers(recv) and isinstance(
                cargs[0], Term) and cargs[0].op == "const":
            return self.subscript(recv, cargs[0])
        if name in ("keys", "values", "items") and recv.op == "dict":
            ks, vs = recv.args[0::2], recv.args[1::2]
            if not any(isinstance(k, Term) and k.op == "starred"
                       for k in ks):
                if name == "keys":
                    return sp.term("tuple", *ks)
                if name == "values":
                    return sp.term("tuple", *vs)
                return sp.term("tuple", *[
                    sp.term("tuple", k, v) for k, v in zip(ks, vs)])
        if name in ("startswith", "endswith") and len(cargs) == 1 and \
                isinstance(cargs[0], Term):
            els = None
            if cargs[0].op == "const" and isinstance(cargs[0].value, str):
                els = [cargs[0]]
            else:
                els = self.iter_elements(cargs[0])
            if els is not None and all(isinstance(x, Term) and x.op == "const"
                                       for x in els):
                if recv.op == "const":
                    try:
                        return sp.const(getattr(recv.value, name)(
                            tuple(x.value for x in els)))
                    except Exception:
                        pass
                acc = sp.FALSE
                for x in els:
                    acc = sp.or_(acc, sp.atomv(sp.term(name, recv, x)))
                return acc
        if recv.op == "const" and isinstance(recv.value, str) and all(
                isinstance(a, Term) and a.op == "const" for a in cargs) and \
                not kwargs and name in (
                    "lower", "upper", "strip", "replace", "split", "title",
                    "lstrip", "rstrip", "join", "format"):
            try:
                r = getattr(recv.value, name)(*[a.value for a in cargs])
                if isinstance(r, list):
                    return sp.term("list", *[sp.const(x) for x in r])
                return sp.const(r)
            except Exception:
                pass
        if recv.op == "const" and isinstance(recv.value, str) and \
                name == "format":
            pass
        if recv.op == "const" and isinstance(recv.value, str) and \
                name == "join" and len(cargs) == 1:
            els = self.iter_elements(cargs[0])
            if els is not None:
                parts = []
                for i, x in enumerate(els):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return self.concat(parts)
        if name == "copy" and not args and recv.op in ("dict",):
            return recv
        if recv.op == "repat":
            pat, flags = recv.args[0].value, recv.args[1].value
            if name in ("match", "search", "fullmatch") and len(args) >= 1:
                return self.re_pred(name, pat, flags, args[0])
        # method of an internal class instance: inline on request
        if recv.op in ("param", "new"):
            pass
        return sp.term("method", recv, name, sp.term("args", *args),
                       sp.term("kwargs", *[x for k, v in sorted(
                           kwargs, key=lambda q: q[0])
                           for x in (sp.const(k), v)]))

    def is_identifiers(self, t):
        return (t.op == "param" and t.args[0] == "identifiers") or (
            t.op == "attr" and t.args[1] == "identifiers")

    def re_pred(self, kind, pat, flags, subj):
        sp = self.sp
        kind = {"match": "rematch", "search": "research",
                "fullmatch": "refull"}[kind]

        def one(s):
            if s.op == "const":
                if isinstance(s.value, str):
                    try:
                        f = {"rematch": re.match, "research": re.search,
                             "refull": re.fullmatch}[kind]
                        m = f(pat, s.value, flags)
                        return sp.NONE if m is None else sp.term(
                            "rematch_true", s)
                    except re.error:
                        pass
                return sp.term("opaque", sp.const("re"), s)
            if flags == 0 and isinstance(pat, str) and \
                    re.escape(pat) == pat and kind != "refull":
                op = "startswith" if kind == "rematch" else "contains"
                return sp.term("rematch_obj", op, s, sp.const(pat))
            return sp.term("rematch_obj", kind, s, sp.const((pat, flags)))
        return sp.map(one, subj)

    def ext_call(self, name, args, kwargs, fv, node, func):
        sp = self.sp
        if name in ("re.match", "re.search", "re.fullmatch") and len(
                args) >= 2 and isinstance(args[0], Term):
            flags = 0
            if len(args) > 2 or any(k == "flags" for k, _ in kwargs):
                fvv = args[2] if len(args) > 2 else dict(kwargs)["flags"]
                flags = self.re_flags(fvv)
            pat = args[0]
            if pat.op == "repat":
                return self.re_pred(name[3:], pat.args[0].value,
                                    pat.args[1].value, args[1])
            if pat.op == "const" and isinstance(pat.value, str) and \
                    flags is not None:
                return self.re_pred(name[3:], pat.value, flags, args[1])
        if name == "re.compile" and args and isinstance(args[0], Term) and \
                args[0].op == "const":
            flags = 0
            if len(args) > 1 or kwargs:
                flags = self.re_flags(
                    args[1] if len(args) > 1 else kwargs[0][1])
            if flags is not None:
                return sp.term("repat", args[0], sp.const(flags))
        if name in ("itertools.chain", "itertools.chain.from_iterable",
                    "cytoolz.concat") and not kwargs:
            src = args
            if name != "itertools.chain":
                src = self.iter_elements(args[0]) if len(args) == 1 else None
            if src is not None and not any(
                    isinstance(a, Term) and a.op == "starred" for a in src):
                out = []
                for a in src:
                    els = self.iter_elements(a)
                    if els is None:
                        out = None
                        break
                    out += els
                if out is not None:
                    return sp.term("tuple", *out)
        if name in ("functools.partial", "cytoolz.curry") and args:
            ks = [x for k, v in sorted(kwargs, key=lambda q: q[0])
                  for x in (sp.const(k), v)]
            return sp.term("partial", args[0], sp.term("args", *args[1:]),
                           sp.term("kwargs", *ks))
        return None

    def re_flags(self, v):
        if isinstance(v, Term):
            if v.op == "const" and isinstance(v.value, int):
                return v.value
            if v.op == "ext":
                f = {"re.I": re.I, "re.IGNORECASE": re.I, "re.M": re.M,
                     "re.DOTALL": re.S, "re.S": re.S}.get(v.args[0])
                return int(f) if f is not None else None
        return None

    def builtin(self, name, args, kwargs, fv, node, func):
        sp = self.sp
        if name in ("any", "all") and len(args) == 1:
            v = args[0]
            if isinstance(v, Term):
                els = self.iter_elements(v)
                if els is not None:
                    acc = sp.FALSE if name == "any" else sp.TRUE
                    for x in els:
                        if isinstance(x, Term) and x.op == "optional":
                            t = self.truth(x.args[1])
                            t = sp.and_(x.args[0], t) if name == "any" else \
                                sp.or_(sp.not_(x.args[0]), t)
                        else:
                            t = self.truth(x)
                        acc = sp.or_(acc, t) if name == "any" else sp.and_(
                            acc, t)
                    return acc
                return sp.atomv(sp.term(name, v))
        if name == "bool" and len(args) == 1:
            return self.truth(args[0])
        if name in ("tuple", "list", "set", "frozenset", "sorted") and len(
                args) == 1 and isinstance(args[0], Term):
            els = self.iter_elements(args[0])
            if els is not None and name != "sorted":
                return sp.term({"frozenset": "set"}.get(name, name), *els)
        if name in ("tuple", "list", "set", "dict") and not args and \
                not kwargs:
            return sp.term(name)
        if name == "dict" and not args and not any(
                k == "**" for k, _ in kwargs):
            return sp.term("dict", *[x for k, v in kwargs
                                     for x in (sp.const(k), v)])
        if name == "len" and len(args) == 1 and isinstance(args[0], Term):
            els = self.iter_elements(args[0])
            if els is not None and not any(
                    isinstance(x, Term) and x.op == "optional" for x in els):
                return sp.const(len(els))
        if name == "map" and len(args) == 2 and isinstance(args[1], Term):
            els = self.iter_elements(args[1])
            if els is not None and len(els) <= self.unroll:
                return sp.term("list", *[
                    self.call_value(args[0], [x], [], node, func)
                    for x in els])
            el = sp.term("elem", args[1])
            return sp.term("comp", self.call_value(
                args[0], [el], [], node, func), args[1])
        if name == "filter" and len(args) == 2 and isinstance(args[1], Term):
            el = sp.term("elem", args[1])
            if args[0] is sp.NONE:
                c = self.truth(el)
            else:
                c = self.truth(self.call_value(args[0], [el], [], node,
                                               func))
            return sp.term("comp", el, args[1], c)
        if name == "isinstance" and len(args) == 2:
            def one(x):
                return sp.atomv(sp.term("isinstance", x, args[1]))
            return sp.map(one, args[0])
        if name == "range" and args and all(
                isinstance(a, Term) and a.op == "const" and isinstance(
                    a.value, int) for a in args):
            r = range(*[a.value for a in args])
            if len(r) <= self.unroll:
                return sp.term("tuple", *[sp.const(i) for i in r])
        if name == "str" and len(args) == 1 and isinstance(args[0], Term) \
                and args[0].op == "const":
            return sp.const(str(args[0].value))
        if name == "enumerate" and len(args) == 1 and isinstance(
                args[0], Term):
            els = self.iter_elements(args[0])
            if els is not None:
                return sp.term("tuple", *[
                    sp.term("tuple", sp.const(i), x)
                    for i, x in enumerate(els)])
        if name == "zip" and args and not kwargs and all(
                isinstance(a, Term) for a in args):
            ell = [self.iter_elements(a) for a in args]
            if all(x is not None for x in ell):
                return sp.term("tuple", *[sp.term("tuple", *t)
                                          for t in zip(*ell)])
        if name == "getattr" and len(args) >= 2 and isinstance(
                args[1], Term) and args[1].op == "const" and len(args) == 2:
            return self.getattr(args[0], args[1].value)
        return self.mkcall(fv, args, kwargs)


class _ModScope:
    """stand-in for a Func when evaluating module-level expressions"""

    def __init__(self, module):
        self.module = module
        self.parent = None


def _has_break(stmts):
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if _has_break(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _has_break(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _has_break(h.body):
                return True
        for c in getattr(s, "cases", []) or []:
            if _has_break(c.body):
                return True
    return False


def _stringy(t):
    return t.op == "concat" or (t.op == "const" and isinstance(t.value, str))


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2
