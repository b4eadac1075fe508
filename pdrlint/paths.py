"""Path-sensitive structured execution of the syntax tree: every way a
function can leave (fall through, return, raise), with a small abstract state
supplied by a Domain.  Calls may be followed into the callee, answered by the
Domain, or treated as leaves; a Domain may say that a call can raise."""
from __future__ import annotations

import ast
import builtins

from .program import Program, Func, Class

MAXSTATES = 1500


class Overflow(Exception):
    pass


class Out:
    def __init__(self):
        self.raises = []        # (exc, env, dom)
        self.returns = []       # (val, env, dom)
        self.breaks = []
        self.continues = []


class Frame:
    def __init__(self, func, out, depth, module=None):
        self.func = func
        self.module = module or func.module
        self.out = out
        self.depth = depth


def key(env, dom):
    return (tuple(sorted(env.items(), key=lambda x: x[0])), dom)


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


def dedupe(states):
    seen, out = set(), []
    for s in states:
        k = (s[0], key(s[1], s[2])) if len(s) == 3 else key(*s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > MAXSTATES:
        raise Overflow()
    return out


class PathDomain:
    """values are hashable; None is the unknown value"""

    def __init__(self):
        self.x = None

    def const(self, v):
        try:
            hash(v)
        except TypeError:
            return None
        return ("k", type(v).__name__, v)

    def attr(self, val, name, node, dom, fr):
        return None

    def subscript(self, val, keyv, node, dom, fr):
        """-> list of outcomes or None"""
        return None

    def compare(self, op, a, b, node, dom, fr):
        return None             # True / False / None

    def truth(self, val, dom):
        if isinstance(val, tuple) and val and val[0] == "k":
            return bool(val[2])
        return None

    def call(self, target, recv, name, args, kwargs, node, dom, fr):
        """target: resolved ref or None; -> list of ('ok'|'raise', x, dom),
        'inline', or None (leaf)"""
        return None

    def store_attr(self, base, attr, val, node, dom, fr):
        return dom

    def store_item(self, base, keyv, val, node, dom, fr):
        return dom

    def assigned(self, name, old, val, dom, fr):
        return dom

    def elements(self, val, dom):
        return None

    def element(self, val, dom):
        return None

    def build(self, kind, vals, dom):
        return None

    def ctx_enter(self, val, node, dom, fr):
        return val, dom

    def ctx_exit(self, val, node, dom, fr, exc):
        return dom, False

    def binop(self, op, a, b, node, dom, fr):
        return None

    def augassign(self, op, old, val, node, dom, fr):
        return None, dom

    def unknown(self, op, a, b, node, dom, fr):
        """value of a comparison whose outcome is not known"""
        return None

    def negate(self, val):
        return None

    def branch(self, val, b, dom, fr):
        """the state once `val` is known to be true or false"""
        return dom

    def build_dict(self, pairs, node, dom):
        return self.build("dict", (), dom)

    def name_ref(self, ref, node, dom, fr):
        return None

    def ret(self, func, val, dom, env):
        return val, dom

    def loop_end(self, before, after):
        return after

    def joinstr(self, vals, node, dom):
        return None


class Paths:
    def __init__(self, prog: Program, dom: PathDomain, max_depth=8,
                 budget=300_000):
        self.p = prog
        self.d = dom
        dom.x = self
        self.max_depth = max_depth
        self.budget = budget
        self.memo = {}
        self.active = set()
        self.functions = set()
        self.stack = []

    # ------------------------------------------------------------ functions
    def run(self, func: Func, bound, dom, depth=0, cenv=None):
        """-> list of ('return'|'raise', value, dom)"""
        k = (func.qual, tuple(sorted(bound.items())), dom,
             tuple(sorted((cenv or {}).items())))
        if k in self.memo:
            return self.memo[k]
        if k in self.active or depth > self.max_depth:
            return [("return", None, dom)]
        self.active.add(k)
        self.functions.add(func.qual)
        self.stack.append(func)
        out = Out()
        fr = Frame(func, out, depth)
        env = dict(cenv or {})
        env.update(bound)
        try:
            normal = self.block(func.body(), [(env, dom)], fr)
        finally:
            self.stack.pop()
            self.active.discard(k)
        res, seen = [], set()
        none = self.d.const(None)
        rets = [(v, e, d) for v, e, d in out.returns] + [
            (none, e, d) for e, d in normal]
        for v, e, d in rets:
            v, d = self.d.ret(func, v, d, e)
            r = ("return", v, d)
            if r not in seen:
                seen.add(r)
                res.append(r)
        for x, e, d in out.raises:
            _, d = self.d.ret(func, None, d, e)
            r = ("raise", x, d)
            if r not in seen:
                seen.add(r)
                res.append(r)
        self.memo[k] = res
        return res

    def bind(self, func, args, kwargs, selfv=None, skip=False):
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        for n, v in zip(pos, args):
            bound[n] = v
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                bound[k] = v
            else:
                extra[k] = v
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None})
        for n in names:
            if n not in bound:
                e = dfl.get(n)
                bound[n] = self.d.const(e.value) if isinstance(
                    e, ast.Constant) and "*" not in kwargs else None
        if a.vararg:
            bound[a.vararg.arg] = self.d.build(
                "tuple", tuple(args[len(pos):]), None)
        if a.kwarg:
            bound[a.kwarg.arg] = None
        return bound

    # ----------------------------------------------------------- statements
    def block(self, stmts, states, fr):
        for st in stmts:
            if not states:
                return []
            nxt = []
            for env, dom in states:
                self.budget -= 1
                if self.budget < 0:
                    raise Overflow()
                nxt += self.stmt(st, env, dom, fr)
            states = dedupe(nxt)
        return states

    def stmt(self, st, env, dom, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return [(env, dom)]
        return m(st, env, dom, fr)

    def s_Expr(self, st, env, dom, fr):
        return [(e, d) for _, e, d in self.ev(st.value, env, dom, fr)]

    def s_Return(self, st, env, dom, fr):
        if st.value is None:
            fr.out.returns.append((self.d.const(None), env, dom))
            return []
        for v, e, d in self.ev(st.value, env, dom, fr):
            fr.out.returns.append((v, e, d))
        return []

    def s_Raise(self, st, env, dom, fr):
        if st.exc is None:
            fr.out.raises.append((env.get("$exc", "?"), env, dom))
            return []
        for v, e, d in self.ev(st.exc, env, dom, fr):
            fr.out.raises.append((self.exc_of(v, st.exc, fr, e), e, d))
        return []

    def exc_of(self, v, expr, fr, env):
        if isinstance(v, tuple) and v and v[0] == "exc":
            return v[1]
        e = expr.func if isinstance(expr, ast.Call) else expr
        if isinstance(e, ast.Name) and e.id in env:
            x = env[e.id]
            if isinstance(x, tuple) and x and x[0] == "exc":
                return x[1]
            return "?"
        return self.exc_name(e, fr) or "?"

    def exc_name(self, e, fr):
        r = self.p.resolve_expr_static(e, fr.module, fr.func)
        if r is None:
            return None
        if r[0] == "class":
            return r[1].qual
        if r[0] in ("builtin", "ext"):
            return r[1]
        return None

    def s_Assign(self, st, env, dom, fr):
        out = []
        for v, e, d in self.ev(st.value, env, dom, fr):
            todo = [(e, d)]
            for t in st.targets:
                todo = [y for x in todo for y in self.assign(
                    t, v, x[0], x[1], fr)]
            out += todo
        return out

    def s_AnnAssign(self, st, env, dom, fr):
        if st.value is None:
            return [(env, dom)]
        out = []
        for v, e, d in self.ev(st.value, env, dom, fr):
            out += self.assign(st.target, v, e, d, fr)
        return out

    def s_AugAssign(self, st, env, dom, fr):
        out = []
        load = ast.copy_location(_load(st.target), st.target)
        for old, e0, d0 in self.ev(load, env, dom, fr):
            for v, e, d in self.ev(st.value, e0, d0, fr):
                x, d = self.d.augassign(st.op, old, v, st, d, fr)
                out += self.assign(st.target, x, e, d, fr)
        return out

    def assign(self, t, v, env, dom, fr):
        if isinstance(t, ast.Name):
            env = dict(env)
            dom = self.d.assigned(t.id, env.get(t.id), v, dom, fr)
            self.forget(env, t.id)
            env[t.id] = v
            return [(env, dom)]
        if isinstance(t, (ast.Tuple, ast.List)):
            els = self.d.elements(v, dom)
            todo = [(env, dom)]
            for i, x in enumerate(t.elts):
                val = els[i] if els is not None and len(els) == len(
                    t.elts) and not isinstance(x, ast.Starred) else \
                    self.d.element(v, dom)
                if isinstance(x, ast.Starred):
                    x = x.value
                    val = None
                todo = [y for s in todo for y in self.assign(
                    x, val, s[0], s[1], fr)]
            return todo
        if isinstance(t, ast.Attribute):
            out = []
            for b, e, d in self.ev(t.value, env, dom, fr):
                out.append((e, self.d.store_attr(b, t.attr, v, t, d, fr)))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, e, d in self.ev(t.value, env, dom, fr):
                for kv, e2, d2 in self.ev(t.slice, e, d, fr):
                    out.append((e2, self.d.store_item(b, kv, v, t, d2, fr)))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, None, env, dom, fr)
        return [(env, dom)]

    def forget(self, env, name):
        for k in [k for k in env if k.startswith("$t:") and name in
                  env[k][1]]:
            del env[k]

    def s_If(self, st, env, dom, fr):
        out = []
        for t, e, d in self.test(st.test, env, dom, fr):
            out += self.block(st.body if t else st.orelse, [(e, d)], fr)
        return out

    def test(self, test, env, dom, fr):
        """-> list of (bool, env, dom)"""
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            out, cur = [], [(env, dom)]
            for i, v in enumerate(test.values):
                nxt = []
                for e, d in cur:
                    for t, e2, d2 in self.test(v, e, d, fr):
                        if t is is_and and i < len(test.values) - 1:
                            nxt.append((e2, d2))
                        else:
                            out.append((t, e2, d2))
                cur = nxt
            return self.dd(out)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not t, e, d) for t, e, d in self.test(
                test.operand, env, dom, fr)]
        out = []
        tk, names = None, None
        if isinstance(test, (ast.Name, ast.Compare)):
            ns = [n for n in ast.walk(test)]
            if all(isinstance(n, (ast.Name, ast.Compare, ast.Constant,
                                  ast.expr_context, ast.cmpop, ast.Tuple,
                                  ast.List))
                   for n in ns):
                tk = "$t:" + ast.unparse(test)
                names = tuple(sorted({n.id for n in ns if isinstance(
                    n, ast.Name)}))
        for v, e, d in self.ev(test, env, dom, fr):
            t = self.d.truth(v, d)
            if t is None and tk is not None and tk in e:
                t = e[tk][0]
            for b in ((True, False) if t is None else (t,)):
                e2, d2 = e, d
                if t is None:
                    e2 = dict(e)
                    if tk is not None:
                        e2[tk] = (b, names)
                    self.refine(test, b, e2, d, fr)
                    d2 = self.d.branch(v, b, d, fr)
                    if d2 is None:
                        continue
                out.append((b, e2, d2))
        return self.dd(out)

    def dd(self, res):
        return dedupe(res)

    def refine(self, test, b, env, dom, fr):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            left = test.left
            if isinstance(left, ast.NamedExpr):
                left = left.target
            if isinstance(left, ast.Name) and left.id in env and isinstance(
                    test.comparators[0], ast.Constant):
                op = test.ops[0]
                if isinstance(op, (ast.Is, ast.Eq)) and b or isinstance(
                        op, (ast.IsNot, ast.NotEq)) and not b:
                    if env[left.id] is None:
                        env[left.id] = self.d.const(
                            test.comparators[0].value)

    def s_For(self, st, env, dom, fr):
        out = []
        for v, e, d in self.ev(st.iter, env, dom, fr):
            els = self.d.elements(v, d)
            if els is not None and len(els) <= 8:
                cur = [(e, d)]
                done = []
                for x in els:
                    inner = self.sub(fr)
                    nxt = []
                    for e1, d1 in cur:
                        for e2, d2 in self.assign(st.target, x, e1, d1, fr):
                            nxt += self.block(st.body, [(e2, d2)], inner)
                    self.pass_up(inner, fr, loop=True)
                    done += [(b[1], b[2]) for b in inner.out.breaks]
                    nxt += [(b[1], b[2]) for b in inner.out.continues]
                    cur = dedupe(nxt)
                out += self.block(st.orelse, cur, fr) + done
                continue
            seen, front = set(), [(e, d)]
            reach, done = [], []
            for _ in range(5):
                new = []
                for s in front:
                    k = key(*s)
                    if k not in seen:
                        seen.add(k)
                        reach.append(s)
                        new.append(s)
                if not new:
                    break
                inner = self.sub(fr)
                front = []
                for e1, d1 in new:
                    for e2, d2 in self.assign(
                            st.target, self.d.element(v, d1), e1, d1, fr):
                        front += self.block(st.body, [(e2, d2)], inner)
                self.pass_up(inner, fr, loop=True)
                done += [(b[1], b[2]) for b in inner.out.breaks]
                front += [(b[1], b[2]) for b in inner.out.continues]
                front = dedupe(front)
            out += self.block(st.orelse, dedupe(reach), fr) + done
        return dedupe(out)

    s_AsyncFor = s_For

    def s_While(self, st, env, dom, fr):
        seen, front = set(), [(env, dom)]
        after, done = [], []
        for _ in range(6):
            new = []
            for s in front:
                k = key(*s)
                if k not in seen:
                    seen.add(k)
                    new.append(s)
            if not new:
                break
            inner = self.sub(fr)
            front = []
            for e, d in new:
                for t, e2, d2 in self.test(st.test, e, d, fr):
                    # facts about the loop test do not survive a pass
                    if t:
                        front += self.block(st.body, [(self.drop(e2), d2)],
                                            inner)
                    else:
                        after.append((e2, d2))
            self.pass_up(inner, fr, loop=True)
            done += [(b[1], b[2]) for b in inner.out.breaks]
            front += [(b[1], b[2]) for b in inner.out.continues]
            front = dedupe([(self.drop(e), d) for e, d in front])
        return dedupe(self.block(st.orelse, dedupe(after), fr) + done)

    def drop(self, env):
        return {k: v for k, v in env.items() if not k.startswith("$t:")}

    def sub(self, fr):
        f = Frame(fr.func, Out(), fr.depth, fr.module)
        return f

    def pass_up(self, inner, fr, loop=False):
        fr.out.raises += inner.out.raises
        fr.out.returns += inner.out.returns
        if not loop:
            fr.out.breaks += inner.out.breaks
            fr.out.continues += inner.out.continues

    def s_Break(self, st, env, dom, fr):
        fr.out.breaks.append((None, env, dom))
        return []

    def s_Continue(self, st, env, dom, fr):
        fr.out.continues.append((None, env, dom))
        return []

    def s_Assert(self, st, env, dom, fr):
        out = []
        for t, e, d in self.test(st.test, env, dom, fr):
            if t:
                out.append((e, d))
            else:
                fr.out.raises.append(("AssertionError", e, d))
        return out

    def s_Delete(self, st, env, dom, fr):
        env = dict(env)
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
        return [(env, dom)]

    def s_FunctionDef(self, st, env, dom, fr):
        f = self.p.node2func.get(st)
        env = dict(env)
        env[st.name] = self.closure(f, env) if f is not None else None
        return [(env, dom)]

    def closure(self, f, env):
        a = f.node.args
        params = set(f.all_param_names())
        names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        return ("clos", f, tuple(sorted(
            (k, v) for k, v in env.items()
            if k in names and k not in params and v is not None)))

    def s_With(self, st, env, dom, fr):
        return self.with_items(st, 0, env, dom, fr)

    s_AsyncWith = s_With

    def with_items(self, st, i, env, dom, fr):
        if i == len(st.items):
            return self.block(st.body, [(env, dom)], fr)
        it = st.items[i]
        out = []
        for v, e, d in self.ev(it.context_expr, env, dom, fr):
            bv, d1 = self.d.ctx_enter(v, it.context_expr, d, fr)
            states = [(e, d1)]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, bv, e, d1, fr)
            inner = self.sub(fr)
            normal = []
            for e2, d2 in states:
                normal += self.with_items(st, i + 1, e2, d2, inner)

            def leave(dd, exc=None):
                return self.d.ctx_exit(v, it.context_expr, dd, fr, exc)
            for e2, d2 in normal:
                out.append((e2, leave(d2)[0]))
            for nm in ("returns", "breaks", "continues"):
                for x, e2, d2 in getattr(inner.out, nm):
                    getattr(fr.out, nm).append((x, e2, leave(d2)[0]))
            for x, e2, d2 in inner.out.raises:
                d3, sup = leave(d2, x)
                if isinstance(v, tuple) and v and v[0] == "suppress":
                    m = [self.matches(n, x) for n in v[1]]
                    if True in m:
                        out.append((e2, d3))
                        continue
                    if None in m:
                        out.append((e2, d3))
                if sup is not True:
                    fr.out.raises.append((x, e2, d3))
                if sup is not False:
                    out.append((e2, d3))
        return dedupe(out)

    def s_Try(self, st, env, dom, fr):
        inner = self.sub(fr)
        normal = self.block(st.body, [(env, dom)], inner)
        res = self.sub(fr)      # everything that passes through `finally`
        res.out.returns += inner.out.returns
        res.out.breaks += inner.out.breaks
        res.out.continues += inner.out.continues
        normal = self.block(st.orelse, normal, res) if st.orelse else normal
        for x, e, d in dedupe(inner.out.raises):
            live = True
            for h in st.handlers:
                m = self.handler_matches(h, x, fr, e)
                if m is False:
                    continue
                e2 = dict(e)
                old = e2.get("$exc")
                e2["$exc"] = x
                if h.name:
                    self.forget(e2, h.name)
                    e2[h.name] = ("exc", x)
                hd = self.d
                d2 = hd.caught(x, h, d, fr) if hasattr(hd, "caught") else d
                for e3, d3 in self.block(h.body, [(e2, d2)], res):
                    e3 = dict(e3)
                    e3.pop("$exc", None)
                    if old is not None:
                        e3["$exc"] = old
                    if h.name:
                        e3.pop(h.name, None)
                    normal.append((e3, d3))
                if m is True:
                    live = False
                    break
            if live:
                res.out.raises.append((x, e, d))
        normal = dedupe(normal)
        if not st.finalbody:
            self.pass_up(res, fr)
            return normal
        out = []
        for e, d in normal:
            out += self.block(st.finalbody, [(e, d)], fr)
        for nm in ("returns", "raises", "breaks", "continues"):
            for x, e, d in dedupe(getattr(res.out, nm)):
                for e2, d2 in self.block(st.finalbody, [(e, d)], fr):
                    getattr(fr.out, nm).append((x, e2, d2))
        return dedupe(out)

    s_TryStar = s_Try

    def s_Match(self, st, env, dom, fr):
        out = []
        for v, e, d in self.ev(st.subject, env, dom, fr):
            rest = True
            for c in st.cases:
                out += self.block(c.body, [(dict(e), d)], fr)
                if isinstance(c.pattern, ast.MatchAs) and \
                        c.pattern.pattern is None and c.guard is None:
                    rest = False
            if rest:
                out.append((e, d))
        return dedupe(out)

    # ----------------------------------------------------------- exceptions
    def mro(self, exc):
        if exc == "ORD":
            return {"Exception", "BaseException"}
        b = getattr(builtins, exc, None)
        if isinstance(b, type):
            return {c.__name__ for c in b.__mro__}
        c = self.p.classes.get(exc)
        out = {exc}
        if c is not None:
            for r in c.bases:
                if r is None:
                    continue
                n = r[1].qual if r[0] == "class" else r[1]
                out |= self.mro(n)
            return out
        return out | {"Exception", "BaseException"}

    def matches(self, hname, exc):
        if hname is None:
            return None
        m = self.mro(exc)
        if hname in m or hname.split(".")[-1] in m and hname.split(".")[
                -1] in dir(builtins):
            return True
        if hname in ("EnvironmentError", "IOError"):
            return "OSError" in m or (None if exc == "?" else False)
        if exc == "?":
            return None
        return False

    def handler_matches(self, h, exc, fr, env):
        if h.type is None:
            return True
        return self.type_matches(h.type, exc, fr, env)

    def type_matches(self, t, exc, fr, env):
        if isinstance(t, ast.Tuple):
            r = [self.type_matches(x, exc, fr, env) for x in t.elts]
            return True if True in r else (None if None in r else False)
        if isinstance(t, ast.BoolOp):
            i = 0 if isinstance(t.op, ast.Or) else -1
            return self.type_matches(t.values[i], exc, fr, env)
        n = self.exc_name(t, fr)
        if n is None:
            r = self.p.resolve_expr_static(t, fr.module, fr.func)
            if r and r[0] == "global":
                es = r[1].assigns.get(r[2], [])
                es = [x for x in es if isinstance(x, ast.AST)]
                if len(es) == 1 and not isinstance(es[0], ast.Name):
                    return self.type_matches(es[0], exc, fr, env)
            return None
        return self.matches(n, exc)

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, dom, fr):
        """-> list of (val, env, dom)"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.generic(e, env, dom, fr)
        return m(e, env, dom, fr)

    def evs(self, es, env, dom, fr):
        """-> list of (tuple of vals, env, dom)"""
        cur = [((), env, dom)]
        for x in es:
            nxt = []
            for vs, e, d in cur:
                for v, e2, d2 in self.ev(x, e, d, fr):
                    nxt.append((vs + (v,), e2, d2))
            cur = nxt
        return cur

    def generic(self, e, env, dom, fr):
        kids = [c for c in ast.iter_child_nodes(e) if isinstance(
            c, ast.expr)]
        return [(None, e2, d2) for _, e2, d2 in self.evs(
            kids, env, dom, fr)]

    def e_Constant(self, e, env, dom, fr):
        return [(self.d.const(e.value), env, dom)]

    def e_Name(self, e, env, dom, fr):
        if e.id in env:
            return [(env[e.id], env, dom)]
        r = self.p.resolve_name(e.id, fr.module, fr.func)
        if r is not None:
            return [(self.d.name_ref(r, e, dom, fr) or ("ref",) + tuple(r),
                     env, dom)]
        return [(None, env, dom)]

    def e_NamedExpr(self, e, env, dom, fr):
        out = []
        for v, e2, d2 in self.ev(e.value, env, dom, fr):
            for e3, d3 in self.assign(e.target, v, e2, d2, fr):
                out.append((v, e3, d3))
        return out

    def e_Attribute(self, e, env, dom, fr):
        r = self.p.resolve_expr_static(e, fr.module, fr.func)
        if r is not None and not self.shadowed(e, env):
            return [(self.d.name_ref(r, e, dom, fr) or ("ref",) + tuple(r),
                     env, dom)]
        out = []
        for v, e2, d2 in self.ev(e.value, env, dom, fr):
            out.append((self.d.attr(v, e.attr, e, d2, fr), e2, d2))
        return out

    def shadowed(self, e, env):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in env

    def e_Subscript(self, e, env, dom, fr):
        out = []
        for b, e1, d1 in self.ev(e.value, env, dom, fr):
            for k, e2, d2 in self.ev(e.slice, e1, d1, fr):
                r = self.d.subscript(b, k, e, d2, fr)
                out += self.outcomes(r, e2, d2, fr)
        return out

    def outcomes(self, r, env, dom, fr):
        if r is None:
            return [(None, env, dom)]
        out = []
        for kind, v, d in r:
            if kind == "ok":
                out.append((v, env, d))
            else:
                fr.out.raises.append((v, env, d))
        return out

    def e_Tuple(self, e, env, dom, fr):
        out = []
        for vs, e2, d2 in self.evs(e.elts, env, dom, fr):
            star = any(isinstance(x, ast.Starred) for x in e.elts)
            out.append((None if star else self.d.build(
                type(e).__name__.lower(), vs, d2), e2, d2))
        return out

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Starred(self, e, env, dom, fr):
        return self.ev(e.value, env, dom, fr)

    def e_BoolOp(self, e, env, dom, fr):
        is_and = isinstance(e.op, ast.And)
        out, cur = [], [(env, dom)]
        for i, v in enumerate(e.values):
            nxt = []
            for e1, d1 in cur:
                for x, e2, d2 in self.ev(v, e1, d1, fr):
                    if i == len(e.values) - 1:
                        out.append((x, e2, d2))
                        continue
                    t = self.d.truth(x, d2)
                    if t is None or t is is_and:
                        nxt.append((e2, d2))
                    if t is None or t is not is_and:
                        out.append((x, e2, d2))
            cur = dedupe(nxt)
        return dedupe(out)

    def e_UnaryOp(self, e, env, dom, fr):
        out = []
        for v, e2, d2 in self.ev(e.operand, env, dom, fr):
            r = None
            if isinstance(e.op, ast.Not):
                t = self.d.truth(v, d2)
                r = self.d.const(not t) if t is not None else \
                    self.d.negate(v)
            elif isinstance(e.op, ast.USub) and isinstance(v, tuple) and \
                    v and v[0] == "k" and isinstance(v[2], (int, float)):
                r = self.d.const(-v[2])
            out.append((r, e2, d2))
        return out

    def e_BinOp(self, e, env, dom, fr):
        out = []
        for (a, b), e2, d2 in self.evs([e.left, e.right], env, dom, fr):
            out.append((self.d.binop(e.op, a, b, e, d2, fr), e2, d2))
        return out

    def e_Compare(self, e, env, dom, fr):
        out = []
        for vs, e2, d2 in self.evs([e.left] + e.comparators, env, dom, fr):
            res = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                t = self.d.compare(op, a, b, e, d2, fr)
                if t is None:
                    t = self.cmp(op, a, b)
                if t is False:
                    res = False
                    break
                if t is None:
                    res = None
            if res is None:
                out.append((self.d.unknown(e.ops[0], vs[0], vs[1], e, d2, fr)
                            if len(e.ops) == 1 else None, e2, d2))
            else:
                out.append((self.d.const(res), e2, d2))
        return out

    def cmp(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and \
                a[0] == "k" and b[0] == "k":
            x, y = a[2], b[2]
            try:
                if isinstance(op, ast.Eq):
                    return x == y
                if isinstance(op, ast.NotEq):
                    return x != y
                if isinstance(op, ast.Is):
                    return x is y or x == y and type(x) is type(y)
                if isinstance(op, ast.IsNot):
                    return not (x is y or x == y and type(x) is type(y))
                if isinstance(op, ast.Lt):
                    return x < y
                if isinstance(op, ast.Gt):
                    return x > y
                if isinstance(op, ast.LtE):
                    return x <= y
                if isinstance(op, ast.GtE):
                    return x >= y
                if isinstance(op, ast.In):
                    return x in y
                if isinstance(op, ast.NotIn):
                    return x not in y
            except Exception:
                return None
        none = self.d.const(None)
        if isinstance(op, (ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if y == none and isinstance(x, tuple) and x and x[0] in (
                        "ref", "clos", "exc"):
                    return isinstance(op, ast.IsNot)
        return None

    def e_IfExp(self, e, env, dom, fr):
        out = []
        for t, e2, d2 in self.test(e.test, env, dom, fr):
            out += self.ev(e.body if t else e.orelse, e2, d2, fr)
        return dedupe(out)

    def e_JoinedStr(self, e, env, dom, fr):
        kids = [v.value for v in e.values if isinstance(
            v, ast.FormattedValue)]
        out = []
        for vs, e2, d2 in self.evs(kids, env, dom, fr):
            out.append((self.d.joinstr(vs, e, d2), e2, d2))
        return out

    def e_Dict(self, e, env, dom, fr):
        keys = [k for k in e.keys if k is not None]
        out = []
        for vs, e2, d2 in self.evs(keys + e.values, env, dom, fr):
            ks = list(vs[:len(keys)])
            pairs = tuple((None if k is None else (ks.pop(0),), v)
                          for k, v in zip(e.keys, vs[len(keys):]))
            out.append((self.d.build_dict(pairs, e, d2), e2, d2))
        return out

    def e_Lambda(self, e, env, dom, fr):
        f = self.p.node2func.get(e)
        return [(self.closure(f, env) if f is not None else None, env, dom)]

    def comp(self, e, env, dom, fr, elts):
        """elements of the comprehension (known lists are unrolled);
        acc is the tuple of values built so far, None when not known"""
        def gen(i, acc, en, d):
            if i == len(e.generators):
                return [(acc + (vs[0],) if acc is not None and len(vs) == 1
                         else None, e2, d2) for vs, e2, d2 in self.evs(
                    elts, en, d, fr)]
            g = e.generators[i]
            out = []
            for v, e1, d1 in self.ev(g.iter, en, d, fr):
                els = self.d.elements(v, d1)
                a0 = acc
                if els is None or len(els) > 6:
                    els = [self.d.element(v, d1)]
                    a0 = None
                    out.append((None, e1, d1))
                cur = [(a0, e1, d1)]
                for x in els:
                    nxt = []
                    for ac, e2, d2 in cur:
                        for e3, d3 in self.assign(g.target, x, e2, d2, fr):
                            st = [(True, e3, d3)]
                            for c in g.ifs:
                                st = [s for t, ea, da in st if t
                                      for s in self.test(c, ea, da, fr)] + [
                                    s for s in st if not s[0]]
                            for t, ea, da in st:
                                if t:
                                    nxt += gen(i + 1, ac, ea, da)
                                else:
                                    nxt.append((ac, ea, da))
                    cur = dedupe(nxt)
                out += cur
            return dedupe(out)
        out = []
        for acc, e2, d2 in gen(0, (), env, dom):
            v = self.d.build("list", acc, d2) if acc is not None and \
                not isinstance(e, ast.DictComp) else None
            if v is None and hasattr(self.d, "comp"):
                v = self.d.comp(e, acc, d2)
            out.append((v, env, d2))
        return dedupe(out)

    def e_ListComp(self, e, env, dom, fr):
        return self.comp(e, env, dom, fr, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env, dom, fr):
        return self.comp(e, env, dom, fr, [e.key, e.value])

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env, dom, fr):
        fe = e.func
        heads = []              # (target, recv, name, env, dom)
        if isinstance(fe, ast.Attribute):
            r = self.p.resolve_expr_static(fe, fr.module, fr.func)
            if r is not None and r[0] in ("func", "class", "ext",
                                          "builtin") and \
                    not self.shadowed(fe, env):
                heads.append((r, None, fe.attr, env, dom))
            else:
                for v, e1, d1 in self.ev(fe.value, env, dom, fr):
                    heads.append((None, v, fe.attr, e1, d1))
        else:
            for v, e1, d1 in self.ev(fe, env, dom, fr):
                t = None
                if isinstance(v, tuple) and v and v[0] == "ref":
                    t = v[1:]
                elif isinstance(v, tuple) and v and v[0] == "clos":
                    t = v
                nm = fe.id if isinstance(fe, ast.Name) else None
                heads.append((t, v, nm, e1, d1))
        out = []
        for t, recv, name, e1, d1 in heads:
            pos = [a for a in e.args]
            kws = e.keywords
            for vs, e2, d2 in self.evs(
                    pos + [k.value for k in kws], e1, d1, fr):
                args, kwargs = [], {}
                star = False
                for a, v in zip(pos, vs):
                    if isinstance(a, ast.Starred):
                        els = self.d.elements(v, d2)
                        if els is not None:
                            args += list(els)
                        else:
                            star = True
                    else:
                        args.append(v)
                for k, v in zip(kws, vs[len(pos):]):
                    kwargs[k.arg or "*"] = v
                out += self.call(t, recv, name, args, kwargs, e, e2, d2, fr)
        return dedupe(out)

    def call(self, t, recv, name, args, kwargs, node, env, dom, fr):
        r = self.d.call(t, recv, name, args, kwargs, node, dom, fr)
        if isinstance(r, tuple) and r and r[0] == "inline":
            _, func, selfv = r
            return self.inline(func, args, kwargs, selfv, env, dom, fr)
        if r is None and t is not None and t[0] == "clos":
            f = t[1]
            bound = self.bind(f, args, kwargs)
            res = self.run(f, bound, dom, fr.depth + 1, dict(t[2]))
            return self.after(res, env, fr)
        if r is None and t is not None and t[0] == "ext" and \
                t[1] == "contextlib.suppress":
            names = tuple(self.exc_name(a, fr) for a in node.args)
            return [(("suppress", names), env, dom)]
        if r is None and t is not None and t[0] in ("class", "builtin"):
            q = t[1].qual if t[0] == "class" else t[1]
            if t[0] == "class" and "BaseException" in self.mro(q) and \
                    q in self.p.classes and self.is_exc(t[1]) or \
                    t[0] == "builtin" and isinstance(getattr(
                        builtins, q, None), type) and issubclass(
                        getattr(builtins, q), BaseException):
                return [(("exc", q), env, dom)]
        return self.outcomes(r, env, dom, fr)

    def is_exc(self, c: Class):
        return "BaseException" in self.mro(c.qual) and bool(c.bases)

    def inline(self, func, args, kwargs, selfv, env, dom, fr):
        bound = self.bind(func, args, kwargs, selfv)
        return self.after(self.run(func, bound, dom, fr.depth + 1), env, fr)

    def after(self, res, env, fr):
        out = []
        for kind, v, d in res:
            if kind == "return":
                out.append((v, env, d))
            else:
                fr.out.raises.append((v, env, d))
        return out
