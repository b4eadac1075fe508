"""Ways round a loop that change nothing its exits depend on.

Every acyclic way through the body of a `while` loop is followed with the
variables it starts from as symbols, in a world where the input has ended:
reading gives nothing, and leaves the stream where it is.  When the variables
that the loop's test and the tests along the way read have, at the end of
it, the values they had at its start, the same way is taken for ever."""
from __future__ import annotations

import ast

EMPTY = ("empty",)
READS = {"read", "readline", "read1", "readlines", "recv"}
PURE = {"len", "int", "str", "bool", "min", "max", "abs", "isinstance",
        "any", "all", "sum", "ord", "chr", "float", "bytes", "tuple", "list",
        "repr", "sorted", "print", "set"}
PURE_M = {"strip", "rstrip", "lstrip", "startswith", "endswith", "find",
          "decode", "encode", "split", "lower", "upper", "get", "keys",
          "values", "items", "index", "count", "join", "format", "replace",
          "isdisjoint", "tell", "search", "match", "span", "group"}
GROW = {"append", "extend", "add", "update", "insert", "appendleft", "write"}


class Opaque(Exception):
    """something that is not followed"""


def walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        yield n
        todo += ast.iter_child_nodes(n)


class Way:
    """one way through a body: statements and outcomes of tests"""

    def __init__(self, steps=(), end="next"):
        self.steps, self.end = list(steps), end


def ways(body, cap=300):
    out = [Way()]
    for st in body:
        new = []
        for w in out:
            if w.end != "next":
                new.append(w)
                continue
            if isinstance(st, ast.If):
                for val, b in ((True, st.body), (False, st.orelse)):
                    for x in ways(b, cap):
                        new.append(Way(w.steps + [("test", st.test, val)] +
                                       x.steps, x.end))
            elif isinstance(st, ast.With):
                raise Opaque()
            elif isinstance(st, (ast.Break, ast.Return, ast.Raise)):
                new.append(Way(w.steps, "out"))
            elif isinstance(st, ast.Continue):
                new.append(Way(w.steps, "again"))
            elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                                 ast.Expr, ast.Pass, ast.Import,
                                 ast.ImportFrom)):
                new.append(Way(w.steps + [("do", st, None)]))
            elif isinstance(st, ast.For):
                new.append(Way(w.steps + [("for", st, None)]))
            else:
                new.append(Way(w.steps + [("opaque", st, None)]))
        out = new
        if len(out) > cap:
            raise Opaque()
    return out


class Pass:
    def __init__(self):
        self.env = {}           # name -> value; absent: as it was
        self.reads = 0
        self.names = set()      # names whose first values a test read
        self.n = 0

    def fresh(self):
        self.n += 1
        return ("new", self.n)

    def value(self, name):
        return self.env.get(name, ("was", name))

    def ev(self, e):
        """-> value; ('const', x), EMPTY, ('was', name), ('plus', name, c),
        ('new', n), ('of', text, values)"""
        if isinstance(e, ast.Constant):
            return EMPTY if e.value in (b"", "") and isinstance(
                e.value, (bytes, str)) else ("const", e.value)
        if isinstance(e, ast.Name):
            return self.value(e.id)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.Await) or isinstance(e, (ast.Yield,
                                                      ast.YieldFrom)):
            raise Opaque()
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            return self.bin(e.op, a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if v[0] == "const" and isinstance(e.op, ast.USub) and isinstance(
                    v[1], (int, float)):
                return ("const", -v[1])
            if isinstance(e.op, ast.Not):
                t = truth(v)
                return ("of", "not", (v,)) if t is None else ("const", not t)
            return ("of", type(e.op).__name__, (v,))
        if isinstance(e, ast.Compare):
            vs = [self.ev(x) for x in [e.left] + e.comparators]
            if len(vs) == 2:
                t = compare(e.ops[0], *vs)
                if t is not None:
                    return ("const", t)
            return ("of", " ".join(type(o).__name__ for o in e.ops),
                    tuple(vs))
        if isinstance(e, ast.BoolOp):
            vs = []
            for x in e.values:
                v = self.ev(x)
                t = truth(v)
                if t is isinstance(e.op, ast.Or):
                    if not vs:
                        return v
                    vs.append(v)
                    break
                if t is None:
                    vs.append(v)
            if not vs:
                return v
            return ("of", type(e.op).__name__, tuple(vs))
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value)
            if v == EMPTY:
                raise Opaque()
            return ("of", "." + e.attr, (v, self.value("." + e.attr)))
        if isinstance(e, ast.Subscript):
            a, b = self.ev(e.value), self.ev(e.slice)
            if a == EMPTY:
                if isinstance(e.slice, ast.Slice):
                    return EMPTY
                raise Opaque()          # raises
            if not isinstance(e.slice, ast.Slice):
                raise Opaque()          # may raise
            return ("of", "[]", (a, b))
        if isinstance(e, ast.Slice):
            return ("of", ":", tuple(self.ev(x) for x in (
                e.lower, e.upper, e.step) if x is not None))
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("of", "()", tuple(self.ev(x) for x in e.elts))
        if isinstance(e, ast.JoinedStr):
            return ("of", "f", tuple(
                self.ev(x.value) for x in e.values if isinstance(
                    x, ast.FormattedValue)))
        if isinstance(e, ast.IfExp):
            t = truth(self.ev(e.test))
            if t is None:
                raise Opaque()
            return self.ev(e.body if t else e.orelse)
        raise Opaque()

    def bin(self, op, a, b):
        if isinstance(op, (ast.Add, ast.Sub)):
            if b == EMPTY and isinstance(op, ast.Add):
                return a
            if a == EMPTY and isinstance(op, ast.Add):
                return b
            s = 1 if isinstance(op, ast.Add) else -1
            if num(b):
                if b[1] == 0:
                    return a
                if num(a):
                    return ("const", a[1] + s * b[1])
                if a[0] == "was":
                    return ("plus", a[1], s * b[1])
                if a[0] == "plus":
                    c = a[2] + s * b[1]
                    return ("plus", a[1], c) if c else ("was", a[1])
            if num(a) and b[0] in ("was", "plus") and s == 1:
                return self.bin(op, b, a)
        return ("of", type(op).__name__, (a, b))

    def call(self, e):
        f = e.func
        args = [self.ev(x.value if isinstance(x, ast.Starred) else x)
                for x in e.args]
        kws = [self.ev(k.value) for k in e.keywords]
        if isinstance(f, ast.Name):
            if f.id == "len" and args == [EMPTY]:
                return ("const", 0)
            if EMPTY in args and f.id in ("int", "float", "ord", "min",
                                          "max"):
                raise Opaque()          # raises
            if f.id in PURE and f.id not in self.env:
                return ("of", f.id, tuple(args + kws))
            raise Opaque()
        if isinstance(f, ast.Attribute):
            base = f.value
            if f.attr in READS and isinstance(base, (ast.Name,
                                                     ast.Attribute)):
                self.reads += 1
                return EMPTY
            b = self.ev(base)
            if f.attr in PURE_M:
                if b == EMPTY and f.attr in (
                        "strip", "rstrip", "lstrip", "decode", "encode",
                        "lower", "upper", "replace"):
                    return EMPTY
                if b == EMPTY and f.attr in ("startswith", "endswith") and \
                        len(args) == 1 and args[0][0] == "const" and \
                        args[0][1]:
                    return ("const", False)
                if b == EMPTY:
                    raise Opaque()
                return ("of", f.attr, tuple([b] + args + kws))
            if f.attr in GROW:
                if args == [EMPTY] and f.attr in ("extend", "write"):
                    return ("const", 0)
                self.touch(base)
                return ("const", None)
        raise Opaque()

    def touch(self, e):
        """what e names is no longer as it was"""
        while isinstance(e, (ast.Subscript,)):
            e = e.value
        if isinstance(e, ast.Name):
            self.env[e.id] = self.fresh()
        elif isinstance(e, ast.Attribute):
            self.env["." + e.attr] = self.fresh()
        else:
            raise Opaque()

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, self.fresh())
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.touch(t)
        else:
            raise Opaque()

    def do(self, st):
        if isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(
                    st.targets[0], ast.Tuple) and isinstance(
                    st.value, ast.Tuple) and len(st.value.elts) == len(
                    st.targets[0].elts):
                vs = [self.ev(x) for x in st.value.elts]
                for t, v in zip(st.targets[0].elts, vs):
                    self.bind(t, v)
                return
            v = self.ev(st.value)
            for t in st.targets:
                self.bind(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            if isinstance(st.target, ast.Name):
                self.env[st.target.id] = self.bin(
                    st.op, self.value(st.target.id), v)
            else:
                self.touch(st.target)
        elif isinstance(st, ast.Expr):
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value)


def num(v):
    return v[0] == "const" and isinstance(v[1], (int, float)) and \
        not isinstance(v[1], bool)


def truth(v):
    if v == EMPTY:
        return False
    if v[0] == "const":
        return bool(v[1])
    return None


def compare(op, a, b):
    if isinstance(op, (ast.Eq, ast.NotEq)):
        eq = None
        if a == EMPTY and b == EMPTY:
            eq = True
        elif EMPTY in (a, b) and "const" in (a[0], b[0]):
            eq = False
        elif a[0] == b[0] == "const":
            eq = a[1] == b[1]
        return eq if eq is None or isinstance(op, ast.Eq) else not eq
    if isinstance(op, (ast.Is, ast.IsNot)):
        if EMPTY in (a, b) and ("const", None) in (a, b):
            return isinstance(op, ast.IsNot)
        return None
    if num(a) and num(b):
        r = {ast.Lt: a[1] < b[1], ast.LtE: a[1] <= b[1],
             ast.Gt: a[1] > b[1], ast.GtE: a[1] >= b[1]}
        return r.get(type(op))
    return None


def leaves(v, out):
    """the names whose first values a value is made of"""
    if v[0] in ("was", "plus"):
        out.add(v[1])
    elif v[0] == "of":
        for x in v[2]:
            leaves(x, out)
    elif v[0] == "new":
        out.add(None)
    return out


def away(test, p):
    """the loop goes on while a counter is on one side of a bound, and the
    counter moves off to that side"""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return set()
    a, b = test.left, test.comparators[0]
    op = test.ops[0]
    out = set()
    for x, sign in ((a, 1), (b, -1)):
        if isinstance(x, ast.Name):
            v = p.value(x.id)
            if v[0] == "plus" and (
                    isinstance(op, (ast.Lt, ast.LtE)) and v[2] * sign < 0 or
                    isinstance(op, (ast.Gt, ast.GtE)) and v[2] * sign > 0):
                out.add(x.id)
    return out


def idle(loop):
    """-> the line of the last statement of a way round that is taken for
    ever, or None"""
    for w in ways(loop.body):
        if w.end == "out":
            continue
        p = Pass()
        seen = set()        # names that tests depend on, in first values
        try:
            t = p.ev(loop.test)
            if truth(t) is False:
                continue
            leaves(t, seen)
            counters = set()
            unknown = truth(t) is None
            tests = 0
            ok = True
            for kind, x, val in w.steps:
                if kind == "test":
                    v = p.ev(x)
                    r = truth(v)
                    if r is not None and r is not val:
                        ok = False
                        break
                    if r is None:
                        tests += 1
                    s = leaves(v, set())
                    counters |= s
                    seen |= s
                elif kind == "do":
                    p.do(x)
                else:
                    raise Opaque()
            if not ok:
                continue
        except Opaque:
            continue
        if None in seen:
            continue
        # a way taken only on conditions, without reading, may be one that
        # is not taken when it would be of no use
        if tests and not p.reads:
            continue
        moved = {n for n in seen if p.value(n) != ("was", n)}
        off = away(loop.test, p) - counters
        if moved - off:
            continue
        return p.reads
    return None


def check(ctx, rep, tier, known):
    for q, f in sorted(ctx.prog.funcs.items()):
        if f.vendored or ".tests." in q or isinstance(f.node, ast.Lambda):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.While):
                rep.count("while loops")
                try:
                    r = idle(n)
                except Opaque:
                    rep.count("while loops not judged")
                    continue
                if r is not None and q not in known:
                    rep.find("C28.pass", q,
                             f"{f.module.path}:{n.lineno}",
                             f"a loop of {q} can be gone round for ever: "
                             + ("once its input has ended, nothing that "
                                "its exits depend on changes" if r else
                                "nothing that its exits depend on changes "
                                "towards an exit"))
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "iter" and len(
                    n.args) == 2 and isinstance(n.args[1], ast.Constant) \
                    and isinstance(n.args[0], ast.Lambda) and any(
                        isinstance(c, ast.Call) and isinstance(
                            c.func, ast.Attribute) and c.func.attr in READS
                        for c in [n.args[0].body]):
                rep.count("reads until a sentinel")
                if n.args[1].value not in (b"", "") and q not in known:
                    rep.find("C28.pass", q, f"{f.module.path}:{n.lineno}",
                             f"{q} reads until {n.args[1].value!r} is read, "
                             f"which the end of its input does not give")
