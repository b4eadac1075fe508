"""Abstract interpretation of the syntax tree: containers, strings, numbers
and control structure are followed as they are; everything a rule cares about
(arrays, files, labels, sizes) is an abstract value with its own transfer
functions; everything else is Top.  A branch on an abstract value that is
neither true nor false splits the path.  Nothing of the analysed program is
imported or executed."""
from __future__ import annotations

import ast
import itertools
import functools
import math
import operator
import re
import types
import builtins as _b

from .program import own_walk

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
       ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|",
       ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
       ast.MatMult: "@"}
PYBIN = {"+": operator.add, "-": operator.sub, "*": operator.mul,
         "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "**": operator.pow, "|": operator.or_,
         "&": operator.and_, "^": operator.xor, "<<": operator.lshift,
         ">>": operator.rshift, "@": operator.matmul}
PYINP = {"+": operator.iadd, "|": operator.ior, "&": operator.iand,
         "-": operator.isub, "*": operator.imul, "^": operator.ixor}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
       ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
PYCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt,
         "<=": operator.le, ">": operator.gt, ">=": operator.ge,
         "is": operator.is_, "is not": operator.is_not,
         "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}
NEG = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", ">": "<="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}

CUR = None          # the machine now running


class Undecided(Exception):
    """the analysis cannot follow this path"""


class Prune(Exception):
    """the path is not explored further"""


class AExc(Exception):
    def __init__(self, name, value=None):
        super().__init__(name)
        self.name, self.value = name, value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def _op(o):
    def f(self, other):
        return CUR.binop(o, self, other)

    def r(self, other):
        return CUR.binop(o, other, self)
    return f, r


class AObj:
    """an abstract value"""
    tags = frozenset()

    def __bool__(self):
        return CUR.truth(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return CUR.compare("==", self, other)

    def __ne__(self, other):
        return CUR.compare("!=", self, other)

    def __lt__(self, other):
        return CUR.compare("<", self, other)

    def __le__(self, other):
        return CUR.compare("<=", self, other)

    def __gt__(self, other):
        return CUR.compare(">", self, other)

    def __ge__(self, other):
        return CUR.compare(">=", self, other)

    def __neg__(self):
        return CUR.unop("-", self)

    def __invert__(self):
        return CUR.unop("~", self)

    def __abs__(self):
        return CUR.derive(self)

    def __iter__(self):
        return iter(CUR.iterate(self))

    def __getitem__(self, k):
        return CUR.getitem(self, k)

    def __contains__(self, x):
        return CUR.truth(CUR.compare("in", x, self))

    def __call__(self, *a, **k):
        return CUR.call_value(self, list(a), k, None)

    def __format__(self, spec):
        return "\0"

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__

    # transfer functions: NotImplemented means Top
    def a_attr(self, m, name):
        return NotImplemented

    def a_setattr(self, m, name, v):
        pass

    def a_item(self, m, k):
        return NotImplemented

    def a_setitem(self, m, k, v):
        pass

    def a_delitem(self, m, k):
        pass

    def a_method(self, m, name, args, kw, node):
        return NotImplemented

    def a_call(self, m, args, kw, node):
        return NotImplemented

    def a_bin(self, m, op, other, rev):
        return NotImplemented

    def a_inplace(self, m, op, other):
        return NotImplemented

    def a_un(self, m, op):
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        return NotImplemented

    def a_truth(self, m):
        return None

    def a_iter(self, m):
        return None

    def a_len(self, m):
        return NotImplemented

    def a_isinstance(self, m, names):
        """names: qualified names of the types -> True / False / None"""
        return None

    def a_conv(self, m, name):
        """int(x), str(x), ..."""
        return NotImplemented

    def key(self):
        return self


for _o, _n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "truediv"),
               ("//", "floordiv"), ("%", "mod"), ("**", "pow"), ("|", "or"),
               ("&", "and"), ("^", "xor"), ("<<", "lshift"),
               (">>", "rshift")):
    _f, _r = _op(_o)
    setattr(AObj, f"__{_n}__", _f)
    setattr(AObj, f"__r{_n}__", _r)


class Top(AObj):
    def __init__(self, tags=frozenset(), what=""):
        self.tags = frozenset(tags)
        self.parts = {}
        self.what = what

    def __str__(self):
        return f"<Top {self.what}>"

    __repr__ = __str__


class Cond(AObj):
    def __init__(self, key, pos=True, srcs=()):
        self.k, self.pos = key, pos
        self.srcs = srcs
        t = frozenset()
        for s in srcs:
            if isinstance(s, AObj):
                t |= s.tags
        self.tags = t

    def a_truth(self, m):
        return m.decide(self.k) is self.pos

    def a_un(self, m, op):
        return NotImplemented


class Fn:
    """a function of the program, with its closure and bound self"""

    def __init__(self, func, cenv=None, me=None, defaults=None):
        self.func, self.cenv, self.me = func, cenv, me
        self.wrapped = None     # what functools.wraps says it wraps
        self.names = None       # the parameters its __signature__ gives

    def params(self):
        """the parameter names its signature gives, None when unknown"""
        if self.names is not None:
            return self.names
        if self.wrapped is not None:
            w = self.wrapped
            return w.params() if isinstance(w, Fn) else None
        n = self.func.param_names()
        a = self.func.node.args
        if a.kwarg is not None:
            return None
        n = list(n) + [x.arg for x in a.kwonlyargs if x.arg not in n]
        return [x for x in n if not (self.me is not None and x == n[0])]

    def optional(self):
        """the parameters annotated as Optional"""
        if self.names is not None:
            return getattr(self.names, "optional", set())
        if self.wrapped is not None:
            return self.wrapped.optional() if isinstance(
                self.wrapped, Fn) else set()
        a = self.func.node.args
        out = set()
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            t = "" if x.annotation is None else ast.unparse(
                x.annotation).strip("'\"")
            if t.startswith(("Optional[", "typing.Optional[", "None |")) or \
                    t.endswith("| None") or x.arg in ("_", "__"):
                out.add(x.arg)
        return out

    def __call__(self, *a, **k):
        return CUR.call_value(self, list(a), k, None)

    def __eq__(self, o):
        return isinstance(o, Fn) and o.func is self.func and o.me is self.me

    def __hash__(self):
        return hash(self.func.qual)


class Wraps:
    """functools.wraps(of)"""

    def __init__(self, of):
        self.of = of

    def __call__(self, f):
        if isinstance(f, Fn):
            f.wrapped = self.of
            f.names = getattr(self.of, "names", None)
        return f


class Ext:
    """something outside the program, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return CUR.call_value(self, list(a), k, None)

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<Ext {self.name}>"


class Cls:
    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *a, **k):
        return CUR.call_value(self, list(a), k, None)

    def __eq__(self, o):
        return isinstance(o, Cls) and o.cls is self.cls

    def __hash__(self):
        return hash(self.cls.qual)


class ModRef:
    def __init__(self, module):
        self.module = module


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def __call__(self, *a, **k):
        return CUR.call_value(self.fn, list(self.args) + list(a),
                              {**self.kw, **k}, None)


class Inst(AObj):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})

    def dunder(self, m, name, *args):
        f = m.p.find_method(self.cls, name)
        if f is None:
            return NotImplemented
        return m.call_func(f, [self, *args], {}, None, None, self)

    def a_item(self, m, k):
        return self.dunder(m, "__getitem__", k)

    def a_setitem(self, m, k, v):
        self.dunder(m, "__setitem__", k, v)

    def a_len(self, m):
        return self.dunder(m, "__len__")

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if not names:
            return None
        c = [self.cls]
        seen = set()
        known = True
        while c:
            x = c.pop()
            if x.qual in names:
                return True
            for b in x.bases:
                if b and b[0] == "class" and b[1].qual not in seen:
                    seen.add(b[1].qual)
                    c.append(b[1])
                elif b and b[0] in ("ext", "builtin"):
                    if b[1] in names:
                        return True
                elif b is None:
                    known = False
        return False if known else None


class Super:
    def __init__(self, inst, cls):
        self.inst, self.cls = inst, cls


CONCRETE = (str, bytes, int, float, complex, bool, type(None), tuple, list,
            dict, set, frozenset, range, slice, re.Pattern, re.Match)
NAMES = {str: "str", bytes: "bytes", int: "int", float: "float",
         tuple: "tuple", list: "list", dict: "dict", set: "set",
         bool: "bool", frozenset: "frozenset", type(None): "NoneType",
         range: "range", slice: "slice", complex: "complex"}
ABCS = {"Sequence": (str, bytes, tuple, list, range),
        "MutableSequence": (list,), "Mapping": (dict,),
        "MutableMapping": (dict,), "Set": (set, frozenset),
        "Iterable": (str, bytes, tuple, list, dict, set, frozenset, range),
        "Collection": (str, bytes, tuple, list, dict, set, frozenset, range),
        "Container": (str, bytes, tuple, list, dict, set, frozenset, range),
        "Sized": (str, bytes, tuple, list, dict, set, frozenset, range),
        "Hashable": (str, bytes, int, float, tuple, frozenset, type(None)),
        "Callable": (), "Number": (int, float, complex),
        "Integral": (int,), "Real": (int, float)}
EXT = {"itertools.product": itertools.product,
       "itertools.chain": itertools.chain,
       "itertools.chain.from_iterable": itertools.chain.from_iterable,
       "itertools.repeat": itertools.repeat,
       "itertools.accumulate": itertools.accumulate,
       "itertools.zip_longest": itertools.zip_longest,
       "itertools.count": itertools.count,
       "itertools.islice": itertools.islice,
       "itertools.starmap": itertools.starmap,
       "itertools.pairwise": itertools.pairwise,
       "functools.reduce": functools.reduce,
       "operator.add": operator.add, "operator.mul": operator.mul,
       "operator.sub": operator.sub, "operator.contains": operator.contains,
       "operator.itemgetter": operator.itemgetter,
       "operator.or_": operator.or_, "operator.and_": operator.and_,
       "operator.eq": operator.eq, "operator.ne": operator.ne,
       "operator.methodcaller": operator.methodcaller,
       "operator.not_": operator.not_,
       "math.ceil": math.ceil, "math.floor": math.floor,
       "math.prod": math.prod, "math.log2": math.log2,
       "re.compile": re.compile, "re.match": re.match, "re.sub": re.sub,
       "re.search": re.search, "re.fullmatch": re.fullmatch,
       "re.split": re.split, "re.findall": re.findall,
       "types.MappingProxyType": dict, "copy.copy": None,
       "collections.OrderedDict": dict,
       "collections.Counter": __import__("collections").Counter,
       "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz"}
# functools.reduce, math.prod, ... are given abstract values that carry
# their own operators; nothing of the analysed program runs
CONVS = {"int", "float", "str", "bool", "complex", "bytes", "abs", "round",
         "repr", "list", "tuple", "set", "frozenset", "dict", "sorted",
         "min", "max", "sum", "ord", "chr", "hex", "hash", "bytearray",
         "iter", "next", "reversed", "enumerate", "zip", "map", "filter",
         "any", "all"}
EXC_PARENT = {n: getattr(_b, n).__mro__[1].__name__ for n in dir(_b)
              if isinstance(getattr(_b, n), type) and issubclass(
                  getattr(_b, n), BaseException)}


def deep_abstract(v, depth=3):
    if isinstance(v, AObj):
        return True
    if depth and isinstance(v, (tuple, list, set, frozenset)):
        return any(deep_abstract(x, depth - 1) for x in v)
    if depth and isinstance(v, dict):
        return any(deep_abstract(x, depth - 1) for x in v.values())
    return False


class Env:
    def __init__(self, up=None):
        self.d = {}
        self.up = up
        self.comp = False       # scope of a comprehension
        self.outer = set()      # nonlocal names

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        raise KeyError(k)

    def set(self, k, v):
        if k in self.outer:
            e = self.up
            while e is not None:
                if k in e.d:
                    e.d[k] = v
                    return
                e = e.up
        self.d[k] = v


class Model:
    """what a rule knows about the outside world; NotImplemented = default"""
    follow = ()         # vendored modules to look into

    def ext_call(self, m, name, args, kw, node):
        return NotImplemented

    def func_call(self, m, func, args, kw, node, me):
        return NotImplemented

    def new(self, m, cls, args, kw, node):
        return NotImplemented

    def global_value(self, m, module, name):
        return NotImplemented

    def method(self, m, obj, name, args, kw, node):
        """a method of a value the analysis follows concretely"""
        return NotImplemented

    def enter(self, m, obj, node):
        return obj

    def exit(self, m, obj, exc, node):
        """-> True if the exception is suppressed"""
        return False

    def derive(self, m, srcs, what):
        t = frozenset()
        for s in srcs:
            if isinstance(s, AObj):
                t |= s.tags
        return Top(t, what)

    def can_raise(self, m, what, node):
        """names of exceptions to explore at an external call"""
        return ()


class Path:
    def __init__(self, kind, value, m):
        self.kind, self.value = kind, value     # return | raise
        self.events = m.events
        self.decisions = dict(m.facts)
        self.trail = m.trail


class Machine:
    def __init__(self, prog, model=None, steps=150_000, limit=3000,
                 unroll=2):
        self.p = prog
        self.model = model or Model()
        self.max_steps, self.limit, self.unroll = steps, limit, unroll
        self.functions = set()
        self.gcache = {}
        self.turns = 200
        self.set_order = 0      # 1, -1: sets are gone through in order

    # ---------------------------------------------------------------- paths
    def paths(self, fn, make):
        """all paths of fn (Func or callable(machine)) on the arguments
        make(machine) -> (args, kwargs); yields Path.  Raises Undecided."""
        global CUR
        stack = [[]]
        n = 0
        while stack:
            pre = stack.pop()
            n += 1
            if n > self.limit:
                raise Undecided("too many paths")
            self.reset(pre)
            old, CUR = CUR, self
            try:
                try:
                    args, kw = make(self)
                    if callable(fn) and not hasattr(fn, "qual"):
                        v = fn(self, *args, **kw)
                    else:
                        v = self.call_func(fn, list(args), dict(kw), None)
                    r = Path("return", v, self)
                except AExc as x:
                    r = Path("raise", x, self)
                except Prune:
                    r = None
                except RecursionError:
                    raise Undecided("recursion")
            finally:
                CUR = old
            for i in range(len(pre), len(self.taken)):
                if self.open[i]:
                    stack.append(self.taken[:i] + [not self.taken[i]])
            if r is not None:
                yield r

    def reset(self, pre):
        self.pre = pre
        self.taken = []
        self.open = []
        self.facts = {}
        self.events = []
        self.trail = []
        self.steps = self.max_steps
        self.depth = 0
        self.gvals = {}
        self.frames = []
        self.loops = {}

    def fork(self, what=None):
        """a two-way choice, True first"""
        i = len(self.taken)
        b = self.pre[i] if i < len(self.pre) else True
        self.taken.append(b)
        self.open.append(True)
        if what is not None:
            self.trail.append((what, b))
        return b

    def decide(self, key):
        if key not in self.facts:
            self.facts[key] = self.fork(key)
        return self.facts[key]

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Undecided("too many steps")

    def event(self, *ev):
        self.events.append(ev)

    def where(self):
        for f, node in reversed(self.frames):
            if f is not None:
                return f, node
        return None, None

    # --------------------------------------------------------------- values
    def derive(self, *srcs, what=""):
        flat = []
        for s in srcs:
            self._flat(s, flat, 4)
        return self.model.derive(self, flat, what)

    def _flat(self, s, out, n):
        if isinstance(s, AObj):
            out.append(s)
        elif n and isinstance(s, (tuple, list, set, frozenset)):
            for x in s:
                self._flat(x, out, n - 1)
        elif n and isinstance(s, dict):
            for x in s.values():
                self._flat(x, out, n - 1)

    def truth(self, v):
        if isinstance(v, AObj):
            t = v.a_truth(self)
            if t is not None:
                return t
            return self.decide(("true", v.key()))
        if isinstance(v, (Fn, Ext, Cls, ModRef, Partial)):
            return True
        return bool(v)

    def kof(self, v):
        if isinstance(v, AObj):
            return v.key()
        try:
            hash(v)
            return v
        except TypeError:
            return repr(v)

    def unbound(self, x):
        """an attribute of an unknown object that turned out not to be
        called"""
        if isinstance(x, BoundM) and isinstance(x.obj, AObj):
            return self.part(x.obj, ("attr", x.name), x.name)
        return x

    def compare(self, op, a, b):
        a, b = self.unbound(a), self.unbound(b)
        self.tick()
        for x, y, rev in ((a, b, False), (b, a, True)):
            if isinstance(x, AObj):
                r = x.a_cmp(self, op, y, rev)
                if r is not NotImplemented:
                    return r
        if op in ("is", "is not") and (a is None or b is None):
            x = b if a is None else a
            if isinstance(x, AObj):
                if isinstance(x, (Inst, Cond)):
                    return op == "is not"
                return Cond(("none", x.key()), op == "is", (x,))
            return (x is None) is (op == "is")
        if op in ("is", "is not") and isinstance(a, AObj) and isinstance(
                b, AObj):
            if a is b:
                return op == "is"
        if op in ("in", "not in") and isinstance(b, (tuple, list, set,
                                                     frozenset)) and (
                isinstance(a, AObj) or deep_abstract(b)):
            if len(b) == 0:
                return op == "not in"
            if isinstance(a, Top):
                # one decision for the whole membership test
                return Cond(("in", self.kof(a), repr(b)), op == "in", (a,))
            return any(x is a or self.truth(self.compare("==", a, x))
                       for x in b) is (op == "in")
        if isinstance(a, AObj) or isinstance(b, AObj) and op not in (
                "in", "not in") or isinstance(b, AObj):
            pos = True
            if op in NEG:
                op, pos = NEG[op], False
            if op == "is":
                op = "=="
            if op == "==" and not isinstance(a, AObj):
                a, b = b, a
            return Cond((op, self.kof(a), self.kof(b)), pos, (a, b))
        try:
            return PYCMP[op](a, b)
        except (AExc, Undecided, Prune, _Return):
            raise
        except Exception as x:
            raise AExc(type(x).__name__)

    def binop(self, op, a, b):
        a, b = self.unbound(a), self.unbound(b)
        self.tick()
        for x, y, rev in ((a, b, False), (b, a, True)):
            if isinstance(x, AObj):
                r = x.a_bin(self, op, y, rev)
                if r is not NotImplemented:
                    return r
        if isinstance(a, AObj) or isinstance(b, AObj):
            if op == "%" and isinstance(a, str):
                return "\0"
            return self.derive(a, b, what=op)
        if op in ("**", "<<") and isinstance(b, (int, float)) and b > 4096:
            raise Undecided("power")
        if op == "*" and any(isinstance(x, int) and x > 1 << 20
                             for x in (a, b)) and any(isinstance(
                                 x, (str, list, tuple, bytes))
                                 for x in (a, b)):
            raise Undecided("size")
        return self.native(PYBIN[op], a, b)

    def unop(self, op, v):
        if op == "not":
            return not self.truth(v)
        if isinstance(v, AObj):
            r = v.a_un(self, op)
            return self.derive(v, what=op) if r is NotImplemented else r
        return self.native({"-": operator.neg, "+": operator.pos,
                            "~": operator.invert}[op], v)

    def native(self, f, *a, **k):
        """an operation of Python itself on values followed as they are"""
        try:
            return f(*a, **k)
        except (AExc, Undecided, Prune, _Return, _Break, _Continue):
            raise
        except RecursionError:
            raise Undecided("recursion")
        except StopIteration:
            raise AExc("StopIteration")
        except Exception as x:
            self.note = (str(x), self.where())
            raise AExc(type(x).__name__)

    def part(self, v, k, what, tags_from=()):
        """a part of a Top: the same part each time it is asked for"""
        try:
            hash(k)
        except TypeError:
            return self.derive(v, *tags_from, what=what)
        if isinstance(v, Top):
            if k not in v.parts:
                v.parts[k] = self.derive(v, *tags_from, what=what)
            return v.parts[k]
        return self.derive(v, *tags_from, what=what)

    def getitem(self, b, k):
        self.tick()
        if isinstance(b, AObj):
            r = b.a_item(self, k)
            if r is not NotImplemented:
                return r
            try:
                kk = ("item", self.kof(k)) if not isinstance(
                    k, slice) else ("item", repr(k))
            except Exception:
                kk = ("item", repr(k))
            return self.part(b, kk, f"{b}[{k}]")
        if isinstance(b, (Ext, Fn, Cls)):
            return self.derive(what="subscripted")
        if isinstance(k, AObj) or isinstance(k, slice) and any(isinstance(
                x, AObj) for x in (k.start, k.stop, k.step)):
            if isinstance(b, dict) and not isinstance(k, slice):
                for kk in b:
                    if kk is k:
                        return b[kk]
                for kk, vv in b.items():
                    if self.truth(self.compare("==", k, kk)):
                        return vv
                raise AExc("KeyError")
            return self.derive(b, k, what="item")
        return self.native(operator.getitem, b, k)

    def setitem(self, b, k, v):
        if isinstance(b, AObj):
            if isinstance(b, Top):
                b.parts.pop(("item", self.kof(k)), None)
            b.a_setitem(self, k, v)
            return
        if isinstance(b, (dict, list)):
            if isinstance(k, AObj) and isinstance(b, list):
                for i in range(len(b)):
                    b[i] = self.derive(b[i], v, what="item")
                return
            self.native(operator.setitem, b, k, v)
            return
        if isinstance(b, bytearray):
            if isinstance(k, AObj) or deep_abstract(v):
                raise Undecided("a byte that is not followed")
            self.native(operator.setitem, b, k, v)
            return
        raise AExc("TypeError")

    def delitem(self, b, k):
        if isinstance(b, AObj):
            b.a_delitem(self, k)
            return
        self.native(operator.delitem, b, k)

    def iterate(self, v):
        """the elements, as a Python list"""
        if isinstance(v, AObj):
            r = v.a_iter(self)
            if r is not None:
                return list(r)
            if isinstance(v, Inst):
                f = self.p.find_method(v.cls, "__iter__")
                if f is not None:
                    return self.iterate(self.call_func(f, [v], {}, None))
            out = []
            for i in range(self.unroll):
                if not self.decide(("iter", v.key(), i)):
                    break
                out.append(self.part(v, ("el", i), f"element of {v}"))
            return out
        if isinstance(v, (Ext, Fn, Cls, ModRef, Partial)):
            raise AExc("TypeError")
        if isinstance(v, (itertools.count, itertools.repeat,
                          itertools.cycle)):
            return list(itertools.islice(v, max(self.unroll, 50)))
        if self.set_order and isinstance(v, (set, frozenset)):
            try:
                return sorted(v)[::self.set_order]
            except TypeError:
                pass
        return self.native(list, v)

    def getattr(self, v, name, node=None, plain=False):
        self.tick()
        if isinstance(v, Inst):
            r = v.a_attr(self, name)
            if r is not NotImplemented:
                return r
            if name in v.attrs:
                return v.attrs[name]
            f = self.p.find_method(v.cls, name)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id in (
                        "property", "cached_property") or isinstance(
                        d, ast.Attribute) and d.attr in (
                        "cached_property",) for d in f.decorators):
                    return self.call_func(f, [v], {}, node)
                return Fn(f, None, None if f.is_static else v)
            a = self.class_attr(v.cls, name)
            if a is not None:
                return a[0]
            if name == "__dict__":
                return v.attrs
            if name == "__class__":
                return Cls(v.cls)
            g = None if plain else self.p.find_method(
                v.cls, "__getattribute__")
            if g is not None:
                try:
                    return self.call_func(g, [v, name], {}, node)
                except AExc as e:
                    if e.name != "AttributeError" or self.p.find_method(
                            v.cls, "__getattr__") is None:
                        raise
            g = None if plain else self.p.find_method(v.cls, "__getattr__")
            if g is not None:
                return self.call_func(g, [v, name], {}, node)
            if all(b and b[0] == "class" for b in v.cls.bases):
                raise AExc("AttributeError")
            return self.derive(what=name)
        if isinstance(v, AObj):
            if name == "__class__" and getattr(v, "pyclass", None):
                return Ext(v.pyclass)
            r = v.a_attr(self, name)
            if r is not NotImplemented:
                return r
            return BoundM(v, name)
        if isinstance(v, ModRef):
            return self.ref(self.p.resolve_module_attr(v.module, name),
                            v.module)
        if isinstance(v, Ext):
            if name == "__name__":
                return v.name.split(".")[-1]
            return self.ref(("ext", f"{v.name}.{name}"), None)
        if isinstance(v, Cls):
            f = self.p.find_method(v.cls, name)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id == "classmethod"
                       for d in f.decorators):
                    return Fn(f, None, v)
                return Fn(f)
            a = self.class_attr(v.cls, name)
            if a is not None:
                return a[0]
            if name == "__name__":
                return v.cls.name
            return self.derive(what=name)
        if isinstance(v, Super):
            for b in v.cls.bases:
                if b and b[0] == "class":
                    f = self.p.find_method(b[1], name)
                    if f is not None:
                        return Fn(f, None, v.inst)
            if name == "__getattribute__" and isinstance(v.inst, Inst):
                return lambda n: self.getattr(v.inst, n, plain=True)
            if name == "__setattr__" and isinstance(v.inst, Inst):
                return lambda n, x: self.setattr(v.inst, n, x)
            return lambda *a, **k: None
        if isinstance(v, Fn):
            if name == "__name__":
                return v.func.name
            return self.derive(what=name)
        if isinstance(v, type) and v in NAMES:
            x = getattr(v, name, None)
            if callable(x) or isinstance(x, str):
                return x
            return self.derive(what=name)
        if isinstance(v, CONCRETE) or type(v).__module__ in (
                "builtins", "itertools", "re", "collections"):
            if not hasattr(v, name):
                raise AExc("AttributeError")
            x = getattr(v, name)
            if callable(x) and not isinstance(x, (type, AObj)):
                return BoundM(v, name)
            return x
        return self.derive(what=name)

    def names_in(self, v):
        out, todo = set(v.attrs), [v.cls]
        seen = []
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.append(c)
            out |= set(c.methods) | set(c.attrs)
            todo += [b[1] for b in c.bases if b and b[0] == "class"]
        return out

    def class_attr(self, cls, name, seen=()):
        if name in cls.attrs:
            return (self.ev(cls.attrs[name], Env(), cls.module, None),)
        for b in cls.bases:
            if b and b[0] == "class" and b[1].qual not in seen:
                r = self.class_attr(b[1], name, seen + (b[1].qual,))
                if r is not None:
                    return r
        return None

    def setattr(self, v, name, val):
        if isinstance(v, Inst):
            v.attrs[name] = val
            v.a_setattr(self, name, val)
        elif isinstance(v, AObj):
            if isinstance(v, Top):
                v.parts.pop(("attr", name), None)
            v.a_setattr(self, name, val)
        elif isinstance(v, Fn) and name == "__signature__":
            v.names = val if isinstance(val, (list, tuple)) else None

    # ----------------------------------------------------------- references
    def ref(self, r, module):
        if r is None:
            return self.derive(what="?")
        k = r[0]
        if k == "global":
            return self.global_value(r[1], r[2])
        if k == "func":
            return self.decorated(r[1]) if self.decorate else Fn(r[1])
        if k == "class":
            return Cls(r[1])
        if k == "module":
            return ModRef(r[1])
        if k == "ext":
            v = self.model.global_value(self, None, r[1])
            if v is not NotImplemented:
                return v
            if r[1] in EXT and EXT[r[1]] is not None and not callable(
                    EXT[r[1]]):
                return EXT[r[1]]
            return Ext(r[1])
        if k == "builtin":
            n = r[1]
            x = getattr(_b, n, None)
            if isinstance(x, type) and x in NAMES:
                return x
            return Ext("builtins." + n)
        if k == "classattr":
            a = self.class_attr(r[1], r[2])
            if a is not None:
                return a[0]
        return self.derive(what="?")

    decorate = False    # apply the program's own decorators to its functions

    def decorated(self, func):
        """the value a function's name stands for"""
        k = ("$decorated", func.qual)
        if k not in self.gvals:
            v = Fn(func)
            if func.cls is None and not isinstance(func.node, ast.Lambda):
                for d in reversed(func.node.decorator_list):
                    dv = self.ev(d, Env(), func.module, None)
                    if isinstance(dv, (Fn, Partial)):
                        v = self.call_value(dv, [v], {}, d)
            self.gvals[k] = v
        return self.gvals[k]

    def global_value(self, module, name):
        k = (module.name, name)
        if k in self.gvals:
            return self.gvals[k]
        v = self.model.global_value(self, module, name)
        if v is NotImplemented:
            v = self._global(module, name)
        self.gvals[k] = v
        return v

    def _global(self, module, name, before=None):
        last = None
        for st in module.tree.body:
            if before is not None and st.lineno >= before:
                break
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                               ast.ImportFrom)):
                continue
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [
                    st.target]
                if any(isinstance(t, ast.Name) and t.id == name
                       for t in ts):
                    last = (st, last)
                elif any(isinstance(n, ast.Name) and n.id == name and
                         isinstance(n.ctx, ast.Store)
                         for t in ts for n in ast.walk(t)):
                    last = (None, None)
            elif any(isinstance(n, ast.Name) and n.id == name and isinstance(
                    n.ctx, ast.Store) for n in ast.walk(st)):
                last = (None, None)
        return self._gval(module, last)

    def _gval(self, module, rec):
        if rec is None or rec[0] is None:
            return self.derive(what="global")
        st, prev = rec
        if isinstance(st, ast.AnnAssign) and st.value is None:
            return self.derive(what="global")
        v = self.ev(st.value, Env(), module, None)
        if isinstance(st, ast.AugAssign):
            return self.binop(BIN[type(st.op)], self._gval(module, prev), v)
        return v

    # ---------------------------------------------------------------- calls
    def call_value(self, f, args, kw, node):
        self.tick()
        if isinstance(f, Fn):
            if f.me is not None:
                args = [f.me] + args
            return self.call_func(f.func, args, kw, node, f.cenv, f.me)
        if isinstance(f, BoundM):
            return self.call_method(f.obj, f.name, args, kw, node)
        if isinstance(f, Partial):
            return self.call_value(f.fn, list(f.args) + args,
                                   {**f.kw, **kw}, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f.cls, args, kw, node)
        if isinstance(f, Inst):
            g = self.p.find_method(f.cls, "__call__")
            if g is not None:
                return self.call_func(g, [f] + args, kw, node, None, f)
            return self.derive(args, kw, what="call")
        if isinstance(f, AObj):
            r = f.a_call(self, args, kw, node)
            return self.derive(f, args, kw, what="call") if \
                r is NotImplemented else r
        if isinstance(f, type) and f in NAMES:
            return self.call_ext("builtins." + NAMES[f], args, kw, node)
        if callable(f):
            return self.native(f, *args, **kw)
        if f is None or isinstance(f, CONCRETE):
            raise AExc("TypeError")
        return self.derive(args, kw, what="call")

    def instantiate(self, cls, args, kw, node):
        r = self.model.new(self, cls, args, kw, node)
        if r is not NotImplemented:
            return r
        if self.is_exc(cls.qual):
            return ExcVal(cls.qual, args)
        ini = self.p.find_method(cls, "__init__")
        o = Inst(cls)
        if ini is not None:
            self.call_func(ini, [o] + args, kw, node, None, o)
            return o
        if any(b and b[0] != "class" for b in cls.bases) or cls.node.\
                decorator_list:
            return self.derive(args, kw, what=cls.name)
        return o

    def is_exc(self, q, seen=()):
        c = self.p.classes.get(q)
        if c is None:
            return q.split(".")[-1] in EXC_PARENT
        for b in c.bases:
            if b is None:
                continue
            n = b[1].qual if b[0] == "class" else b[1]
            if n not in seen and isinstance(n, str) and self.is_exc(
                    n, seen + (q,)):
                return True
        return False

    def exc_names(self, q):
        """q and its ancestors"""
        out = []
        todo = [q]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            c = self.p.classes.get(x)
            if c is not None:
                for b in c.bases:
                    if b:
                        todo.append(b[1].qual if b[0] == "class" else b[1])
            elif x in EXC_PARENT:
                todo.append(EXC_PARENT[x])
            elif x not in ("object", "BaseException"):
                todo.append("Exception")
        return out

    def call_method(self, obj, name, args, kw, node):
        self.tick()
        r = self.model.method(self, obj, name, args, kw, node)
        if r is not NotImplemented:
            return r
        if isinstance(obj, AObj):
            r = obj.a_method(self, name, args, kw, node)
            if r is not NotImplemented:
                return r
            if isinstance(obj, Top):
                try:
                    k = ("call", name, tuple(self.kof(a) for a in args),
                         tuple(sorted((n, self.kof(v))
                                      for n, v in kw.items())))
                    hash(k)
                except TypeError:
                    k = None
                if k is not None:
                    return self.part(obj, k, f".{name}()", (args, kw))
            return self.derive(obj, args, kw, what=f".{name}()")
        if isinstance(obj, str) and deep_abstract(args):
            if name == "join":
                return "\0".join(str(x) if isinstance(x, str) else "\0"
                                 for x in self.iterate(args[0]))
            if name == "format":
                return obj + "\0"
            return self.derive(args, what=name)
        if isinstance(obj, dict) and args and isinstance(
                args[0], AObj) and name in ("get", "pop"):
            for kk, vv in obj.items():
                if kk is args[0] or self.truth(self.compare(
                        "==", args[0], kk)):
                    return vv
            if len(args) > 1:
                return args[1]
            if name == "get":
                return None
            raise AExc("KeyError")
        if isinstance(obj, (list, tuple)) and name in (
                "index", "count") and (deep_abstract(obj) or deep_abstract(
                    args)):
            hits = [i for i, x in enumerate(obj) if x is args[0]
                    or self.truth(self.compare("==", x, args[0]))]
            if name == "count":
                return len(hits)
            if hits:
                return hits[0]
            raise AExc("ValueError")
        if isinstance(obj, (list, dict, set)) and name in (
                "extend", "update", "union") and args and isinstance(
                args[0], AObj) and not isinstance(obj, dict):
            args = [self.iterate(args[0])] + args[1:]
        if isinstance(obj, dict) and name == "update" and args and \
                isinstance(args[0], AObj):
            return self.derive(args, what="update")
        return self.native(getattr(obj, name), *args, **kw)

    def call_ext(self, name, args, kw, node):
        r = self.model.ext_call(self, name, args, kw, node)
        if r is not NotImplemented:
            return r
        for n in self.model.can_raise(self, name, node):
            if self.fork(("raises", name, n)):
                raise AExc(n)
        if name.startswith("builtins."):
            return self.builtin(name[9:], args, kw, node)
        if name in ("copy.copy", "copy.deepcopy"):
            return self.copy(args[0], name.endswith("deepcopy"))
        if name in ("functools.partial",):
            return Partial(args[0], args[1:], kw)
        if name in ("dustgoggles.func.constant",):
            v = args[0]
            return lambda *a, **k: v
        if name == "functools.wraps":
            return Wraps(args[0])
        f = EXT.get(name)
        if callable(f):
            return self.native(f, *args, **kw)
        if self.is_exc(name) and name.split(".")[-1] == name.split(
                ".")[-1].capitalize():
            return ExcVal(name, args)
        if node is not None and args and name.startswith("functools."):
            return args[0] if len(args) == 1 else self.derive(args, kw)
        return self.derive(args, kw, what=name)

    def copy(self, v, deep):
        if isinstance(v, (dict, list, set)):
            c = v.copy()
            if deep:
                if isinstance(c, dict):
                    c = {k: self.copy(x, True) for k, x in c.items()}
                elif isinstance(c, list):
                    c = [self.copy(x, True) for x in c]
            return c
        if isinstance(v, AObj):
            r = v.a_method(self, "copy", [], {}, None)
            if r is NotImplemented:
                return self.derive(v, what="copy")
            return r
        return v

    def typenames(self, t):
        """qualified names a type argument stands for, or None"""
        if isinstance(t, tuple):
            out = []
            for x in t:
                n = self.typenames(x)
                if n is None:
                    return None
                out += n
            return out
        if isinstance(t, type) and t in NAMES:
            return [NAMES[t]]
        if isinstance(t, Ext):
            return [t.name[9:] if t.name.startswith("builtins.")
                    else t.name]
        if isinstance(t, Cls):
            return [t.cls.qual]
        return None

    def isinstance(self, v, t):
        names = self.typenames(t)
        if isinstance(v, AObj):
            r = v.a_isinstance(self, names)
            if r is None:
                return Cond(("isinstance", v.key(), tuple(
                    sorted(names or ["?"]))), True, (v,))
            return r
        if names is None:
            return Cond(("isinstance", self.kof(v), "?"))
        if isinstance(v, (Fn, Ext, Cls, ModRef, Partial)):
            return any(n.split(".")[-1] in ("Callable", "FunctionType",
                                            "object") for n in names)
        for n in names:
            last = n.split(".")[-1]
            if n == "object":
                return True
            if last in ("OrderedDict", "Counter", "defaultdict") and \
                    type(v).__name__ == last:
                return True
            for py, nm in NAMES.items():
                if n == nm and isinstance(v, py):
                    return True
            if n not in NAMES.values() and last in ABCS and isinstance(
                    v, ABCS[last]):
                return True
        return False

    def builtin(self, name, args, kw, node):
        if name not in ("callable", "map", "filter", "sorted", "min", "max"):
            args = [self.unbound(a) for a in args]
        if name == "isinstance" and len(args) == 2:
            return self.isinstance(*args)
        if name in ("len",):
            v = args[0]
            if isinstance(v, AObj):
                r = v.a_len(self)
                return self.part(v, ("len",), "len") if \
                    r is NotImplemented else r
            return self.native(len, v)
        if name == "getattr":
            if not isinstance(args[1], str):
                return self.derive(args, what="getattr")
            try:
                return self.getattr(args[0], args[1], node)
            except AExc as x:
                if x.name == "AttributeError" and len(args) > 2:
                    return args[2]
                raise
        if name == "hasattr":
            if isinstance(args[0], Inst):
                try:
                    self.getattr(args[0], args[1], node)
                    return True
                except AExc:
                    return False
            if isinstance(args[0], AObj) and isinstance(args[1], str):
                try:
                    if args[0].a_attr(self, args[1]) is not NotImplemented:
                        return True
                except AExc:
                    return False
            if isinstance(args[0], AObj):
                return Cond(("hasattr", args[0].key(), args[1]), True,
                            (args[0],))
            return hasattr(args[0], args[1])
        if name == "setattr":
            self.setattr(args[0], args[1], args[2])
            return None
        if name == "type" and len(args) == 1:
            if isinstance(args[0], Inst):
                return Cls(args[0].cls)
            if not isinstance(args[0], AObj) and type(args[0]) in NAMES:
                return type(args[0])
            if isinstance(args[0], AObj):
                if getattr(args[0], "pyclass", None):
                    return Ext(args[0].pyclass)
                r = args[0].a_attr(self, "__class__")
                if r is not NotImplemented:
                    return r
            return self.derive(args, what="type")
        if name == "callable":
            v = args[0]
            if isinstance(v, AObj) and not isinstance(v, Inst):
                return Cond(("callable", v.key()), True, (v,))
            return isinstance(v, (Fn, Ext, Cls, Partial, BoundM)) or \
                callable(v) and not isinstance(v, AObj)
        if name == "super":
            if args:
                return Super(args[1], args[0].cls)
            for fr in reversed(self.selfs):
                if fr[0] is not None:
                    return Super(fr[0], fr[1])
            return self.derive(what="super")
        if name == "dir" and args and isinstance(args[0], Inst):
            r = args[0].dunder(self, "__dir__")
            if r is not NotImplemented:
                return sorted(self.iterate(r))
            return sorted(self.names_in(args[0]))
        if name in ("print", "id", "open", "input", "exec", "eval",
                    "compile", "vars", "dir", "globals", "locals",
                    "breakpoint", "__import__", "memoryview"):
            return self.derive(args, kw, what=name)
        if self.is_exc(name):
            return ExcVal(name, args)
        if name in ("any", "all") and len(args) == 1:
            for x in self.iterate(args[0]):
                if self.truth(x) is (name == "any"):
                    return name == "any"
            return name == "all"
        if name in ("map", "filter"):
            f, its = args[0], [self.iterate(a) for a in args[1:]]
            if name == "map":
                return [self.call_value(f, list(xs), {}, node)
                        for xs in zip(*its)]
            return [x for x in its[0] if self.truth(
                x if f is None else self.call_value(f, [x], {}, node))]
        if name in ("int", "float", "str", "bool", "complex", "bytes", "abs",
                    "round", "repr", "ord", "chr", "hex", "hash",
                    "bytearray") and args and isinstance(args[0], AObj):
            v = args[0]
            if name == "bool":
                return self.truth(v)
            r = v.a_conv(self, name)
            if r is not NotImplemented:
                return r
            if name in ("str", "repr"):
                return self.part(v, ("conv", name), name)
            return self.part(v, ("conv", name), name)
        if name in ("list", "tuple", "set", "frozenset") and len(args) == 1:
            if isinstance(args[0], Top) and name in ("list", "tuple"):
                return self.part(args[0], ("conv", name), name)
            return getattr(_b, name)(self.iterate(args[0]))
        if name == "dict" and args and isinstance(args[0], AObj):
            r = args[0].a_conv(self, "dict")
            if r is not NotImplemented:
                if kw and isinstance(r, dict):
                    r = {**r, **kw}
                return r
            return self.part(args[0], ("conv", name), name)
        if name in ("zip", "enumerate", "reversed", "sorted", "min", "max",
                    "sum"):
            args = [self.iterate(a) if isinstance(a, AObj) and (
                len(args) == 1 or name in ("zip",) or i == 0 and name not in
                ("min", "max")) else a for i, a in enumerate(args)]
            if name in ("sorted", "min", "max") and any(
                    deep_abstract(a) for a in args):
                if name == "sorted":
                    return list(args[0])
                vals = args[0] if len(args) == 1 else args
                if name in ("min", "max") and vals and not kw and all(
                        isinstance(v, (int, float)) or
                        getattr(v, "ordered", False) for v in vals):
                    return self.native(getattr(_b, name), list(vals))
                return self.derive(vals, what=name)
            r = self.native(getattr(_b, name), *args, **kw)
            return list(r) if name in ("zip", "enumerate",
                                       "reversed") else r
        if name == "iter" and len(args) == 2:
            out = []
            while True:
                x = self.call_value(args[0], [], {}, node)
                if self.truth(self.compare("==", x, args[1])):
                    return out
                out.append(x)
                if len(out) > self.turns:
                    self.endless(node, None, None)
        if name == "iter":
            return iter(self.iterate(args[0]))
        if name == "next":
            if isinstance(args[0], AObj):
                return self.derive(args[0], what="next")
            if isinstance(args[0], list):       # an eager generator
                if args[0]:
                    return args[0].pop(0)
                if len(args) > 1:
                    return args[1]
                raise AExc("StopIteration")
            return self.native(next, *args)
        if name == "slice":
            return slice(*args)
        x = getattr(_b, name, None)
        if callable(x) and name in ("int", "float", "str", "bool", "dict",
                                    "bytes", "abs", "round", "repr", "ord",
                                    "chr", "hex", "range", "divmod", "pow",
                                    "hash", "list", "tuple", "set",
                                    "frozenset", "format", "bytearray",
                                    "complex", "bin", "issubclass"):
            if deep_abstract(args) and name in ("range", "divmod", "pow",
                                                "format"):
                return self.derive(args, what=name)
            if name == "range" and args and any(
                    isinstance(a, int) and a > 100_000 for a in args):
                raise Undecided("range")
            return self.native(x, *args, **kw)
        return self.derive(args, kw, what=name)

    selfs = []

    def bind(self, func, args, kw, env):
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos, args))
        if len(args) > len(pos):
            if not a.vararg:
                raise AExc("TypeError")
            d[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            d[a.vararg.arg] = ()
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                d[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d[a.kwarg.arg] = extra
        elif extra:
            raise AExc("TypeError")
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults)
                    if y is not None})
        for n in names:
            if n not in d:
                if n not in dfl:
                    raise AExc("TypeError")
                e = Env(env)
                if func.cls is not None:
                    # a default sees the names of the class body
                    for x in ast.walk(dfl[n]):
                        if isinstance(x, ast.Name) and \
                                x.id in func.cls.attrs:
                            e.set(x.id, self.class_attr(func.cls, x.id)[0])
                d[n] = self.ev(dfl[n], e, func.module, func.parent)
        return d

    def call_func(self, func, args, kw, node, cenv=None, me=None):
        self.tick()
        r = self.model.func_call(self, func, args, kw, node, me)
        if r is not NotImplemented:
            return r
        return self.enter(func, args, kw, node, cenv, me)

    def enter(self, func, args, kw, node=None, cenv=None, me=None):
        self.functions.add(func.qual)
        if self.depth > 30:
            raise Undecided("depth")
        if func.vendored and func.module.name not in self.model.follow:
            return self.derive(args, kw, what=func.name)
        env = Env(cenv)
        env.d.update(self.bind(func, args, kw, cenv))
        self.depth += 1
        self.frames.append((func, node))
        self.selfs = getattr(self, "selfs", [])
        self.selfs.append((args[0] if func.cls is not None and args
                           else None, func.cls))
        try:
            if isinstance(func.node, ast.Lambda):
                return self.ev(func.node.body, env, func.module, func)
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                      for n in own_walk(func.node))
            if gen:
                env.d["$yield"] = []
            try:
                self.block(func.node.body, env, func)
                v = None
            except _Return as r:
                v = r.v
            if gen:
                return env.d["$yield"]
            return v
        finally:
            self.depth -= 1
            self.frames.pop()
            self.selfs.pop()

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, module, func):
        self.tick()
        return getattr(self, "e_" + type(e).__name__, self.e_other)(
            e, env, module, func)

    def e_other(self, e, env, module, func):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env, module, func)
        return self.derive(what=type(e).__name__)

    def e_Constant(self, e, env, module, func):
        return e.value

    def seq(self, es, env, module, func):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, env, module, func))
            else:
                out.append(self.ev(x, env, module, func))
        return out

    def e_Tuple(self, e, env, module, func):
        return tuple(self.seq(e.elts, env, module, func))

    def e_List(self, e, env, module, func):
        return self.seq(e.elts, env, module, func)

    def e_Set(self, e, env, module, func):
        return self.native(set, self.seq(e.elts, env, module, func))

    def e_Dict(self, e, env, module, func):
        out = {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env, module, func)
            if k is None:
                if isinstance(x, AObj):
                    c = x.a_conv(self, "dict")
                    if not isinstance(c, dict):
                        return self.derive(out, x, what="dict")
                    x = c
                self.native(out.update, x)
            else:
                self.native(out.__setitem__, self.ev(k, env, module, func),
                            x)
        return out

    def e_Name(self, e, env, module, func):
        try:
            return env.get(e.id)
        except KeyError:
            pass
        r = self.p.resolve_name(e.id, module, func)
        if r is not None and r[0] == "local":
            raise AExc("UnboundLocalError")
        return self.ref(r, module)

    def e_Attribute(self, e, env, module, func):
        return self.getattr(self.ev(e.value, env, module, func), e.attr, e)

    def e_UnaryOp(self, e, env, module, func):
        return self.unop({ast.USub: "-", ast.UAdd: "+", ast.Not: "not",
                          ast.Invert: "~"}[type(e.op)],
                         self.ev(e.operand, env, module, func))

    def e_BinOp(self, e, env, module, func):
        a = self.ev(e.left, env, module, func)
        return self.binop(BIN[type(e.op)], a,
                          self.ev(e.right, env, module, func))

    def e_BoolOp(self, e, env, module, func):
        v = None
        for x in e.values:
            v = self.ev(x, env, module, func)
            if self.truth(v) is not isinstance(e.op, ast.And):
                return v
        return v

    def e_Compare(self, e, env, module, func):
        a = self.ev(e.left, env, module, func)
        r = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(c, env, module, func)
            r = self.compare(CMP[type(op)], a, b)
            if i < len(e.ops) - 1 and not self.truth(r):
                return False
            a = b
        return r

    def e_IfExp(self, e, env, module, func):
        return self.ev(e.body if self.truth(self.ev(
            e.test, env, module, func)) else e.orelse, env, module, func)

    def e_JoinedStr(self, e, env, module, func):
        out = ""
        abstract = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
                continue
            x = self.ev(v.value, env, module, func)
            if isinstance(x, AObj) or deep_abstract(x):
                abstract.append(x)
                out += "\0"
                continue
            if isinstance(x, (Fn, Ext, Cls, ModRef, Partial)):
                out += "\0"
                continue
            spec = self.ev(v.format_spec, env, module, func) if \
                v.format_spec else ""
            if v.conversion == 114:
                x = repr(x)
            out += self.native(format, x, spec)
        if abstract:
            r = self.model.derive(self, self._fl(abstract), "f-string")
            if isinstance(r, Top):
                r.text = out
                r.srcs = abstract
            return r
        return out

    def _fl(self, xs):
        out = []
        self._flat(xs, out, 4)
        return out

    def e_FormattedValue(self, e, env, module, func):
        return self.ev(e.value, env, module, func)

    def e_Slice(self, e, env, module, func):
        return slice(*[None if x is None else self.ev(x, env, module, func)
                       for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, env, module, func):
        b = self.ev(e.value, env, module, func)
        return self.getitem(b, self.ev(e.slice, env, module, func))

    def comp(self, e, env, module, func, elt):
        out = []

        def gen(i, en):
            if i == len(e.generators):
                out.append(elt(en))
                return
            g = e.generators[i]
            for x in self.iterate(self.ev(g.iter, en, module, func)):
                en2 = Env(en)
                en2.comp = True
                self.assign(g.target, x, en2, func, module)
                if all(self.truth(self.ev(c, en2, module, func))
                       for c in g.ifs):
                    gen(i + 1, en2)
        gen(0, env)
        return out

    def e_ListComp(self, e, env, module, func):
        return self.comp(e, env, module, func, lambda en: self.ev(
            e.elt, en, module, func))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, module, func):
        return self.native(set, self.e_ListComp(e, env, module, func))

    def e_DictComp(self, e, env, module, func):
        return self.native(dict, self.comp(e, env, module, func, lambda en: (
            self.ev(e.key, en, module, func),
            self.ev(e.value, en, module, func))))

    def e_NamedExpr(self, e, env, module, func):
        v = self.ev(e.value, env, module, func)
        # the binding belongs to the function scope, not a comprehension
        while env.comp and env.up is not None:
            env = env.up
        env.set(e.target.id, v)
        return v

    def e_Lambda(self, e, env, module, func):
        f = self.p.node2func.get(e)
        return Fn(f, env) if f is not None else self.derive(what="lambda")

    def e_Await(self, e, env, module, func):
        return self.ev(e.value, env, module, func)

    def e_Yield(self, e, env, module, func):
        v = None if e.value is None else self.ev(e.value, env, module, func)
        env.get("$yield").append(v)
        return None

    def e_YieldFrom(self, e, env, module, func):
        env.get("$yield").extend(self.iterate(self.ev(
            e.value, env, module, func)))
        return None

    def e_Starred(self, e, env, module, func):
        return tuple(self.iterate(self.ev(e.value, env, module, func)))

    def e_Call(self, e, env, module, func):
        f = self.ev(e.func, env, module, func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args += self.iterate(self.ev(x.value, env, module, func))
            else:
                args.append(self.ev(x, env, module, func))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, module, func)
            if k.arg is None:
                if isinstance(v, AObj):
                    c = v.a_conv(self, "dict")
                    if isinstance(c, dict):
                        kw.update(c)
                    else:
                        return self.derive(f if isinstance(f, AObj) else (),
                                           args, kw, v, what="call **")
                else:
                    self.native(kw.update, v)
            else:
                kw[k.arg] = v
        return self.call_value(f, args, kw, e)

    # ----------------------------------------------------------- statements
    def assign(self, t, v, env, func, module):
        self.tick()
        if isinstance(t, ast.Name):
            if t.id in getattr(env, "globs", ()):
                self.gvals[(module.name, t.id)] = v
            else:
                env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if isinstance(v, AObj) and not isinstance(v, Inst) and \
                    v.a_iter(self) is None:
                vs = [self.part(v, ("un", i), f"{v}.{i}")
                      for i in range(len(t.elts))]
                for x, y in zip(t.elts, vs):
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                y, env, func, module)
                return
            vs = self.iterate(v)
            if star:
                i = star[0]
                n = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise AExc("ValueError")
                parts = vs[:i] + [vs[i:len(vs) - n]] + (
                    vs[len(vs) - n:] if n else [])
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                y, env, func, module)
                return
            if len(vs) != len(t.elts):
                raise AExc("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, func, module)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, module, func), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, module, func)
            self.setitem(b, self.ev(t.slice, env, module, func), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, func, module)

    def block(self, stmts, env, func):
        for st in stmts:
            self.stmt(st, env, func, func.module)

    def stmt(self, st, env, f, mod):
        self.tick()
        if self.frames:
            self.frames[-1] = (f, st)
        getattr(self, "s_" + type(st).__name__, self.s_other)(
            st, env, f, mod)

    def s_other(self, st, env, f, mod):
        raise Undecided(f"statement {type(st).__name__}")

    def s_Pass(self, st, env, f, mod):
        pass

    def s_Import(self, st, env, f, mod):
        pass

    s_ImportFrom = s_Import

    def s_Global(self, st, env, f, mod):
        env.globs = set(getattr(env, "globs", ())) | set(st.names)

    def s_Nonlocal(self, st, env, f, mod):
        env.outer |= set(st.names)

    def s_Expr(self, st, env, f, mod):
        self.ev(st.value, env, mod, f)

    def s_Return(self, st, env, f, mod):
        raise _Return(None if st.value is None else self.ev(
            st.value, env, mod, f))

    def s_Assign(self, st, env, f, mod):
        v = self.ev(st.value, env, mod, f)
        for t in st.targets:
            self.assign(t, v, env, f, mod)

    def s_AnnAssign(self, st, env, f, mod):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod, f), env, f,
                        mod)

    def s_AugAssign(self, st, env, f, mod):
        t = st.target
        op = BIN[type(st.op)]
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(
                id=t.id, ctx=ast.Load()), t), env, mod, f)
            self.assign(t, self.inplace(op, old, self.ev(
                st.value, env, mod, f)), env, f, mod)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, mod, f)
            self.setattr(b, t.attr, self.inplace(
                op, self.getattr(b, t.attr), self.ev(
                    st.value, env, mod, f)))
        else:
            b = self.ev(t.value, env, mod, f)
            k = self.ev(t.slice, env, mod, f)
            self.setitem(b, k, self.inplace(op, self.getitem(b, k), self.ev(
                st.value, env, mod, f)))

    def inplace(self, op, old, v):
        if isinstance(old, AObj):
            r = old.a_inplace(self, op, v)
            if r is not NotImplemented:
                return r
        elif isinstance(old, (list, dict, set)) and op in PYINP and not \
                isinstance(v, AObj):
            return self.native(PYINP[op], old, v)
        elif isinstance(old, list) and op == "+":
            old += self.iterate(v)
            return old
        return self.binop(op, old, v)

    def s_If(self, st, env, f, mod):
        self.block(st.body if self.truth(self.ev(st.test, env, mod, f))
                   else st.orelse, env, f)

    def s_For(self, st, env, f, mod):
        v = self.ev(st.iter, env, mod, f)
        n, unending = 0, isinstance(v, (itertools.count, itertools.repeat,
                                        itertools.cycle))
        for x in v if unending else self.iterate(v):
            n += 1
            if unending and n > self.turns:
                self.endless(st, env, f)
            self.assign(st.target, x, env, f, mod)
            try:
                self.block(st.body, env, f)
            except _Continue:
                continue
            except _Break:
                break
        else:
            self.block(st.orelse, env, f)

    def endless(self, st, env, f):
        """a loop that was gone round more often than self.turns"""
        raise Undecided("loop")

    def s_While(self, st, env, f, mod):
        n = 0
        while True:
            before = len(self.taken)
            if not self.truth(self.ev(st.test, env, mod, f)):
                self.block(st.orelse, env, f)
                return
            try:
                self.block(st.body, env, f)
            except _Continue:
                pass
            except _Break:
                return
            n += 1
            if n > self.unroll and len(self.taken) > before:
                raise Prune()
            if n > self.turns:
                self.endless(st, env, f)

    def s_Break(self, st, env, f, mod):
        raise _Break()

    def s_Continue(self, st, env, f, mod):
        raise _Continue()

    def s_FunctionDef(self, st, env, f, mod):
        g = self.p.node2func.get(st)
        v = Fn(g, env)
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env, mod, f)
            if isinstance(dv, Wraps):
                v = dv(v)
            elif isinstance(dv, (Fn, Partial)):
                v = self.call_value(dv, [v], {}, d)
        env.set(st.name, v)

    def s_ClassDef(self, st, env, f, mod):
        env.set(st.name, self.derive(what="class"))

    def s_Delete(self, st, env, f, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env, mod, f),
                             self.ev(t.slice, env, mod, f))

    def s_Assert(self, st, env, f, mod):
        if not self.truth(self.ev(st.test, env, mod, f)):
            raise AExc("AssertionError")

    def s_Raise(self, st, env, f, mod):
        if st.exc is None:
            try:
                raise env.get("$exc")
            except KeyError:
                raise AExc("RuntimeError")
        v = self.ev(st.exc, env, mod, f)
        raise self.to_exc(v)

    def to_exc(self, v):
        if isinstance(v, ExcVal):
            return v.exc or AExc(v.name, v)
        if isinstance(v, Ext):
            return AExc(v.name[9:] if v.name.startswith("builtins.")
                        else v.name)
        if isinstance(v, Cls):
            return AExc(v.cls.qual)
        return AExc("Exception")

    def s_With(self, st, env, f, mod):
        objs = []
        for i in st.items:
            o = self.ev(i.context_expr, env, mod, f)
            v = self.model.enter(self, o, st)
            objs.append(o)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, f, mod)
        try:
            self.block(st.body, env, f)
        except AExc as x:
            s = False
            for o in reversed(objs):
                s = self.model.exit(self, o, x, st) or s
            if not s:
                raise
            return
        except (_Return, _Break, _Continue):
            for o in reversed(objs):
                self.model.exit(self, o, None, st)
            raise
        for o in reversed(objs):
            self.model.exit(self, o, None, st)

    def s_Try(self, st, env, f, mod):
        try:
            try:
                self.block(st.body, env, f)
            except AExc as x:
                h = self.handler(st, x, env, f, mod)
                if h is None:
                    raise
                old = env.d.get("$exc")
                env.d["$exc"] = x
                if h.name:
                    env.set(h.name, x.value if isinstance(
                        x.value, ExcVal) else ExcVal(x.name, [], x))
                try:
                    self.block(h.body, env, f)
                finally:
                    if old is None:
                        env.d.pop("$exc", None)
                    else:
                        env.d["$exc"] = old
            else:
                self.block(st.orelse, env, f)
        except (AExc, _Return, _Break, _Continue):
            self.block(st.finalbody, env, f)
            raise
        else:
            self.block(st.finalbody, env, f)

    def handler(self, st, x, env, f, mod):
        mine = self.exc_names(x.name)
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, env, mod, f)
            names = self.typenames(t)
            if names is None:
                return h
            if any(n in mine for n in names):
                return h
            # classes of libraries are known by several paths
            if any(n.split(".")[-1] == k.split(".")[-1] for n in names
                   if n not in self.p.classes for k in mine
                   if k not in self.p.classes):
                return h
        return None


class ExcVal(AObj):
    def __init__(self, name, args, exc=None):
        self.name, self.args, self.exc = name, list(args), exc

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name == "args":
            return tuple(self.args)
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        mine = m.exc_names(self.name)
        return any(n in mine for n in names)


class BoundM:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __call__(self, *a, **k):
        return CUR.call_value(self, list(a), k, None)
