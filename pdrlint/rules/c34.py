"""C34: scaled values are exact or widened, never silently wrapped.

Data.get_scaled is interpreted over an interval domain: an array is its
element type and, per plane, the range of its values (and the special constant
masked in it).  The ends of the range are themselves in the array, and bound what a linear
scaling makes of the rest.  Every operation maps them exactly; where the
element type cannot hold them, what numpy does there (raise, warn, wrap, go to
infinity) happens to the range.  The result is compared with the exact one."""
from __future__ import annotations

import itertools
import re
import time
from fractions import Fraction as F

from ..absint import (AExc, AObj, BoundM, Ext, Inst, Machine, Top, Undecided)
from ..coldata import DT, dtype_of
from .c22 import Named, ScaleModel, Struct, product_

DATA = "pdr.pdr.Data"
INF = "inf"
MAXF = {2: F(65504), 4: F((2 ** 24 - 1) * 2 ** 104),
        8: F((2 ** 53 - 1) * 2 ** 971)}
EPS = {2: F(1, 2 ** 10), 4: F(1, 2 ** 23), 8: F(1, 2 ** 52)}
VERBS = {"*": "multiply", "+": "add", "-": "subtract", "/": "divide"}
CHARS = {("i", 1): "b", ("i", 2): "h", ("i", 4): "i", ("i", 8): "l",
         ("u", 1): "B", ("u", 2): "H", ("u", 4): "I", ("u", 8): "L",
         ("f", 2): "e", ("f", 4): "f", ("f", 8): "d", ("b", 1): "?"}


def name_of(t):
    return {"i": "int", "u": "uint", "f": "float", "b": "bool"}[
        t[0]] + ("" if t[0] == "b" else str(t[1] * 8))


def span(t):
    """the range a type holds"""
    k, s = t
    if k == "b":
        return F(0), F(1)
    if k == "i":
        return F(-2 ** (8 * s - 1)), F(2 ** (8 * s - 1) - 1)
    if k == "u":
        return F(0), F(2 ** (8 * s) - 1)
    return -MAXF[s], MAXF[s]


def promote(a, b):
    if a == b:
        return a
    if a[0] == "b":
        return b
    if b[0] == "b":
        return a
    if "f" in (a[0], b[0]):
        need = [t[1] if t[0] == "f" else {1: 2, 2: 4}.get(t[1], 8)
                for t in (a, b)]
        return "f", max(need)
    if a[0] == b[0]:
        return a[0], max(a[1], b[1])
    u, i = (a, b) if a[0] == "u" else (b, a)
    if i[1] > u[1]:
        return i
    return ("i", u[1] * 2) if u[1] < 8 else ("f", 8)


def pynum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def exact(x):
    if isinstance(x, float) and x in (float("inf"), float("-inf")):
        return INF
    return F(x)


def calc(op, a, b):
    if INF in (a, b):
        return INF
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op in ("/", "//") and b:
        r = a / b
        return F(r.numerator // r.denominator) if op == "//" else r
    return None


class Ty(AObj):
    """a dtype"""

    def __init__(self, t):
        self.t = t

    def key(self):
        return ("dtype", self.t)

    def a_attr(self, m, name):
        k, s = self.t
        if name == "kind":
            return k
        if name == "char":
            return CHARS[self.t]
        if name == "name":
            return name_of(self.t)
        if name == "str":
            return "<" + k + str(s)
        if name == "itemsize":
            return s
        if name == "isnative":
            return True
        if name == "byteorder":
            return "|" if s == 1 else "="
        if name == "type":
            return Ext("numpy." + name_of(self.t))
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("==", "!="):
            t = ty(m, other)
            if t is not None:
                return (t == self.t) == (op == "==")
            n = str(getattr(other, "name", other)).split(".")[-1]
            if n in ("object", "object_", "O", "str", "bytes", "bool"):
                return op == "!="
        return NotImplemented

    def a_conv(self, m, name):
        return name_of(self.t) if name == "str" else NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name == "newbyteorder":
            return self
        return NotImplemented

    def a_truth(self, m):
        return True

    def a_call(self, m, args, kw, node):
        return NotImplemented


def ty(m, x):
    """(kind, size) of a dtype specification"""
    if isinstance(x, Ty):
        return x.t
    if isinstance(x, (Arr, Num)):
        return None
    if isinstance(x, DT):
        d = x
    elif x is int:
        return "i", 8
    elif x is float:
        return "f", 8
    else:
        try:
            d = dtype_of(m, x)
        except Exception:
            return None
    if d is None or (d.kind, d.size) not in CHARS:
        return None
    return d.kind, d.size


def hold(m, t, v, where, note=None, warn=None):
    """a computed value as its type holds it"""
    if v == INF:
        return INF
    lo, hi = span(t)
    if t[0] == "f":
        # what is less than half a step beyond rounds to the largest
        if abs(v) <= hi + hi * EPS[t[1]] / 4:
            return max(lo, min(v, hi))
        if m is not None:
            m.model.warn(m, warn or f"overflow encountered in {where}")
        if note is not None:
            note.append(f"go to infinity in {name_of(t)} ({where})")
        return INF
    if v.denominator != 1:
        v = F(int(v))
    if lo <= v <= hi:
        return v
    if warn and m is not None:
        m.model.warn(m, warn)
    if note is not None:
        note.append(f"wrap around in {name_of(t)} ({where})")
    n = int(hi - lo) + 1
    return lo + (v - lo) % n


def fits(t, v):
    lo, hi = span(t)
    return lo <= v <= hi


class Num(AObj):
    """a number of a numpy type"""
    ordered = True

    def __init__(self, t, v, zero_d=False):
        self.t, self.v, self.zero_d = t, v, zero_d

    def a_attr(self, m, name):
        if name == "dtype":
            return Ty(self.t)
        if name == "__class__":
            return Named(name_of(self.t))
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        k = {"i": ("Integral", "integer", "signedinteger"),
             "u": ("Integral", "integer", "unsignedinteger"),
             "f": ("floating",)}.get(self.t[0], ())
        ok = k + ("Number", "Real", "generic", "number", name_of(self.t),
                  "object") + (("float",) if self.t == ("f", 8) else ())
        if self.zero_d:
            ok = ("ndarray", "object")
        return any(n.split(".")[-1] in ok for n in names)

    def other(self, m, x):
        """type and value of the other operand, and whether it adapts"""
        if isinstance(x, Num):
            return x.t, x.v
        if isinstance(x, bool):
            return self.t, F(int(x))
        if isinstance(x, int):
            if self.t[0] == "f":
                return self.t, hold(m, self.t, F(x), "operand", None,
                                    "overflow encountered in cast")
            if not fits(self.t, x):
                raise AExc("OverflowError")
            return self.t, F(x)
        if isinstance(x, float):
            if self.t[0] == "f":
                e = exact(x)
                return self.t, e if e == INF else hold(
                    m, self.t, e, "operand", None,
                    "overflow encountered in cast")
            return ("f", 8), exact(x)
        return None

    def a_bin(self, m, op, other, rev):
        if isinstance(other, (list, tuple)):
            # the sequence becomes an array
            if op == "*":
                raise AExc("TypeError")
            return NotImplemented
        if other is None or isinstance(other, (str, dict)):
            raise AExc("TypeError")
        o = self.other(m, other)
        if o is None:
            return NotImplemented
        t = promote(self.t, o[0])
        if op == "/" and t[0] != "f":
            t = ("f", 8)
        a, b = (o[1], self.v) if rev else (self.v, o[1])
        r = calc(op, a, b)
        if r is None:
            return NotImplemented
        return Num(t, hold(m, t, r, op, None, "overflow encountered in "
                           f"scalar {VERBS.get(op, op)}"), self.zero_d)

    def a_un(self, m, op):
        if op == "-":
            return Num(self.t, hold(m, self.t, -self.v, op, None,
                                    "overflow encountered in scalar "
                                    "negative"))
        return self if op == "+" else NotImplemented

    def a_conv(self, m, name):
        if self.v == INF:
            if name == "int":
                raise AExc("OverflowError")
            return float("inf")
        if name == "int":
            return int(self.v)
        if name == "float":
            return float(self.v)
        if name == "abs":
            return self.__abs__()
        return NotImplemented

    def __abs__(self):
        return Num(self.t, hold(None, self.t, abs(self.v), "abs"))

    def a_cmp(self, m, op, other, rev):
        x = other.v if isinstance(other, Num) else exact(other) if pynum(
            other) else None
        if x is None:
            return NotImplemented
        a = self.v
        if INF in (a, x):
            return NotImplemented
        if rev:
            a, x = x, a
        return {"==": a == x, "!=": a != x, "<": a < x, "<=": a <= x,
                ">": a > x, ">=": a >= x}.get(op, NotImplemented)

    def a_truth(self, m):
        return self.v != 0

    def a_method(self, m, name, args, kw, node):
        if name in ("item", "tolist"):
            return self.a_conv(m, "float" if self.t[0] == "f" else "int")
        if name == "astype":
            t = ty(m, args[0] if args else kw.get("dtype"))
            if t is not None:
                return Num(t, hold(m, t, self.v, "cast"))
        if name == "is_integer":
            return self.v.denominator == 1
        return NotImplemented


class Cell:
    def __init__(self, t, planes, notes=(), true=None):
        self.t = t
        self.planes = [tuple(p) for p in planes]    # (low, high, special)
        # the ends as they would be if nothing had wrapped around
        self.true = [tuple(p[:2]) for p in (true or planes)]
        self.notes = list(notes)
        self.tidy()

    def tidy(self):
        """values that wrapped around and back again are no worse for it"""
        if all(p[:2] == q for p, q in zip(self.planes, self.true)):
            self.notes = [n for n in self.notes if "wrap" not in n]


class Arr(AObj):
    """an array: its values lie between two ends"""

    def __init__(self, cell, masked=False, view=None):
        self.cell, self.masked, self.view = cell, masked, view

    @property
    def planes(self):
        return self.cell.planes if self.view is None else [
            self.cell.planes[self.view]]

    @property
    def true(self):
        return self.cell.true if self.view is None else [
            self.cell.true[self.view]]

    @property
    def t(self):
        return self.cell.t

    def a_attr(self, m, name):
        n = len(self.planes)
        if name == "__class__":
            return Named("MaskedArray" if self.masked else "ndarray")
        if name == "dtype":
            return Ty(self.t)
        if name == "size":
            return 3000 * n
        if name in ("data", "base"):
            return Arr(self.cell, False, self.view)
        if name == "mask":
            if not self.masked:
                raise AExc("AttributeError")
            return Top(what="mask")
        if name == "shape":
            return (n, 50, 60) if n > 1 else (50, 60)
        if name == "ndim":
            return 3 if n > 1 else 2
        if name == "itemsize":
            return self.t[1]
        return NotImplemented

    def a_setattr(self, m, name, v):
        if name == "mask":
            self.masked = True

    def a_len(self, m):
        n = len(self.planes)
        return n if n > 1 else 50

    def a_isinstance(self, m, names):
        if names is None:
            return None
        ok = ("ndarray", "object") + (
            ("MaskedArray",) if self.masked else ())
        return any(n.split(".")[-1] in ok for n in names)

    def operand(self, m, x):
        """(type, values per plane, special per plane), or None"""
        n = len(self.planes)
        if isinstance(x, Arr):
            if len(x.planes) not in (1, n):
                return None
            return x.t, x.planes
        if isinstance(x, Num):
            return x.t, [(x.v,) * 3] * n
        if isinstance(x, bool) or not pynum(x):
            return None
        if self.masked:
            # numpy.ma makes an array of a Python number
            if isinstance(x, float):
                return ("f", 8), [(exact(x),) * 3] * n
            for t in (("i", 8), ("u", 8)):
                if fits(t, x):
                    return t, [(F(x),) * 3] * n
            return None
        return None, [Num(self.t, F(0)).other(m, x)] * n

    def a_bin(self, m, op, other, rev, into=None):
        if other is None or isinstance(other, (str, dict)):
            raise AExc("TypeError")
        if isinstance(other, (list, tuple)):
            raise Undecided("an operand per plane")
        o = self.operand(m, other)
        if o is None:
            return NotImplemented
        ot, vals = o
        masked = self.masked or isinstance(other, Arr) and other.masked
        if ot is None:
            ot = vals[0][0]
            vals = [(v[1],) * 3 for v in vals]
        if isinstance(other, Arr) and other.cell is not self.cell:
            raise Undecided("two arrays")
        t = promote(self.t, ot)
        if op == "/" and t[0] != "f":
            t = ("f", 8)
        if into is not None and (t != into and not can_cast(t, into)):
            raise AExc("TypeError")
        res = into or t
        notes = list(self.cell.notes)
        out, true = [], []
        word = {"*": "multiplying", "+": "adding", "-": "subtracting",
                "/": "dividing"}.get(op, op)
        for p, v, e in zip(self.planes, vals * (
                len(self.planes) if len(vals) == 1 else 1), self.true):
            q = []
            true.append(tuple(calc(op, *((b, a) if rev else (a, b)))
                              for a, b in zip(e, v)))
            for i, (a, b) in enumerate(zip(p, v)):
                if a is None:
                    q.append(None)
                    continue
                r = calc(op, *((b, a) if rev else (a, b)))
                if r is None:
                    return NotImplemented
                warn = None if t[0] != "f" else \
                    f"overflow encountered in {VERBS.get(op, op)}"
                if i == 2:
                    # masked: only the warning shows (in place, numpy.ma
                    # leaves masked values alone)
                    if into is None or not self.masked:
                        hold(m, t, r, word, None, warn)
                    q.append(a)
                    continue
                r = hold(m, t, r, word, notes, warn)
                q.append(hold(m, res, r, word, notes) if res != t else r)
            out.append(tuple(q))
        return Arr(Cell(res, out, notes, true), masked)

    def a_inplace(self, m, op, other):
        if isinstance(other, (list, tuple)):
            raise Undecided("an operand per plane")
        r = self.a_bin(m, op, other, False, into=self.t)
        if not isinstance(r, Arr):
            return NotImplemented
        self.store(m, r)
        return self

    def store(self, m, r):
        notes = list(r.cell.notes)
        got, true = r.planes, r.true
        ix = range(len(self.cell.planes)) if self.view is None else [
            self.view]
        if len(got) == 1:
            got, true = got * len(ix), true * len(ix)
        if len(got) != len(ix):
            raise Undecided("assignment of another shape")
        for i, p, e in zip(ix, got, true):
            self.cell.true[i] = e
            self.cell.planes[i] = tuple(
                None if v is None else hold(m, self.t, v, "assignment",
                                            notes if j < 2 else None)
                for j, v in enumerate(p))
        self.cell.notes += [x for x in notes if x not in self.cell.notes]
        self.cell.tidy()

    def a_item(self, m, k):
        if isinstance(k, int) and len(self.cell.planes) > 1 and \
                self.view is None and -len(self.planes) <= k < len(
                    self.planes):
            return Arr(self.cell, self.masked, k % len(self.planes))
        if isinstance(k, tuple) and k and all(
                x == slice(None) or x is Ellipsis for x in k[1:]) and \
                isinstance(k[0], int):
            return self.a_item(m, k[0])
        if k is Ellipsis or k == slice(None):
            return Arr(self.cell, self.masked, self.view)
        return Top(what="item")

    def a_setitem(self, m, k, v):
        if isinstance(k, tuple) and k and isinstance(k[0], int) and all(
                x is Ellipsis or x == slice(None) for x in k[1:]):
            k = k[0]
        whole = k is Ellipsis or (not isinstance(k, AObj) and
                                  k == slice(None))
        if isinstance(v, Arr) and whole:
            return self.store(m, v)
        if isinstance(v, Arr) and isinstance(k, int) and self.view is None:
            return Arr(self.cell, self.masked,
                       k % len(self.cell.planes)).store(m, v)
        raise Undecided("item assignment")

    def a_iter(self, m):
        if len(self.planes) > 1:
            return [Arr(self.cell, self.masked, i)
                    for i in range(len(self.planes))]
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        return Top(what=op)

    def a_un(self, m, op):
        if op == "-":
            return self.a_bin(m, "-", Num(self.t, F(0)), True)
        return self if op == "+" else NotImplemented

    def extreme(self, m, name):
        # special constants that are not masked are values like others
        vs = [p[i] for p in self.planes for i in (0, 1, 2)
              if i < 2 or p[2] is not None and not self.masked]
        if INF in vs:
            raise Undecided("infinite values")
        return Num(self.t, min(vs) if "min" in name else max(vs))

    def cast(self, m, t, copy=True):
        if t == self.t and not copy:
            return Arr(self.cell, self.masked, self.view)
        notes = list(self.cell.notes)
        out = []
        for p in self.planes:
            q = []
            for j, v in enumerate(p):
                if v is None or v == INF:
                    q.append(v)
                    continue
                n = notes if j < 2 else None
                if t[0] != "f" and v.denominator != 1 and n is not None:
                    n.append(f"lose their fractions in {name_of(t)}")
                q.append(hold(m, t, v, "cast", n, "overflow encountered in "
                              "cast" if t[0] == "f" else None))
            lost = loses(self.t, t, p)
            if lost and (t, self.t) not in m.model.s.get("may lose", ()):
                notes.append(f"lose digits in {name_of(t)}")
            out.append(tuple(q))
        return Arr(Cell(t, out, notes, self.true if t[0] != "f" else None),
                   self.masked)

    def dup(self):
        return Arr(Cell(self.t, self.planes, self.cell.notes, self.true),
                   self.masked)

    def a_method(self, m, name, args, kw, node):
        if name in ("min", "max"):
            return self.extreme(m, name)
        if name == "copy":
            return self.dup()
        if name == "astype":
            a = args[0] if args else kw.get("dtype")
            t = ty(m, a)
            if t is None:
                return NotImplemented
            return self.cast(m, t, kw.get("copy", True) is not False)
        if name in ("view", "squeeze", "reshape", "ravel"):
            if name == "view" and args:
                n = str(getattr(args[0], "name", ""))
                if n.endswith(("ndarray", "recarray")):
                    return Arr(self.cell, False, self.view)
                raise Undecided("view of another type")
            return Arr(self.cell, self.masked, self.view)
        if name in ("any", "all"):
            return Top(what=name)
        if name == "__imul__":
            return self.a_inplace(m, "*", args[0])
        if name == "__iadd__":
            return self.a_inplace(m, "+", args[0])
        if name == "set_fill_value":
            return None
        if name == "filled":
            raise Undecided("filled")
        return NotImplemented


def loses(a, b, plane):
    """whether going from one type to the other loses digits"""
    if b[0] != "f" or b[1] == 8:
        return False
    if a[0] == "f":
        return a[1] > b[1]
    return True         # integers become double precision, as in numpy


def can_cast(a, b):
    """same_kind casting, as in-place operators need"""
    order = "b u i f".split()
    if a == b:
        return True
    if a[0] == b[0]:
        return True
    return order.index(a[0]) < order.index(b[0])


class Catch(AObj):
    """warnings.catch_warnings and numpy.errstate"""

    def __init__(self, kind, over=None):
        self.kind, self.over = kind, over
        self.saved = None


class Info(AObj):
    """numpy.iinfo, numpy.finfo"""

    def __init__(self, t):
        self.t = t

    def a_attr(self, m, name):
        lo, hi = span(self.t)
        f = self.t[0] == "f"
        if name in ("min", "max"):
            v = lo if name == "min" else hi
            return Num(self.t, v) if f else int(v)
        if name == "bits":
            return 8 * self.t[1]
        if name == "dtype":
            return Ty(self.t)
        return NotImplemented


MAKES = {"masked_array", "MaskedArray"}


class Ranges(ScaleModel):
    """numpy over ranges of values"""
    follow = ("pdr.pds4_tools.reader.data_types",)

    def start(self):
        self.filters = []
        self.over = None
        return self

    def warn(self, m, what):
        for act, pat in reversed(self.filters):
            if re.match(pat, what, re.I):
                if act == "error":
                    raise AExc("RuntimeWarning")
                break
        if self.over == "raise":
            raise AExc("FloatingPointError")

    def func_call(self, m, func, args, kw, node, me):
        n = func.name
        if func.cls is not None and func.cls.name == "Data":
            if n == "__getitem__":
                return m.getattr(args[0], args[1])
            if n == "find_special_constants":
                sp = self.s.get("special")
                return {} if sp is None else {"NULL": sp}
            if n in ("metaget", "metaget_", "metablock", "metablock_"):
                return Top(what=n)
        if n == "specialblock":
            return dict(self.s["block"])
        if n == "mask_specials":
            a = args[0] if args else kw.get("obj")
            if isinstance(a, Arr):
                return Arr(a.cell, True, a.view)
        if n == "mask_special_constants":
            d = self.args(func, args, kw)
            a = d.get("data")
            if isinstance(a, Arr):
                return Arr(a.cell, self.s.get("special") is not None,
                           a.view)
        return NotImplemented

    def global_value(self, m, module, name):
        if name.split(".")[-1] == "integer_types":
            return (int,)
        return super().global_value(m, module, name)

    def enter(self, m, obj, node):
        if isinstance(obj, Catch):
            obj.saved = (list(self.filters), self.over)
            if obj.kind == "errstate" and obj.over is not None:
                self.over = obj.over
        return obj

    def exit(self, m, obj, exc, node):
        if isinstance(obj, Catch) and obj.saved is not None:
            self.filters, self.over = obj.saved
        return False

    def ext_call(self, m, name, args, kw, node):
        last = name.split(".")[-1]
        a = args[0] if args else None
        if name == "warnings.catch_warnings":
            c = Catch("warnings")
            if kw.get("action") is not None:
                raise Undecided("catch_warnings with an action")
            return c
        if name in ("warnings.filterwarnings", "warnings.simplefilter"):
            pat = kw.get("message", args[1] if len(args) > 1 and name.endswith(
                "filterwarnings") else "")
            cat = kw.get("category", None)
            if cat is None:
                i = 2 if name.endswith("filterwarnings") else 1
                cat = args[i] if len(args) > i else None
            act = kw.get("action", a)
            if not isinstance(act, str) or not isinstance(pat, str):
                raise Undecided("warning filter")
            cn = str(getattr(cat, "name", getattr(cat, "__name__", "")) or
                     "").split(".")[-1]
            if cn in ("", "Warning", "RuntimeWarning"):
                if kw.get("append"):
                    self.filters.insert(0, (act, pat))
                else:
                    self.filters.append((act, pat))
            return None
        if name.startswith("warnings."):
            return Top(what="warn")
        if name in ("numpy.errstate", "numpy.seterr"):
            o = kw.get("over", kw.get("all"))
            if name == "numpy.seterr":
                if o is not None:
                    self.over = o
                return {"over": "warn", "divide": "warn", "invalid": "warn",
                        "under": "ignore"}
            return Catch("errstate", o)
        if name.startswith("numpy.") and last in (
                "int8", "int16", "int32", "int64", "uint8", "uint16",
                "uint32", "uint64", "float16", "float32", "float64") and args:
            return self.number(m, ty(m, last), a)
        if name == "numpy.dtype" and args:
            t = ty(m, a)
            if t is None and str(getattr(a, "name", a)).split(".")[-1] in (
                    "object", "O", "object_"):
                raise Undecided("arrays of Python integers")
            return Ty(t) if t else NotImplemented
        if name in ("numpy.iinfo", "numpy.finfo") and args:
            t = a.t if isinstance(a, (Arr, Num)) else ty(m, a)
            if t is None:
                return NotImplemented
            if (t[0] == "f") != (last == "finfo"):
                raise AExc("ValueError")
            return Info(t)
        if name == "numpy.issubdtype" and len(args) == 2:
            t = ty(m, a)
            n = str(getattr(args[1], "name", "")).split(".")[-1]
            kinds = {"floating": "f", "integer": "iu", "signedinteger": "i",
                     "unsignedinteger": "u", "number": "iuf",
                     "inexact": "f", "character": "", "generic": "iufb",
                     "str_": "", "bytes_": "", "object_": ""}.get(n)
            if t is not None and kinds is not None:
                return t[0] in kinds
        if name in ("numpy.result_type", "numpy.promote_types",
                    "numpy.find_common_type", "numpy.min_scalar_type",
                    "numpy.can_cast"):
            return self.types(m, last, args, kw)
        if name in ("numpy.asarray", "numpy.array", "numpy.asanyarray") \
                and args and not isinstance(a, Arr):
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            t = ty(m, dt) if dt is not None else None
            if isinstance(a, Num):
                return Num(t or a.t, hold(m, t or a.t, a.v, "cast"), True)
            if pynum(a):
                if t is None:
                    t = ("f", 8) if isinstance(a, float) else next(
                        (x for x in (("i", 8), ("u", 8)) if fits(x, a)),
                        None)
                if t is None:
                    return NotImplemented
                r = self.number(m, t, a)
                r.zero_d = True
                return r
        if isinstance(a, Arr) and name.startswith("numpy."):
            if last in MAKES or name in ("numpy.ma.array",
                                         "numpy.ma.asarray"):
                if kw.get("copy") is True:
                    a = a.dup()
                return Arr(a.cell, True, a.view)
            if name in ("numpy.array", "numpy.copy", "numpy.asarray",
                        "numpy.asanyarray", "numpy.ascontiguousarray",
                        "numpy.squeeze"):
                dt = kw.get("dtype", args[1] if len(args) > 1 and last !=
                            "squeeze" else None)
                t = a.t if dt is None else ty(m, dt)
                if t is None:
                    return NotImplemented
                r = a.cast(m, t, False) if t != a.t else a
                if last in ("array", "copy") and kw.get(
                        "copy", True) is True:
                    r = r.dup()
                return Arr(r.cell, a.masked if last == "asanyarray"
                           else False, r.view)
            if name == "numpy.ma.count":
                return 2000 * len(a.planes)
            if last in ("isMaskedArray", "isMA", "isarray"):
                return a.masked
            if name in ("numpy.ma.getmask", "numpy.ma.getmaskarray",
                        "numpy.ma.is_masked"):
                return Top(what="mask")
            if last in ("multiply", "add", "subtract", "divide",
                        "true_divide"):
                op = {"m": "*", "a": "+", "s": "-"}.get(last[0], "/")
                b = args[1]
                o = kw.get("out", args[2] if len(args) > 2 else None)
                if isinstance(o, tuple):
                    o = o[0]
                if "casting" in kw:
                    raise Undecided("casting given")
                x = a
                if "dtype" in kw:
                    t = ty(m, kw["dtype"])
                    if t is None:
                        return NotImplemented
                    x = a.cast(m, t)
                r = x.a_bin(m, op, b, False, into=o.t if isinstance(o, Arr)
                            else None)
                if isinstance(o, Arr) and isinstance(r, Arr):
                    o.store(m, r)
                    return o
                return r
            if last in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
                return a.extreme(m, last)
            if last in ("rollaxis", "moveaxis", "transpose"):
                return a
        if name.startswith("numpy.") and last in (
                "dstack", "stack", "array", "vstack", "concatenate"):
            ps = list(m.iterate(a)) if isinstance(a, (list, tuple)) else None
            if ps and all(isinstance(x, Arr) and len(x.planes) == 1
                          for x in ps):
                t = ps[0].t
                for x in ps:
                    t = promote(t, x.t)
                ps = [x if x.t == t else x.cast(m, t) for x in ps]
                notes = []
                for x in ps:
                    notes += [n for n in x.cell.notes if n not in notes]
                return Arr(Cell(t, [x.planes[0] for x in ps], notes,
                                [x.true[0] for x in ps]),
                           ".ma." in name or any(x.masked for x in ps) and
                           last != "array")
        if name in ("numpy.shares_memory", "numpy.may_share_memory") and \
                all(isinstance(x, Arr) for x in args):
            return args[0].cell is args[1].cell
        if name in ("numpy.isfinite", "numpy.isnan", "numpy.isinf"):
            return Top(what=last)
        if name == "numpy.multiply" or name == "numpy.add":
            if len(args) > 1 and isinstance(args[1], Arr):
                return args[1].a_bin(m, "*" if last == "multiply" else "+",
                                     a, True)
        return NotImplemented

    def number(self, m, t, a):
        if isinstance(a, Num):
            return Num(t, hold(m, t, a.v, "cast"))
        if isinstance(a, (list, tuple)):
            raise Undecided("an operand per plane")
        if not pynum(a):
            return NotImplemented
        v = exact(a)
        if t[0] != "f":
            if isinstance(a, float):
                v = F(int(a))
            if not fits(t, v):
                raise AExc("OverflowError")
            return Num(t, v)
        return Num(t, hold(m, t, v, "number", None, "overflow encountered "
                           "in cast"))

    def types(self, m, last, args, kw):
        if last == "min_scalar_type" and args:
            v = args[0]
            if isinstance(v, Num):
                v = v.a_conv(m, "float" if v.t[0] == "f" else "int")
            if isinstance(v, int):
                for t in ([("u", s) for s in (1, 2, 4, 8)] if v >= 0 else
                          [("i", s) for s in (1, 2, 4, 8)]):
                    if fits(t, v):
                        return Ty(t)
            if isinstance(v, float):
                for t in (("f", 2), ("f", 4), ("f", 8)):
                    if fits(t, exact(v)):
                        return Ty(t)
            return NotImplemented
        if last == "can_cast":
            a, b = (args + [None, None])[:2]
            ta = a.t if isinstance(a, (Arr, Num)) else ty(m, a)
            tb = ty(m, b)
            if ta is None or tb is None:
                return NotImplemented
            how = kw.get("casting", args[2] if len(args) > 2 else "safe")
            if how == "safe":
                return promote(ta, tb) == tb
            if how == "same_kind":
                return can_cast(ta, tb)
            return NotImplemented
        t, weak = None, []
        for a in args:
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                weak.append(a)
                continue
            x = a.t if isinstance(a, (Arr, Num)) else ty(m, a)
            if x is None:
                return NotImplemented
            t = x if t is None else promote(t, x)
        if t is None:
            t = ("f", 8) if any(isinstance(w, float) for w in weak) else (
                "i", 8)
        elif any(isinstance(w, float) for w in weak) and t[0] != "f":
            t = ("f", 8)
        return Ty(t)


class Described(Struct):
    """a PDS4 array with its label"""

    def __init__(self, arr, block, special):
        super().__init__("array", arr)
        self.meta = {"Element_Array": {
            "scaling_factor": block.get("SCALING_FACTOR"),
            "value_offset": block.get("OFFSET"), "data_type": "x"}}
        if special is not None:
            self.meta["Special_Constants"] = {"missing_constant": special}

    def a_attr(self, m, name):
        if name == "meta_data":
            return self.meta
        return super().a_attr(m, name)


# ---------------------------------------------------------------- the cases
def integer_home(values):
    """the first integer type that holds all the values"""
    for t in [("u", s) for s in (1, 2, 4, 8)] + [("i", s)
                                                 for s in (1, 2, 4, 8)]:
        if all(fits(t, v) for v in values):
            return t
    return None


def ranges(t, scale, offset, deep):
    """ranges of values at which something may change"""
    lo, hi = span(t)
    if t[0] == "f":
        pts = [F(0), F(1), F(-3), F(1, 2), F(2) ** 60,
               hi / (4 if t[1] == 8 else 2), lo / 2]
        if deep:
            pts += [hi, lo, F(2) ** 24 + 1]
        return sorted(set(itertools.combinations_with_replacement(
            sorted(set(pts)), 2)))[:: 1 if deep else 3]
    pts = {lo, hi, F(0), F(1)}
    if deep:
        pts |= {lo + 1, hi - 1, F(-1), (lo + hi) // 1 // 2}
    s, o = exact(scale), exact(offset)
    if s:
        for e in [t] + ([("i", t[1]), ("u", t[1])] if deep else []):
            for b in span(e):
                x = (b - o) / s
                x = F(x.numerator // x.denominator)
                pts |= {x, x + 1} | ({x - 1} if deep else set())
                x = b / s
                x = F(x.numerator // x.denominator)
                pts |= {x, x + 1} if deep else {x}
    pts = sorted(p for p in pts if fits(t, p))
    out = [(a, b) for i, a in enumerate(pts) for b in pts[i:]]
    step = max(1, len(out) // (20 if deep else 7))
    return out[::step] + ([out[-1]] if (len(out) - 1) % step else [])


TYPES = [("u", 1), ("i", 1), ("u", 2), ("i", 2), ("u", 4), ("i", 4),
         ("u", 8), ("i", 8), ("f", 4), ("f", 8)]
SCALES = [2, -1, 300, 70000, -5, 2 ** 31, 0.5, 1.5, 1, 0]
OFFSETS = [0, 1, -1, -600, 40000, 2 ** 31, 0.25]
MORE_SCALES = SCALES + [3, 256, 65536, -2 ** 15, 1e10, 1e38, 2.0]
MORE_OFFSETS = OFFSETS + [7, -2 ** 31, 2 ** 40, -128, 1e38, 3.0]


def expected(t, lo, hi, s, o):
    """the exact ends, and whether some type holds everything on the way"""
    s, o = exact(s), exact(o)
    return sorted((lo * s + o, hi * s + o)), (lo, hi, lo * s, hi * s,
                                              lo * s + o, hi * s + o)


class Run:
    def __init__(self, ctx, rep, tier):
        self.ctx, self.rep, self.prog, self.tier = ctx, rep, ctx.prog, tier
        self.f = self.prog.funcs.get(f"{DATA}.get_scaled")
        self.found = {}
        self.seen = set()

    def one(self, what, t, planes, block, inplace, special, fdt=None,
            std="PDS3"):
        """-> the paths of scaling one array"""
        scene = {"block": block, "special": special,
                 "element": {k: v for k, v in block.items()}}
        if fdt is not None:
            scene["may lose"] = [(fdt, x) for x in TYPES]
        model = Ranges(self.prog, scene)
        m = Machine(self.prog, model, limit=64)

        def make(m):
            model.start()
            o = product_(self.prog, standard=std)
            arr = o.attrs["OBJ"] = Arr(Cell(t, [(lo, hi, None if special is None
                                           else exact(special))
                                          for lo, hi in planes]))
            o.attrs["_pds4_structures"] = {"OBJ": Described(arr, block,
                                                            special)}
            kw = {"inplace": inplace}
            if fdt is not None:
                kw["float_dtype"] = Ty(fdt)
            return [o, "OBJ"], kw
        try:
            out = list(m.paths(self.f, make))
        except Undecided as x:
            self.rep.undecide(f"{what}: {x}")
            return []
        self.seen |= m.functions
        self.rep.count("cases", 1)
        self.rep.count("paths", len(out))
        if len(out) > 1:
            self.rep.count("cases with several paths", 1)
        return out

    def bad(self, rule, key, msg):
        self.found.setdefault((rule, key), msg)

    def judge(self, key, what, t, planes, scales, offsets, inplace, special,
              block, fdt=None, std="PDS3"):
        """one array, one label"""
        wants, homes = [], []
        for (lo, hi), s, o in zip(planes, scales, offsets):
            w, on = expected(t, lo, hi, s, o)
            wants.append(w)
            on = list(on) + [exact(s), exact(o)]
            if t[0] != "f" and isinstance(s, int) and isinstance(o, int):
                homes.append(integer_home(on))
            else:
                homes.append(("f", 8) if all(fits(("f", 8), v)
                                             for v in on) else None)
        for p in self.one(what, t, planes, block, inplace, special, fdt,
                          std):
            if p.kind == "raise" and std == "PDS4":
                self.rep.count("PDS4 arrays refused", 1)
                continue
            if p.kind == "raise":
                if None not in homes:
                    names = " and ".join(sorted({name_of(h) for h in homes}))
                    self.bad("C34.fits", key + f"|{p.value.name}",
                             f"{what} fails with {p.value.name}, though "
                             f"{names} would hold every value")
                continue
            r = p.value
            if not isinstance(r, Arr):
                self.rep.undecide(f"{what}: result not followed")
                continue
            notes = list(r.cell.notes)
            lost = [n for n in notes if n.startswith("lose")]
            if lost:
                self.bad("C34.wrap", key, f"{what}: values {lost[0]}")
                continue
            if len(r.planes) != len(wants):
                self.rep.undecide(f"{what}: planes not followed")
                continue
            for got, w in zip(r.planes, wants):
                if INF in got[:2] and r.t == ("f", 8):
                    continue        # nothing is wider, and numpy warns
                if INF in got[:2]:
                    self.bad("C34.wrap", key, f"{what}: values become "
                             "infinite")
                    break
                # values that wrap around and back again are no worse for it
                if not close(r.t, sorted(got[:2]), w):
                    if notes:
                        self.bad("C34.wrap", key,
                                 f"{what}: values {notes[0]}")
                        break
                    self.bad("C34.exact", key, f"{what}: the range of the "
                             f"result is {show(got)}, not {show(w)}")
                    break


def close(t, got, want):
    if t[0] != "f":
        return list(got) == list(want)
    return all(abs(a - b) <= EPS[8] * max(abs(a), abs(b))
               for a, b in zip(got, want))


def show(p):
    return " to ".join(str(int(v)) if v.denominator == 1 and abs(v) < 10 ** 25
                       else f"{float(v):g}" for v in p[:2])


def check(ctx, rep, tier):
    rep.rule("C34.wrap", "no visible value of a scaled array wraps around, "
             "goes to infinity or loses digits on the way to the result")
    rep.rule("C34.exact", "the range of the result is the exact image of the "
             "range loaded under the label's scale and offset")
    rep.rule("C34.fits", "scaling fails only where no element type holds the "
             "values")
    rep.assume("numpy's integer, floating-point and masked arithmetic behaves "
               "as documented for numpy 2; the ends of a range bound what a "
               "linear scaling makes of the values in it")
    r = Run(ctx, rep, tier)
    if r.f is None:
        rep.undecide("get_scaled is not there")
        return
    deep = tier == "thorough"
    single(r, deep)
    per_plane(r, deep)
    pds4(r, deep)
    for (rule, key), msg in sorted(r.found.items()):
        rep.find(rule, key, f"{r.f.file}:{r.f.line}", msg)
    rep.count("functions followed", len(r.seen))
    for q in sorted(r.seen):
        rep.sample(q)
    rep.need("cases", 500)


def kind(t):
    return {"f": "floating-point", "i": "signed integer",
            "u": "unsigned integer"}[t[0]]


def special_of(t):
    return {("u", 1): 0, ("i", 1): -128, ("f", 4): -float(2 ** 127),
            ("f", 8): -1e300}.get(t, int(span(t)[0]))


def single(r, deep):
    scales = MORE_SCALES if deep else SCALES
    offsets = MORE_OFFSETS if deep else OFFSETS
    n = 0
    end = time.monotonic() + (480 if deep else 150)
    for s, o, t in itertools.product(scales, offsets, TYPES):
        if (s, o) == (1, 0):
            continue
        if time.monotonic() > end:
            r.rep.count("labels left out for lack of time", 1)
            continue
        rs = ranges(t, s, o, deep)
        for i, ((lo, hi), inplace, masked) in enumerate(itertools.product(
                rs, (False, True), (False, True))):
            n += 1
            if not deep and (masked and n % 2):
                continue
            sp = special_of(t) if masked else None
            how = (" in place" if inplace else "") + (
                " with special constants" if masked else "")
            key = f"{kind(t)} arrays{how}"
            block = {"SCALING_FACTOR": s, "OFFSET": o}
            r.judge(key, f"{name_of(t)} array of {show((lo, hi))}{how}, "
                    f"scale {s} and offset {o}", t, [(lo, hi)], [s], [o],
                    inplace, sp, block)
            if t[0] != "f" and isinstance(s, float) and i % 7 == 0:
                for fdt in (("f", 4), ("f", 8)):
                    r.judge(key + " with float_dtype", f"{name_of(t)} array "
                            f"of {show((lo, hi))}{how}, scale {s} and offset "
                            f"{o}, float_dtype {name_of(fdt)}", t,
                            [(lo, hi)], [s], [o], inplace, sp, block, fdt)


def per_plane(r, deep):
    n = 3
    for t in TYPES:
        lo, hi = span(t)
        top = hi if t[0] != "f" else F(2) ** 40
        low = max(lo, -top)
        many = [[(F(0), F(1))] * n, [(F(0), F(1)), (F(1), top // 2),
                                     (F(0), top)],
                [(F(0), top), (F(0), F(1)), (F(1), F(1))],
                [(low, F(1)), (F(0), F(1)), (F(0), F(5))]]
        lists = [((2, 2, 2), (0, 0, 0)), ((1, 2, 3), (0, 0, -1)),
                 ((1, 1, 1), (0, 0, 300)), ((300, 1, 1), (0, 0, 0)),
                 ((1.5, 2, 1), (0, 0.5, 0)), ((2, 0.25, 1), (1, 0, 0)), ((-1, 1, 1), (0, -5, 0))]
        if t == ("f", 4):
            many.append([(F(0), F(1)), (F(1), F(2) ** 100), (F(0), F(1))])
            lists.append(((1.5, 2.0 ** 60, 1.0), (0, 0, 0)))
        for planes, (ss, os), inplace, masked in itertools.product(
                many, lists, (False, True), (False, True)):
            how = (" in place" if inplace else "") + (
                " with special constants" if masked else "")
            key = f"{kind(t)} arrays scaled plane by plane{how}"
            for typ in (list, tuple) if deep else (list,):
                r.judge(key, f"{name_of(t)} planes of "
                        + ", ".join(show(p) for p in planes) + how
                        + f", scales {ss} and offsets {os}", t, planes, ss,
                        os, inplace, special_of(t) if masked else None,
                        {"SCALING_FACTOR": typ(ss), "OFFSET": typ(os)})


def pds4(r, deep):
    end = time.monotonic() + (150 if deep else 60)
    for s, o, t in itertools.product(MORE_SCALES if deep else SCALES,
                                     MORE_OFFSETS if deep else OFFSETS,
                                     TYPES):
        if (s, o) == (1, 0):
            continue
        if time.monotonic() > end:
            r.rep.count("labels left out for lack of time", 1)
            continue
        for (lo, hi), masked in itertools.product(
                ranges(t, s, o, deep)[::2 if deep else 4], (False, True)):
            how = " with special constants" if masked else ""
            sp = special_of(t) if masked else None
            r.judge(f"{kind(t)} PDS4 arrays{how}", f"PDS4 {name_of(t)} array "
                    f"of {show((lo, hi))}{how}, scale {s} and offset {o}", t,
                    [(lo, hi)], [s], [o], False, sp,
                    {"SCALING_FACTOR": s, "OFFSET": o}, std="PDS4")
