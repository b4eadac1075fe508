"""Integers known only by a formula: polynomials over numbers that a label
gives, none of which the analysis fixes.  A comparison is decided where it
comes out the same for every value from two up, and is a choice otherwise."""
from __future__ import annotations

from fractions import Fraction

from . import absint
from .absint import AExc, AObj, Cond, Undecided

LEAST = 2
BIG = "SIZE"        # the size of a file: larger than anything said of it
INTS = ("int", "Number", "Integral", "Real", "Rational", "Complex", "object",
        "SupportsInt", "SupportsIndex", "Hashable", "integer")


def number(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def terms(x):
    """{monomial: coefficient} of a polynomial or number, or None"""
    if isinstance(x, Poly):
        return x.t
    if isinstance(x, bool):
        return {(): int(x)} if x else {}
    if isinstance(x, (int, Fraction)):
        return {(): x} if x else {}
    if isinstance(x, float) and x == int(x):
        return {(): int(x)} if x else {}
    return None


def tidy(t):
    out = {}
    for k, c in t.items():
        if c:
            if isinstance(c, Fraction) and c.denominator == 1:
                c = int(c)
            out[k] = c
    if not out:
        return 0
    if set(out) == {()} and isinstance(out[()], int):
        return out[()]
    return Poly(out)


def add(a, b, sign=1):
    t = dict(a)
    for k, c in b.items():
        t[k] = t.get(k, 0) + sign * c
    return tidy(t)


def mul(a, b):
    t = {}
    for k, c in a.items():
        for j, d in b.items():
            n = tuple(sorted(k + j))
            t[n] = t.get(n, 0) + c * d
    return tidy(t)


class Poly(AObj):
    def __init__(self, t):
        self.t = t

    def key(self):
        return ("poly", tuple(sorted(self.t.items())))

    def __hash__(self):
        return hash(self.key())

    def __str__(self):
        out = []
        for k, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            s = "*".join(k)
            if not s:
                s = str(abs(c))
            elif abs(c) != 1:
                s = f"{abs(c)}*{s}"
            out.append(("- " if c < 0 else "+ ") + s)
        s = " ".join(out)
        return s[2:] if s.startswith("+ ") else "-" + s[2:]

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def at(self, nums):
        """the formula with numbers for symbols"""
        r = 0
        for k, c in self.t.items():
            for s in k:
                c = mul(terms(c), terms(nums[s] if s in nums else sym(s)))
            r = add(terms(r), terms(c))
        return r

    def whole(self):
        return all(isinstance(c, int) for c in self.t.values())

    def shifted(self):
        """coefficients once every symbol is written as LEAST and more"""
        out = {}
        for k, c in self.t.items():
            part = {(): c}
            for s in k:
                nxt = {}
                for j, d in part.items():
                    nxt[j] = nxt.get(j, 0) + LEAST * d
                    n = tuple(sorted(j + (s,)))
                    nxt[n] = nxt.get(n, 0) + d
                part = nxt
            for j, d in part.items():
                out[j] = out.get(j, 0) + d
        return {k: c for k, c in out.items() if c}

    def sign(self):
        """(least, greatest) sign over every value: each -1, 0 or 1"""
        big = self.t.get((BIG,), 0)
        if big:
            return (1, 1) if big > 0 else (-1, -1)
        s = self.shifted()
        lo, hi = -1, 1
        if all(c >= 0 for c in s.values()):
            lo = 1 if s.get((), 0) > 0 else 0
        if all(c <= 0 for c in s.values()):
            hi = -1 if s.get((), 0) < 0 else 0
        return lo, hi

    def a_truth(self, m):
        lo, hi = self.sign()
        if lo > 0 or hi < 0:
            return True
        return not m.truth(Cond(("zero", self.key()), True, ()))

    def a_bin(self, m, op, other, rev):
        o = terms(other)
        if o is None:
            if isinstance(other, AObj):
                return NotImplemented
            if isinstance(other, (str, bytes, list, tuple)):
                if op == "*":
                    raise Undecided("repeated many times over")
                if op == "%" and rev and isinstance(other, str):
                    return other.replace("%d", str(self)).replace(
                        "%s", str(self))
            if isinstance(other, float):
                return m.derive(self, what=op)
            raise AExc("TypeError")
        a, b = (o, self.t) if rev else (self.t, o)
        if op in ("+", "-"):
            return add(a, b, 1 if op == "+" else -1)
        if op == "*":
            return mul(a, b)
        if op == "**" and set(b) <= {()} and 0 <= b.get((), 0) < 8:
            r = {(): 1}
            for _ in range(int(b.get((), 0))):
                r = terms(mul(r, a))
            return tidy(r)
        if op in ("/", "//", "%"):
            if not b:
                raise AExc("ZeroDivisionError")
            if len(b) == 1:
                (k, c), = b.items()
                if all(contains(j, k) for j in a):
                    q = {less(j, k): Fraction(x) / c for j, x in a.items()}
                    exact = all(x.denominator == 1 for x in q.values())
                    if op == "/" or exact and op == "//":
                        return tidy(q)
                    if exact:
                        return 0
                    if op == "%" and k == () and isinstance(c, int):
                        r = add({}, {j: int(x) % c for j, x in a.items()
                                     if isinstance(x, int)})
                        if isinstance(r, int):
                            return r % c
            return m.derive(self, other, what=op)
        if op in ("&", "|", "^", "<<", ">>"):
            if op == "<<" and not rev and set(b) <= {()}:
                return mul(a, {(): 1 << int(b.get((), 0))})
            return m.derive(self, other, what=op)
        return NotImplemented

    def a_un(self, m, op):
        if op == "-":
            return tidy({k: -c for k, c in self.t.items()})
        if op == "+":
            return self
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("in", "not in"):
            if rev:
                raise AExc("TypeError")
            return NotImplemented
        o = terms(other)
        if o is None:
            if isinstance(other, float):
                return NotImplemented
            if op in ("==", "!="):
                if isinstance(other, AObj):
                    return NotImplemented
                return op == "!="
            if isinstance(other, AObj):
                return NotImplemented
            raise AExc("TypeError")
        d = add(self.t, o, -1)
        if rev:
            d = tidy({k: -c for k, c in terms(d).items()})
        if isinstance(d, int):
            lo = hi = (d > 0) - (d < 0)
        else:
            lo, hi = d.sign()
        yes = {"==": lo == hi == 0, "!=": lo > 0 or hi < 0, "<": hi < 0,
               "<=": hi <= 0, ">": lo > 0, ">=": lo >= 0}[op]
        no = {"==": lo > 0 or hi < 0, "!=": lo == hi == 0, "<": lo >= 0,
              "<=": lo > 0, ">": hi <= 0, ">=": hi < 0}[op]
        if yes or no:
            return yes
        # one spelling for a choice and its opposite
        if op in ("!=", ">=", ">"):
            if op == "!=":
                return Cond(("==0", d.key()), False, ())
            if op == ">=":
                return Cond(("<0", d.key()), False, ())
            d = tidy({k: -c for k, c in d.t.items()})
            return Cond(("<0", d.key()), True, ())
        if op == "==":
            return Cond(("==0", d.key()), True, ())
        if op == "<":
            return Cond(("<0", d.key()), True, ())
        d = tidy({k: -c for k, c in d.t.items()})
        return Cond(("<0", d.key()), False, ())

    def a_isinstance(self, m, names):
        if names is None:
            return None
        last = {str(n).split(".")[-1] for n in names}
        if not self.whole():
            return bool(last & (set(INTS) - {"int", "Integral"} | {"float"}))
        return bool(last & set(INTS))

    def a_conv(self, m, name):
        if name == "int" and self.whole():
            return self
        if name == "float":
            return self
        if name == "str" or name == "repr":
            return str(self)
        if name == "abs" and self.sign()[0] >= 0:
            return self
        if name == "round" and self.whole():
            return self
        return NotImplemented

    def a_attr(self, m, name):
        if name in ("real", "numerator"):
            return self
        if name == "imag":
            return 0
        if name == "denominator":
            return 1
        if hasattr(int, name):
            return NotImplemented
        raise AExc("AttributeError")

    def a_method(self, m, name, args, kw, node):
        if name == "is_integer" and self.whole():
            return True
        if name in ("item", "__int__", "__index__") and self.whole():
            return self
        return NotImplemented

    def a_iter(self, m):
        raise AExc("TypeError")

    def a_len(self, m):
        raise AExc("TypeError")

    def a_item(self, m, k):
        raise AExc("TypeError")


def contains(k, sub):
    k = list(k)
    for s in sub:
        if s not in k:
            return False
        k.remove(s)
    return True


def less(k, sub):
    k = list(k)
    for s in sub:
        k.remove(s)
    return tuple(k)


def sym(name):
    return Poly({(name,): 1})


def same(a, b):
    """are two formulas the same number whatever the symbols are"""
    ta, tb = terms(a), terms(b)
    if ta is None or tb is None:
        return a is b
    d = add(ta, tb, -1)
    return isinstance(d, int) and d == 0


def extreme(m, name, vals):
    """min or max over numbers and formulas"""
    best = vals[0]
    for v in vals[1:]:
        if m.truth(m.compare("<" if name == "min" else ">", v, best)):
            best = v
    return best


def _dunder(op):
    def f(self, other):
        r = Poly.a_bin(self, absint.CUR, op, other, False)
        return absint.CUR.binop(op, self, other) if r is NotImplemented \
            else r

    def g(self, other):
        r = Poly.a_bin(self, absint.CUR, op, other, True)
        return absint.CUR.binop(op, other, self) if r is NotImplemented \
            else r
    return f, g


for _o, _n in (("+", "add"), ("-", "sub"), ("*", "mul")):
    _f, _g = _dunder(_o)
    setattr(Poly, f"__{_n}__", _f)
    setattr(Poly, f"__r{_n}__", _g)
