"""Typestates of binary data: what bytes of a record an array holds, in which
byte order it holds them, and what has been done to them since."""
from __future__ import annotations

import re
from math import prod

from .absint import AExc, AObj, BoundM, Top, Undecided
from .frames import Frame, Labels, Ser, elems, frame_call

NATIVE = "<"
LETTERS = {"b": ("i", 1), "B": ("u", 1), "h": ("i", 2), "H": ("u", 2),
           "i": ("i", 4), "I": ("u", 4), "l": ("i", 8), "L": ("u", 8),
           "q": ("i", 8), "Q": ("u", 8), "e": ("f", 2), "f": ("f", 4),
           "d": ("f", 8), "?": ("b", 1)}
NAMES = {"bool": ("b", 1), "bool_": ("b", 1), "object": ("O", 8),
         "object_": ("O", 8), "str": ("U", 0), "bytes": ("S", 0),
         "float": ("f", 8), "int": ("i", 8)}
for _k, _l in (("int", "i"), ("uint", "u"), ("float", "f")):
    for _b in (8, 16, 32, 64):
        NAMES[f"{_k}{_b}"] = (_l, _b // 8)


class DT(AObj):
    """a numpy dtype: kind, size and order, or fields"""
    tags = frozenset()

    def __init__(self, kind, size, order="|", fields=None, sub=None):
        self.kind, self.size = kind, size
        if kind in "SVOU" or size <= 1:
            order = "|"
        elif order in ("=", "|", "@"):
            order = NATIVE
        elif order == "!":
            order = ">"
        self.order = order
        self.fields = fields        # [(name, DT, offset)]
        self.sub = sub              # (DT, n) or (DT, (n, m))

    def key(self):
        return ("dt", self.text())

    def subshape(self):
        if not self.sub:
            return ()
        n = self.sub[1]
        return tuple(n) if isinstance(n, tuple) else (n,)

    def native(self):
        if self.fields is not None:
            return all(d.native() for _, d, _ in self.fields)
        if self.sub:
            return self.sub[0].native()
        return self.order in ("|", NATIVE)

    def text(self):
        if self.fields is not None:
            return "[" + ", ".join(f"('{n}', '{d.text()}')"
                                   for n, d, _ in self.fields) + "]"
        if self.sub:
            return f"('{self.sub[0].text()}', {self.subshape()})"
        if self.kind == "O":
            return "object"
        if self.kind in "SV":
            return f"|{self.kind}{self.size}"
        if self.kind == "b":
            return "bool"
        if self.native():
            return {"i": "int", "u": "uint", "f": "float"}.get(
                self.kind, "U") + str(self.size * 8)
        return f"{self.order}{self.kind}{self.size}"

    def str(self):
        if self.fields is not None:
            return self.text()
        k = "b" if self.kind == "b" else self.kind
        return f"{self.order}{k}{self.size}"

    def __str__(self):
        return f"<dtype {self.text()}>"

    __repr__ = __str__

    def swapped(self, o):
        if o in ("=", "N", "native"):
            o = NATIVE
        elif o in ("S", "swap", None):
            o = {"<": ">", ">": "<"}.get(self.order, "|")
        elif o in ("L", "little"):
            o = "<"
        elif o in ("B", "big"):
            o = ">"
        elif o in ("|", "I"):
            o = self.order
        if self.fields is not None:
            return DT("V", self.size, "|", [
                (n, d.swapped(o), off) for n, d, off in self.fields])
        if self.sub:
            return DT("V", self.size, "|", None, (self.sub[0].swapped(o),
                                                  self.sub[1]))
        return DT(self.kind, self.size, o if self.order in "<>" else "|")

    def a_attr(self, m, name):
        if name == "fields":
            if self.fields is None:
                return None
            return {n: (d, off) for n, d, off in self.fields}
        if name == "names":
            return None if self.fields is None else tuple(
                n for n, _, _ in self.fields)
        if name == "descr":
            if self.fields is None:
                return [("", self.str())]
            out = []
            for n, d, _ in self.fields:
                if d.sub:
                    out.append((n, d.sub[0].str(), d.subshape()))
                else:
                    out.append((n, d.str()))
            return out
        if name == "isnative":
            return self.native()
        if name == "itemsize":
            return self.size
        if name == "alignment":
            return self.size if self.kind in "iufO" else 1
        if name == "byteorder":
            return "=" if self.order == NATIVE else self.order
        if name == "kind":
            return self.kind
        if name == "name":
            return {"O": "object", "V": f"void{8 * self.size}",
                    "S": f"bytes{8 * self.size}", "b": "bool"}.get(
                        self.kind, {"i": "int", "u": "uint",
                                    "f": "float"}.get(self.kind, "str")
                        + (str(8 * self.size) if self.kind in "iuf"
                           else ""))
        if name == "char":
            for c, v in LETTERS.items():
                if v == (self.kind, self.size):
                    return c
            return self.kind
        if name == "str":
            return self.str()
        if name == "shape":
            return self.subshape()
        if name == "ndim":
            return len(self.subshape())
        if name == "subdtype":
            return (self.sub[0], self.subshape()) if self.sub else None
        if name == "base":
            return self.sub[0] if self.sub else self
        if name == "hasobject":
            return self.kind == "O" or any(
                d.kind == "O" for _, d, _ in self.fields or ())
        if name == "isbuiltin":
            return 0 if self.fields is not None else 1
        return BoundM(self, name)

    def a_method(self, m, name, a, kw, node):
        if name == "newbyteorder":
            return self.swapped(a[0] if a else kw.get("new_order"))
        return NotImplemented

    def a_len(self, m):
        return len(self.fields or ())

    def a_item(self, m, k):
        if self.fields is None:
            raise AExc("KeyError")
        if isinstance(k, int):
            return m.native(self.fields.__getitem__, k)[1]
        for n, d, _ in self.fields:
            if n == k:
                return d
        raise AExc("KeyError")

    def a_conv(self, m, name):
        return self.text() if name in ("str", "repr") else NotImplemented

    def a_truth(self, m):
        return True

    def a_cmp(self, m, op, other, rev):
        if op in ("==", "!=", "is", "is not"):
            o = dtype_of(m, other)
            if o is None:
                return op in ("!=", "is not")
            return (o.text() == self.text()) is (op in ("==", "is"))
        if op in ("in", "not in") and rev is False:
            hits = [dtype_of(m, x) for x in m.iterate(other)] if not \
                isinstance(other, str) else []
            return any(h is not None and h.text() == self.text()
                       for h in hits) is (op == "in")
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("dtype", "object") for n in names)


def dtype_of(m, x):
    """the dtype a specification stands for, or None"""
    if isinstance(x, DT):
        return x
    if isinstance(x, type):
        x = x.__name__
    elif not isinstance(x, (str, list, dict, tuple)):
        n = getattr(x, "name", None)
        if not isinstance(n, str):
            return None
        x = n.split(".")[-1]
    if isinstance(x, str):
        if x in NAMES:
            return DT(*NAMES[x], "=")
        g = re.fullmatch(r"([<>=|@!]?)([a-zA-Z?])(\d*)", x)
        if not g:
            return None
        o, c, n = g.groups()
        if c == "a":
            c = "S"
        if c in "SVUO":
            return DT(c, 8 if c == "O" else int(n or 0))
        if n:
            if c == "b":
                return DT("b", 1)
            return DT(c, int(n), o or "=") if c in "iuf" else None
        if c in LETTERS:
            k, s = LETTERS[c]
            return DT(k, s, o or "=")
        return None
    if isinstance(x, tuple) and len(x) == 2:
        b = dtype_of(m, x[0])
        n = x[1]
        if isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        if b is not None and isinstance(n, tuple) and n and all(
                isinstance(i, int) for i in n):
            return DT("V", b.size * prod(n), "|", None, (b, n))
        if b is None or not isinstance(n, int):
            return None
        return DT("V", b.size * n, "|", None, (b, n))
    if isinstance(x, list):
        out, pos = [], 0
        for f in x:
            d = dtype_of(m, f[1] if len(f) == 2 else (f[1], f[2]))
            if d is None:
                return None
            out.append((f[0], d, pos))
            pos += d.size
        return DT("V", pos, "|", out)
    if isinstance(x, dict) and "names" in x and "formats" in x:
        ds = [dtype_of(m, f) for f in elems(m, x["formats"])]
        if any(d is None for d in ds):
            return None
        names = elems(m, x["names"])
        offs = elems(m, x["offsets"]) if "offsets" in x else None
        if len(set(names)) != len(names) or len(names) != len(ds) or (
                offs is not None and len(offs) != len(ds)):
            raise AExc("ValueError")
        if offs is None:
            offs, p = [], 0
            for d in ds:
                offs.append(p)
                p += d.size
        for o in offs:
            if not isinstance(o, int):
                raise AExc("TypeError")
        offs = [int(o) for o in offs]
        size = x.get("itemsize") or max(
            (o + d.size for o, d in zip(offs, ds)), default=0)
        return DT("V", size, "|", list(zip(names, ds, offs)))
    return None


class Col(AObj):
    """one column of values: bytes [at, at+size) of each record"""
    tags = frozenset()

    def __init__(self, dt, at=0, width=None, stored=None, steps=(), ops=(),
                 parts=None, frame=False, src=None):
        self.dt = dt
        self.at, self.width = at, dt.size if width is None else width
        self.stored = dt.order if stored is None else stored
        self.steps, self.ops, self.parts = tuple(steps), tuple(ops), parts
        self.frame = frame          # went through a DataFrame
        self.src = src              # ascii: which field of the text

    def but(self, **k):
        c = Col(self.dt, self.at, self.width, self.stored, self.steps,
                self.ops, self.parts, self.frame, self.src)
        for n, v in k.items():
            setattr(c, n, v)
        return c

    def step(self, *s, **k):
        return self.but(steps=self.steps + s, **k)

    def bad(self, why):
        return self.step("! " + why)

    def sane(self):
        """its dtype says the byte order the values are really in"""
        return self.dt.order == "|" or self.stored == self.dt.order

    def raw(self):
        return not self.steps and not self.ops

    def key(self):
        return ("col", id(self))

    def __str__(self):
        return f"<Col @{self.at}+{self.width} {self.dt.text()} " \
               f"{self.steps} {self.ops} {self.parts}>"

    __repr__ = __str__

    # ------------------------------------------------------------- as array
    def cast(self, d):
        if d.text() == self.dt.text():
            return self.but()
        c = self
        if not c.sane() and self.dt.kind in "iuf":
            c = c.bad("values taken in the wrong byte order")
        if d.kind == "b" and self.dt.kind != "b":
            if self.dt.kind in "VSO":
                return c.bad("truth of undecoded bytes").but(dt=d)
            return c.step("bool").but(dt=d, stored="|")
        if d.kind == "O":
            return c.but(dt=d, stored=c.dt.order if c.dt.order in "<>"
                         else "|")
        if self.dt.kind in "V" and d.kind in "iuf":
            return c.bad("numbers taken from undecoded bytes").but(dt=d)
        if self.dt.kind in "iuf" and d.kind in "iuf":
            if d.kind in "iu" and self.dt.kind == "f" or \
                    d.size < self.dt.size and not (
                        d.kind == "f" and c.steps):
                c = c.step(f"cast to {d.text()}")
        return c.but(dt=d, stored=d.order)

    def a_attr(self, m, name):
        if name in ("values", "array"):
            return self
        if name == "dtype":
            return self.dt
        if name == "str":
            if self.dt.kind in "iufb":
                raise AExc("AttributeError")
            return ColStr(self)
        if name == "iloc":
            return ColLoc(self)
        if name == "index":
            return Top(what="index")
        if name == "shape":
            return (Top(what="rows"),)
        if name == "ndim":
            return 1
        if name == "T":
            return self
        if name in ("empty",):
            return False
        if name == "flags":
            return Top(what="flags")
        return BoundM(self, name)

    def a_len(self, m):
        return NotImplemented

    def a_truth(self, m):
        raise AExc("ValueError")

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("Series", "ndarray", "object")
                   for n in names) or None

    def a_bin(self, m, op, other, rev):
        if isinstance(other, Col):
            if op == "+" and self.parts is not None and \
                    other.parts is not None:
                a, b = (other, self) if rev else (self, other)
                r = a.but(parts=a.parts + b.parts)
                for c in (a, b):
                    if c.steps[-1:] != ("bits",):
                        r = r.bad("bits joined before they are padded")
                return r
            return m.derive(self, other, what=op)
        if isinstance(other, Ser) and len(set(map(str, other.vals))) == 1:
            other = other.vals[0]
        if isinstance(other, (int, float)):
            if op in ("+", "*") or not rev and op in ("-", "/"):
                if op == "-":
                    op, other = "+", -other
                elif op == "/":
                    op, other = "*", 1 / other
                c = self if self.sane() else self.bad(
                    "scaled in the wrong byte order")
                if self.dt.kind in "VSO" and "decoded" not in str(c.steps):
                    return c.but(ops=c.ops + ((op, other),))
                return c.but(ops=c.ops + ((op, other),))
        return m.derive(self, what=op)

    def a_inplace(self, m, op, other):
        return self.a_bin(m, op, other, False)

    def a_un(self, m, op):
        if op == "-":
            return self.a_bin(m, "*", -1, False)
        if op == "+":
            return self
        return m.derive(self, what=op)

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("!=",) and isinstance(other, int) and other == 0:
            return self.cast(DT("b", 1))
        if op in ("==",) and isinstance(other, int) and other == 1:
            return self.cast(DT("b", 1))
        return m.derive(self, what=op)

    def a_conv(self, m, name):
        if name == "abs":
            return m.derive(self, what="abs")
        return NotImplemented

    def a_iter(self, m):
        return [Elem(self)]

    def a_item(self, m, k):
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis:
            return self
        if isinstance(k, int):
            return Elem(self)
        return m.derive(self, what="rows")

    def a_method(self, m, name, a, kw, node):
        if name in ("to_numpy", "copy", "ravel", "flatten", "squeeze",
                    "infer_objects", "reset_index", "rename", "ravel",
                    "__array__"):
            return self.but()
        if name == "astype":
            d = dtype_of(m, a[0] if a else kw.get("dtype"))
            if d is None:
                raise Undecided("astype")
            return self.cast(d)
        if name == "byteswap":
            return self.but(stored={"<": ">", ">": "<"}.get(
                self.stored, self.stored))
        if name in ("view", "newbyteorder"):
            if name == "newbyteorder":
                d = self.dt.swapped(a[0] if a else None)
            else:
                x = a[0] if a else kw.get("dtype")
                d = dtype_of(m, x)
                if d is None and isinstance(x, AObj):
                    return m.derive(self, what="view")
            if d is None:
                return self
            if d.size != self.dt.size or d.kind != self.dt.kind:
                if d.size == self.dt.size and {d.kind, self.dt.kind} <= \
                        set("iuf"):
                    return self.but(dt=d)
                return m.derive(self, what="view")
            return self.but(dt=d)
        if name in ("mul", "multiply", "add", "sub", "subtract", "div",
                    "truediv", "divide"):
            op = {"mul": "*", "multiply": "*", "add": "+", "sub": "-",
                  "subtract": "-"}.get(name, "/")
            return self.a_bin(m, op, a[0] if a else kw.get("other"), False)
        if name in ("ne",):
            return self.a_cmp(m, "!=", a[0], False)
        if name in ("tolist", "to_list"):
            return Rows(self)
        if name in ("map", "apply", "transform"):
            f = a[0]
            r = m.call_value(f, [Elem(self)], {
                k: v for k, v in kw.items() if k != "na_action"}, node)
            return from_elem(m, self, r)
        if name in ("max", "min", "sum", "any", "all", "mean", "std",
                    "nonzero", "isna", "notna", "isnull", "notnull",
                    "unique", "isin", "round", "fillna", "tobytes",
                    "clip", "equals"):
            return m.derive(self, what=name)
        return NotImplemented


class Elem(AObj):
    """any element of a column"""
    tags = frozenset()

    def __init__(self, col):
        self.col = col

    def key(self):
        return ("elem", id(self.col))

    def a_len(self, m):
        if self.col.parts is not None:
            return sum(8 * s for _, s, _ in self.col.parts)
        return 0 if self.col.dt.kind == "V" else self.col.width

    def a_item(self, m, k):
        c = self.col
        if isinstance(k, slice) and c.parts is not None:
            if c.steps[-1:] == ("0b",):
                if (k.start, k.stop) == (2, None):
                    return Elem(c.but(steps=c.steps[:-1] + ("unpadded",)))
                return Elem(c.bad("a slice of bits with their prefix"))
            return Slice(c, k.start, k.stop)
        if isinstance(k, slice):
            if c.dt.kind in "VSO" and not any(
                    "decoded" in t for t in c.steps):
                return Slice(c.bad("slices of the bytes themselves"),
                             k.start, k.stop)
            return m.derive(self, what="slice")
        return m.derive(self, what="item")

    def a_isinstance(self, m, names):
        if names is None:
            return None
        last = {n.split(".")[-1] for n in names}
        if self.col.parts is not None:
            return "str" in last
        if self.col.dt.kind in "VSO":
            return bool(last & {"bytes", "object", "void"})
        return None

    def a_bin(self, m, op, other, rev):
        r = self.col.a_bin(m, op, other.col if isinstance(
            other, Elem) else other, rev)
        return Elem(r) if isinstance(r, Col) else r

    def a_cmp(self, m, op, other, rev):
        r = self.col.a_cmp(m, op, other, rev)
        return Elem(r) if isinstance(r, Col) else r

    def a_conv(self, m, name):
        if name == "bool":
            return Elem(self.col.cast(DT("b", 1)))
        if name in ("bytes",):
            return self
        if name in ("float", "int"):
            return m.derive(self, what=name)
        return NotImplemented

    def a_method(self, m, name, a, kw, node):
        r = ColStr(self.col).a_method(m, name, a, kw, node) if name in (
            "decode", "zfill", "strip", "rstrip", "lstrip", "rjust") else \
            NotImplemented
        if name in ("tobytes", "item") and self.col.parts is None:
            return self
        if isinstance(r, Col):
            return Elem(r)
        return r


class Slice(AObj):
    tags = frozenset()

    def __init__(self, col, start, stop):
        self.col, self.start, self.stop = col, start, stop


def from_elem(m, col, r):
    """the column whose elements are r, an expression over one element"""
    if isinstance(r, Elem):
        return r.col
    if isinstance(r, (list, tuple)) and r and all(
            isinstance(x, Slice) for x in r):
        c = r[0].col
        return c.step("split").but(parts=(c.parts, tuple(
            (x.start, x.stop) for x in r)))
    return m.derive(col, what="map")


class Rows(AObj):
    """the list of a column's elements"""
    tags = frozenset()

    def __init__(self, col):
        self.col = col

    def a_iter(self, m):
        return [Elem(self.col)]

    def a_item(self, m, k):
        return Elem(self.col)


class Blob(AObj):
    """all elements of a column of bytes, joined"""
    tags = frozenset()

    def __init__(self, col):
        self.col = col


class ColLoc(AObj):
    tags = frozenset()

    def __init__(self, col):
        self.col = col

    def a_item(self, m, k):
        return Elem(self.col) if isinstance(k, int) else self.col


EBCDIC = {"cp037", "037", "ibm037", "cp273", "cp424", "cp500", "ibm500",
          "500", "cp875", "cp1026", "cp1140", "cp1141", "cp1047",
          "ebcdic-cp-us", "ebcdic-cp-be", "ebcdic-cp-ch", "ebcdic-cp-nl"}


class ColStr(AObj):
    tags = frozenset()

    def __init__(self, col):
        self.col = col

    def a_item(self, m, k):
        r = Elem(self.col).a_item(m, k)
        return from_elem(m, self.col, r)

    def a_method(self, m, name, a, kw, node):
        c = self.col
        if name == "decode":
            codec = a[0] if a else kw.get("encoding", "utf-8")
            if not isinstance(codec, str):
                return m.derive(c, what="decode")
            kind = "EBCDIC" if codec.lower().replace(
                "_", "-").replace("-", "") in {
                    x.replace("-", "") for x in EBCDIC} else \
                f"{codec}"
            if c.dt.kind == "V":
                return c.bad("void, not bytes, decoded as text")
            if c.dt.kind not in "SO" or c.parts is not None or \
                    c.steps and "decoded" in c.steps[-1]:
                return c.bad("decoded as text though it is not bytes")
            return c.step(f"decoded as {kind}").but(dt=DT("O", 8))
        if name in ("strip", "rstrip", "lstrip"):
            return c.but()
        if name == "slice" and c.parts is not None:
            return self.a_item(m, slice(*a))
        if name in ("zfill", "rjust") and c.parts is not None:
            n = a[0] if a else kw.get("width")
            want = sum(8 * s for _, s, _ in c.parts)
            if name == "rjust" and (a[1:] or ["?"])[0] != "0":
                return c.bad("bits padded with something else than zeros")
            if c.steps[-1:] == ("unpadded",):
                if n == want:
                    return c.but(steps=c.steps[:-1] + ("bits",))
                return c.bad(f"{want} bits padded to {n}")
            return c.bad("bits padded with their prefix")
        return NotImplemented


class Rec(AObj):
    """an array of records"""
    tags = frozenset()

    def __init__(self, fields):
        self.f = list(fields)       # [(name, Col)]

    def key(self):
        return ("rec", id(self))

    def dtype(self):
        p, out = 0, []
        for n, c in self.f:
            out.append((n, c.dt, p))
            p += c.dt.size
        return DT("V", p, "|", out)

    def a_attr(self, m, name):
        if name == "dtype":
            return self.dtype()
        if name == "shape":
            return (Top(what="rows"),)
        if name == "ndim":
            return 1
        if name == "size":
            return Top(what="rows")
        if name == "T":
            return self
        if name == "flags":
            return Top(what="flags")
        return BoundM(self, name)

    def a_item(self, m, k):
        if isinstance(k, str):
            for n, c in self.f:
                if n == k:
                    return c
            raise AExc("ValueError")
        if isinstance(k, (list, Labels)) and all(isinstance(
                x, str) for x in k):
            return Rec([(x, self.a_item(m, x)) for x in k])
        if isinstance(k, slice) and k == slice(None):
            return self
        return NotImplemented

    def a_setitem(self, m, k, v):
        if isinstance(k, str):
            for i, (n, c) in enumerate(self.f):
                if n == k:
                    if isinstance(v, Col):
                        self.f[i] = (n, v.cast(c.dt))
                    else:
                        self.f[i] = (n, c.bad("overwritten"))
                    return
            raise AExc("ValueError")

    def each(self, f):
        return Rec([(n, f(c)) for n, c in self.f])

    def cast(self, d):
        if d.fields is None:
            if d.kind == "O":
                return Top(what="records as objects")
            raise AExc("TypeError")
        if len(d.fields) != len(self.f):
            raise AExc("ValueError")
        return Rec([(n, c.cast(x)) for (n, x, _), (_, c) in zip(
            d.fields, self.f)])

    def a_method(self, m, name, a, kw, node):
        if name in ("copy", "squeeze", "ravel"):
            return Rec(self.f)
        if name == "byteswap":
            r = self.each(lambda c: c.a_method(m, "byteswap", [], {}, node))
            if a and a[0] is True or kw.get("inplace"):
                self.f = r.f
                return self
            return r
        if name in ("view", "newbyteorder"):
            d = self.dtype().swapped(a[0] if a else None) if \
                name == "newbyteorder" else dtype_of(
                    m, a[0] if a else kw.get("dtype"))
            if d is None or d.fields is None:
                return m.derive(self, what="view")
            if len(d.fields) != len(self.f):
                return m.derive(self, what="view")
            return Rec([(n, c.a_method(m, "view", [x], {}, node))
                        for (n, x, _), (_, c) in zip(d.fields, self.f)])
        if name == "astype":
            d = dtype_of(m, a[0] if a else kw.get("dtype"))
            if d is None:
                raise Undecided("astype")
            return self.cast(d)
        return NotImplemented

    def a_truth(self, m):
        raise AExc("ValueError")

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("ndarray", "object") for n in names)


class Table(AObj):
    """a data frame of columns"""
    tags = frozenset()
    pyclass = "pandas.DataFrame"

    def __init__(self, cols):
        self.c = list(cols)         # [(label, Col)]

    def key(self):
        return ("table", id(self))

    def __str__(self):
        return f"<Table {[n for n, _ in self.c]}>"

    __repr__ = __str__

    def names(self):
        return Labels(n for n, _ in self.c)

    def get(self, k):
        r = [c for n, c in self.c if n == k and isinstance(
            n, str) == isinstance(k, str)]
        if not r:
            raise AExc("KeyError")
        return r[0]

    def put(self, k, v):
        for i, (n, _) in enumerate(self.c):
            if n == k and isinstance(n, str) == isinstance(k, str):
                self.c[i] = (n, v)
                return
        self.c.append((k, v))

    def a_attr(self, m, name):
        if name == "columns":
            return self.names()
        if name == "loc":
            return TableLoc(self)
        if name == "dtypes":
            return Ser([c.dt if isinstance(c, Col) else Top()
                        for _, c in self.c], self.names())
        if name == "index":
            return Top(what="index")
        if name == "empty":
            return False
        if name == "shape":
            return (Top(what="rows"), len(self.c))
        if name == "T":
            raise Undecided("transposed table")
        for n, c in self.c:
            if n == name:
                return c
        return BoundM(self, name)

    def a_setattr(self, m, name, v):
        if name == "columns":
            new = elems(m, v)
            if len(new) != len(self.c):
                raise AExc("ValueError")
            self.c = [(n, c) for n, (_, c) in zip(new, self.c)]
        elif name in self.names():
            self.put(name, v)

    def a_item(self, m, k):
        if isinstance(k, (list, Ser, Labels)):
            ks = elems(m, k)
            if ks and all(isinstance(x, bool) for x in ks):
                raise Undecided("rows selected")
            return Table([(x, self.get(x)) for x in ks])
        if isinstance(k, slice):
            return self
        if isinstance(k, AObj):
            raise Undecided("rows selected")
        return self.get(k)

    def a_setitem(self, m, k, v):
        if isinstance(k, (list, Ser, Labels)):
            ks = elems(m, k)
            if isinstance(v, Table):
                if len(v.c) != len(ks):
                    raise AExc("ValueError")
                for x, (_, c) in zip(ks, v.c):
                    self.put(x, c)
            else:
                for x in ks:
                    self.put(x, v)
            return
        if isinstance(v, Elem):
            v = v.col
        self.put(k, v)

    def a_delitem(self, m, k):
        self.get(k)
        self.c = [(n, c) for n, c in self.c if n != k]

    def a_iter(self, m):
        return self.names()

    def a_len(self, m):
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in") and rev:
            return (other in self.names()) is (op == "in")
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        return NotImplemented

    def a_truth(self, m):
        raise AExc("ValueError")

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("DataFrame", "object")
                   for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "keys":
            return self.names()
        if name in ("items", "iteritems"):
            return list(self.c)
        if name in ("copy", "infer_objects", "convert_dtypes",
                    "reset_index"):
            if name == "convert_dtypes":
                raise Undecided(name)
            return Table(self.c)
        if name == "get":
            try:
                return self.get(a[0])
            except AExc:
                return a[1] if len(a) > 1 else kw.get("default")
        if name == "pop":
            c = self.get(a[0])
            self.a_delitem(m, a[0])
            return c
        if name == "drop":
            axis = kw.get("axis", a[1] if len(a) > 1 else 0)
            what = kw.get("columns")
            if what is None:
                if axis not in (1, "columns"):
                    raise Undecided("rows dropped")
                what = a[0] if a else kw.get("labels")
            ws = [what] if isinstance(what, str) else elems(m, what)
            if kw.get("errors") != "ignore":
                for w in ws:
                    self.get(w)
            r = Table([(n, c) for n, c in self.c if n not in ws])
            if kw.get("inplace"):
                self.c = r.c
                return None
            return r
        if name == "rename":
            cmap = kw.get("columns")
            if cmap is None and kw.get("axis") in (1, "columns"):
                cmap = a[0]
            if cmap is None:
                raise Undecided("rename")
            r = Table([(cmap.get(n, n) if isinstance(cmap, dict) else
                        m.call_value(cmap, [n], {}, node), c)
                       for n, c in self.c])
            if kw.get("inplace"):
                self.c = r.c
                return None
            return r
        if name == "set_axis":
            r = Table(self.c)
            r.a_setattr(m, "columns", a[0])
            return r
        if name == "astype":
            t = a[0] if a else kw.get("dtype")
            out = []
            for n, c in self.c:
                x = t.get(n) if isinstance(t, dict) else t
                if x is None:
                    out.append((n, c))
                    continue
                out.append((n, m.call_method(c, "astype", [x], {}, node)))
            return Table(out)
        if name == "assign":
            r = Table(self.c)
            for k, v in kw.items():
                if not isinstance(v, AObj):
                    v = m.call_value(v, [r], {}, node)
                r.put(k, v)
            return r
        if name == "insert":
            self.c.insert(a[0], (a[1], a[2]))
            return None
        if name in ("filter",) and "items" in kw:
            return Table([(n, c) for n, c in self.c if n in kw["items"]])
        if name in ("mul", "multiply", "add", "sub", "div"):
            return self.scaled(m, {"mul": "*", "multiply": "*", "add": "+",
                                   "sub": "-"}.get(name, "/"), a[0])
        if name in ("reindex",) and "columns" in kw:
            return Table([(n, self.get(n)) for n in elems(
                m, kw["columns"])])
        if name == "apply":
            axis = kw.get("axis", a[1] if len(a) > 1 else 0)
            if axis in (1, "columns"):
                raise Undecided("rows")
            return Table([(n, m.call_value(a[0], [c], {}, node))
                          for n, c in self.c])
        return NotImplemented

    def scaled(self, m, op, other):
        out = []
        for n, c in self.c:
            o = other
            if isinstance(other, (Ser, dict)):
                d = dict(zip(other.idx, other.vals)) if isinstance(
                    other, Ser) else other
                if n not in d:
                    out.append((n, m.derive(c, what="missing")))
                    continue
                o = d[n]
            out.append((n, m.binop(op, c, o)))
        return Table(out)

    def a_bin(self, m, op, other, rev):
        if rev and op in ("-", "/"):
            return NotImplemented
        if isinstance(other, (Ser, dict, int, float)):
            return self.scaled(m, op, other)
        return NotImplemented


class TableLoc(AObj):
    tags = frozenset()

    def __init__(self, t):
        self.t = t

    def a_item(self, m, k):
        if isinstance(k, tuple) and k[0] == slice(None):
            c = k[1]
            if isinstance(c, (list, Ser)):
                cs = elems(m, c)
                if cs and all(isinstance(x, bool) for x in cs):
                    return Table([x for x, ok in zip(self.t.c, cs) if ok])
                return self.t.a_item(m, c)
            if isinstance(c, slice):
                return self.t
            return self.t.get(c)
        raise Undecided("rows selected")

    def a_setitem(self, m, k, v):
        if isinstance(k, tuple) and k[0] == slice(None) and not isinstance(
                k[1], slice):
            return self.t.a_setitem(m, k[1], v)
        raise Undecided("rows assigned")


def to_table(m, x):
    if isinstance(x, Rec):
        out = []
        for n, c in x.f:
            out.append((n, c.but(frame=True)))
        return Table(out)
    if isinstance(x, Col):
        if x.dt.sub:
            return m.derive(x)
        return Table([(0, x.but(frame=True))])
    if isinstance(x, Table):
        return Table(x.c)
    if isinstance(x, dict) and x and all(isinstance(v, Col)
                                         for v in x.values()):
        return Table([(n, c.but(frame=True)) for n, c in x.items()])
    return NotImplemented


def from_bytes(dt, src=None):
    """raw records of a dtype"""
    if dt.fields is None:
        return Col(dt, 0)
    return Rec([(n, Col(d, off)) for n, d, off in dt.fields])


def data_call(m, name, a, kw, node):
    """numpy and pandas over typestates"""
    x = a[0] if a else None
    if name in ("numpy.dtype",):
        d = dtype_of(m, x)
        if d is None:
            if isinstance(x, AObj):
                return Top(what="dtype")
            raise AExc("TypeError")
        return d
    if name in ("numpy.fromfile", "numpy.frombuffer"):
        d = kw.get("dtype", a[1] if len(a) > 1 else None)
        d = dtype_of(m, d)
        if d is None:
            raise Undecided("dtype")
        if isinstance(x, Blob):
            base, r = x.col, from_bytes(d)
            if not base.raw() or d.size != base.width:
                base = base.bad(f"{base.width} bytes taken {d.size} at a "
                                "time")
            if isinstance(r, Col):
                r = Rec([("", r)])
                one = True
            else:
                one = False
            r = Rec([(n, Col(c.dt, base.at, base.width, c.stored,
                             base.steps, base.ops,
                             ((c.at, c.dt.size, c.dt.order),)))
                     for n, c in r.f])
            return r.f[0][1] if one else r
        return from_bytes(d)
    if name in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray",
                "numpy.copy", "numpy.asanyarray"):
        if isinstance(x, (Rec, Col)):
            d = kw.get("dtype", a[1] if len(a) > 1 else None)
            if d is None:
                return x.a_method(m, "copy", [], {}, node)
            d = dtype_of(m, d)
            if d is None:
                raise Undecided("dtype")
            return x.cast(d)
        if isinstance(x, Rows):
            return x.col
    if name in ("pandas.DataFrame", "pandas.DataFrame.from_records",
                "pandas.DataFrame.from_dict"):
        if x is None:
            x = kw.get("data")
        r = to_table(m, x)
        if r is not NotImplemented:
            cols = kw.get("columns")
            if cols is not None:
                r.a_setattr(m, "columns", cols)
            return r
    if name == "pandas.Series" and isinstance(x, Col):
        return x.but()
    if name == "pandas.Series" and isinstance(x, Rows):
        return x.col
    if name == "pandas.concat":
        xs = elems(m, x)
        if xs and all(isinstance(t, Table) for t in xs) and kw.get(
                "axis", 0) in (1, "columns"):
            return Table([c for t in xs for c in t.c])
        if xs and all(isinstance(t, Col) for t in xs):
            raise Undecided("concat")
    if name == "builtins.bin" and isinstance(x, Elem):
        c = x.col
        if c.parts is None:
            return m.derive(c, what="bin")
        if not c.sane():
            c = c.bad("bits in the wrong byte order")
        return Elem(c.step("0b").but(dt=DT("O", 8)))
    if name == "numpy.abs" and isinstance(x, Col):
        return m.derive(x, what="abs")
    return frame_call(m, name, a, kw, node)


__all__ = ["DT", "Col", "Rec", "Table", "Frame", "Ser", "data_call",
           "dtype_of", "from_bytes"]
