"""C37: PDS4 tables and arrays are decoded from the bytes their labels give.

The vendored PDS4 reader is interpreted on labels of every shape that matters
-- each data type, fields in groups and groups in groups, gaps, offsets,
delimiters, quotes, axes -- and on files whose bytes all differ; the values it
ends up with are compared with those the label describes.  What numpy does is
modelled; nothing of the program runs."""
from __future__ import annotations

import ast
import itertools
import struct
from collections import OrderedDict

from ..absint import AExc, AObj, BoundM, Cls, Ext, Inst, Machine, Undecided
from ..files import FS, File, Stream
from ..product import ProductModel, Quiet

READER = "pdr.pds4_tools.reader"
TABLE = READER + ".read_tables.read_table"
ARRAY = READER + ".read_arrays.read_array"
SIX = "pdr.pds4_tools.extern.six"

# ------------------------------------------------------------ the standard
BINARY = {"IEEE754MSBSingle": ">f", "IEEE754MSBDouble": ">d",
          "SignedMSB2": ">h", "SignedMSB4": ">i", "SignedMSB8": ">q",
          "UnsignedMSB2": ">H", "UnsignedMSB4": ">I", "UnsignedMSB8": ">Q",
          "ComplexMSB8": ">ff", "ComplexMSB16": ">dd",
          "IEEE754LSBSingle": "<f", "IEEE754LSBDouble": "<d",
          "SignedLSB2": "<h", "SignedLSB4": "<i", "SignedLSB8": "<q",
          "UnsignedLSB2": "<H", "UnsignedLSB4": "<I", "UnsignedLSB8": "<Q",
          "ComplexLSB8": "<ff", "ComplexLSB16": "<dd",
          "SignedByte": "b", "UnsignedByte": "B"}
TEXT = {"ASCII_Integer": int, "ASCII_NonNegative_Integer": int,
        "ASCII_Numeric_Base2": lambda s: int(s, 2),
        "ASCII_Numeric_Base8": lambda s: int(s, 8),
        "ASCII_Numeric_Base16": lambda s: int(s, 16),
        "ASCII_Real": float,
        "ASCII_Boolean": lambda s: s.strip() in (b"true", b"1")}


def decode(t, b):
    """what the bytes stand for in a data type of the standard"""
    if t in BINARY:
        v = struct.unpack(BINARY[t], b)
        return v[0] if len(v) == 1 else complex(*v)
    if t in TEXT:
        return TEXT[t](b)
    return b


# ------------------------------------------------------------------- labels
class Elem(AObj):
    """an element of a label"""
    tags = frozenset()

    def __init__(self, tag, text=None, kids=()):
        self.tag, self.text, self.kids = tag, text, list(kids)

    def key(self):
        return ("elem", id(self))

    def a_attr(self, m, name):
        if name == "tag":
            return self.tag
        if name == "text":
            return self.text
        if name == "attrib":
            return {}
        return NotImplemented

    def a_len(self, m):
        return len(self.kids)

    def a_iter(self, m):
        return list(self.kids)

    def a_truth(self, m):
        return True

    def a_item(self, m, k):
        if isinstance(k, (int, slice)):
            return m.native(lambda: self.kids[k])
        raise Undecided("element")

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not", "==", "!="):
            return (other is self) is (op in ("is", "=="))
        return NotImplemented

    def a_isinstance(self, m, ns):
        return None if ns is None else any(n.split(".")[-1] in (
            "Label", "Element", "object") for n in ns)

    def all(self):
        out = [self]
        for k in self.kids:
            out += k.all()
        return out

    def find(self, path):
        deep = path.startswith(".//")
        path = path[3:] if deep else path.removeprefix("./")
        if not path.replace("_", "").replace("/", "").isalnum():
            raise Undecided("search of a label")
        at = self.all() if deep else [self]
        for part in path.split("/"):
            at = [k for e in at for k in e.kids if k.tag == part]
        return list(dict.fromkeys(at))

    def a_method(self, m, name, a, kw, node):
        if name in ("find", "findall", "findtext", "iterfind"):
            hit = self.find(a[0])
            if name in ("findall", "iterfind"):
                return hit
            if name == "find":
                return hit[0] if hit else None
            d = a[1] if len(a) > 1 else kw.get("default")
            return (hit[0].text or "") if hit else d
        if name == "getroot":
            return self
        if name in ("iter", "getiterator"):
            return [e for e in self.all() if not a or e.tag == a[0]]
        if name in ("items", "keys"):
            return []
        if name == "get":
            return a[1] if len(a) > 1 else None
        return NotImplemented


def el(tag, *kids, **parts):
    out = [el(k, v) for k, v in parts.items()]
    if len(kids) == 1 and not isinstance(kids[0], Elem):
        return Elem(tag, str(kids[0]))
    return Elem(tag, None, out + list(kids))


# ------------------------------------------------------- numpy, so far used
FMT = {"float32": "f", "float64": "d", "int8": "b", "int16": "h",
       "int32": "i", "int64": "q", "uint8": "B", "uint16": "H",
       "uint32": "I", "uint64": "Q", "complex64": "ff", "complex128": "dd",
       "bool": "?", "float": "d", "int": "q", "f4": "f", "f8": "d",
       "i1": "b", "i2": "h", "i4": "i", "i8": "q", "u1": "B", "u2": "H",
       "u4": "I", "u8": "Q", "c8": "ff", "c16": "dd"}
BASE = {"f": "floating", "d": "floating", "ff": "complexfloating",
        "dd": "complexfloating", "?": "bool_"}
ABOVE = {"signedinteger": ("integer", "number"),
         "unsignedinteger": ("integer", "number"),
         "floating": ("inexact", "number"),
         "complexfloating": ("inexact", "number"),
         "bytes_": ("character", "flexible"),
         "str_": ("character", "flexible"), "object_": (), "bool_": (),
         "datetime64": ()}


class DT(AObj):
    """a dtype"""
    tags = frozenset()

    def __init__(self, fmt, order="<", size=None, name=None):
        self.fmt, self.order, self.name = fmt, order, name
        self.size = struct.calcsize("<" + fmt) if fmt in FMT.values() \
            else (size or 0)
        self.given = size

    def key(self):
        return ("dt", self.fmt, self.order, self.size)

    def kind(self):
        if self.fmt in ("S", "U", "O", "M"):
            return {"S": "bytes_", "U": "str_", "O": "object_",
                    "M": "datetime64"}[self.fmt]
        if self.fmt in BASE:
            return BASE[self.fmt]
        return "unsignedinteger" if self.fmt.isupper() else "signedinteger"

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name == "itemsize":
            return self.size
        if name == "kind":
            k = self.kind()
            return {"bytes_": "S", "str_": "U", "object_": "O",
                    "datetime64": "M", "bool_": "b", "floating": "f",
                    "complexfloating": "c", "signedinteger": "i",
                    "unsignedinteger": "u"}[k]
        if name == "byteorder":
            return self.order if self.size > 1 else "|"
        if name == "names":
            return None
        if name == "type":
            k = self.kind()
            return Ext("numpy." + (k if k.endswith("_") else {
                "f": "float32", "d": "float64", "ff": "complex64",
                "dd": "complex128", "M": "datetime64"}.get(self.fmt) or (
                "u" if self.fmt.isupper() else "") + f"int{8 * self.size}"))
        if name == "isnative":
            return self.order != ">"
        return NotImplemented

    def a_method(self, m, name, a, kw, node):
        if name == "newbyteorder":
            o = (a[0] if a else kw.get("new_order", "S"))
            if not isinstance(o, str):
                raise Undecided("byte order")
            o = {"b": ">", ">": ">", "l": "<", "<": "<", "n": "<", "=": "<",
                 "s": "<" if self.order == ">" else ">", "|": self.order,
                 "i": self.order}.get(o[:1].lower())
            if o is None:
                raise AExc("ValueError")
            return DT(self.fmt, o, self.given, self.name)
        raise Undecided(f"dtype.{name}")

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("==", "!="):
            o = dtype(m, other, quiet=True)
            r = o is not None and (o.fmt, o.size, o.order if o.size > 1
                                   else "") == (
                self.fmt, self.size, self.order if self.size > 1 else "")
            return r is (op == "==")
        return NotImplemented

    def a_isinstance(self, m, ns):
        return None if ns is None else any(
            n.split(".")[-1] in ("dtype", "object") for n in ns)


def dtype(m, v, quiet=False):
    if isinstance(v, DT):
        return v
    if isinstance(v, Ext):
        v = v.name.split(".")[-1]
    if isinstance(v, type):
        v = v.__name__
    if not isinstance(v, str):
        if quiet:
            return None
        raise Undecided("a dtype")
    n, o = v, "<"
    if n[:1] in "<>=|":
        o = ">" if n[0] == ">" else "<"
        n = n[1:]
    n = n.rstrip("_") if n not in ("bool_",) else "bool"
    if n in FMT:
        return DT(FMT[n], o, name=n)
    if n in ("object", "O"):
        return DT("O", "<", 8)
    if n.startswith(("datetime64", "M8")):
        return DT("M", "<", 8)
    if n in ("bytes", "str", "unicode"):
        n = "S" if n == "bytes" else "U"
    if n[:1] in "SU" and (n[1:].isdigit() or not n[1:]):
        k = int(n[1:] or 0)
        return DT(n[0], "<", k * (4 if n[0] == "U" else 1))
    if quiet:
        return None
    raise Undecided(f"the dtype {v}")


def conv(m, v, dt):
    """a value given to an array of this dtype"""
    k = dt.kind()
    try:
        if k in ("signedinteger", "unsignedinteger"):
            if isinstance(v, (bytes, str)):
                v = int(v)
            v = int(v)
            lo = -(1 << 8 * dt.size - 1) if k[0] == "s" else 0
            if not lo <= v < lo + (1 << 8 * dt.size):
                raise AExc("OverflowError")
            return v
        if k == "floating":
            v = float(v)
            return struct.unpack("<f", struct.pack("<f", v))[0] if \
                dt.fmt == "f" else v
        if k == "complexfloating":
            return complex(v)
        if k == "bool_":
            if isinstance(v, (bytes, str)):
                raise Undecided("text as a truth value")
            return bool(v)
        if k == "bytes_":
            if isinstance(v, str):
                v = v.encode("ascii")
            if not isinstance(v, bytes):
                raise Undecided("a number as text")
            return (v[:dt.size] if dt.size else v).rstrip(b"\0")
        if k == "str_":
            if isinstance(v, bytes):
                v = v.decode("ascii")
            return (v[:dt.size // 4] if dt.size else v).rstrip("\0")
    except (ValueError, TypeError, UnicodeError) as e:
        raise AExc(type(e).__name__)
    return v


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


class Arr(AObj):
    """an array: its values in order, and its shape"""
    tags = frozenset()

    def __init__(self, vals, dt, shape=None, meta=None, raw=None):
        self.v, self.dt = list(vals), dt
        self.shape = tuple(shape) if shape is not None else (len(self.v),)
        self.meta, self.raw = meta, raw
        self.mask = None
        self.is_pds = False

    def key(self):
        return ("arr", id(self))

    def like(self, vals=None, dt=None, shape=None):
        a = Arr(self.v if vals is None else vals, dt or self.dt,
                self.shape if shape is None else shape, self.meta, self.raw)
        a.mask, a.is_pds = self.mask, self.is_pds
        return a

    def a_truth(self, m):
        if len(self.v) != 1:
            raise AExc("ValueError")
        return bool(self.v[0])

    def a_len(self, m):
        if not self.shape:
            raise AExc("TypeError")
        return self.shape[0]

    def a_iter(self, m):
        if len(self.shape) == 1:
            return list(self.v)
        raise Undecided("rows of an array")

    def a_attr(self, m, name):
        if name == "dtype":
            return self.dt
        if name == "shape":
            return self.shape
        if name == "ndim":
            return len(self.shape)
        if name == "size":
            return len(self.v)
        if name == "T" and len(self.shape) < 2:
            return self
        if name == "meta_data":
            if self.meta is None:
                raise AExc("AttributeError")
            return self.meta
        if name == "mask":
            return self.mask if self.mask is not None else False
        return NotImplemented

    def a_setattr(self, m, name, v):
        if name == "meta_data":
            self.meta = v
        elif name == "mask":
            self.mask = v
        else:
            raise Undecided(f"array.{name} = ")

    def pick(self, k):
        """the positions an index selects, or None"""
        if isinstance(k, Arr) and k.dt.fmt == "?":
            return [i for i, x in enumerate(k.v) if x]
        if isinstance(k, Arr):
            return [int(x) for x in k.v]
        if isinstance(k, slice) and len(self.shape) == 1:
            return list(range(*k.indices(len(self.v))))
        if isinstance(k, (list, tuple)) and len(k) == 1 and isinstance(
                k[0], Arr):
            return self.pick(k[0])
        return None

    def a_item(self, m, k):
        if isinstance(k, int) and len(self.shape) == 1:
            return m.native(lambda: self.v[k])
        at = self.pick(k)
        if at is None or len(self.shape) != 1:
            raise Undecided("an index of an array")
        vals = m.native(lambda: [self.v[i] for i in at])
        return self.like(vals, shape=(len(vals),))

    def a_setitem(self, m, k, v):
        self.raw = None
        if isinstance(k, int) and len(self.shape) == 1:
            x = conv(m, v, self.dt)

            def put():
                self.v[k] = x
            m.native(put)
            return
        at = self.pick(k)
        if at is None:
            raise Undecided("an index of an array")
        vals = v.v if isinstance(v, Arr) else v if isinstance(
            v, (list, tuple)) else [v] * len(at)
        for i, x in zip(at, vals):
            self.v[i] = conv(m, x, self.dt)

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("==", "!="):
            o = other.v if isinstance(other, Arr) else [other] * len(self.v)
            return Arr([(a == b) is (op == "==") for a, b in zip(self.v, o)],
                       DT("?"), self.shape)
        if op in ("in", "not in") and rev is not None:
            if isinstance(other, (int, float, bytes, str)):
                return (other in self.v) is (op == "in")
        return NotImplemented

    def a_bin(self, m, op, other, rev):
        o = other.v if isinstance(other, Arr) else list(other) if isinstance(
            other, (list, tuple)) else [other] * len(self.v)
        if len(o) != len(self.v) or op not in ("+", "-", "*"):
            raise Undecided("arithmetic of arrays")
        f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
             "*": lambda a, b: a * b}[op]
        return self.like([f(b, a) if rev else f(a, b)
                          for a, b in zip(self.v, o)])

    def a_isinstance(self, m, ns):
        if ns is None:
            return None
        return any(n.split(".")[-1] in (
            "ndarray", "object", "PDS_ndarray" if self.is_pds else "ndarray")
            and self.mask is None or n.split(".")[-1] in (
                "ndarray", "MaskedArray") and self.mask is not None or
            n.split(".")[-1] == "PDS_marray" and self.is_pds and
            self.mask is not None for n in ns)

    def a_method(self, m, name, a, kw, node):
        if name == "view":
            t = a[0] if a else None
            n = self.like()
            if isinstance(t, Cls):
                n.is_pds = True
            elif isinstance(t, Ext):
                if t.name.split(".")[-1] not in ("ndarray", "recarray",
                                                 "masked_array",
                                                 "MaskedArray"):
                    raise Undecided("a view of an array")
                n.is_pds = False
                if "ask" in t.name and n.mask is None:
                    n.mask = False
            elif t is not None:
                dt = dtype(m, t)
                if self.raw is None or len(self.shape) != 1:
                    raise Undecided("a view of an array")
                return frombuffer(m, self.raw, dt)
            n.v = self.v            # views share their values
            return n
        if name in ("copy", "__copy__"):
            return self.like()
        if name in ("ravel", "flatten"):
            return self.like(shape=(len(self.v),))
        if name == "reshape":
            s = a[0] if len(a) == 1 and not isinstance(a[0], int) else a
            s = [int(x) for x in m.iterate(s)]
            if kw.get("order", "C") != "C":
                raise Undecided("order of an array")
            if -1 in s:
                k = -prod(s)
                s[s.index(-1)] = len(self.v) // k if k else 0
            if prod(s) != len(self.v):
                raise AExc("ValueError")
            return self.like(shape=s)
        if name == "astype":
            dt = dtype(m, a[0] if a else kw["dtype"])
            return self.like([conv(m, x, dt) for x in self.v], dt)
        if name == "newbyteorder":
            raise Undecided("byte order")
        if name in ("min", "max", "sum"):
            f = {"min": min, "max": max, "sum": sum}[name]
            return m.native(f, self.v)
        if name == "prod":
            return prod(self.v)
        if name in ("any", "all"):
            return (any if name == "any" else all)(self.v)
        if name == "tolist":
            return list(self.v)
        if name == "tobytes":
            if self.raw is None:
                raise Undecided("bytes of an array")
            return self.raw
        if name == "set_fill_value":
            return None
        raise Undecided(f"array.{name}")


class Rec(AObj):
    """a structured array: the fields as they are set"""
    tags = frozenset()

    def __init__(self, n, fields):
        self.n, self.fields = n, fields     # name -> (dt, shape)
        self.set = OrderedDict()
        self.meta = OrderedDict()

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name == "meta_data":
            return self.meta
        if name == "shape":
            return (self.n,)
        return NotImplemented

    def a_setattr(self, m, name, v):
        if name == "meta_data":
            self.meta = v

    def a_isinstance(self, m, ns):
        return None if ns is None else any(n.split(".")[-1] in (
            "ndarray", "recarray", "object", "PDS_ndarray") for n in ns)

    def a_setitem(self, m, k, v):
        if not isinstance(k, str):
            raise Undecided("a record")
        if k not in self.fields:
            raise AExc("ValueError")
        dt, shape = self.fields[k]
        if not isinstance(v, Arr):
            raise Undecided("a field")
        if v.shape != (self.n, *shape):
            raise Undecided("a field of another shape")
        self.set[k] = v.like([conv(m, x, dt) for x in v.v], dt)

    def a_method(self, m, name, a, kw, node):
        if name == "view":
            return self
        f = None
        for q, c in m.p.classes.items():
            if q == READER + ".data.PDS_ndarray":
                f = m.p.find_method(c, name)
        if f is None:
            raise Undecided(f"record.{name}")
        return m.call_func(f, [self, *a], kw, node, None, self)


def frombuffer(m, b, dt):
    if not dt.size or len(b) % dt.size:
        raise AExc("ValueError")
    if dt.fmt in ("S", "U", "O", "M"):
        raise Undecided("text of a buffer")
    out = []
    for i in range(0, len(b), dt.size):
        v = struct.unpack(dt.order + dt.fmt, b[i:i + dt.size])
        out.append(v[0] if len(v) == 1 else complex(*v))
    return Arr(out, dt, raw=bytes(b))


def asarray(m, v, dt):
    if isinstance(v, Rec):
        return v
    if isinstance(v, Arr):
        if dt is None:
            return v
        return v.like([conv(m, x, dt) for x in v.v], dt)
    v = list(m.iterate(v))
    if any(isinstance(x, (AObj, list, tuple)) for x in v):
        raise Undecided("an array of arrays")
    if dt is None:
        if all(isinstance(x, bytes) for x in v):
            dt = DT("S", "<", max([len(x) for x in v], default=1) or 1)
        elif all(isinstance(x, str) for x in v):
            dt = DT("U", "<", 4 * max([len(x) for x in v], default=1) or 4)
        elif all(isinstance(x, bool) for x in v):
            dt = DT("?")
        elif all(isinstance(x, int) for x in v):
            dt = DT("q")
        elif all(isinstance(x, (int, float)) for x in v):
            dt = DT("d")
        else:
            raise Undecided("an array of values of several kinds")
    elif dt.fmt in ("S", "U") and not dt.given:
        k = max([len(x) for x in v], default=1) or 1
        dt = DT(dt.fmt, "<", k * (4 if dt.fmt == "U" else 1))
    return Arr([conv(m, x, dt) for x in v], dt)


def npy(m, f, a, kw):
    """numpy's functions"""
    def arg(i, n, d=None):
        return a[i] if len(a) > i else kw.get(n, d)

    def dt(i, d=None):
        v = arg(i, "dtype", d)
        return None if v is None else dtype(m, v)
    if f == "dtype":
        return dtype(m, a[0])
    if f == "issubdtype":
        x, y = a
        if isinstance(y, Ext):
            y = {"unicode_": "str_", "string_": "bytes_"}.get(
                y.name.split(".")[-1], y.name.split(".")[-1])
        if not isinstance(y, str):
            raise Undecided("a kind of dtype")
        k = dtype(m, x).kind()
        return y == k or y in ABOVE[k] or y == "generic"
    if f == "frombuffer":
        b = a[0]
        if isinstance(b, Arr):
            b = b.raw
        if not isinstance(b, (bytes, bytearray)):
            raise Undecided("a buffer")
        n, off = arg(2, "count", -1), arg(3, "offset", 0)
        d = dt(1, "float64")
        b = bytes(b)[off:]
        return frombuffer(m, b if n < 0 else b[:n * d.size], d)
    if f in ("fromfile", "memmap"):
        h = a[0]
        d = dt(1, "float64" if f == "fromfile" else "uint8")
        if f == "memmap":
            s = kw.get("shape")
            h = m.model.fs.open(m, h if isinstance(h, str) else str(h), "rb")
            h.pos = kw.get("offset", 0)
            n = -1 if s is None else s if isinstance(s, int) else prod(s)
        else:
            n = arg(2, "count", -1)
        if isinstance(h, str):
            h = m.model.fs.open(m, h, "rb")
        if not isinstance(h, Stream):
            raise Undecided("a file")
        h.pos += arg(4, "offset", 0) if f == "fromfile" else 0
        b = h.data[h.pos:] if n < 0 else h.data[h.pos:h.pos + n * d.size]
        h.pos += len(b)
        return frombuffer(m, b[:len(b) // d.size * d.size], d)
    if f in ("asarray", "asanyarray", "array", "ascontiguousarray"):
        r = asarray(m, a[0], dt(1))
        return r.like() if f == "array" and isinstance(r, Arr) else r
    if f in ("zeros", "empty", "ones", "full"):
        s = arg(0, "shape")
        s = (s,) if isinstance(s, int) else tuple(m.iterate(s))
        d = dt(2 if f == "full" else 1, "float64")
        x = a[1] if f == "full" else f == "ones"
        return Arr([conv(m, int(x) if d.fmt != "O" else x, d)] * prod(s), d,
                   s)
    if f == "arange":
        return Arr(list(range(*a)), dt(9) or DT("q"))
    if f == "recarray":
        return record(m, a[0], arg(1, "dtype"))
    if f == "prod":
        return prod(m.iterate(a[0]))
    if f == "where" and len(a) == 1:
        if not isinstance(a[0], Arr) or len(a[0].shape) != 1:
            raise Undecided("where")
        return (Arr([i for i, x in enumerate(a[0].v) if x], DT("q")),)
    if f in ("nonzero", "flatnonzero"):
        r = Arr([i for i, x in enumerate(a[0].v) if x], DT("q"))
        return r if f[0] == "f" else (r,)
    if f == "nditer":
        x = a[0]
        if isinstance(x, (tuple, list)) and len(x) == 1:
            x = x[0]
        return list(m.iterate(x))
    if f in ("is_masked", "isMaskedArray", "isMA"):
        x = a[0]
        if not isinstance(x, Arr):
            return False
        return x.mask is not None and (f != "is_masked" or isinstance(
            x.mask, Arr) and any(x.mask.v))
    if f in ("decode", "encode", "strip", "lstrip", "rstrip"):
        x = asarray(m, a[0], None)
        if not all(isinstance(v, (bytes, str)) for v in x.v):
            raise AExc("TypeError")
        v = [m.native(lambda v=v: getattr(v, f)(*a[1:], **kw)) for v in x.v]
        return x.like(v, asarray(m, v, None).dt) if v else x
    if f in ("all", "any", "min", "max", "sum", "ravel", "reshape"):
        if isinstance(a[0], Arr):
            return a[0].a_method(m, f, a[1:], kw, None)
    raise Undecided(f"numpy.{f}")


def record(m, n, dts):
    n = n if isinstance(n, int) else m.iterate(n)[0]
    out = OrderedDict()
    for x in m.iterate(dts):
        if x[0] in out:
            raise AExc("ValueError")
        s = () if len(x) < 3 else x[2] if isinstance(x[2], int) else tuple(
            x[2])
        out[x[0]] = (dtype(m, x[1]), (s,) if isinstance(s, int) else s)
    return Rec(n, out)


# --------------------------------------------- instances with a built-in base
def bases(cls):
    """the names of a class's bases outside the program, as written"""
    out, todo, seen = set(), [cls], set()
    while todo:
        c = todo.pop()
        if c.qual in seen:
            continue
        seen.add(c.qual)
        known = [b for b in c.bases if b and b[0] == "class"]
        todo += [b[1] for b in known]
        for b in c.node.bases:
            out.add(ast.unparse(b).split(".")[-1])
    return out


class DictInst(Inst):
    """an instance of a class derived from dict"""

    def __init__(self, cls):
        super().__init__(cls)
        self.d = OrderedDict()

    def a_attr(self, m, name):
        if name in self.attrs or m.p.find_method(self.cls, name):
            return NotImplemented
        if hasattr(OrderedDict, name) and not name.startswith("__"):
            return BoundM(self, name)
        return NotImplemented

    def a_method(self, m, name, a, kw, node):
        if hasattr(self.d, name):
            return m.native(getattr(self.d, name), *a, **kw)
        return NotImplemented

    def a_item(self, m, k):
        r = self.dunder(m, "__getitem__", k)
        return r if r is not NotImplemented else m.native(
            lambda: self.d[k])

    def a_setitem(self, m, k, v):
        if self.dunder(m, "__setitem__", k, v) is NotImplemented:
            self.d[k] = v

    def a_delitem(self, m, k):
        m.native(lambda: self.d.pop(k))

    def a_len(self, m):
        return len(self.d)

    def a_truth(self, m):
        return bool(self.d)

    def a_iter(self, m):
        return list(self.d)

    def a_conv(self, m, name):
        return OrderedDict(self.d) if name == "dict" else NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("in", "not in"):
            if isinstance(other, (str, int)):
                return (other in self.d) is (op == "in")
            return NotImplemented
        if op in ("==", "!="):
            r = self.dunder(m, {"==": "__eq__", "!=": "__ne__"}[op], other)
            if r is not NotImplemented:
                return m.truth(r)
            r = isinstance(other, DictInst) and self.d == other.d
            return r is (op == "==")
        return NotImplemented

    def a_isinstance(self, m, ns):
        if not ns:
            return None
        return any(n.split(".")[-1] in (
            "dict", "OrderedDict", "Mapping", "MutableMapping", "object",
            "Iterable", "Sized", "Container", "Collection")
            for n in ns) or bool(super().a_isinstance(m, ns))


class SeqInst(Inst):
    """an instance of a class derived from collections.abc.Sequence"""

    def a_attr(self, m, name):
        if name in ("index", "count") and name not in self.attrs and \
                not m.p.find_method(self.cls, name):
            return BoundM(self, name)
        return NotImplemented

    def a_iter(self, m):
        f = m.p.find_method(self.cls, "__iter__")
        if f is not None:
            return m.iterate(m.call_func(f, [self], {}, None, None, self))
        return [m.getitem(self, i) for i in range(self.a_len(m))]

    def a_truth(self, m):
        return bool(self.a_len(m))

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("in", "not in"):
            return any(x is other or m.truth(m.compare("==", x, other))
                       for x in self.a_iter(m)) is (op == "in")
        return NotImplemented

    def a_method(self, m, name, a, kw, node):
        hits = [i for i, x in enumerate(self.a_iter(m)) if x is a[0] or
                m.truth(m.compare("==", x, a[0]))]
        if name == "count":
            return len(hits)
        if not hits:
            raise AExc("ValueError")
        return hits[0]


class SameInst(Inst):
    """an instance whose comparisons the program may define"""

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        d = {"==": "__eq__", "!=": "__ne__", "in": "__contains__"}.get(
            op.removeprefix("not "))
        if d is None or "in" in op and rev is False:
            return NotImplemented
        r = self.dunder(m, d, other)
        if r is NotImplemented:
            return (other is self) is (op == "==") if op in (
                "==", "!=") else NotImplemented
        return m.truth(r) is not op.startswith("not ")


class Follow:
    def __contains__(self, name):
        return name.startswith(READER) or name.startswith(
            "pdr.pds4_tools.utils.")


SIXES = {"integer_types": (int,), "string_types": (str,), "text_type": str,
         "binary_type": bytes, "PY2": False, "PY3": True, "PY34": True,
         "class_types": (type,)}
BUILT = ("range", "zip", "map", "filter", "builtins", "input", "reduce")


def moves(prog):
    """names six moves about are built in"""
    for mod in prog.modules.values():
        for k, v in mod.imports.items():
            if v.startswith((SIX + ".moves.", "six.moves.")):
                last = v.rpartition(".")[2]
                mod.imports[k] = "functools.reduce" if last == "reduce" \
                    else "builtins." + last


class PDS4(ProductModel):
    follow = Follow()

    def __init__(self, prog, *a, **kw):
        super().__init__(prog, *a, **kw)
        moves(prog)

    def global_value(self, m, module, name):
        mod = module.name if module is not None else name.rpartition(".")[0]
        last = name.rpartition(".")[2]
        if mod.startswith(SIX) or mod in ("six", "six.moves"):
            if last in SIXES:
                return SIXES[last]
            if last == "builtins":
                return Ext("builtins")
            if last == "range":
                return Ext("builtins.range")
        if module is not None:
            if last == "OrderedDict":
                return Ext("collections.OrderedDict")
            if last == "np_unicode":
                return Ext("numpy.str_")
            if last == "np_issubclass":
                return Ext("builtins.issubclass")
            if last == "NUMPY_LT_2_0":
                return False
            if last == "logger" and mod.startswith("pdr.pds4_tools"):
                return Quiet()
            if mod.endswith(".compat") and last == "ET_Element":
                return Ext("xml.etree.ElementTree.Element")
        return super().global_value(m, module, name)

    def new(self, m, cls, args, kw, node):
        if cls.name == "PDS_array" and cls.module.name.startswith(READER):
            return self.pds_array(m, *args, **kw)
        b = bases(cls)
        o = None
        if b & {"OrderedDict", "dict"}:
            o = DictInst(cls)
        elif b & {"Sequence"}:
            o = SeqInst(cls)
        if o is not None:
            ini = m.p.find_method(cls, "__init__")
            if ini is not None:
                m.call_func(ini, [o, *args], kw, node, None, o)
            return o
        new = m.p.find_method(cls, "__new__")
        if cls.name == "PDSdtype" and new is not None and len(args) == 1:
            # what PDSdtype.__new__ says it does
            if isinstance(args[0], Inst) and args[0].cls is cls:
                return args[0]
            if not isinstance(args[0], str):
                raise AExc("ValueError")
            o = SameInst(cls)
            o.attrs["_name"] = args[0]
            return o
        if new is not None and cls.module.name.startswith(READER):
            return m.call_func(new, [Cls(cls), *args], kw, node)
        return super().new(m, cls, args, kw, node)

    def pds_array(self, m, data, meta_data=None, masked=None, **kw):
        if isinstance(data, Rec):
            return data
        a = asarray(m, data, None).like()
        a.is_pds = True
        if masked is False:
            a.mask = None
        if meta_data is not None:
            a.meta = meta_data
        return a

    def func_call(self, m, func, args, kw, node, me):
        if func.module.name.startswith(SIX):
            if func.name in ("iteritems", "itervalues", "iterkeys"):
                return m.iterate(m.call_method(args[0], func.name[4:], [],
                                               {}, node))
            if func.name == "ensure_binary":
                v = args[0]
                return v.encode() if isinstance(v, str) else v
            if func.name in ("ensure_str", "ensure_text"):
                v = args[0]
                return v.decode() if isinstance(v, bytes) else v
            if func.name == "raise_from":
                raise AExc(getattr(args[0], "name", None) or getattr(
                    args[0], "qual", "ValueError"))
        if func.name == "__new__" and func.qual.endswith(
                "PDSdtype.__new__"):
            return NotImplemented
        return super().func_call(m, func, args, kw, node, me)

    def ext_call(self, m, name, args, kw, node):
        if name.startswith("numpy."):
            return npy(m, name.split(".")[-1], args, kw)
        if name.startswith(("six.", SIX)):
            last = name.split(".")[-1]
            if last in ("iteritems", "itervalues", "iterkeys"):
                return m.iterate(m.call_method(args[0], last[4:], [], {},
                                               node))
        if name == "builtins.issubclass":
            return NotImplemented
        if name == "collections.OrderedDict" and not args:
            return OrderedDict(**kw)
        if name == "builtins.bytearray" and args and isinstance(
                args[0], (bytes, bytearray)):
            return bytearray(args[0])
        return super().ext_call(m, name, args, kw, node)


# ----------------------------------------------------------------- products
def pattern(n, seed=0):
    """bytes no two neighbours of which are alike at any distance that
    matters"""
    out, x = bytearray(), 12345 + seed
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 0xff)
    return bytes(out)


class F:
    """a field: its type, its place and its length"""

    def __init__(self, name, dt, at=None, size=None):
        self.name, self.dt, self.at, self.size = name, dt, at, size

    def label(self, kind):
        k = [el("name", self.name)]
        if kind != "Delimited":
            k.append(el("field_location", self.at))
        k.append(el("data_type", self.dt))
        if self.size is not None and kind != "Delimited":
            k.append(el("field_length", self.size))
        return Elem("Field_" + kind, None, k)


class G:
    """a group: of what, how often, its place and its length"""

    def __init__(self, reps, items, at=None, size=None, name=None):
        self.reps, self.items, self.at, self.size = reps, items, at, size
        self.name = name

    def label(self, kind):
        k = [el("name", self.name)] if self.name else []
        k += [el("repetitions", self.reps),
              el("fields", sum(isinstance(i, F) for i in self.items)),
              el("groups", sum(isinstance(i, G) for i in self.items))]
        if kind != "Delimited":
            k += [el("group_location", self.at),
                  el("group_length", self.size)]
        return Elem("Group_Field_" + kind, None,
                    k + [i.label(kind) for i in self.items])


def where(items, base=0, shape=()):
    """(field, the positions of its repetitions in a record, its shape)"""
    for i in items:
        if isinstance(i, F):
            yield i, [base + i.at - 1], shape
        else:
            step = i.size // i.reps
            parts = [list(where(i.items, base + i.at - 1 + step * r,
                                shape + (i.reps,)))
                     for r in range(i.reps)]
            for col in zip(*parts):
                yield col[0][0], [p for c in col for p in c[1]], col[0][2]


def columns(items):
    """the columns of a delimited record, in order, as fields"""
    out = []
    for i in items:
        out += [i] if isinstance(i, F) else columns(i.items) * i.reps
    return out


class Product:
    def __init__(self, what, key, rule, label, data, want, table=True,
                 text=False):
        self.what, self.key, self.rule = what, key, rule
        self.label, self.data, self.want = label, data, want
        self.table, self.text = table, text


def fixed(kind, what, key, rule, items, n, reclen, offset=0, data=None,
          text=False, sampled=()):
    need = offset + n * reclen + 9
    data = data if data is not None else pattern(need, len(what))
    want = [(s[0], [s[1] + i * s[2] for i in range(n)], ())
            for s in sampled]
    for f, at, shape in where(items):
        vals = [decode(f.dt, data[offset + r * reclen + p:
                                  offset + r * reclen + p + f.size])
                for r in range(n) for p in at]
        want.append((f.name, vals, shape))
    lab = Elem("Table_" + kind, None, [
        el("name", "T"), el("offset", offset), el("records", n)] + [
        el("Uniformly_Sampled", sampling_parameter_name=s[0],
           sampling_parameter_interval=s[2],
           sampling_parameter_unit="s",
           first_sampling_parameter_value=s[1],
           last_sampling_parameter_value=s[1] + s[2] * (n - 1))
        for s in ()] + [Elem("Uniformly_Sampled", None, [
            el("sampling_parameter_name", s[0]),
            el("sampling_parameter_interval", s[2]),
            el("sampling_parameter_first_value", s[1]),
            el("sampling_parameter_last_value", s[1] + s[2] * (n - 1)),
            el("sampling_parameter_scale", "Linear")]) for s in sampled] + [
        Elem("Record_" + kind, None, [
            el("fields", sum(isinstance(i, F) for i in items)),
            el("groups", sum(isinstance(i, G) for i in items)),
            el("record_length", reclen)] + [i.label(kind) for i in items])])
    return Product(what, key, rule, lab, data, want, text=text)


SIZE = {t: struct.calcsize("<" + f.strip("<>")) for t, f in BINARY.items()}


def types(tier):
    for t, k in SIZE.items():
        for off in (0, 7):
            yield fixed("Binary", f"a field of {t} at byte {off}", t,
                        "C37.types", [F("A", "UnsignedByte", 1, 1),
                                      F("B", t, 4, k),
                                      F("C", "SignedMSB2", k + 5, 2)],
                        3, k + 8, off)
    for t in ("ASCII_String", "ASCII_Date_YMD", "UTF8_String", "ASCII_LID"):
        for text in (False, True):
            data = b"".join(b"%-6s|%03d;" % (w, i) for i, w in enumerate(
                (b"abc", b"z", b"q w e", b"123456")))
            for kind in ("Binary", "Character"):
                yield fixed(kind, f"a field of {t} in a Table_{kind}"
                            + (", decoded" if text else ""), "text",
                            "C37.text", [F("A", t, 1, 6), F("B", t, 8, 3)],
                            4, 11, 0, data, text)
    words = {"ASCII_Integer": (b"  12", b"-7  ", b" +30", b"0005", b"   0"),
             "ASCII_NonNegative_Integer": (b"  12", b"7   ", b"  30",
                                           b"0005"),
             "ASCII_Real": (b"1.5 ", b"-2e1", b"  .5", b"   7"),
             "ASCII_Numeric_Base2": (b"1010", b" 011", b"1   "),
             "ASCII_Numeric_Base8": (b"0017", b" 770", b"1   "),
             "ASCII_Numeric_Base16": (b"00ff", b" A0b", b"1   "),
             "ASCII_Boolean": (b"true", b"1   ", b"0   ")}
    for t, ws in words.items():
        data = b"".join(b"x" + w + b"%02d\r\n" % i for i, w in enumerate(ws))
        for kind in ("Character", "Binary"):
            yield fixed(kind, f"a field of {t} in a Table_{kind}", t,
                        "C37.text", [F("A", t, 2, 4),
                                     F("B", "ASCII_Integer", 6, 2)],
                        len(ws), 9, 0, data)


def groups(tier):
    """fields in groups, with gaps and without"""
    def leafs(b):
        yield "one field", [F("A", b, 1, 2)], 2
        yield "one field and a gap after it", [F("A", b, 1, 2)], 3
        yield "one field after a gap", [F("A", b, 2, 2)], 3
        yield "two fields", [F("A", b, 1, 2), F("B", "UnsignedByte", 3,
                                                1)], 3
        yield "two fields and gaps", [F("A", b, 2, 2), F(
            "B", "UnsignedByte", 5, 1)], 6
    b = "SignedMSB2"
    for what, items, k in leafs(b):
        for reps in (1, 2, 3):
            for at in (1, 3):
                g = G(reps, items, at, k * reps)
                end = at + k * reps
                for tail in (False, True):
                    its = ([F("P", "UnsignedByte", 1, 1)] if at > 1 else
                           []) + [g] + ([F("Q", b, end, 2)] if tail else [])
                    yield fixed("Binary", f"{reps} x ({what}) at {at}" + (
                        " and a field" if tail else ""), "groups",
                        "C37.groups", its, 2, end + 3, 5)
        for r1, r2 in ((2, 3), (3, 2), (1, 2), (2, 1)):
            for at2, pad in ((1, 0), (2, 0), (1, 1), (2, 2)):
                inner = G(r2, items, at2, k * r2)
                size = at2 - 1 + k * r2 + pad
                for extra in (False, True):
                    its = [inner] + ([F("Z", "SignedLSB2", size + 1, 2)]
                                     if extra else [])
                    s = size + 2 * extra
                    yield fixed(
                        "Binary", f"{r1} x ({r2} x ({what}) at {at2}, "
                        f"{pad} spare" + (", and a field)" if extra
                                          else ")"), "groups in groups",
                        "C37.groups", [G(r1, its, 2, s * r1)], 2,
                        1 + s * r1 + 2, 3)
    deep = G(2, [G(2, [G(3, [F("A", b, 1, 2)], 1, 6)], 1, 12)], 1, 24)
    yield fixed("Binary", "three groups in one another, without gaps",
                "groups in groups", "C37.groups", [deep], 2, 26, 0)
    deep = G(2, [G(2, [G(3, [F("A", b, 1, 2)], 2, 6)], 1, 14)], 1, 28)
    yield fixed("Binary", "three groups in one another, with gaps",
                "groups in groups", "C37.groups", [deep], 2, 30, 0)
    for ats in itertools.product((1, 2), repeat=3) if \
            tier == "thorough" else ():
        for pads in itertools.product((0, 1), repeat=3):
            item, size = F("A", b, ats[2], 2), ats[2] + 1 + pads[2]
            for lev, r in ((1, 3), (0, 2)):
                item = G(r, [item], ats[lev], size * r)
                size = ats[lev] - 1 + size * r + pads[lev]
            yield fixed("Binary", f"three groups at {ats} with {pads} to "
                        "spare", "groups in groups", "C37.groups",
                        [G(2, [item], 2, size * 2)], 2, 2 + size * 2, 1)
    two = [G(2, [F("A", b, 1, 2)], 1, 4), G(3, [F("A", b, 1, 2)], 5, 6)]
    yield fixed("Binary", "two groups one after the other", "groups",
                "C37.groups", two, 3, 12, 1)
    one = [F("A", b, 1, 2), F("A", b, 3, 2), F("B", b, 5, 2)]
    yield fixed("Binary", "two fields of one name", "names", "C37.groups",
                one, 3, 6, 0)
    yield fixed("Binary", "fields given out of order", "order", "C37.groups",
                [F("A", b, 5, 2), F("B", b, 1, 2), F("C", b, 3, 2)], 3, 6, 0)
    yield fixed("Binary", "overlapping fields", "order", "C37.groups",
                [F("A", "SignedMSB4", 1, 4), F("B", b, 3, 2)], 3, 6, 0)
    data = b"".join(b"%02d,%03d%03d;" % (i, i * 7, i * 11 + 5)
                    for i in range(4))
    yield fixed("Character", "a group in a Table_Character", "groups",
                "C37.groups", [F("A", "ASCII_Integer", 1, 2), G(2, [
                    F("B", "ASCII_Integer", 1, 3)], 4, 6)], 4, 10, 0, data)
    yield fixed("Binary", "a sampled field", "sampled", "C37.groups",
                [F("A", b, 1, 2)], 4, 2, 0, sampled=[("S", 10, 5)])
    yield fixed("Binary", "a sampled field beside groups", "sampled",
                "C37.groups", [G(2, [F("A", b, 1, 2)], 1, 4)], 4, 4, 0,
                sampled=[("S", 1.5, 0.25)])


DELIM = {"Comma": b",", "Horizontal Tab": b"\t", "Semicolon": b";",
         "Vertical Bar": b"|"}
ENDS = {"Carriage-Return Line-Feed": b"\r\n", "Line-Feed": b"\n"}


def delimited(tier):
    def table(what, items, rows, delim="Comma", end="Line-Feed", quote=(),
              n=None, offset=0, length="object", key="delimited",
              text=False):
        cols = columns(items)
        lines = []
        for r, row in enumerate(rows):
            cells = [b'"' + c + b'"' if (r, i) in quote or
                     DELIM[delim] in c else c for i, c in enumerate(row)]
            lines.append(DELIM[delim].join(cells) + ENDS[end])
        n = len(rows) if n is None else n
        body = b"".join(lines)
        data = b"#" * offset + body + b"trailing,junk" + ENDS[end]
        want = []
        for f in dict.fromkeys(cols):
            at = [i for i, c in enumerate(cols) if c is f]
            vals = [cell(f.dt, rows[r][i]) for r in range(n) for i in at]
            want.append((f.name, vals, shapes(items)[f]))
        rec = [el("fields", sum(isinstance(i, F) for i in items)),
               el("groups", sum(isinstance(i, G) for i in items))]
        if length == "record":
            rec.append(el("maximum_record_length", max(map(len, lines))))
        lab = Elem("Table_Delimited", None, [
            el("name", "T"), el("offset", offset)] + (
            [el("object_length", len(body))] if length == "object" else
            []) + [el("records", n), el("record_delimiter", end),
                   el("field_delimiter", delim),
                   Elem("Record_Delimited", None,
                        rec + [i.label("Delimited") for i in items])])
        return Product(what, key, "C37.delimited", lab, data, want,
                       text=text)

    def cell(t, c):
        if t in TEXT and not c.strip():
            return None
        return decode(t, c)

    def shapes(items, shape=()):
        out = {}
        for i in items:
            if isinstance(i, F):
                out[i] = shape
            else:
                out.update(shapes(i.items, shape + (i.reps,)))
        return out
    I, S = "ASCII_Integer", "ASCII_String"
    flat = [F("A", I), F("B", S), F("C", I), F("D", S)]
    rows = [(b"1", b"ab", b"-20", b"x"), (b"300", b"c", b"4", b"yy z"),
            (b"5", b"", b"66", b"w")]
    for d in DELIM:
        for e in ENDS:
            for length in ("object", "record", None):
                for off in (0, 4):
                    yield table(f"{d}, {e}, ending by {length}, at {off}",
                                flat, rows, d, e, length=length, offset=off)
        odd = DELIM[d]
        for at in range(4):
            for c in (b"p" + odd + b"q", odd, odd * 3 + b"r"):
                rs = [list(r) for r in rows]
                if at in (1, 3):
                    rs[1][at] = c
                yield table(f"quotes round column {at} of {d}: {c}", flat,
                            rs, d, quote=[(1, at)], key="quotes")
        rs = [list(r) for r in rows]
        rs[0][1], rs[0][3] = odd + b"1", b"2" + odd + odd
        yield table(f"two quoted columns of {d}", flat, rs, d,
                    quote=[(0, 0), (2, 1), (2, 3)], key="quotes")
    yield table("fewer records than lines", flat, rows, n=2)
    yield table("quoted and empty", flat, rows, quote=[(2, 1), (0, 1)],
                key="quotes")
    for k in (240, 241, 242, 243, 244, 245, 246, 247, 248, 300):
        rs = [list(r) for r in rows]
        rs[1][1] = b"w" * k
        yield table(f"a value of {k} characters", flat, rs, key="long")
    yield table("text, decoded", flat, rows, text=True)
    nulls = [(b"", b"a", b"3", b"b"), (b"2", b"", b" ", b""),
             (b"7", b"c", b"", b"d")]
    yield table("empty numbers", flat, nulls, key="nulls")
    reals = [F("A", "ASCII_Real"), F("B", "ASCII_Boolean"),
             F("C", "ASCII_Numeric_Base16")]
    yield table("other types", reals, [(b"1.5", b"true", b"ff"),
                                       (b"-2", b"0", b"10")])

    def grid(items, n=2):
        k = len(columns(items))
        return [[b"%d" % (100 * r + 7 * c + r) for c in range(k)]
                for r in range(n)]
    sets = {"a group of one field": [G(3, [F("A", I)])],
            "a group of two fields": [G(3, [F("A", I), F("B", I)])],
            "a group between fields": [F("P", I), G(2, [F("A", I)]),
                                       F("Q", I)],
            "two groups": [G(2, [F("A", I), F("B", I)]), F("P", I),
                           G(3, [F("C", I)])],
            "a group in a group": [G(2, [G(3, [F("A", I)])])],
            "a group and a field in a group": [
                G(2, [G(3, [F("A", I)]), F("B", I)]), F("Q", I)],
            "a field and a group in a group": [
                F("P", I), G(2, [F("B", I), G(2, [F("A", I), F(
                    "C", I)])])],
            "two groups in a group": [
                G(2, [G(2, [F("A", I)]), G(3, [F("B", I)])]), F("Q", I)],
            "two fields of one name": [F("A", I), F("B", I), F("A", I)],
            "two like groups": [G(2, [F("A", I)]), F("P", I),
                                G(2, [F("A", I)])],
            "two like fields in a group": [
                G(2, [F("A", I), F("A", I)]), F("Q", I)],
            "three groups in one another": [
                G(2, [F("P", I), G(2, [F("R", I), G(2, [F("A", I), F(
                    "B", I)])])])]}
    for what, items in sets.items():
        for d in ("Comma", "Vertical Bar"):
            yield table(f"{what}, {d}", items, grid(items), d,
                        key="groups")
        q = grid(items)
        yield table(f"{what}, quoted", items, q, quote=[
            (0, 0), (1, len(q[1]) - 1), (0, 1)], key="groups")


def arrays(tier):
    def array(what, key, t, axes, offset):
        shape = [n for _, n in sorted(axes)]
        k = prod(shape)
        data = pattern(offset + k * SIZE[t] + 11, len(what))
        want = [decode(t, data[offset + i * SIZE[t]:
                               offset + (i + 1) * SIZE[t]])
                for i in range(k)]
        tag = {1: "Array_1D", 2: "Array_2D_Image"}.get(len(axes), "Array_3D")
        lab = Elem(tag, None, [
            el("name", "ARR"), el("offset", offset), el("axes", len(axes)),
            el("axis_index_order", "Last Index Fastest"),
            Elem("Element_Array", None, [el("data_type", t)])] + [
            Elem("Axis_Array", None, [
                el("axis_name", f"AX{s}"), el("elements", n),
                el("sequence_number", s)]) for s, n in axes])
        return Product(what, key, "C37.arrays", lab, data,
                       [("ARR", want, tuple(shape))], table=False)
    for t in SIZE:
        for off in (0, 6):
            yield array(f"an array of {t} at byte {off}", t, t,
                        [(1, 2), (2, 3)], off)
    for shape in ((4,), (1,), (2, 3), (3, 1), (2, 3, 4), (1, 2, 2)):
        axes = list(enumerate(shape, 1))
        for p in itertools.permutations(axes):
            yield array(f"an array of shape {shape}, its axes given as "
                        f"{[a for a, _ in p]}", "axes", "SignedMSB2",
                        list(p), 3)


# ------------------------------------------------------------------- judging
def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if isinstance(a, (bool, int)) else False
    if isinstance(a, (int, float, complex)) and isinstance(
            b, (int, float, complex)):
        return a == b or a != a and b != b
    return type(a) is type(b) and a == b


def compare(p, name, got, vals, shape, n):
    """what is wrong with an array as the values of a field"""
    if not isinstance(got, Arr):
        raise Undecided("a field that is not followed")
    w = (n, *shape) if p.table else shape
    if got.shape != tuple(w):
        return "shape", f"{name} has the shape {got.shape}, not {tuple(w)}"
    mask = got.mask.v if isinstance(got.mask, Arr) else [False] * len(got.v)
    for i, (g, v) in enumerate(zip(got.v, vals)):
        if v is None:
            if not mask[i]:
                return "nulls", f"value {i} of {name} is empty, but " \
                    f"{g!r} is delivered"
            continue
        if mask[i]:
            return "nulls", f"value {i} of {name} is hidden"
        if isinstance(v, bytes):
            if p.text and not isinstance(g, str):
                return "kind", f"{name} is not decoded to text"
            g = g.encode() if isinstance(g, str) else g
        if not same(g, v):
            return "values", (f"value {i} of {name} comes out as {g!r} "
                              f"where the label's bytes say {v!r}")
    if len(got.v) != len(vals):
        return "values", f"{name} has {len(got.v)} values, not {len(vals)}"
    want = [v for v in vals if v is not None]
    if want and got.dt.fmt != "O":
        k = got.dt.kind()
        if isinstance(want[0], bool):
            ok = k in ("bool_",)
        elif isinstance(want[0], int):
            ok = "integer" in k
        elif isinstance(want[0], float):
            ok = k in ("floating",)
        elif isinstance(want[0], complex):
            ok = k == "complexfloating"
        else:
            ok = k in ("bytes_", "str_")
        if name.startswith("S") and p.key == "sampled":
            ok = True
        if not ok:
            return "kind", f"{name} is delivered as {k}"
    return None


def read(m, p, f):
    st = m.call_func(f, [p.label, p.label, "/p/data.dat"], {
        "lazy_load": True, "no_scale": True,
        **({"decode_strings": p.text} if p.table else {})}, None)
    if not isinstance(st, Inst):
        raise Undecided("the structure")
    if "data" not in st.attrs:
        g = m.p.find_method(st.cls, "data")
        if g is None:
            raise Undecided("the data of a structure")
        r = m.call_func(g, [st], {}, None, None, st)
        st.attrs.setdefault("data", r)
    d = st.attrs["data"]
    if not p.table:
        return compare(p, "the array", d, p.want[0][1], p.want[0][2], 0)
    if not isinstance(d, Rec):
        raise Undecided("the data of a table")
    n = int(p.label.find("records")[0].text)
    if d.n != n:
        return "records", f"{d.n} records are read, not {n}"
    if len(d.fields) != len(p.want):
        return "fields", f"{len(d.fields)} fields are read, not " \
            f"{len(p.want)}"
    for (name, vals, shape), k in zip(p.want, d.fields):
        if name not in k:
            return "names", f"the field {name} is called {k!r}"
        if k not in d.set:
            return "fields", f"nothing is put in the field {k!r}"
        v = compare(p, k, d.set[k], vals, shape, n)
        if v:
            return v
    return None


def check(ctx, rep, tier):
    rep.rule("C37.types", "a binary field has the byte order, width and kind "
             "of its PDS4 data type, and comes from its own bytes")
    rep.rule("C37.text", "so has a field of characters")
    rep.rule("C37.groups", "every repetition of a field in groups comes from "
             "the bytes their places and lengths give, in order")
    rep.rule("C37.delimited", "a delimited value is the text between its "
             "delimiters, and quotes hold it together")
    rep.rule("C37.arrays", "an array begins at its offset, and its axes are "
             "in the order of their numbers")
    rep.assume("numpy decodes, converts and reshapes as documented; labels "
               "are valid PDS4, and scaling is not asked for, as pdr does "
               "not")
    fs = {True: ctx.prog.funcs.get(TABLE), False: ctx.prog.funcs.get(ARRAY)}
    if None in fs.values():
        rep.undecide("the readers of PDS4 structures are not there")
        return
    bad, seen = {}, set()
    for p in itertools.chain(types(tier), groups(tier), delimited(tier),
                             arrays(tier)):
        rep.count("structures")
        vfs = FS({"/p/data.dat": File(p.data)})
        m = Machine(ctx.prog, None, steps=900_000, limit=12)
        m.decorate = False
        m.unroll = 2

        def go(m):
            vfs.opened = []
            m.model = PDS4(ctx.prog, vfs)
            return read(m, p, fs[p.table])
        try:
            vs = set()
            for path in m.paths(go, lambda m: ((), {})):
                rep.count("paths")
                seen.update(m.functions)
                v = path.value
                if path.kind == "raise":
                    v = ("raises", f"raises {path.value.name}")
                vs.add(v)
            rep.count("structures decided")
            for v in vs - {None}:
                bad.setdefault((p.rule, f"{v[0]}|{p.key}"),
                               f"{p.what}: {v[1]}")
        except (Undecided, TypeError, ValueError, AttributeError, KeyError,
                IndexError, struct.error) as e:
            rep.undecide(f"{p.what}: {e}")
    rep.count("functions followed", len(seen))
    for q in sorted(seen):
        rep.sample(q)
    for (rule, key), msg in sorted(bad.items()):
        f = fs[rule != "C37.arrays"]
        rep.find(rule, key, f"{f.module.relpath}:{f.node.lineno}", msg)
    rep.need("structures decided", 60)
