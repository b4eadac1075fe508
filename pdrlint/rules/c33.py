"""C33: objects are read from the byte range the label describes.

Products are opened and loaded by interpretation with the record length, the
positions and the sizes that the label gives standing for any number at all:
what is read of the data file comes out as a formula in these numbers, and is
compared with the formula that the PDS3 Standards Reference gives for the
object."""
from __future__ import annotations

import ast
import re
import time
import warnings

from .. import absint
from ..absint import AExc, AObj, Machine, Top, Undecided
from ..coldata import dtype_of
from ..files import FS, File, Stream
from ..poly import Poly, extreme, same, sym, terms
from ..product import ProductModel, open_product

SYMS = {"RB": 71003, "N": 71011, "M": 71017, "ROWS": 71021, "LINES": 71033,
        "SAMPLES": 71039, "BANDS": 71047, "BYTES": 71059, "RECS": 71069,
        "DIM1": 71081, "DIM2": 71089, "RB2": 71119}
VALUE = {v: sym(k) for k, v in SYMS.items()}
RB, N, M, ROWS, LINES, SAMPLES, BANDS, BYTES, RECS, DIM1, DIM2, RB2 = (
    VALUE[SYMS[k]] for k in SYMS)
SIZE = sym("SIZE")
HEADER_CAP = 80000


class Done(BaseException):
    """what was wanted has been read"""


LIFT = [True]       # are the numbers of labels taken for any numbers


def lifted(v):
    if isinstance(v, bool) or not LIFT[0]:
        return v
    if isinstance(v, int):
        return VALUE.get(v, v)
    if isinstance(v, (tuple, list, set)):
        return type(v)(lifted(x) for x in v)
    if isinstance(v, dict):
        return {lifted(k): lifted(x) for k, x in v.items()}
    return v


class Chunk(AObj):
    """bytes of a data file: n of them (None: all to the end) from start"""

    def __init__(self, stream, start, n):
        self.stream, self.start, self.n = stream, start, n
        absint.CUR.event("chunk", stream.name)

    def key(self):
        return ("chunk", str(self.start), str(self.n))

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(str(n).split(".")[-1] in ("bytes", "bytearray",
                                             "memoryview", "object")
                   for n in names)

    def a_len(self, m):
        return SIZE - self.start if self.n is None else self.n

    def part(self, m, lo, hi):
        lo = 0 if lo is None else lo
        if isinstance(lo, Top) or isinstance(hi, Top):
            raise Undecided("a slice of the file")
        for x in (lo, hi):
            if x is not None and not isinstance(x, Poly) and x < 0:
                raise Undecided("a slice from the end")
        n = None if hi is None else hi - lo
        if hi is None and self.n is not None:
            n = self.n - lo
        return Chunk(self.stream, self.start + lo, n)

    def a_item(self, m, k):
        if isinstance(k, slice) and k.step is None:
            return self.part(m, k.start, k.stop)
        return Top(what="byte")

    def a_conv(self, m, name):
        if name in ("bytes", "bytearray"):
            return self
        return NotImplemented

    def a_attr(self, m, name):
        if name == "nbytes":
            return self.a_len(m)
        if hasattr(bytes, name) or hasattr(memoryview, name):
            return NotImplemented
        raise AExc("AttributeError")

    def a_bin(self, m, op, other, rev):
        if op == "+" and isinstance(other, bytes) and not other:
            return self
        if op == "+" and isinstance(other, Chunk):
            a, b = (other, self) if rev else (self, other)
            if a.n is not None and same(a.start + a.n, b.start):
                return Chunk(a.stream, a.start,
                             None if b.n is None else a.n + b.n)
        raise Undecided("bytes put together")

    def a_method(self, m, name, args, kw, node):
        if name in ("tobytes", "__enter__", "release", "toreadonly",
                    "cast"):
            return self
        if name == "decode":
            return use(m, self)
        raise Undecided(f"bytes.{name}")


def use(m, chunk, n=None, off=0):
    """the bytes are taken for what they hold"""
    if n is None:
        n = chunk.n if off == 0 or chunk.n is None else chunk.n - off
    m.event("use", chunk.stream.name, chunk.start + off, n)
    m.model.used(m)
    return Top(what="contents")


class OStream(Stream):
    """a stream over a file of which nothing is known but its name"""

    def __init__(self, kind, name, fs):
        super().__init__(kind, b"", name, fs)
        self.buf = None         # a memory buffer: the chunk it holds

    def line(self, m):
        raise Undecided("a line of the file")

    def a_iter(self, m):
        raise Undecided("the lines of the file")

    def rest(self, m, n):
        """the chunk of n bytes from here"""
        if self.kind == "mem":
            if self.buf is None:
                raise Undecided("an empty buffer")
            hi = None if n is None else self.pos + n
            c = self.buf.part(m, self.pos, hi)
            self.pos = self.pos + c.a_len(m)
            return c
        c = Chunk(self, self.pos, n)
        self.pos = SIZE if n is None else self.pos + n
        return c

    def a_method(self, m, name, args, kw, node):
        if name in ("close", "readable", "seekable", "flush", "__exit__",
                    "__enter__", "fileno"):
            return super().a_method(m, name, args, kw, node)
        self.check(m)
        if name in ("read", "read1"):
            n = args[0] if args else kw.get("size", -1)
            if isinstance(n, Poly):
                if m.truth(m.compare("<", n, 0)):
                    n = None
            elif n is None or isinstance(n, int) and n < 0:
                n = None
            elif not isinstance(n, int):
                raise Undecided("size of a read")
            return self.rest(m, n)
        if name == "tell":
            return self.pos
        if name == "seek":
            off = args[0] if args else kw.get("offset", 0)
            wh = args[1] if len(args) > 1 else kw.get("whence", 0)
            if isinstance(off, float) or off is None:
                raise AExc("TypeError")
            if not isinstance(off, (int, Poly)) or not isinstance(wh, int):
                raise Undecided("seek")
            base = (0, self.pos, SIZE if self.buf is None
                    else self.buf.a_len(m))[int(wh)]
            pos = base + off
            if int(wh) == 0 and m.truth(m.compare("<", pos, 0)):
                raise AExc("ValueError")
            self.pos = pos
            return self.pos
        if name == "write" and self.kind == "mem":
            if not isinstance(args[0], Chunk):
                raise Undecided("written value")
            if self.buf is None:
                self.buf = args[0]
            else:
                self.buf = self.buf.a_bin(m, "+", args[0], False)
            self.pos = self.pos + args[0].a_len(m)
            return args[0].a_len(m)
        if name in ("getvalue", "getbuffer") and self.kind == "mem":
            return self.buf
        raise Undecided(f"stream.{name}")


class Text(AObj):
    """a text stream over the rest of a file"""

    def __init__(self, under):
        self.under = under

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name in ("buffer", "raw"):
            return self.under
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name in ("close", "__enter__", "__exit__", "detach", "seek",
                    "tell"):
            r = self.under.a_method(m, name, args, kw, node)
            return self if name == "__enter__" else r
        if name == "read":
            return use(m, self.under.a_method(m, "read", args, kw, node))
        raise Undecided(f"text.{name}")

    def a_iter(self, m):
        raise Undecided("the lines of the file")


class OFS(FS):
    """files some of which become opaque once the product is open"""
    live = frozenset()

    def open(self, m, p, mode="r", *a, **kw):
        n = self.norm(p)
        if n not in self.live or n not in self.files:
            return super().open(m, p, mode, *a, **kw)
        s = OStream("raw", n, self)
        self.opened.append((n, s))
        return s if "b" in mode else Text(s)

    def packed(self, m, kind, p, mode="rb", *a, **kw):
        n = p.name if isinstance(p, Stream) else self.norm(p)
        if n not in self.live or n not in self.files:
            return super().packed(m, kind, p, mode, *a, **kw)
        f = self.files[n]
        fam = "gzip" if kind == "igzip" else kind
        if f.packed != fam:
            raise AExc("zipfile.BadZipFile" if kind == "zip" else "OSError")
        if kind == "zip":
            return OZip(self, n)
        s = OStream(kind, n, self)
        self.opened.append((n, s))
        return s if not isinstance(mode, str) or "t" not in mode else Text(s)

    def wrap(self, s, *a, **kw):
        return Text(s) if isinstance(s, OStream) else super().wrap(
            s, *a, **kw)


class OZip(AObj):
    def __init__(self, fs, name):
        self.fs, self.name = fs, name

    def a_truth(self, m):
        return True

    def a_method(self, m, name, args, kw, node):
        if name in ("infolist", "namelist"):
            return ["member"]
        if name in ("open", "read"):
            s = OStream("zip", self.name, self.fs)
            self.fs.opened.append((self.name, s))
            return s if name == "open" else s.rest(m, None)
        if name in ("close", "__exit__"):
            return None
        if name == "__enter__":
            return self
        raise Undecided(f"ZipFile.{name}")


ABOUT = {f"builtins.{n}" for n in (
    "len", "isinstance", "hasattr", "type", "getattr", "setattr", "print",
    "id", "callable", "bool", "issubclass", "delattr", "vars", "dir", "list",
    "tuple", "set", "dict", "zip", "enumerate", "iter", "next", "map",
    "filter", "reversed")}


def size_of(m, dt):
    d = dtype_of(m, dt)
    if d is None:
        raise Undecided("dtype")
    return d.size


class Model33(ProductModel):
    want = None
    mine = ()

    def used(self, m):
        """stop once exactly what is wanted has been read"""
        if self.want is None:
            return
        uses = [e for e in m.events[self.since:] if e[0] == "use"]
        path, start, n = self.want[:3]
        _, p, s, k = uses[0]
        # or once it cannot be made good by reading on
        if meets(uses, self.want, None) is None or p != path or isinstance(
                s, str) or not same(s, start) or k is None:
            raise Done

    def func_call(self, m, func, args, kw, node, me):
        if func.qual == "pdr.np_utils.np_from_buffered_io":
            return NotImplemented
        return super().func_call(m, func, args, kw, node, me)

    def ext_call(self, m, name, args, kw, node):
        a = args[0] if args else None
        if name == "ast.literal_eval" and isinstance(a, str):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return lifted(m.native(ast.literal_eval, a))
        if name in ("builtins.min", "builtins.max") and args:
            vs = list(args) if len(args) > 1 else list(m.iterate(a)) \
                if isinstance(a, (list, tuple)) else []
            if any(isinstance(v, Poly) for v in vs) and all(
                    terms(v) is not None for v in vs) and not kw:
                return extreme(m, name[9:], vs)
        if name == "builtins.int" and isinstance(a, str) and \
                a.strip().isdigit() and len(args) == 1:
            return lifted(int(a))
        if name == "builtins.sum" and len(args) == 1:
            t = 0
            for x in m.iterate(a):
                t = m.binop("+", t, x)
            return t
        if name in ("operator.mul", "operator.add", "operator.sub",
                    "operator.floordiv", "operator.truediv") and len(
                        args) == 2:
            return m.binop({"mul": "*", "add": "+", "sub": "-",
                            "floordiv": "//", "truediv": "/"}[name[9:]],
                           *args)
        if name in ("math.prod", "numpy.prod", "numpy.product"):
            t = 1
            for x in m.iterate(a):
                t = m.binop("*", t, x)
            return t
        if name in ("math.ceil", "math.floor") and isinstance(
                a, Poly) and a.whole():
            return a
        if name == "io.BytesIO" and not (args or kw):
            return OStream("mem", None, self.fs)
        if name == "io.BytesIO" and isinstance(a, Chunk):
            s = OStream("mem", None, self.fs)
            s.buf = a
            return s
        if name == "io.TextIOWrapper" and isinstance(a, OStream):
            return Text(a)
        if name in ("numpy.fromfile", "numpy.memmap"):
            return self.from_file(m, name, args, kw)
        if name in ("numpy.frombuffer", "numpy.ndarray"):
            return self.from_buffer(m, name, args, kw, node)
        if name.startswith("struct.unpack"):
            b = args[1]
            if isinstance(b, OStream):
                b = b.buf
            if isinstance(b, Chunk):
                return use(m, b)
        if name in ("os.path.getsize", "os.stat") and \
                self.fs.norm(a) in self.fs.live:
            return SIZE if name == "os.path.getsize" else OStat()
        if name in ("builtins.bytes", "builtins.bytearray",
                    "builtins.memoryview") and isinstance(a, Chunk):
            return a
        if name in ("numpy.loadtxt", "numpy.genfromtxt", "pandas.read_csv",
                    "pandas.read_table", "pandas.read_fwf"):
            if isinstance(a, OStream):
                return use(m, a.a_method(m, "read", [], {}, node))
            if isinstance(a, Text):
                return a.a_method(m, "read", [], {}, node)
            p = self.fs.norm(a)
            if p in self.fs.live:
                return use(m, Chunk(OStream("raw", p, self.fs), 0, None))
            if isinstance(a, AObj):
                return m.derive(a, what=name)
        if name in ("io.StringIO", "numpy.asarray", "numpy.array") and \
                isinstance(a, Top):
            return m.derive(a, what=name)
        if name not in ABOUT:
            for x in list(args) + list(kw.values()):
                if isinstance(x, Chunk):
                    use(m, x)
                elif isinstance(x, OStream) and not name.startswith(
                        ("io.", "builtins.", "contextlib.")):
                    raise Undecided(f"a file given to {name}")
        return super().ext_call(m, name, args, kw, node)

    def from_file(self, m, name, args, kw):
        names = ("file", "dtype", "count", "sep", "offset") if \
            name == "numpy.fromfile" else ("file", "dtype", "mode",
                                           "offset", "shape")
        d = dict(zip(names, args))
        d.update(kw)
        f = d.get("file", d.get("filename"))
        off = d.get("offset", 0)
        if not isinstance(f, OStream):
            p = self.fs.norm(f)
            if p not in self.fs.live:
                raise Undecided("file of an array")
            f = OStream("raw", p, self.fs)
        if f.kind != "raw":
            # it reads the descriptor, which is that of the packed file
            m.event("use", f.name, "the compressed bytes", None)
            return Top(what="contents")
        if d.get("sep"):
            return use(m, f.rest(m, None))
        size = size_of(m, d.get("dtype", "f8"))
        if name == "numpy.memmap":
            shape = d.get("shape")
            if isinstance(shape, (int, Poly)):
                shape = (shape,)
            n = None
            if shape is not None:
                n = size
                for x in shape:
                    n = m.binop("*", n, x)
            return use(m, Chunk(f, off, n))
        count = d.get("count", -1)
        f.pos = f.pos + off
        if isinstance(count, int) and count < 0:
            return use(m, f.rest(m, None))
        if isinstance(count, float) or count is None:
            raise AExc("TypeError")
        return use(m, f.rest(m, m.binop("*", count, size)))

    def from_buffer(self, m, name, args, kw, node):
        if name == "numpy.ndarray":
            d = dict(zip(("shape", "dtype", "buffer", "offset"), args))
            d.update(kw)
            b = d.get("buffer")
            shape = d.get("shape")
            if isinstance(shape, (int, Poly)):
                shape = (shape,)
            cnt = 1
            for x in shape or ():
                cnt = m.binop("*", cnt, x)
            d["count"] = cnt
        else:
            d = dict(zip(("buffer", "dtype", "count", "offset"), args))
            d.update(kw)
            b = d.get("buffer")
        if isinstance(b, OStream):
            b = b.buf
        if not isinstance(b, Chunk):
            raise Undecided("buffer of an array")
        off = d.get("offset", 0)
        count = d.get("count", -1)
        n = None
        if not (isinstance(count, int) and count < 0):
            n = m.binop("*", count, size_of(m, d.get("dtype", "f8")))
        return use(m, b, n, off)


class OStat(AObj):
    def a_attr(self, m, name):
        return SIZE if name == "st_size" else NotImplemented


def show(x):
    return "the end" if x is None else str(x)


def meets(uses, want, trail=()):
    """None when what was read is what was wanted, or what is wrong"""
    path, start, n = want[:3]
    got = {p for _, p, _, _ in uses}
    if not uses:
        return "nothing of the file is read"
    if got != {path}:
        return f"{', '.join(sorted(map(str, got)))} is read"
    s, k = uses[0][2:]
    for _, _, s2, k2 in uses[1:]:
        if k is not None and same(s + k, s2):
            k = None if k2 is None else k + k2
        elif not (same(s, s2) and (k is k2 or same(k, k2))):
            return (f"bytes are read from {s} and from {s2}")
    if not isinstance(s, str) and same(s, start):
        if n is None or k is None:
            if n is None and k is None:
                return None
            other = k if n is None else n
            if same(start + other, SIZE):
                return None
            return (f"{show_len(k)} are read from byte {s} on, where there "
                    f"are {show_len(n)}")
        if same(k, n):
            return None
        if len(want) > 3 and same(k, want[3]) and (
                trail is None or any(b and c == ("<0", (want[3] - n).key())
                                     for c, b in trail)):
            return None
        return (f"{show_len(k)} are read from byte {s} on, where the object "
                f"has {show_len(n)}")
    return f"it is read from byte {s} on, where it starts at byte {start}"


def show_len(n):
    return "all the bytes" if n is None else f"{n} bytes"


# ------------------------------------------------------------------ products
def T(text):
    """label text, with the symbols in braces written as their tokens"""
    return re.sub(r"\{(\w+)\}", lambda x: str(SYMS[x.group(1)]),
                  text).replace("\n", "\r\n")


class Kind:
    """an object and the bytes it takes"""

    def __init__(self, what, name, block, length, cap=None, family=None):
        self.what, self.name, self.block = what, name, block
        self.length, self.cap = length, cap
        self.family = family or what


def image(name="IMAGE", bits=8, typ="UNSIGNED_INTEGER", bands=None,
          store=None, pre=0, suf=0):
    b = (f"OBJECT = {name}\nLINES = {{LINES}}\nLINE_SAMPLES = {{SAMPLES}}\n"
         f"SAMPLE_BITS = {bits}\nSAMPLE_TYPE = {typ}\n")
    per = SAMPLES
    if bands is not None:
        b += f"BANDS = {bands}\n"
        per = SAMPLES * (BANDS if bands == "{BANDS}" else int(bands))
    if store:
        b += f"BAND_STORAGE_TYPE = {store}\n"
    if pre:
        b += f"LINE_PREFIX_BYTES = {pre}\n"
    if suf:
        b += f"LINE_SUFFIX_BYTES = {suf}\n"
    n = LINES * (per * (bits // 8) + pre + suf)
    return b + f"END_OBJECT = {name}\n", n


def table(name="TABLE", fmt="BINARY", pre=0, suf=0, spare=0, rows="{ROWS}",
          col="COLUMN"):
    t = {"BINARY": ("MSB_INTEGER", "IEEE_REAL", "CHARACTER"),
         "ASCII": ("ASCII_INTEGER", "ASCII_REAL", "CHARACTER")}[fmt]
    b = (f"OBJECT = {name}\nINTERCHANGE_FORMAT = {fmt}\nROWS = {rows}\n"
         f"COLUMNS = 3\nROW_BYTES = {13 + spare}\n")
    if pre:
        b += f"ROW_PREFIX_BYTES = {pre}\n"
    if suf:
        b += f"ROW_SUFFIX_BYTES = {suf}\n"
    at = 1
    for i, (ty, w) in enumerate(zip(t, (4, 4, 5))):
        b += (f"OBJECT = {col}\nNAME = C{i}\nDATA_TYPE = {ty}\n"
              f"START_BYTE = {at}\nBYTES = {w}\nEND_OBJECT = {col}\n")
        at += w
    n = (ROWS if rows == "{ROWS}" else int(rows)) * (13 + spare + pre + suf)
    return b + f"END_OBJECT = {name}\n", n


def kinds(tier):
    quick = tier == "quick"
    for bits, typ in ((8, "UNSIGNED_INTEGER"), (16, "MSB_INTEGER"),
                      (32, "PC_REAL"), (64, "IEEE_REAL"),
                      (32, "VAX_REAL"), (16, "LSB_UNSIGNED_INTEGER")):
        yield Kind(f"a {bits}-bit {typ} image", "IMAGE", *image(
            bits=bits, typ=typ), family="image")
        if quick and bits != 16:
            continue
        for store in ("BAND_SEQUENTIAL", "LINE_INTERLEAVED",
                      "SAMPLE_INTERLEAVED"):
            yield Kind(f"a {bits}-bit {store} image of several bands",
                       "IMAGE", *image(bits=bits, typ=typ, bands="{BANDS}",
                                       store=store),
                       family=f"{store} image")
    for store in ("BAND_SEQUENTIAL", "LINE_INTERLEAVED", None):
        yield Kind("an image of one band", "IMAGE", *image(
            bits=16, typ="MSB_INTEGER", bands=1, store=store),
            family="image of one band")
    for p, s in ((6, 0), (0, 4), (6, 4)):
        how = " and ".join(w for w, x in (("prefixes", p), ("suffixes", s))
                           if x)
        yield Kind(f"an image with line {how}", "IMAGE", *image(
            bits=16, typ="MSB_INTEGER", pre=p, suf=s),
            family="image with line prefixes or suffixes")
        yield Kind(f"a line-interleaved image with line {how}", "IMAGE",
                   *image(bits=16, typ="MSB_INTEGER", bands="{BANDS}",
                          store="LINE_INTERLEAVED", pre=p, suf=s),
                   family="image with line prefixes or suffixes")
    for n in ("BROWSE_IMAGE", "VIEW_IMAGE"):
        yield Kind(f"a {n}", n, *image(n, 16, "MSB_INTEGER"),
                   family="image by another name")
    for axes, items in ((("SAMPLE", "LINE", "BAND"),
                         ("SAMPLES", "LINES", "BANDS")),
                        (("SAMPLE", "BAND", "LINE"),
                         ("SAMPLES", "BANDS", "LINES")),
                        (("BAND", "SAMPLE", "LINE"),
                         ("BANDS", "SAMPLES", "LINES"))):
        head = ("OBJECT = QUBE\nAXES = 3\nAXIS_NAME = (%s, %s, %s)\n"
                "CORE_ITEMS = ({%s}, {%s}, {%s})\nCORE_ITEM_BYTES = 2\n"
                "CORE_ITEM_TYPE = MSB_INTEGER\n" % (axes + items))
        core = {"SAMPLE": SAMPLES, "LINE": LINES, "BAND": BANDS}
        yield Kind("a qube", "QUBE", head + "SUFFIX_ITEMS = (0, 0, 0)\n"
                   "END_OBJECT = QUBE\n", LINES * SAMPLES * BANDS * 2,
                   family="qube")
        for ax in axes:
            for side, width in (("SUFFIX", 2), ("PREFIX", 2), ("SUFFIX", 4),
                                ("both", 2)):
                if quick and (width == 4) != (ax == "SAMPLE"):
                    continue
                both = ("PREFIX", "SUFFIX") if side == "both" else (side,)
                b, planes = head, 0
                for i, sd in enumerate(both):
                    counts = [str(3 + i) if x == ax else "0" for x in axes]
                    b += (f"{sd}_ITEMS = ({', '.join(counts)})\n"
                          f"{ax}_{sd}_ITEM_BYTES = {width}\n")
                    planes += (3 + i) * width // 2
                n = 2
                for x, c in core.items():
                    n = n * (c + planes if x == ax else c)
                yield Kind(f"a qube with {ax.lower()} planes", "QUBE",
                           b + "END_OBJECT = QUBE\n", n,
                           family=f"qube with {ax.lower()} planes")
    for fmt in ("BINARY", "ASCII"):
        for p, s, sp in ((0, 0, 0), (0, 0, 3), (7, 0, 0), (0, 5, 0),
                         (7, 5, 3)):
            how = ", ".join(w for w, x in (
                ("row prefixes", p), ("row suffixes", s),
                ("spare bytes", sp)) if x)
            yield Kind(f"a {fmt.lower()} table" + (f" with {how}" if how
                                                  else ""), "TABLE",
                       *table("TABLE", fmt, p, s, sp),
                       family=f"{fmt.lower()} table" + (
                           " with pads" if how else ""))
        for name in ("SERIES", "SPECTRUM", "INDEX_TABLE"):
            yield Kind(f"a {fmt.lower()} {name}", name, *table(name, fmt),
                       family=f"{fmt.lower()} {name}")
    yield Kind("a header of known size", "IMAGE_HEADER",
               "OBJECT = IMAGE_HEADER\nHEADER_TYPE = TEXT\n"
               "BYTES = {BYTES}\nEND_OBJECT = IMAGE_HEADER\n", BYTES,
               HEADER_CAP, family="header")
    yield Kind("a header of known size and records", "HEADER",
               "OBJECT = HEADER\nHEADER_TYPE = TEXT\nRECORDS = {RECS}\n"
               "BYTES = {BYTES}\nEND_OBJECT = HEADER\n", BYTES, HEADER_CAP,
               family="header")
    yield Kind("a header of whole records", "HEADER",
               "OBJECT = HEADER\nHEADER_TYPE = TEXT\nRECORDS = {RECS}\n"
               "END_OBJECT = HEADER\n", RB * RECS, HEADER_CAP,
               family="header of records")
    yield Kind("a header of a table", "TABLE_HEADER",
               "OBJECT = TABLE_HEADER\nHEADER_TYPE = TEXT\n"
               "BYTES = {BYTES}\nEND_OBJECT = TABLE_HEADER\n", BYTES,
               HEADER_CAP, family="header")
    for typ, w in (("MSB_INTEGER", 2), ("IEEE_REAL", 8),
                   ("LSB_UNSIGNED_INTEGER", 4)):
        for dims, n in (("({DIM1}, {DIM2})", DIM1 * DIM2),
                        ("{DIM1}", DIM1)):
            yield Kind("a binary array", "ARRAY",
                       "OBJECT = ARRAY\nINTERCHANGE_FORMAT = BINARY\n"
                       f"AXIS_ITEMS = {dims}\nDATA_TYPE = {typ}\nBYTES = {w}"
                       "\nEND_OBJECT = ARRAY\n", n * w)
            yield Kind("a binary array of elements", "ARRAY",
                       "OBJECT = ARRAY\nINTERCHANGE_FORMAT = BINARY\n"
                       f"AXIS_ITEMS = {dims}\nOBJECT = ELEMENT\n"
                       f"DATA_TYPE = {typ}\nBYTES = {w}\nSTART_BYTE = 1\n"
                       "NAME = E\nEND_OBJECT = ELEMENT\n"
                       "END_OBJECT = ARRAY\n", n * w)
        yield Kind("an array of text", "ARRAY",
                   "OBJECT = ARRAY\nINTERCHANGE_FORMAT = ASCII\n"
                   f"AXIS_ITEMS = {dims}\nDATA_TYPE = ASCII_REAL\nBYTES = 8"
                   "\nEND_OBJECT = ARRAY\n", None)
    for w in (2, 4):
        yield Kind("a histogram", "HISTOGRAM",
                   "OBJECT = HISTOGRAM\nITEMS = 5\nDATA_TYPE = MSB_INTEGER"
                   f"\nITEM_BYTES = {w}\nEND_OBJECT = HISTOGRAM\n", 5 * w)


class Place:
    """how a label says where an object is"""

    def __init__(self, what, text, start, attached=False, head=None,
                 only=None):
        self.what, self.text, self.start = what, text, start
        self.attached = attached
        self.head, self.only = head, only


FIXED = "RECORD_TYPE = FIXED_LENGTH\nRECORD_BYTES = {RB}\nFILE_RECORDS = 9\n"
UNDEF = "RECORD_TYPE = UNDEFINED\n"


def places():
    f = "A.DAT"
    yield Place("the file", f'"{f}"', 0)
    yield Place("the first record of the file", f'("{f}", 1)', 0)
    yield Place("a record of the file", f'("{f}", {{N}})', RB * (N - 1))
    yield Place("a record of the file, in so many words",
                f'("{f}", {{N}} <RECORDS>)', RB * (N - 1))
    yield Place("a byte of the file", f'("{f}", {{N}} <BYTES>)', N - 1)
    yield Place("a byte of the file, without spaces",
                f'("{f}",{{N}}<BYTES>)', N - 1)
    yield Place("the first byte of the file", f'("{f}", 1 <BYTES>)', 0)
    yield Place("a byte of a file without records",
                f'("{f}", {{N}} <BYTES>)', N - 1, head=UNDEF)
    yield Place("a file without records", f'"{f}"', 0, head=UNDEF)
    yield Place("a record of the labelled file", "{N}", RB * (N - 1), True)
    yield Place("a byte of the labelled file", "{N} <BYTES>", N - 1, True)
    yield Place("a record of the labelled file, in so many words",
                "{N} <RECORDS>", RB * (N - 1), True)


class Scene:
    def __init__(self, what, key, files, fn, name, want):
        self.what, self.key, self.files = what, key, files
        self.fn, self.name, self.want = fn, name, want


PACK = {"": None, ".gz": "gzip", ".bz2": "bz2", ".zip": "zip"}
HEAD = "PDS_VERSION_ID = PDS3\n{head}DATA_SET_ID = \"NONE-IN-PARTICULAR\"\n"
BODY = b"0123456789abcdef" * 4


def label(text, head=FIXED):
    return T(HEAD.replace("{head}", head) + text + "END\n").encode()


def scenes(tier):
    quick = tier == "quick"
    seen = set()
    ks, ps = list(kinds(tier)), list(places())
    for i, k in enumerate(ks):
        new = k.family not in seen
        seen.add(k.family)
        for j, p in enumerate(ps):
            if quick and not new and j not in (2, 4, 9):
                continue
            if p.head == UNDEF and "records" in k.family:
                continue
            for ext, kind in PACK.items():
                if quick and ext and not (
                        new and ext == ".gz" and j in (2, 4, 9)):
                    continue
                text = label(f"^{k.name} = {p.text}\n" + k.block,
                             p.head or FIXED)
                if p.attached:
                    f = "/p/P.IMG" + ext
                    files = {f: File(text + BODY, kind)}
                    fn = f
                else:
                    f, fn = "/p/A.DAT" + ext, "/p/P.LBL"
                    files = {fn: File(text), f: File(BODY, kind)}
                want = (f, p.start, k.length)
                if k.cap:
                    want += (k.cap,)
                how = ", which is compressed" if ext else ""
                yield Scene(f"{k.what} at {p.what}{how}",
                            (k.family, p.what + how), files, fn, k.name,
                            want)
    yield from together()


def together():
    """several objects in one file, or one in each of several"""
    im, n = image(bits=16, typ="MSB_INTEGER")
    tb, k = table("TABLE")
    hd = ("OBJECT = IMAGE_HEADER\nHEADER_TYPE = TEXT\nBYTES = {BYTES}\n"
          "END_OBJECT = IMAGE_HEADER\n")
    want = {"IMAGE": (RB * (N - 1), n), "TABLE": (RB * (M - 1), k),
            "IMAGE_HEADER": (RB * 2, BYTES, HEADER_CAP)}
    ptr = "^IMAGE_HEADER = %s\n^IMAGE = %s\n^TABLE = %s\n"
    for what, where, files in (
            ("in one file", ('("A.DAT", 3)', '("A.DAT", {N})',
                             '("A.DAT", {M})'), ("A.DAT",) * 3),
            ("in the labelled file", ("3", "{N}", "{M}"), ("P.LBL",) * 3),
            ("each in its own file", ('("C.DAT", 3)', '("A.DAT", {N})',
                                      '("B.DAT", {M})'),
             ("C.DAT", "A.DAT", "B.DAT"))):
        text = label(ptr % where + hd + im + tb)
        for name, f in zip(("IMAGE_HEADER", "IMAGE", "TABLE"), files):
            fs = {"/p/P.LBL": File(text + BODY)}
            for x in files:
                fs.setdefault(f"/p/{x}", File(BODY))
            yield Scene(f"{name} of three objects {what}",
                        ("several objects", what), fs, "/p/P.LBL", name,
                        (f"/p/{f}",) + want[name])
    yield from files_apart()
    yield from from_the_end()
    text = label("^TEXT = \"A.TXT\"\n^DESCRIPTION = \"B.TXT\"\n")
    for name, f in (("TEXT", "A.TXT"), ("DESCRIPTION", "B.TXT")):
        for ext, kind in (("", None), (".gz", "gzip")):
            yield Scene(f"{name} of a text file", ("text", "the file" + ext),
                        {"/p/P.LBL": File(text), "/p/A.TXT" + ext: File(
                            BODY, kind), "/p/B.TXT" + ext: File(BODY, kind)},
                        "/p/P.LBL", name, (f"/p/{f}{ext}", 0, None))


def block(name, rb, body):
    return (f"OBJECT = {name}\nRECORD_TYPE = FIXED_LENGTH\n"
            f"RECORD_BYTES = {rb}\n{body}END_OBJECT = {name}\n")


def files_apart():
    """files with records of different lengths, described in one label"""
    im, n = image(bits=16, typ="MSB_INTEGER")
    tb, k = table("TABLE")
    for what, names in (("FILE blocks", ("FILE", "FILE")),
                        ("blocks of several names",
                         ("IMAGE_FILE", "TABLE_FILE"))):
        text = label(block(names[0], "{RB}", '^IMAGE = ("A.DAT", {N})\n'
                           + im) + block(names[1], "{RB2}",
                                         '^TABLE = ("B.DAT", {M})\n' + tb),
                     "")
        fs = {"/p/P.LBL": File(text), "/p/A.DAT": File(BODY),
              "/p/B.DAT": File(BODY)}
        for name, want in (("IMAGE", ("/p/A.DAT", RB * (N - 1), n)),
                           ("TABLE", ("/p/B.DAT", RB2 * (M - 1), k))):
            yield Scene(f"{name} of two files in {what}",
                        ("files of different records", name), fs,
                        "/p/P.LBL", name, want)
    # records of the labelled file, and of another
    text = label("^IMAGE = {N}\n" + im + block(
        "ANCILLARY_FILE", "{RB2}", '^TABLE = ("B.DAT", {M})\n' + tb))
    fs = {"/p/P.IMG": File(text + BODY), "/p/B.DAT": File(BODY)}
    for name, want in (("IMAGE", ("/p/P.IMG", RB * (N - 1), n)),
                       ("TABLE", ("/p/B.DAT", RB2 * (M - 1), k))):
        yield Scene(f"{name} of the labelled file and another",
                    ("files of different records", name + " attached"), fs,
                    "/p/P.IMG", name, want)


def from_the_end():
    """a table of which the label does not give the size of a record: it is
    taken to reach to the end of the file"""
    for fmt in ("BINARY", "ASCII"):
        for p, s, sp in ((0, 0, 0), (0, 0, 3), (7, 0, 0), (0, 5, 0)):
            tb, n = table("TABLE", fmt, p, s, sp)
            for ext, kind in (("", None), (".gz", "gzip")):
                yield Scene(f"a {fmt.lower()} table at a record of a file "
                            "of unknown records", (
                                f"{fmt.lower()} table",
                                "a record of unknown size"),
                            {"/p/P.LBL": File(label(
                                '^TABLE = ("A.DAT", {N})\n' + tb, UNDEF)),
                                "/p/A.DAT" + ext: File(BODY, kind)},
                            "/p/P.LBL", "TABLE",
                            ("/p/A.DAT" + ext, SIZE - n, n))
    tb, n = table("TABLE")
    for ptr, at in (("{N} <RECORDS>", SIZE - n), ("1 <RECORDS>", 0),
                    ("1", 0), ("1 <BYTES>", 0), ("{N} <BYTES>", N - 1)):
        yield Scene(f"a table at {re.sub('[{}]', '', ptr)} of a file of "
                    "unknown records", ("binary table", "a file of unknown "
                                        "records, in so many words"),
                    {"/p/P.LBL": File(label(
                        f'^TABLE = ("A.DAT", {ptr})\n' + tb, UNDEF)),
                     "/p/A.DAT": File(BODY)},
                    "/p/P.LBL", "TABLE", ("/p/A.DAT", at, n))


LINES_OF = ["first,1", "second,2", "third,3", "fourth,4", "fifth,5"]


class Rows33(Model33):
    """what text the parsers are given"""

    def ext_call(self, m, name, args, kw, node):
        if name in ("pandas.read_csv", "pandas.read_table",
                    "pandas.read_fwf") and args and isinstance(
                        args[0], Stream):
            s = args[0]
            self.got = s.data[s.pos:]
            raise Done
        return super().ext_call(m, name, args, kw, node)


def row_scenes(tier):
    """lines of text found by counting them"""
    spread = ("OBJECT = SPREADSHEET\n%sROW_BYTES = 20\nFIELDS = 2\nFIELD_DELIMITER = COMMA"
              "\nOBJECT = FIELD\nNAME = A\nDATA_TYPE = CHARACTER\n"
              "FIELD_NUMBER = 1\nEND_OBJECT = FIELD\nOBJECT = FIELD\n"
              "NAME = B\nDATA_TYPE = ASCII_INTEGER\nFIELD_NUMBER = 2\n"
              "END_OBJECT = FIELD\nEND_OBJECT = SPREADSHEET\n")
    head = "OBJECT = HEADER\nHEADER_TYPE = TEXT\n%sEND_OBJECT = HEADER\n"
    for ptr, at in (('"A.CSV"', 0), ('("A.CSV", 1)', 0), ('("A.CSV", 2)', 1),
                    ('("A.CSV", 3)', 2), ('("A.CSV", 2 <RECORDS>)', 1)):
        for n in (1, 2, 3, None):
            for name, block in (("SPREADSHEET", spread), ("HEADER", head)):
                if name == "HEADER" and (n is None or at):
                    continue
                if n is None and at:
                    # not placed by records that have no length
                    continue
                for word in ("ROWS", "RECORDS"):
                    if word == "RECORDS" and (n is None or at):
                        continue
                    if name == "HEADER" and word == "ROWS":
                        continue
                    for eol in ("\r\n", "\n"):
                        text = label(f"^{name} = {ptr}\n" + block % (
                            f"{word} = {n}\n" if n else ""),
                            "RECORD_TYPE = STREAM\n")
                        yield (f"{n or 'all'} lines from line {at + 1} of a "
                               f"file of text as a {name.lower()}",
                               (name.lower(), "lines"), name, {
                                   "/p/P.LBL": File(text),
                                   "/p/A.CSV": File(eol.join(
                                       LINES_OF + [""]).encode())},
                               LINES_OF[at:at + n if n else None])


def rows_read(prog, name, files):
    fs = OFS(files)
    m = Machine(prog, None, steps=1_500_000, limit=24)
    m.decorate = True

    def go(m):
        fs.opened, fs.live = [], frozenset()
        m.model = mod = Rows33(prog, fs)
        mod.got = None
        d = open_product(m, prog, "/p/P.LBL")
        k = len(m.events)
        try:
            m.call_value(m.getattr(d, "load"), [name], {}, None)
            if name in d.attrs and mod.got is None:
                mod.got = d.attrs[name]
        except Done:
            pass
        except AExc as e:
            return None, e.name
        except Undecided as e:
            return None, "? " + str(e)
        return mod.got, [str(e[1]) for e in m.events[k:] if e[0] == "warn"]
    for p in m.paths(go, lambda m: ((), {})):
        yield (None, "opening fails") if p.kind == "raise" else p.value


def load(prog, s, limit=24, steps=1_500_000):
    """the reads of one scene, for each path"""
    fs = OFS(s.files)
    m = Machine(prog, None, steps=steps, limit=limit)
    m.decorate = True

    def go(m):
        fs.opened, fs.live = [], frozenset()
        m.model = mod = Model33(prog, fs)
        d = open_product(m, prog, s.fn)
        mod.want, mod.since = s.want, len(m.events)
        fs.live = frozenset({s.want[0]} | {
            fs.norm(p) for p in s.files if fs.norm(p) != fs.norm(s.fn)})
        raised = note = None
        try:
            m.call_value(m.getattr(d, "load"), [s.name], {}, None)
        except Done:
            pass
        except AExc as e:
            raised = e.name
        except Undecided as e:
            note = str(e)
        ev = m.events[mod.since:]
        return ([e for e in ev if e[0] == "use"], raised, note,
                [str(e[1]) for e in ev if e[0] == "warn"],
                [e for e in ev if e[0] == "chunk" and e[1] == s.want[0]])
    for p in m.paths(go, lambda m: ((), {})):
        if p.kind == "raise":
            yield [], "opening: " + p.value.name, None, [], p.trail, []
        else:
            yield p.value[:4] + (p.trail, p.value[4])


def given(s, add):
    """the scene with numbers for what was any number, each a little more"""
    def text(b):
        for v in VALUE:
            b = b.replace(str(v).encode(), str(v + add).encode())
        return b
    nums = {k: v + add for k, v in SYMS.items()}
    files = {p: File(text(f.plain), f.packed) for p, f in s.files.items()}
    return Scene(s.what, s.key, files, s.fn, s.name, tuple(
        x.at(nums) if isinstance(x, Poly) else x for x in s.want))


def outcomes(prog, s, undecided, tried):
    """the reads of a scene for any numbers, or for some when the analysis
    cannot tell for any"""
    whole, why = [], None
    try:
        for o in load(prog, s):
            if not o[0] and o[2] is None and any(o[5]):
                o = o[:2] + ("what is read is lost sight of",) + o[3:]
            whole.append(o)
            if o[2] is not None and not o[0]:
                why = o[2]
    except Undecided as e:
        why = str(e)
    yield from whole
    if why is None:
        return
    undecided(why)
    tried[s.key] = tried.get(s.key, 0) + 1
    if tried[s.key] > 3:
        return
    LIFT[0] = False
    try:
        for add in (0, 1):
            t = given(s, add)
            for o in load(prog, t):
                if o[0]:
                    yield o + (t,)
    except Undecided:
        pass
    finally:
        LIFT[0] = True


def condition(key, yes):
    """a choice on the way, in words"""
    if not (isinstance(key, tuple) and key[0] in ("<0", "==0") and
            isinstance(key[1], tuple) and key[1][0] == "poly"):
        return None
    p = Poly(dict(key[1][1]))
    return f"{p} {key[0][:-1] if yes else 'not ' + key[0][:-1]} 0"


def check(ctx, rep, tier):
    rep.rule("C33.range", "for every record length, position and size that "
             "a label gives, what is read of the data file is the object's "
             "bytes and no others")
    rep.rule("C33.lines", "text that is placed by counting lines is the "
             "lines the label counts")
    rep.assume("the numbers in labels are at least two where they are not "
               "given; files are as long as their labels say; a header is read up to 80000 bytes")
    worst, tried, began = {}, {}, time.monotonic()
    for s in scenes(tier):
        if time.monotonic() - began > (420 if tier == "quick" else 660):
            rep.undecide(f"{s.what}: no time is left")
            continue
        rep.count("obligations")
        for o in outcomes(ctx.prog, s, lambda e: rep.undecide(
                f"{s.what}: {e}"), tried):
            uses, raised, note, warned, trail = o[:5]
            if note is not None and not uses:
                continue
            want = o[6].want if len(o) > 6 else s.want
            bad = meets(uses, want, None if len(o) > 6 else trail)
            if bad is None:
                continue
            if not uses and raised:
                bad = f"the load fails with {raised}"
            elif not uses and warned:
                bad += f" ({warned[0][:120]})"
            cond = [c for c in (condition(k, b) for k, b in trail) if c]
            worst.setdefault(s.key, (s, bad, cond))
    for what, key, name, files, want in row_scenes(tier):
        rep.count("obligations")
        for got, note in rows_read(ctx.prog, name, files):
            if isinstance(got, AObj) or got is None and str(note)[:1] == "?":
                rep.undecide(f"{what}: {note}")
                continue
            lines = [x for x in got.splitlines() if x] if isinstance(
                got, str) else None
            if lines == want:
                continue
            if lines is None:
                bad = f"no text is taken ({str(note)[:120]})"
            else:
                bad = f"the lines {lines} are taken, which should be {want}"
            rep.find("C33.lines", f"{key[0]}|{key[1]}", "", f"{what}: {bad}")
    for key, (s, bad, cond) in sorted(worst.items()):
        rep.find("C33.range", f"{key[0]}|{key[1]}", "",
                 f"{s.what}: {bad}" + (f" when {'; '.join(cond[:3])}"
                                       if cond else ""))
