"""C16: compressed files are read transparently.  Locating and opening files
is interpreted over a file system holding every kind of compressed file; the
array reader over every kind of stream; the text readers over compressed
files; and every other generic reader is searched for paths that reach a raw
opening operation."""
from __future__ import annotations

import itertools

from ..absint import AExc, AObj, Machine, Undecided
from ..domains import DATA
from ..effects import Effects, Refs, load_roots, short
from ..files import CWD, FS, File, FSModel, PACKED, PathV, Stream
from ..flow import AV, Interp, TOP

OPENER = "pdr.utils.decompress"
FIND = "pdr.utils.check_cases"
READ = "pdr.np_utils.np_from_buffered_io"
BODY = bytes(range(32, 96))
TEXT = b"FIRST LINE\r\nSECOND\r\nTHIRD\r\nFOURTH\r\n"
LABEL = (b"PDS_VERSION_ID = PDS3\r\nRECORD_TYPE = STREAM\r\nEND\r\n"
         + b"DATA AFTER THE LABEL\r\n")


def check(ctx, rep, tier):
    rep.rule("C16.pair", "every compressed file that the library finds for "
             "the name of an uncompressed one is opened decompressed, "
             "whatever the case of its extension; other files are opened as "
             "they are")
    rep.rule("C16.array", "arrays are read from the decompressed contents "
             "of every kind of stream, at the offset and in the number asked "
             "for")
    rep.rule("C16.text", "label, header and text readers give the text the "
             "compressed file holds")
    rep.rule("C16.size", "positions counted from the end of a file are "
             "counted in its decompressed contents")
    rep.rule("C16.raw", "no other generic reader opens a product's file "
             "except through the decompressing opener")
    rep.assume("gzip, bz2, zipfile and numpy behave as documented; FITS and "
               "desktop images are opened by their own libraries; "
               "special-case readers for particular data sets choose their "
               "own opener")
    prog = ctx.prog
    pair(prog, rep)
    array(prog, rep)
    text(prog, rep)
    raw(prog, rep)


def func(prog, q, rep):
    f = prog.funcs.get(q)
    if f is None:
        rep.undecide(f"{q} is not there")
    return f


def run(prog, rep, model, fn, make, what):
    m = Machine(prog, model, limit=200)
    m.decorate = True
    try:
        out = list(m.paths(fn, make))
    except Undecided as x:
        rep.undecide(f"{what}: {x}")
        return []
    rep.count("scenarios", 1)
    return out


def names():
    for ext, kind in PACKED.items():
        for e in (ext, ext.upper(), ext[:2].upper() + ext[2:]):
            yield e, kind


def pair(prog, rep):
    f, g = func(prog, FIND, rep), func(prog, OPENER, rep)
    if f is None or g is None:
        return
    found = set()
    for (ext, kind), name, as_path in itertools.product(
            names(), ("foo.img", "a.b.img"), (False, True)):
        fs = FS({f"/d/{name}{ext}": File(BODY, kind)})
        model = FSModel(prog, fs)

        def locate(m):
            fs.opened = []
            got = m.call_func(f, [f"/d/{name.upper()}"], {}, None)
            if isinstance(got, PathV):
                got = str(got)
            if not isinstance(got, str):
                raise Undecided("located path")
            return m.call_func(g, [PathV(fs, got) if as_path else got], {},
                               None)
        for p in run(prog, rep, model, locate, lambda m: ([], {}), ext):
            if p.kind == "raise":
                if p.value.name == "FileNotFoundError" and not fs.opened:
                    continue            # not recognised
                rep.find("C16.pair", ext.lower(), f"{g.file}:{g.line}",
                         f"opening a file found as {name}{ext} fails with "
                         f"{p.value.name}")
                continue
            found.add(ext.lower())
            opened(rep, p, g, ext, f"a file found as {name}{ext}", BODY)
    for nm in ("foo.img", "FOO.TAB", "noext", "a.gzip.img", "img.zipped"):
        fs = FS({f"/d/{nm}": File(BODY)})
        for p in run(prog, rep, FSModel(prog, fs), g,
                     lambda m: ([f"/d/{nm}"], {}), nm):
            if p.kind == "raise":
                rep.find("C16.pair", "plain", f"{g.file}:{g.line}",
                         f"opening the uncompressed file {nm} fails with "
                         f"{p.value.name}")
            else:
                opened(rep, p, g, "plain", f"the uncompressed file {nm}",
                       BODY)
    for ext, kind in names():
        if ext.lower() not in found:
            continue
        fs = FS({f"/d/foo.img{ext}": File(BODY, kind)})
        for p in run(prog, rep, FSModel(prog, fs), g,
                     lambda m: ([f"/d/foo.img{ext}"], {}), ext):
            if p.kind == "return":
                opened(rep, p, g, ext, f"foo.img{ext}", BODY)
    rep.count("recognised compressions", len(found))
    for e in sorted(found):
        rep.sample(e)
    rep.need("recognised compressions", 0)


def opened(rep, p, g, ext, what, want):
    s = p.value
    if not isinstance(s, Stream):
        rep.undecide(f"what opening {what} gives")
        return
    if s.closed:
        rep.find("C16.pair", ext.lower() + "|closed", f"{g.file}:{g.line}",
                 f"{what} is closed when it is handed out")
    elif s.data[s.pos:] != want:
        rep.find("C16.pair", ext.lower(), f"{g.file}:{g.line}",
                 f"{what} is opened "
                 + ("in its compressed form" if s.kind == "raw" else
                    "at the wrong place or in the wrong way"))


# ------------------------------------------------------------------ arrays
class DType(AObj):
    def __init__(self, s):
        self.s = s
        self.size = int(s[-1])

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name == "itemsize":
            return self.size
        if name in ("str", "descr", "name"):
            return self.s
        if name == "kind":
            return self.s[-2]
        if name in ("names", "fields", "subdtype"):
            return None
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n in ("numpy.dtype", "object") for n in names)


class Arr(AObj):
    def __init__(self, data, dt):
        self.data, self.dt = data, dt

    def a_len(self, m):
        return len(self.data) // self.dt.size

    def a_attr(self, m, name):
        if name == "size":
            return len(self.data) // self.dt.size
        if name == "dtype":
            return self.dt
        if name == "shape":
            return (len(self.data) // self.dt.size,)
        return NotImplemented

    def a_item(self, m, k):
        if isinstance(k, slice) and k.step in (None, 1):
            n = self.dt.size
            a, b, _ = k.indices(len(self.data) // n)
            return Arr(self.data[a * n:b * n], self.dt)
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name in ("copy", "view", "ravel", "squeeze") and not args:
            return self
        return NotImplemented


class ArrayModel(FSModel):
    def ext_call(self, m, name, args, kw, node):
        if name == "numpy.dtype":
            a = args[0]
            if isinstance(a, DType):
                return a
            if isinstance(a, str):
                return DType(a)
        if name in ("numpy.fromfile", "numpy.frombuffer"):
            n = dict(zip(("a", "dtype", "count") + (
                ("sep", "offset") if name.endswith("file") else
                ("offset",)), args))
            n.update(kw)
            a = n.get("a", n.get("file", n.get("buffer")))
            dt, count = n.get("dtype"), n.get("count", -1)
            off = n.get("offset", 0)
            if isinstance(dt, str):
                dt = DType(dt)
            if not isinstance(dt, DType) or isinstance(count, AObj) or \
                    isinstance(off, AObj):
                raise Undecided("array type")
            if not isinstance(count, int) or not isinstance(off, int):
                raise AExc("TypeError")
            if isinstance(a, Stream) and name.endswith("file"):
                if a.kind == "mem":
                    raise AExc("io.UnsupportedOperation")
                if a.kind != "raw":
                    m.event("raw read", a.kind)
                    return Arr(b"", dt)
                data = a.data[a.pos + off:]
            elif isinstance(a, bytes) and name.endswith("buffer"):
                data = a[off:]
                if count < 0 and len(data) % dt.size or count > 0 and \
                        len(data) < count * dt.size:
                    raise AExc("ValueError")
            elif isinstance(a, AObj):
                raise Undecided("array source")
            else:
                raise AExc("TypeError")
            if count >= 0:
                data = data[:count * dt.size]
            else:
                data = data[:len(data) // dt.size * dt.size]
            return Arr(data, dt)
        if name in ("numpy.asarray", "numpy.array", "numpy.copy",
                    "numpy.squeeze") and isinstance(args[0], Arr):
            return args[0]
        return super().ext_call(m, name, args, kw, node)


def array(prog, rep):
    f = func(prog, READ, rep)
    if f is None:
        return
    pn = f.param_names()
    if not {"dtype", "offset", "count"} <= set(pn):
        rep.undecide("parameters of the array reader")
        return
    for kind, at, n, as_str in itertools.product(
            ("gzip", "igzip", "bz2", "zip", "mem", "raw"),
            (None, 0, 6), (None, 1, 4), (False, True)):
        fs = FS({})
        model = ArrayModel(prog, fs)

        def make(m):
            s = Stream(kind, BODY, "x", fs)
            return [s], {"dtype": ">i2" if as_str else DType(">i2"),
                         "offset": at, "count": n}
        want = BODY[at or 0:]
        if n is not None:
            want = want[:2 * n]
        how = (f"{n or 'all'} values from a {kind} stream"
               + (f" at byte {at}" if at else "")
               + (", type given by name" if as_str else ""))
        key = kind + (" offset" if at else "") + (
            " count" if n else "") + (" named type" if as_str else "")
        for p in run(prog, rep, model, f, make, how):
            if p.kind == "raise":
                rep.find("C16.array", key, f"{f.file}:{f.line}",
                         f"reading {how} fails with {p.value.name}")
            elif any(e[0] == "raw read" for e in p.events):
                rep.find("C16.array", kind, f"{f.file}:{f.line}",
                         f"arrays are read from the compressed bytes of a "
                         f"{kind} stream")
            elif not isinstance(p.value, Arr):
                rep.undecide(f"what reading {how} gives")
            elif p.value.data != want:
                rep.find("C16.array", key, f"{f.file}:{f.line}",
                         f"reading {how} gives other bytes than those there")


# -------------------------------------------------------------------- text
def texts(prog):
    props = {"start": 1, "length": 2, "as_rows": True}
    bprops = {"start": 12, "length": 8, "as_rows": False}
    t = "pdr.loaders.text."
    yield t + "read_text", ["X"], "fn", {}, "a text object"
    yield t + "ignore_if_pdf", [], "fn", {}, "a text object"
    yield t + "read_label", [], "fn", {}, "a label"
    yield t + "read_header", [], "fn", {"table_props": props}, \
        "a header given in rows"
    yield t + "read_header", [], "fn", {"table_props": bprops}, \
        "a header given in bytes"
    yield "pdr.loaders._helpers.count_from_bottom_of_file", [], "fn", {
        "rows": 2, "row_bytes": 10}, "the start of a table at the end"


def text(prog, rep):
    for q, args, param, kw, what in texts(prog):
        f = func(prog, q, rep)
        if f is None:
            continue
        pn = f.param_names()
        if param not in pn or not set(kw) <= set(pn):
            rep.undecide(f"parameters of {q}")
            continue
        base = None
        for ext, kind in (("", None), (".gz", "gzip"), (".bz2", "bz2"),
                          (".zip", "zip"), (".GZ", "gzip")):
            path = f"/d/foo.img{ext}"
            body = LABEL if "label" in what else TEXT
            fs = FS({path: File(body, kind)})
            a = list(args)
            k = dict(kw)
            if pn.index(param) == len(a):
                a.append(path)
            else:
                k[param] = path
            vals = []
            for p in run(prog, rep, FSModel(prog, fs), lambda m: m.call_value(
                    m.decorated(f), list(a), dict(k), None),
                    lambda m: ([], {}), what):
                if p.kind == "raise":
                    vals.append(("raises", p.value.name))
                elif isinstance(p.value, AObj):
                    rep.undecide(f"{what} from {path}")
                    vals = None
                    break
                else:
                    vals.append(("gives", p.value))
            if vals is None:
                continue
            if kind is None:
                base = vals
                continue
            rule = "C16.size" if "table at the end" in what else "C16.text"
            if base and vals and vals != base:
                rep.find(rule, f"{f.qual}|{kind}", f"{f.file}:{f.line}",
                         f"{what}, read by {f.name} from a {kind} file, "
                         f"{vals[0][0]} {vals[0][1]!r:.60} instead of "
                         f"{base[0][1]!r:.60}")


# --------------------------------------------------------------------- raw
RAW = {"builtins.open", "io.open", "os.open", "codecs.open",
       "numpy.fromfile", "numpy.memmap", "numpy.loadtxt",
       "numpy.genfromtxt", "numpy.load", "numpy.lib.format.open_memmap",
       "pandas.read_csv", "pandas.read_fwf", "pandas.read_table",
       "pandas.read_json", "pandas.read_excel", "pandas.read_parquet",
       "pvl.load", "pvl.get_text_from", "mmap.mmap", "linecache.getlines",
       "xml.etree.ElementTree.parse", "fileinput.input"}
METH = {"open", "read_text", "read_bytes"}
PACKERS = ("gzip.", "bz2.", "zipfile.", "isal.", "lzma.")
GENERIC = ("pdr.loaders.", "pdr.parselabel.", "pdr.utils", "pdr.np_utils",
           "pdr.pd_utils", "pdr.pdr", "pdr.bit_handling", "pdr.pvl_utils")
FILEISH = {"fn", "filename", "file_name", "path", "filepath", "fpath",
           "file_path", "data_filename", "label_filename", "label_fn",
           "label_fns", "format_file", "each_file", "absolute_path",
           "fn_or_reader"}


class Paths(Effects):
    """tags: p = the path of a product's file"""

    def __init__(self, see, rep):
        super().__init__(see)
        self.rep = rep

    def param(self, f, name):
        if name in FILEISH:
            return AV(frozenset("p"), unk=True)
        if name in ("data", "pdrlike"):
            return AV(insts=frozenset([DATA]))
        return None

    def attr(self, recv, name, node, caller):
        if DATA in recv.insts and name in (
                "filename", "labelname", "file_mapping", "search_paths"):
            return AV(frozenset("p"), unk=True)
        return super().attr(recv, name, node, caller)


PATHY = {"pathlib.Path", "builtins.str", "os.path.join", "os.path.abspath",
         "os.path.realpath", "os.fspath", "dustgoggles.structures.listify",
         "os.path.normpath", "os.path.expanduser", "builtins.list",
         "builtins.tuple", "builtins.map", "builtins.filter",
         "builtins.next", "builtins.iter", "builtins.sorted"}
PATHM = {"absolute", "resolve", "with_suffix", "with_name", "joinpath",
         "expanduser", "with_stem", "iterdir", "glob", "get", "values",
         "items", "pop", "__getitem__"}


def raw(prog, rep):
    openers = set()
    for d, n, f, mod in Refs(prog):
        if f is not None and d.startswith(PACKERS) and \
                mod.name.startswith(GENERIC):
            while f is not None:
                openers.add(f.qual)
                f = f.parent
    if OPENER in prog.funcs:
        openers.add(OPENER)
    # the array reader is given streams; its isinstance tests name the
    # libraries without opening anything
    openers -= {READ}
    hits = {}
    seen = [0]

    def see(op, name, recv, args, kwargs, node, caller):
        if op == "own":
            if name == OPENER:
                seen[0] += 1
                return AV(unk=True)
            return None
        if op == "attr":
            return None
        if op == "method":
            if "p" in recv.tags and name in METH and (
                    name != "open" or "%stream" not in recv.insts):
                hit(name, node, caller)
                return AV(unk=True)
            if "p" in recv.tags and name in PATHM:
                return AV(frozenset("p"), unk=True)
            return None
        if name in RAW:
            a = args[0] if args else next(
                (v for k, v in kwargs.items() if k in (
                    "file", "fname", "filepath_or_buffer", "path",
                    "filename")), None)
            seen[0] += 1
            if a is not None and "p" in a.tags:
                hit(name, node, caller)
            return AV(unk=True)
        if name in PATHY and any("p" in a.tags for a in args):
            return AV(frozenset("p"), unk=True)
        return None

    def hit(name, node, caller):
        chain = dom.chain()
        if any(q in openers for q in chain):
            return
        if any(q.startswith(("pdr.formats", "pdr.pds4_tools",
                             "pdr.browsify", "pdr.tests"))
               for q in chain):
            return
        if caller is None or not caller.module.name.startswith(GENERIC):
            return
        if "cached_pvl" in caller.qual and len(chain) < 2:
            return
        hits.setdefault((caller.qual, name), (caller, node, chain))

    dom = Paths(see, rep)
    it = Interp(prog, dom)
    roots = load_roots(prog)
    for q, f in sorted(prog.funcs.items()):
        if f.module.name.startswith(GENERIC) and f.cls is None and \
                f.parent is None and not f.vendored and \
                f.qual not in LEAVES and \
                set(f.param_names()) & FILEISH and q not in openers:
            roots.append((f, {}))
    it.run_roots(roots)
    rep.count("functions searched", len(roots))
    rep.count("opening operations followed", seen[0])
    for (q, name), (caller, node, chain) in sorted(
            hits.items(), key=lambda kv: kv[0]):
        rep.find("C16.raw", f"{q}|{name}", f"{caller.file}:"
                 f"{getattr(node, 'lineno', 0)}",
                 f"{q} opens the file itself with {name} "
                 f"({short(node)}), so a compressed file is read in its "
                 f"compressed form; path: {' -> '.join(chain[-6:])}")


# utilities that also take streams: judged by what they are called with
LEAVES = {"pdr.utils.head_file", "pdr.parselabel.utils.trim_label"}
