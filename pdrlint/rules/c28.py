"""C28: reading always terminates.

The functions that scan labels and data streams are interpreted over streams
that end early, hold nothing, or never hold what is looked for, and over
inputs that name things twice or refer to themselves.  A loop that is gone
round a great many times over a few bytes of input does not end with it.

Every other loop of the library is judged by what a pass through it changes:
a way round the loop after which everything its exits depend on is as it was
is a way round it for ever."""
from __future__ import annotations

import struct

from ..absint import AExc, AObj, Machine, Top, Undecided
from ..files import FS, File, FSModel, PathV, Stream
from ..frames import Frame, MD, frame_call, md_call
from ..pvl import pvl_call
from . import loops
from .tabledata import identifiers

TURNS = 2500


class Endless(BaseException):
    def __init__(self, func, node):
        self.func, self.node = func, node


class Turning(Machine):
    def endless(self, st, env, f):
        if env is not None:
            try:
                env.get("$yield")
                raise Undecided("a generator without end")
            except KeyError:
                pass
        raise Endless(*((f, st) if f is not None else self.where()))


class Fd(int):
    pass


class ReadModel(FSModel):
    """files, descriptors, and the libraries the readers use"""

    def __init__(self, prog, fs):
        super().__init__(prog, fs)
        self.fds = {}

    def global_value(self, m, module, name):
        if module is None and name.startswith("os.O_"):
            return 0
        return super().global_value(m, module, name)

    def ext_call(self, m, name, args, kw, node):
        if name in ("os.open", "os.fdopen"):
            if name == "os.fdopen":
                return self.fds[args[0]]
            s = self.fs.open(m, args[0], "rb")
            n = 10 + len(self.fds)
            self.fds[n] = s
            return n
        if name in ("os.lseek", "os.read", "os.close", "os.fstat") and \
                isinstance(args[0], int) and args[0] in self.fds:
            s = self.fds[args[0]]
            if name == "os.fstat":
                from ..files import Stat
                return Stat(len(s.data))
            return s.a_method(m, {"os.lseek": "seek"}.get(name, name[3:]),
                              list(args[1:]), {}, node)
        if name in ("struct.unpack", "struct.unpack_from",
                    "struct.calcsize") and all(
                        isinstance(a, (str, bytes, int)) for a in args):
            return m.native(getattr(struct, name[7:]), *args)
        if name == "pandas.DataFrame":
            return m.derive(what=name)
        for f in (super().ext_call, lambda *a: md_call(*a[:4]), pvl_call,
                  frame_call):
            r = f(m, name, args, kw, node)
            if r is not NotImplemented:
                return r
        return NotImplemented


class Scan:
    def __init__(self, name, func, args, files=None, kw=None, turns=TURNS):
        self.name, self.func, self.args = name, func, args
        self.files, self.kw = files or {}, kw or {}
        self.turns = turns


def path(fs, s):
    return PathV(fs, s)


class Smem:
    def __init__(self, text):
        self.text = text


def scans(ctx, tier):
    """what is read, from what"""
    out = []
    line = b"A_LONG_PARAMETER_NAME = \"a value\"\r\n"
    labels = {
        "an empty file": b"", "a file of one byte": b"A",
        "a file of twenty bytes": b"A = 1\r\nBB = 12345\r\n",
        "a label without an end": line * 4,
        "a long label without an end": line * 4000,
        "a label that is cut short": b"A = (1,\r\n" + line * 3,
        "a label that ends": line * 3 + b"END\r\n",
    }
    for what, text in labels.items():
        for kw in ({}, {"raise_no_ending": True}, {"strict_decode": False},
                   {"max_size": 10 ** 9}):
            out.append(Scan(f"looking for the label in {what}",
                            "pdr.parselabel.utils.trim_label",
                            ["/d/a.img"], {"/d/a.img": text}, kw))
        out.append(Scan(f"reading {what} as a label",
                        "pdr.parselabel.pds3.read_pvl",
                        ["/d/a.lbl"], {"/d/a.lbl": text}))
    for t in ("", "A", "A =", "A = (", "OBJECT = X", "A = \"open", "/*",
              "OBJECT = X\r\nOBJECT = Y\r\nA = 1", "END_OBJECT",
              "OBJECT = X\r\nEND_OBJECT\r\nEND_OBJECT = X", "= 3", "\x00" * 9,
              "^A = 1\r\n^A = 2\r\nOBJECT = A\r\nEND_OBJECT\r\n"
              "OBJECT = A\r\nEND_OBJECT\r\nA_0 = 1"):
        out.append(Scan(f"parsing {t!r}", "pdr.parselabel.pds3.parse_pvl",
                        [t]))
    specs = [(0, 3), (4, 6), (7, 10), (10, 12)]
    for t in ("", "abc", "abc de fghij", "abc de fgh12abc", "\n\n",
              "abc de fgh12" * 3 + "a"):
        for sp in (specs, specs[:2], specs[1:]):
            out.append(Scan(f"reading fixed-width fields from {t!r}",
                            "pdr.loaders.table.read_strictly_fixed",
                            [Smem(t), list(sp)]))
    out += msl() + moc() + mcs(ctx)
    for n in range(0, 41 if tier == "quick" else 300):
        for o in ("<", ">"):
            out.append(Scan(f"splitting a field of {n} bytes",
                            "pdr.bit_handling.factor_to_dtype", [n, o]))
    for d in ({}, {"a": []}, {"a": [1, 2], "b": (3,), "c": {"d": [[], [1]]}},
              {"a": [{"b": [1, [2, [3]]]}, {}, {"b": []}]}):
        out.append(Scan(f"unpacking {d}",
                        "pdr.parselabel.pds4.unpack_to_multidict", [d]))
    out += names() + formats(ctx)
    return out


def msl():
    """MSL images: a header and predictively compressed planes"""
    out = []
    h = [0] * 16
    h[5], h[8], h[15] = 0x101, 0x100, 0x1010cc28
    pred = struct.pack(">16I", *h)
    sync, plane = b"\xff\xff\0\0", b"\x11" * 8
    odd = b"\x11" * 7 + b"\x14\0"
    h[8] = 0
    raw = struct.pack(">16I", *h)
    h[8] = 1
    jpeg = struct.pack(">16I", *h)
    q = "pdr.formats.msl_edr.msl_edr_image_loader"
    for what, d in {
            "an empty file": b"", "a file shorter than a header": pred[:30],
            "a file without a header": b"\x00\x01\x02\x03" * 20,
            "nothing but a header": pred,
            "an image without a sync mark": pred + b"\x55" * 21,
            "an image cut short in its sync mark": pred + sync[:3],
            "an image cut short after its sync mark": pred + sync,
            "a plane cut short": pred + sync + plane[:5],
            "one plane": pred + sync + plane,
            "one plane and one byte": pred + sync + plane + b"\x01",
            "a plane that ends one byte after a word": pred + sync + odd,
            "a plane that ends two bytes after a word": pred + b"\x01" +
            sync + odd,
            "a plane that ends three bytes after a word": pred + b"\x01\x02"
            + sync + odd,
            "planes between noise": pred + b"\xff" * 5 + (
                sync + plane + b"\xff\xff\x01") * 3,
            "all planes": pred + (sync + plane) * 4,
            "a raw image cut short": raw + b"\x01" * 9,
            "a JPEG image without data": jpeg,
            "a JPEG image cut short": jpeg + b"\xff\xd8\xff\xe0\x00",
            "two JPEG images": jpeg + b"\xff\xd8\xff\xd9\x00\xff\xd8\xff",
    }.items():
        out.append(Scan(f"an MSL image: {what}", q, ["/d/a.dat"],
                        {"/d/a.dat": d}, turns=300))
    return out


def moc():
    """MGS MOC images: fragments after a label, each with a header"""
    def head(n, comp=1, table=5, status=2):
        b = bytearray(62)
        b[13] = status
        b[40], b[43] = 1, 1         # 16 lines of 16 pixels
        b[6] = 1
        b[44], b[45] = comp, table
        b[58:62] = n.to_bytes(4, "little")
        return bytes(b)

    label = b" " * 2048
    sync = b"\xca\xf0"
    body = sync + b"\x10" * 16 + b"\x00\x5a\xa5\xff" * 8
    q = "pdr.formats.mgs_moc.mgs_moc_comp_image_loader"
    out = []
    for what, d in {
            "an empty file": b"", "a label": label,
            "a header cut short": label + head(4)[:50],
            "a header": label + head(4),
            "a header of no data": label + head(0),
            "a fragment cut short": label + head(60) + body[:20],
            "a fragment": label + head(len(body)) + body,
            "a fragment without sync": label + head(20) + b"\x01" * 20,
            "a fragment of noise": label + head(20) + b"\xff" * 20,
            "a fragment that is not the last": label + head(
                10, status=0) + body[:10],
            "two fragments": label + head(10, status=0) + body[:11] + head(
                len(body) - 11) + body[11:],
            "two fragments, the second of no data": label + head(
                10, status=0) + body[:11] + head(0),
            "an uncompressed fragment": label + head(16, 0, 0) + b"\xa5" * 16,
            "an uncompressed fragment cut short": label + head(
                16, 0, 0) + b"\xa5" * 3,
            "an uncompressed fragment of no data": label + head(16, 0, 0),
    }.items():
        out.append(Scan(f"an MGS MOC image: {what}", q,
                        ["/d/a.imq", {"DATA_QUALITY_DESC": "OK"}],
                        {"/d/a.imq": d}))
    return out


def mcs(ctx):
    out = []
    meta = b",".join(b"1" for _ in range(77))
    row = b",".join(b"2" for _ in range(15))
    q = "pdr.formats.mro.mcs_ddr_table_loader"
    for what, d in {
            "nothing": b"", "a newline": b"\n", "newlines": b"\n" * 5,
            "metadata only": meta + b"\n",
            "records": (meta + b"\n" + row + b"\n" + row + b"\n") * 2,
            "a record cut short": meta + b"\n" + row + b"\n",
            "records with rows missing": (meta + b"\n" + row + b"\n") * 3,
            "records without rows": (meta + b"\n") * 4,
            "a row cut short": meta + b"\n" + row + b"\n" + row[:9] + b"\n",
    }.items():
        for n in (2, 1, 0, -1, -2):
            out.append(Scan(
                f"an MCS table of {what}, {n} rows to a record", q,
                [MD([("CONTAINER", MD([("REPETITIONS", n)]))]), "/d/a.tab",
                 0], {"/d/a.tab": d}, turns=150))
    return out


def names():
    out = []
    from .c18 import HDU
    for ns in (["A", "A"], ["A", "A", "A_0"], ["A", "A_0", "A", "A_0"],
               ["A", "A", "A_0", "A_1", "A_0_0", "A_1_1"], ["", ""], []):
        out.append(Scan(
            f"renaming columns of a FITS table named {', '.join(ns)}",
            "pdr.loaders.handlers.reindex_dupe_names", [
                lambda m, ns=ns: HDU(1, "T", "BinTableHDU", ns)]))
        out.append(Scan(
            f"renaming columns named {', '.join(ns)}",
            "pdr.pd_utils.reindex_df_values", [lambda m, ns=ns: Frame(
                {"NAME": list(ns), "START_BYTE": [1] * len(ns)},
                list(range(len(ns))))]))
    return out


class Reader(AObj):
    """the product that format files are found for"""
    tags = frozenset()

    def __init__(self, m):
        self.m = m

    def key(self):
        return ("product",)

    def a_truth(self, m):
        return True

    def a_method(self, m, name, args, kw, node):
        if name == "get_absolute_paths":
            fs = m.model.fs
            xs = args[0] if isinstance(args[0], (list, tuple)) else [args[0]]
            return [path(fs, f"/d/{x}") for x in xs]
        return NotImplemented

    def a_attr(self, m, name):
        if name in ("get_absolute_paths",):
            from ..files import Method
            return Method(self, name)
        if name == "filename":
            return "/d/a.dat"
        return NotImplemented


def formats(ctx):
    """format files that include one another, or themselves"""
    col = ("OBJECT = COLUMN\r\nNAME = {0}\r\nDATA_TYPE = CHARACTER\r\n"
           "START_BYTE = 1\r\nBYTES = 2\r\nEND_OBJECT = COLUMN\r\n")

    def inc(*fs):
        return "".join(f'^STRUCTURE = "{f}"\r\n' for f in fs)

    sets = {
        "that include nothing": {"A.FMT": col.format("X")},
        "that are empty": {"A.FMT": ""},
        "that include others": {
            "A.FMT": col.format("X") + inc("B.FMT"),
            "B.FMT": inc("C.FMT") + col.format("Y"),
            "C.FMT": col.format("Z")},
        "that include another twice": {
            "A.FMT": inc("B.FMT", "B.FMT"), "B.FMT": col.format("Y")},
        "that include themselves": {"A.FMT": col.format("X") + inc("A.FMT")},
        "that include nothing but themselves": {"A.FMT": inc("A.FMT")},
        "that include one another": {
            "A.FMT": col.format("X") + inc("B.FMT"), "B.FMT": inc("A.FMT")},
        "that include one another in a round": {
            "A.FMT": inc("B.FMT"), "B.FMT": inc("C.FMT") + col.format("Y"),
            "C.FMT": inc("B.FMT")},
        "that are missing": {"B.FMT": ""},
    }
    q = "pdr.loaders.queries.read_format_block"
    out = []
    for what, fs in sets.items():
        files = {f"/d/{k}": v.encode() for k, v in fs.items()}
        ids = identifiers(ctx.prog)
        out.append(Scan(
            f"a table of format files {what}", q,
            [MD([("NAME", "T"), ("ROWS", 2), ("^STRUCTURE", "A.FMT")]),
             "TABLE", "/d/a.dat", Reader, ids], files, turns=40))
    return out


def check(ctx, rep, tier):
    rep.rule("C28.input", "a scan of a label or a data stream that is "
             "empty, cut short or malformed ends, by giving something or by "
             "raising")
    rep.rule("C28.pass", "every way round an open-ended loop changes "
             "something that its exits depend on, in the direction of an "
             "exit")
    bad = {}
    gone = set()
    for s in scans(ctx, tier):
        f = ctx.prog.funcs.get(s.func)
        if f is None:
            if s.func not in gone:
                gone.add(s.func)
                rep.undecide(f"{s.func} is not there")
            continue
        rep.count("scans")
        fs = FS({k: File(v) for k, v in s.files.items()})
        x = Turning(ctx.prog, None, steps=1_500_000, limit=60)
        x.turns = s.turns

        def go(m):
            x.model = ReadModel(ctx.prog, fs)
            args = []
            for a in s.args:
                if isinstance(a, Smem):
                    a = Stream("smem", a.text, None, fs)
                elif callable(a) and not isinstance(a, AObj):
                    a = a(m)
                args.append(a)
            return m.call_func(f, args, dict(s.kw), None)
        try:
            for p in x.paths(go, lambda m: ((), {})):
                rep.count("scans decided")
                rep.count("scans that raise" if p.kind == "raise"
                          else "scans that return")
        except Undecided as e:
            rep.count("scans not decided")
            rep.undecide(f"{s.name}: {e}")
        except (IndexError, KeyError, AttributeError, ValueError) as e:
            # of the models, not of what is read
            rep.count("scans not decided")
            rep.undecide(f"{s.name}: {type(e).__name__}")
        except Endless as e:
            g = e.func or f
            if g.qual not in bad:
                bad[g.qual] = (g, e.node, s, 0)
            bad[g.qual] = bad[g.qual][:3] + (bad[g.qual][3] + 1,)
            rep.count("scans decided")
        rep.count("functions followed", len(x.functions))
    for q, (g, node, s, n) in sorted(bad.items()):
        rep.find("C28.input", q,
                 f"{g.module.path}:{getattr(node, 'lineno', g.node.lineno)}",
                 f"a loop of {q} does not end: {s.name} goes round it more "
                 f"than {s.turns} times" + (f" ({n} such inputs)" if n > 1
                                          else ""))
    loops.check(ctx, rep, tier, set(bad))
    rep.need("scans decided", 10)
