"""C30: files named in labels are found regardless of letter case or
compression.

Whole products are read by interpretation over file systems in which the
files a label names are there under the same name, under names that differ in
case or are compressed, in another search path, or not at all, among files
with similar names; every file the library opens is on record, whichever
reader opens it."""
from __future__ import annotations

import posixpath

from ..absint import Undecided
from ..domains import DATA
from ..effects import Effects, load_roots, short
from ..files import File
from ..flow import AV, Interp
from ..product import Quiet, reading
from .c16 import METH, RAW

KINDS = {
    "": None, ".gz": "gzip", ".bz2": "bz2", ".zip": "zip"}


class Obj:
    def __init__(self, name, ext, block, what):
        self.name, self.ext, self.block, self.what = name, ext, block, what

    def file(self, base):
        return f"{base}.{self.ext}"


COL = ("OBJECT = COLUMN\r\nNAME = A\r\nDATA_TYPE = MSB_INTEGER\r\n"
       "START_BYTE = 1\r\nBYTES = 4\r\nEND_OBJECT = COLUMN\r\n")
TABLE = ("OBJECT = {name}\r\nROWS = 2\r\nROW_BYTES = 4\r\nCOLUMNS = 1\r\n"
         "INTERCHANGE_FORMAT = BINARY\r\n{inside}END_OBJECT = {name}\r\n")
IMAGE = ("OBJECT = {name}\r\nLINES = 2\r\nLINE_SAMPLES = 4\r\n"
         "SAMPLE_BITS = 8\r\nSAMPLE_TYPE = UNSIGNED_INTEGER\r\n"
         "END_OBJECT = {name}\r\n")


def objects():
    return [
        Obj("DESCRIPTION", "TXT", "", "a text"),
        Obj("IMAGE", "IMG", IMAGE.format(name="IMAGE"), "an image"),
        Obj("TABLE", "TAB", TABLE.format(name="TABLE", inside=COL),
            "a table"),
        Obj("SPREADSHEET", "CSV", "OBJECT = SPREADSHEET\r\nROWS = 2\r\n"
            "ROW_BYTES = 4\r\nOBJECT = FIELD\r\nNAME = A\r\nBYTES = 2\r\n"
            "DATA_TYPE = ASCII_INTEGER\r\nEND_OBJECT = FIELD\r\n"
            "END_OBJECT = SPREADSHEET\r\n", "a spreadsheet"),
        Obj("HEADER", "DAT", "OBJECT = HEADER\r\nBYTES = 4\r\n"
            "HEADER_TYPE = TEXT\r\nEND_OBJECT = HEADER\r\n", "a header"),
        Obj("FITS_IMAGE", "FITS", IMAGE.format(name="FITS_IMAGE"),
            "a FITS image"),
        Obj("TIFF_IMAGE", "TIF", IMAGE.format(name="TIFF_IMAGE"),
            "a desktop image"),
    ]


def label(body):
    return File(("PDS_VERSION_ID = PDS3\r\nRECORD_TYPE = FIXED_LENGTH\r\n"
                 "RECORD_BYTES = 4\r\nDATA_SET_ID = \"NONE-IN-PARTICULAR\""
                 "\r\n" + body + "END\r\n").encode())


def other(kind=None):
    return File(b"THIS IS A DIFFERENT FILE", kind)


BODY = b"0123456789abcdef"


def like(f):
    """names near that of file f, but none of its possible names"""
    stem, ext = posixpath.splitext(f)
    return [f"X{f}", f"{f}X", f"{f}.TXT", stem, f"{stem}{ext[:-1]}",
            f"{stem}X{ext}", f"{stem}_1{ext.lower()}", f"{f}.BAK.gz",
            f"{stem}.gz", f"{stem}.{ext[1:]}.LBL", f"_{f.lower()}.gz"]


def around(files, d, f):
    """surround the file with others, of which none is wanted"""
    out = {}
    for n in like(f):
        out[f"{d}/{n}"] = other("gzip" if n.endswith(".gz") else None)
    for p in (f"{d}/SUB/{f}", f"/elsewhere/{f}", f"/{f}",
              f"{posixpath.dirname(d)}/{f.lower()}"):
        out.setdefault(p, other())
    for p, x in files.items():
        out[p] = x
    return out


class Scene:
    def __init__(self, what, files, want, obj, rule="C30.data", fn="/p/P.LBL",
                 key=None, optional=(), missing=False, kw=None, then=None):
        self.what, self.files, self.want, self.obj = what, files, want, obj
        self.rule, self.fn, self.key = rule, fn, key
        self.optional, self.missing, self.kw = set(optional), missing, kw
        self.then = then


def variants(f):
    """(how it differs, its name, its compression)"""
    low = f.lower()
    mixed = "".join(c.lower() if i % 2 else c for i, c in enumerate(f))
    yield "exact", f, None
    yield "case", low, None
    yield "case", mixed, None
    for x, k in KINDS.items():
        if k is not None:
            yield "compressed", f + x, k
            yield "case and compression", low + x, k
    yield "case and compression", f + ".GZ", "gzip"
    yield "case and compression", mixed + ".Gz", "gzip"


def pointers(o, f):
    yield f'^{o.name} = "{f}"\r\n'
    yield f'^{o.name} = ("{f}", 2)\r\n'
    yield f'^{o.name} = ("{f}", 5 <BYTES>)\r\n'
    yield f'^{o.name} = ("{f}")\r\n'


def scenes(tier):
    quick = tier == "quick"
    for o in objects():
        f = o.file("DATA")
        ptrs = list(pointers(o, f))
        for i, (how, name, kind) in enumerate(variants(f)):
            for j, ptr in enumerate(ptrs):
                if quick and j and (i + j) % 4:
                    continue
                if o.what == "a text" and j in (1, 2):
                    continue
                files = around({f"/p/{name}": File(BODY, kind)}, "/p", f)
                files["/p/P.LBL"] = label(ptr + o.block)
                yield Scene(f"{o.what} of {f}, which is there as {name}",
                            files, f"/p/{name}", o, key=how)
        # the name in the label is itself compressed, or in lower case
        for said, name, kind in ((f + ".GZ", f.lower() + ".gz", "gzip"),
                                 (f + ".GZ", f.lower(), None),
                                 (f.lower(), f, None)):
            if said.endswith("GZ") and o.ext == "TIF":
                continue
            files = around({f"/p/{name}": File(BODY, kind)}, "/p", f)
            files["/p/P.LBL"] = label(f'^{o.name} = "{said}"\r\n' + o.block)
            yield Scene(f"{o.what} of {said}, which is there as {name}",
                        files, f"/p/{name}", o, key="case and compression")
        # both the very name and others
        files = around({f"/p/{f.lower()}": other(),
                        f"/p/{f}.gz": other("gzip"),
                        f"/p/{f}": File(BODY)}, "/p", f)
        files["/p/P.LBL"] = label(ptrs[0] + o.block)
        yield Scene(f"{o.what} of {f}, which is there under this and other "
                    f"cases", files, f"/p/{f}", o, key="exact")
        # not there
        for missing in (False, True):
            files = around({}, "/p", f)
            files["/p/P.LBL"] = label(ptrs[0] + o.block)
            kw = {"debug": True, "tracker": Quiet()} if missing else {}
            yield Scene(f"{o.what} of {f}, which is not there", files, None,
                        o, "C30.missing", key=o.name, missing=True, kw=kw)
    # a product opened under a name in another case, or compressed
    o = objects()[0]
    for name in ("p.lbl", "P.lbl", "p.LBL"):
        yield Scene(f"a product opened as P.LBL, which is there as {name}",
                    around({f"/p/{name}": label(
                        f'^{o.name} = "DATA.TXT"\r\n'),
                        "/p/data.txt": File(BODY)}, "/p", "DATA.TXT"),
                    "/p/data.txt", o, key="label", optional=[f"/p/{name}"])
    yield Scene("a product opened by the name of its data file, in another "
                "case", around({"/p/data.lbl": label(
                    f'^{o.name} = "DATA.TXT"\r\n'),
                    "/p/data.txt": File(BODY)}, "/p", "DATA.TXT"),
                "/p/data.txt", o, fn="/p/DATA.txt", key="label")
    yield from paths()
    yield from pairs()
    yield from formats(quick)


def paths():
    """other search paths"""
    for o in objects()[:3]:
        f = o.file("DATA")
        for sp in (["/s"], "/s", ("/t/", "/s"), ["/nowhere", "/s", "/t"]):
            for how, name, kind in list(variants(f))[:2] + [
                    ("compressed", f + ".gz", "gzip")]:
                files = around({f"/s/{name}": File(BODY, kind)}, "/s", f)
                files.update({f"/p/{n}": other() for n in like(f)})
                if "/t/" in sp:
                    files["/t/OTHER.TXT"] = other()
                files["/p/P.LBL"] = label(f'^{o.name} = "{f}"\r\n' + o.block)
                yield Scene(f"{o.what} of {f}, which is there as {name} in "
                            f"the search path /s of {sp}", files,
                            f"/s/{name}", o, key="search paths",
                            kw={"search_paths": sp})
        files = {f"/s/{f}": other(), f"/p/{f}": File(BODY),
                 f"/t/{f.lower()}": other(),
                 "/p/P.LBL": label(f'^{o.name} = "{f}"\r\n' + o.block)}
        yield Scene(f"{o.what} of {f}, which is there in the product's own "
                    f"folder and in search paths", files, f"/p/{f}", o,
                    key="search paths", kw={"search_paths": ["/s", "/t"]})
        files = around({}, "/s", f)
        files["/p/P.LBL"] = label(f'^{o.name} = "{f}"\r\n' + o.block)
        yield Scene(f"{o.what} of {f}, which is in no search path", files,
                    None, o, "C30.missing", key=o.name, missing=True,
                    kw={"search_paths": ["/s"]})


def pairs():
    """objects that are there compressed, uncompressed or both, under two
    names; and two objects of different files, one after the other"""
    o = objects()[1]
    body = ('OBJECT = COMPRESSED_FILE\r\nFILE_NAME = "DATA.IMQ"\r\n'
            'ENCODING_TYPE = NONE\r\nUNCOMPRESSED_FILE_NAME = "DATA.IMG"\r\n'
            'END_OBJECT = COMPRESSED_FILE\r\nOBJECT = UNCOMPRESSED_FILE\r\n'
            'FILE_NAME = "{said}"\r\n^IMAGE = "{said}"\r\n' + o.block
            + 'END_OBJECT = UNCOMPRESSED_FILE\r\n')
    lab = label(body.format(said="DATA.IMG"))
    for name, kind in (("DATA.IMQ", None), ("data.imq", None),
                       ("DATA.IMG", None), ("data.img", None),
                       ("data.imq.gz", "gzip"), ("data.img.gz", "gzip")):
        files = around({f"/p/{name}": File(BODY, kind)}, "/p", "DATA.IMG")
        files["/p/P.LBL"] = lab
        yield Scene(f"an image of two files, which is there as {name}",
                    files, f"/p/{name}", o, key="two files")
    files = around({"/p/DATA.IMQ": other(), "/p/DATA.IMG": File(BODY)},
                   "/p", "DATA.IMG")
    files["/p/P.LBL"] = lab
    yield Scene("an image of which both the compressed and the uncompressed "
                "file are there", files, "/p/DATA.IMG", o, key="two files",
                rule="C30.order")
    files = around({}, "/p", "DATA.IMG")
    files["/p/P.LBL"] = lab
    yield Scene("an image of two files of which neither is there", files,
                None, o, "C30.missing", key="two files", missing=True)
    a, b = objects()[0], objects()[2]
    files = {"/p/a.txt": File(BODY), "/p/B.TAB": File(BODY),
             "/p/P.LBL": label('^DESCRIPTION = "A.TXT"\r\n^TABLE = "b.tab"'
                               "\r\n" + b.block)}
    for x, y, want in ((a, b, "/p/B.TAB"), (b, a, "/p/a.txt")):
        yield Scene(f"{y.what} loaded after {x.what} of another file", files,
                    want, y, key="two objects", then=x.name)


INC = {
    "table": TABLE.format(name="TABLE", inside='^STRUCTURE = "{f}"\r\n'),
    "container": TABLE.format(
        name="TABLE", inside="OBJECT = CONTAINER\r\nNAME = C\r\nBYTES = 4"
        "\r\nSTART_BYTE = 1\r\nREPETITIONS = 1\r\n^STRUCTURE = \"{f}\"\r\n"
        "END_OBJECT = CONTAINER\r\n"),
}


def formats(quick):
    t = objects()[2]
    for place, block in INC.items():
        for i, (how, name, kind) in enumerate(variants("T.FMT")):
            for d in ("/p", "/s"):
                if quick and place == "container" and i % 3 or \
                        quick and d == "/s" and i % 4:
                    continue
                files = around({f"{d}/{name}": File(COL.encode(), kind)}, d,
                               "T.FMT")
                files["/p/data.tab"] = File(BODY)
                files["/p/P.LBL"] = label('^TABLE = "DATA.TAB"\r\n'
                                          + block.format(f="T.FMT"))
                yield Scene(f"a {place} described in T.FMT, which is there "
                            f"as {name} in {d}", files, "/p/data.tab", t,
                            "C30.format", key=how,
                            optional=[f"{d}/{name}"],
                            kw={"search_paths": ["/s"]})
    # one that names another
    files = around({"/p/t.fmt": File(b'^STRUCTURE = "U.FMT"\r\n'),
                    "/p/u.fmt": File(COL.encode()),
                    "/p/DATA.TAB": File(BODY)}, "/p", "U.FMT")
    files["/p/P.LBL"] = label('^TABLE = "DATA.TAB"\r\n'
                              + INC["table"].format(f="T.FMT"))
    yield Scene("a table described in a file named by T.FMT", files,
                "/p/DATA.TAB", t, "C30.format", key="nested",
                optional=["/p/t.fmt", "/p/u.fmt"])
    files = {"/a/data/x/t.fmt": File(COL.encode()), "/a/label/T.FMT": other(),
             "/a/data/x/DATA.TAB": File(BODY),
             "/a/data/x/P.LBL": label('^TABLE = "DATA.TAB"\r\n' + INC[
                 "table"].format(f="T.FMT"))}
    yield Scene("a table described in T.FMT, which is there as t.fmt in the "
                "product's own folder within an archive", files,
                "/a/data/x/DATA.TAB", t, "C30.format",
                fn="/a/data/x/P.LBL", key="archive",
                optional=["/a/data/x/t.fmt"])
    # in the label directory of an archive
    for d in ("label", "LABEL"):
        for name in ("T.FMT", "t.fmt"):
            files = around({f"/a/{d}/{name}": File(COL.encode()),
                            "/a/data/x/DATA.TAB": File(BODY)}, f"/a/{d}",
                           "T.FMT")
            files["/a/data/x/P.LBL"] = label(
                '^TABLE = "DATA.TAB"\r\n' + INC["table"].format(f="T.FMT"))
            yield Scene(f"a table described in T.FMT, which is there as "
                        f"{name} in the archive's {d} folder", files,
                        "/a/data/x/DATA.TAB", t, "C30.format",
                        fn="/a/data/x/P.LBL", key="archive",
                        optional=[f"/a/{d}/{name}"])
    for place, block in INC.items():
        files = around({"/p/DATA.TAB": File(BODY)}, "/p", "T.FMT")
        files["/p/P.LBL"] = label('^TABLE = "DATA.TAB"\r\n'
                                  + block.format(f="T.FMT"))
        yield Scene(f"a {place} described in T.FMT, which is not there",
                    files, None, t, "C30.missing", key="format " + place,
                    missing=True)


# ------------------------------------------------------------------ judging
def check(ctx, rep, tier):
    rep.rule("C30.data", "the file a label names is opened, and no other, "
             "if it is there under the same name, in another case, "
             "compressed, or both, in the product's folder or a search path")
    rep.rule("C30.format", "so is a format file, wherever it is named, also "
             "in the archive's label folder")
    rep.rule("C30.missing", "if it is not there no file is opened in its "
             "place, and the object is reported as not found")
    rep.rule("C30.order", "which of several files is opened does not depend "
             "on the order of a set")
    rep.rule("C30.raw", "no file name that comes from a label is opened "
             "without being looked for")
    rep.assume("folders are named in labels as they are on disk; PDS4 labels "
               "name files exactly (the vendored PDS4 library opens them)")
    prog = ctx.prog
    bad = {}
    for s in scenes(tier):
        rep.count("products read")
        for order in ((1, -1) if s.rule == "C30.order" or s.key == "two files"
                      else (1,)):
            try:
                for o in reading(prog, s.files, s.fn,
                                 [s.then, s.obj.name] if s.then
                                 else s.obj.name, order=order,
                                 **(s.kw or {})):
                    rep.count("paths")
                    msg = judge(s, o, rep)
                    if msg:
                        bad.setdefault((s.rule, s.key), []).append(msg)
            except Undecided as e:
                rep.count("products not decided")
                rep.undecide(f"{s.what}: {e}")
    f = prog.funcs.get("pdr.utils.check_cases") or prog.funcs.get(
        "pdr.pdr.Data.load")
    g = prog.funcs.get("pdr.loaders.queries.load_format_file") or f
    for (rule, key), msgs in sorted(bad.items()):
        at = g if rule == "C30.format" or key.startswith("format") else f
        more = f" (and {len(msgs) - 1} more)" if len(msgs) > 1 else ""
        rep.find(rule, key, f"{at.file}:{at.line}" if at else "pdr/utils.py",
                 msgs[0] + more)
    raw(prog, rep)
    rep.need("paths", 30)


def judge(s, o, rep):
    """what is wrong with the outcome, if anything"""
    if o.raised and o.raised.startswith("opening: "):
        return f"opening the product fails with {o.raised[9:]}: {s.what}"
    opened = [p for p in dict.fromkeys(o.opened) if p not in s.optional
              and p != s.fn]
    if s.missing:
        if opened and s.rule == "C30.missing":
            ok = [p for p in opened if not p.startswith("/p/DATA.TAB")]
            if ok or "format" not in s.key:
                return f"{opened[0]} is opened for {s.what}"
        if s.kw and s.kw.get("debug"):
            if o.raised != "FileNotFoundError":
                return (f"{'raises ' + o.raised if o.raised else 'no error'}"
                        f", where FileNotFoundError is due, for {s.what}")
            return None
        if o.raised:
            return f"raises {o.raised} for {s.what}"
        if not o.warned:
            return f"no warning for {s.what}"
        return None
    rep.count("files found")
    if o.raised:
        return f"raises {o.raised} for {s.what}"
    if s.want not in opened:
        got = f"{opened[0]} is opened" if opened else "no file is opened"
        return f"{got} for {s.what}"
    wrong = [p for p in opened if p != s.want]
    if wrong:
        return f"{wrong[0]} is opened for {s.what}"
    return None


# ---------------------------------------------------------------------- raw
FIND = ("pdr.utils.check_cases", "pdr.pdr.Data._target_path")
NAMES = {"metaget", "metaget_", "metaget_fuzzy", "metablock", "metablock_"}
BLOCKS = {"block", "format_file", "format_fn"}


class Names_(Effects):
    """tags: n = something a label says"""

    def __init__(self, see, rep):
        super().__init__(see)
        self.rep = rep

    def param(self, f, name):
        if name in BLOCKS:
            return AV(frozenset("n"), unk=True)
        if name in ("data", "pdrlike"):
            return AV(insts=frozenset([DATA]))
        return None

    def attr(self, recv, name, node, caller):
        if DATA in recv.insts and name == "metadata":
            return AV(frozenset("n"), unk=True)
        return super().attr(recv, name, node, caller)


def raw(prog, rep):
    hits = {}
    n = [0]
    through = {"pathlib.Path", "builtins.str", "os.path.join",
               "os.path.abspath", "dustgoggles.structures.listify",
               "builtins.list", "builtins.tuple", "os.fspath",
               "builtins.next", "builtins.iter"}
    methods = {"absolute", "resolve", "with_suffix", "with_name", "joinpath",
               "get", "values", "items", "pop", "lower", "upper", "strip",
               "replace", "format", "split"}

    def see(op, name, recv, args, kwargs, node, caller):
        if op == "own":
            if name in FIND:
                n[0] += 1
                return AV(unk=True)
            if name == "pdr.utils.decompress":
                n[0] += 1
                if any("n" in a.tags for a in args.values()):
                    hit(name, node, caller)
                return AV(unk=True)
            return None
        if op == "attr":
            return None
        if op == "method":
            if name in NAMES:
                return AV(frozenset("n"), unk=True)
            if "n" in recv.tags and name in METH:
                hit(name, node, caller)
                return AV(unk=True)
            if "n" in recv.tags and name in methods:
                return AV(frozenset("n"), unk=True)
            return None
        if name in RAW or name in ("astropy.io.fits.open",
                                   "PIL.Image.open"):
            n[0] += 1
            a = args[0] if args else next(iter(kwargs.values()), None)
            if a is not None and "n" in a.tags:
                hit(name, node, caller)
            return AV(unk=True)
        if name in through and any("n" in a.tags for a in args):
            return AV(frozenset("n"), unk=True)
        return None

    def hit(name, node, caller):
        if caller is None or caller.vendored:
            return
        hits.setdefault((caller.qual, name), (caller, node, dom.chain()))

    dom = Names_(see, rep)
    it = Interp(prog, dom)
    it.run_roots(load_roots(prog))
    rep.count("opening operations followed", n[0])
    for (q, name), (caller, node, chain) in sorted(
            hits.items(), key=lambda kv: kv[0]):
        rep.find("C30.raw", f"{q}|{name}", f"{caller.file}:"
                 f"{getattr(node, 'lineno', 0)}",
                 f"{q} opens ({short(node)}) a file by a name that the "
                 f"label gives, without looking for it in other cases; "
                 f"path: {' -> '.join(chain[-6:])}")
