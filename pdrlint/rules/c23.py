"""C23: loaded objects have the documented types.

The handlers of FITS, PDS4 and desktop formats are interpreted over objects of
every kind these formats hold; the elements of each array are labels, so that
what is delivered shows its type, its axes and what it was made of."""
from __future__ import annotations

import itertools
from math import prod

from ..absint import AExc, AObj, Machine, Top, Undecided
from ..coldata import DT, Table
from ..files import FS, File
from ..frames import MD
from ..ndarr import ND, filled, nd_call, sub
from ..product import ProductModel, reading
from .c18 import HDU, Header
from .c30 import label

ROWS = 4
HANDLER = "pdr.loaders.handlers.handle_fits_file"
IMAGER = "pdr.loaders.handlers.handle_compressed_image"


# -------------------------------------------------------------------- tables
class Field:
    """a column of a FITS or PDS4 table: how it is stored, how it shows"""

    def __init__(self, name, dt, shape=(), shown=None, raw=None, cls=None):
        self.name, self.dt, self.shape = name, dt, tuple(shape)
        self.shown = dt if shown is None else shown
        self.raw = raw if raw is not None else self.shape
        self.cls = cls or "ndarray"

    def make(self, name):
        return filled(name, (ROWS,) + self.shape, self.shown, cls=self.cls)

    def stored(self):
        return sub(self.dt, self.raw) if self.raw else self.dt


I4, I2, F4, U1 = (DT("i", 4, ">"), DT("i", 2, ">"), DT("f", 4, ">"),
                  DT("u", 1))
B, O, S5 = DT("b", 1), DT("O", 8), DT("S", 5)


def fields():
    A = Field("A", I4)
    return {
        "one number": [A],
        "one byte": [Field("A", U1)],
        "numbers": [A, Field("B", F4), Field("C", U1)],
        "text": [A, Field("T", S5, shown=DT("U", 5), cls="chararray")],
        "a vector": [A, Field("V", F4, (3,)), Field("C", U1)],
        "vectors only": [Field("V", F4, (3,)), Field("W", I2, (2,))],
        "one vector": [Field("V", F4, (3,))],
        "a matrix": [A, Field("M", F4, (2, 3))],
        "one matrix": [Field("M", F4, (2, 3))],
        "matrix and vector": [Field("M", I2, (2, 2)), A,
                              Field("V", F4, (2,)), Field("C", F4)],
        "text in vectors": [A, Field("T", S5, (2,), DT("U", 5),
                                     cls="chararray")],
        "bits": [Field("X", U1, (11,), B, raw=(2,)), A],
        "logicals": [A, Field("L", DT("i", 1), shown=B)],
        "unsigned numbers": [Field("U", I4, shown=DT("u", 4, "=")), A],
        "unsigned vectors": [Field("U", I4, (2,), DT("u", 4, "=")), A],
        "lists of any length": [Field("P", I4, (), O, raw=(2,),
                                      cls="_VLF"), A],
        "lists and a vector": [Field("P", I4, (), O, raw=(2,), cls="_VLF"),
                               Field("V", F4, (3,))],
    }


def records(fs, cls, names=None, shown=True):
    names = names or [f.name for f in fs]
    out = {n: f.make(f.name) for n, f in zip(names, fs)}
    raw = [(n, f.stored()) for n, f in zip(names, fs)]
    if not shown:
        raw = None
    return ND((ROWS,), None, None, cls, out, raw)


# ---------------------------------------------------------------------- FITS
class Cards(AObj):
    """cards of which one is refused until it is repaired"""
    tags = frozenset()

    def __init__(self, owner, cards):
        self.owner, self.cards = owner, cards

    def key(self):
        return ("cards", id(self))

    def a_len(self, m):
        return len(self.cards)

    def a_truth(self, m):
        return True

    def card(self, i):
        if self.cards[i][0] == "BAD" and self.owner.bad:
            raise AExc("VerifyError")
        return self.cards[i]

    def a_item(self, m, k):
        if isinstance(k, int) and -len(self.cards) <= k < len(self.cards):
            return self.card(k)
        raise AExc("IndexError") if isinstance(k, int) else Undecided("card")

    def a_iter(self, m):
        return [self.card(i) for i in range(len(self.cards))]


class Head(Header):
    def __init__(self, ix, bad=None):
        super().__init__(ix)
        self.bad = bad              # None, "once" or "always"
        if bad:
            self.cards.append(("BAD", "x", ""))

    def a_attr(self, m, name):
        if name == "cards":
            return Cards(self, self.cards)
        return super().a_attr(m, name)


class Unit(HDU):
    """an HDU whose data are known"""

    def __init__(self, ix, name, kind, data=None, fs=None, bad=None,
                 names=None):
        super().__init__(ix, name, kind, names or [f.name for f in fs or ()])
        self.body, self.fs = data, fs
        self.header = Head(ix, bad)

    def key(self):
        return ("unit", id(self))

    def a_attr(self, m, name):
        if name == "data":
            if self.fs is None:
                return self.body
            ns = self.columns.names()
            if len(set(ns)) < len(ns):
                raise AExc("ValueError")
            return records(self.fs, "FITS_rec", ns)
        if name == "shape":
            return self.body.shape if self.body is not None else ()
        if name in ("is_image", "size"):
            raise Undecided(name)
        return super().a_attr(m, name)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        table = ("_TableBaseHDU", "_TableLikeMixin", "ExtensionHDU",
                 "_ValidHDU", "_BaseHDU")
        mro = {"BinTableHDU": ("BinTableHDU",) + table,
               "TableHDU": ("TableHDU",) + table,
               "PrimaryHDU": ("PrimaryHDU", "_ImageBaseHDU", "_ValidHDU"),
               "ImageHDU": ("ImageHDU", "_ImageBaseHDU", "ExtensionHDU"),
               "CompImageHDU": ("CompImageHDU", "ImageHDU",
                                "_ImageBaseHDU", "ExtensionHDU"),
               }.get(self.kind, (self.kind,))
        return any(n.split(".")[-1] in mro for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "fileinfo":
            return {"hdrLoc": self.ix * 8640, "datLoc": self.ix * 8640
                    + 2880, "file": Top(what="file"), "filemode": "readonly",
                    "datSpan": 2880 if self.body is not None or self.fs else 0}
        if name in ("verify",):
            return None
        return NotImplemented


class List(AObj):
    tags = frozenset()

    def __init__(self, hdus):
        self.hdus = hdus

    def key(self):
        return ("hdulist", id(self))

    def a_item(self, m, k):
        if isinstance(k, tuple) and len(k) == 2:
            k = k[0]
        if isinstance(k, int) and not isinstance(k, bool):
            if not -len(self.hdus) <= k < len(self.hdus):
                raise AExc("IndexError")
            return self.hdus[k]
        if isinstance(k, str):
            for h in self.hdus:
                if h.name == k.upper():
                    return h
            raise AExc("KeyError")
        return NotImplemented

    def a_attr(self, m, name):
        if name == "filename":
            return NotImplemented
        return NotImplemented

    def a_iter(self, m):
        return list(self.hdus)

    def a_len(self, m):
        return len(self.hdus)

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("HDUList", "list") for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "info":
            return [(h.ix, h.name, 1, h.kind, 2, (), "", "")
                    for h in self.hdus]
        if name == "verify":
            for h in self.hdus:
                if h.header.bad == "once":
                    h.header.bad = None
                elif h.header.bad == "fatal":
                    raise AExc("VerifyError")
            return None
        if name == "fileinfo":
            return self.hdus[a[0]].a_method(m, "fileinfo", [], {}, node)
        if name == "index_of":
            return self.hdus.index(self.a_item(m, a[0]))
        if name == "close":
            return None
        return NotImplemented


def hdus():
    """what an HDU may hold: (what, kind, data, fields, column names)"""
    out = []
    for d in (1, 2, 3, 4):
        out.append((f"an image of {d} axes", "ImageHDU", filled(
            "I", (2, 3, 4, 5)[:d], I2), None, None))
    out.append(("an image of floats", "ImageHDU", filled(
        "I", (2, 3), DT("f", 4, "=")), None, None))
    out.append(("a compressed image", "CompImageHDU", filled(
        "I", (2, 3), I2), None, None))
    out.append(("no data", "ImageHDU", None, None, None))
    for what, fs in fields().items():
        out.append((f"a table of {what}", "BinTableHDU", None, fs, None))
    for n in (2, 3):
        fs = [Field(f"F{i}", I4) for i in range(n)]
        out.append((f"a table of {n} columns of one name", "BinTableHDU",
                    None, fs, ["A"] * n))
    out.append(("an ASCII table", "TableHDU", None, [
        Field("A", S5, shown=DT("i", 4, "=")),
        Field("T", S5, shown=DT("U", 5), cls="chararray")], None))
    out.append(("an ASCII table of one column", "TableHDU", None, [
        Field("A", S5, shown=DT("f", 8, "="))], None))
    return out


class TypeModel(ProductModel):
    fits = {}
    images = {}
    pds4 = None

    def ext_call(self, m, name, args, kw, node):
        last = name.split(".")[-1]
        if name in ("astropy.io.fits.open", "astropy.io.fits.hdu.fitsopen",
                    "astropy.io.fits.hdu.HDUList.fromfile"):
            p = self.path(args[0] if args else kw.get("name"))
            self.fs.get(m, p)
            self.fs.opened.append((self.fs.norm(p), name))
            k = self.fs.norm(p)
            if k not in self.open:
                self.open[k] = self.fits[k]()
            return self.open[k]
        if name == "PIL.Image.open":
            p = self.path(args[0] if args else kw.get("fp"))
            self.fs.get(m, p)
            self.fs.opened.append((self.fs.norm(p), name))
            return self.images[self.fs.norm(p)]()
        if last == "groupby" and len(args) == 2 and name.startswith(
                "cytoolz") or name == "toolz.groupby":
            out = {}
            for x in m.iterate(args[1]):
                out.setdefault(m.call_value(args[0], [x], {}, node),
                               []).append(x)
            return out
        r = nd_call(m, name, args, kw, node)
        if r is not NotImplemented:
            return r
        return super().ext_call(m, name, args, kw, node)

    def path(self, p):
        s = getattr(p, "name", None)
        return s if isinstance(s, str) and not hasattr(p, "p") else str(p)

    def __init__(self, prog, fs):
        super().__init__(prog, fs)
        self.open = {}

    def func_call(self, m, func, args, kw, node, me):
        if func.vendored and self.pds4 is not None and func.name in (
                "pds4_read", "read"):
            m.event("pds4", args[0] if args else None)
            return self.pds4()
        if func.qual == "pdr.parselabel.pds4.reformat_pds4_tools_label":
            return (MD([("Product", MD([("title", "x")]))]), ["Product"])
        if func.qual == "pdr.pil_utils.skim_image_data":
            im = self.images[self.fs.norm(self.path(args[0]))]()
            return im.meta()
        if func.qual in ("pdr.pil_utils.paramdig",):
            return (MD(args[0].items()), list(args[0]))
        return super().func_call(m, func, args, kw, node, me)


# ------------------------------------------------------------------ judging
def of(v):
    if isinstance(v, ND):
        return v.cls if v.fields is None else f"{v.cls} of records"
    if isinstance(v, Table):
        return "DataFrame"
    if isinstance(v, (MD, dict)) or hasattr(v, "md"):
        return "mapping"
    if v is None:
        return "nothing"
    if isinstance(v, Header):
        return "an astropy header"
    if isinstance(v, (str, bytes, list, tuple, int)):
        return type(v).__name__
    if isinstance(v, (Unit, Image, Struct)):
        return f"the library's own {type(v).__name__.lower()}"
    return None


def array(v, want):
    """what is wrong with v as an array of the elements of `want`"""
    t = of(v)
    if t is None:
        raise Undecided("the type of the object")
    if t != "ndarray":
        return f"it is delivered as {t}, not as a plain array"
    if want is None:
        if prod(v.shape):
            return f"an array of shape {v.shape} is delivered for no data"
        return None
    if v.shape != want.shape:
        return f"its shape becomes {v.shape}, not {want.shape}"
    if [e[1] if e and e[0] == "swapped" else e for e in v.el] != want.el:
        return "its elements are not those it holds"
    return None


def table(v, fs, names=None):
    t = of(v)
    if t is None:
        raise Undecided("the type of the object")
    if t != "DataFrame":
        return f"it is delivered as {t}, not as a data frame"
    want = []
    for f, n in zip(fs, names or [f.name for f in fs]):
        full = f.make(f.name)
        for ix in itertools.product(*map(range, f.shape)):
            want.append((f, n, [(f.name, r) + ix for r in range(ROWS)],
                         bool(f.shape)))
        del full
    if any(not isinstance(c, ND) for _, c in v.c):
        raise Undecided("the columns of the table")
    if len(v.c) != len(want):
        return f"it has {len(v.c)} columns, not {len(want)}"
    for (got, c), (f, n, el, part) in zip(v.c, want):
        base = [e[1] if e[0] == "swapped" else e for e in c.el]
        if c.shape != (ROWS,) or base != el:
            return f"column {got} does not hold the values of {n}"
        if names is None and not part and got != n:
            return f"column {n} is named {got}"
    ns = [n for n, _ in v.c]
    if len(set(map(str, ns))) < len(ns):
        return f"its columns are named {ns}"
    return None


def mapping(v):
    t = of(v)
    if t is None:
        raise Undecided("the type of the header")
    if t != "mapping":
        return f"the header is delivered as {t}, not as a mapping"
    return None


def cards(v):
    v = getattr(v, "md", v)
    return dict(v.items if isinstance(v, MD) else v.items())


def which(v):
    """which HDU the header is of"""
    return cards(v).get("INDEX")


# ------------------------------------------------------------------- scenes
def check(ctx, rep, tier):
    rep.rule("C23.fits", "the data of an HDU are delivered as an array or a "
             "data frame of what it holds, no data as an empty array")
    rep.rule("C23.header", "headers are delivered as mappings, and with each "
             "data object its own header")
    rep.rule("C23.desktop", "images of several channels are delivered with "
             "the channels first, as plain arrays")
    rep.rule("C23.pds4", "PDS4 arrays are delivered as plain arrays, tables "
             "as data frames")
    rep.assume("astropy, pillow and pds4_tools give their objects as "
               "documented (headers of other formats are text or bytes)")
    bad = {}
    for part in (fits, fatal, primary, pds3, pds4, desktop, frames):
        part(ctx, rep, tier, bad)
    for (rule, key), (f, msg) in sorted(bad.items()):
        at = f"{f.module.relpath}:{f.node.lineno}" if f is not None else \
            "pdr/pdr.py"
        rep.find(rule, key, at, msg)
    rep.need("objects judged", 40)


def note(bad, rule, key, f, msg):
    old = bad.get((rule, key))
    if old is None:
        bad[rule, key] = (f, msg)


def kinds(what):
    return what.split(" of ")[0] if "table" not in what else what


def make_list(kind, data, fs, names, bad=None, at=2, name="X"):
    """an HDU list with the HDU in question at index `at`"""
    def make():
        us = [Unit(0, "PRIMARY", "PrimaryHDU", None)]
        for i in range(1, at):
            us.append(Unit(i, f"E{i}", "ImageHDU", filled(
                f"E{i}", (2, 2), I2)))
        if at == 0:
            us = []
        us.append(Unit(at, name, kind if at else "PrimaryHDU", data, fs,
                       bad, names))
        us.append(Unit(at + 1, "LAST", "ImageHDU", filled("LAST", (2, 2),
                                                          I2)))
        return List(us)
    return make


def run(ctx, rep, model, what, f, make):
    m = Machine(ctx.prog, model, steps=400_000)
    m.decorate = True
    try:
        for p in m.paths(f, make):
            rep.count("paths")
            yield p
    except Undecided as e:
        rep.count("objects not decided")
        rep.undecide(f"{what}: {e}")


def judged(rep, bad, rule, key, f, what, go):
    try:
        msg = go()
    except Undecided as e:
        rep.count("objects not decided")
        rep.undecide(f"{what}: {e}")
        return
    rep.count("objects judged")
    if msg:
        note(bad, rule, key, f, f"{what}: {msg}")


def fits(ctx, rep, tier, bad):
    """the handler by itself: every kind of HDU, by index and by byte"""
    f = ctx.prog.funcs.get(HANDLER)
    if f is None:
        rep.undecide(f"{HANDLER} is not there")
        return
    bads = (None, "once", "always") if tier == "thorough" else (None,)
    for (what, kind, data, fs, names), by, b in itertools.product(
            hdus(), ("index", "data", "header"), bads):
        for name in ("X", "HEADER_TABLE") if by == "index" else ("X",):
            one_hdu(ctx, rep, bad, f, what, kind, data, fs, names, by, b,
                    name)
    for b in ("once", "always"):
        for by in ("index", "data", "header"):
            what, kind, data, fs, names = hdus()[1]
            one_hdu(ctx, rep, bad, f, what + " with a card that is refused"
                    + (" until it is repaired" if b == "once" else ""),
                    kind, data, fs, names, by, b, "X")


def one_hdu(ctx, rep, bad, f, what, kind, data, fs, names, by, b, name):
    at = 2
    given = {"fn": "/p/a.fits", "name": name, "hdu_id": {
        "index": at, "data": at * 8640 + 2880, "header": at * 8640}[by],
        "hdu_id_is_index": by == "index"}

    def make(m):
        s = FS({"/p/a.fits": File(b"")})
        m.model = TypeModel(ctx.prog, s)
        hl = make_list(kind, data, fs, names, b, at, name)
        m.model.fits = {"/p/a.fits": hl}
        d = dict(given, hdulist=hl())
        return (), {k: v for k, v in d.items() if k in f.param_names()}
    said = f"{what}, by {'its index' if by == 'index' else 'the byte where its ' + by + ' begins' if by == 'header' else 'the byte where its data begin'}"
    for p in run(ctx, rep, None, said, f, make):
        if p.kind == "raise":
            note(bad, "C23.fits", f"raises|{kinds(what)}", f,
                 f"{said}: raises {p.value.name}")
            continue
        out = p.value
        out = getattr(out, "md", out)
        if isinstance(out, MD):
            out = dict(out.items)
        if not isinstance(out, dict):
            rep.undecide(f"{said}: result")
            continue
        got_result(rep, bad, f, said, kinds(what), out, name, by == "header",
                   data, fs, names, at, card="BAD" if b == "once" else None)


def got_result(rep, bad, f, said, key, out, name, header, data, fs, names,
               at, hkey=None, card=None):
    if header:
        def go():
            if name not in out:
                return "the header is not delivered"
            return mapping(out[name]) or (
                "the header is of another HDU"
                if which(out[name]) != at else
                "the header is without the card that can be repaired"
                if card and card not in cards(out[name]) else None)
        judged(rep, bad, "C23.header", f"header|{key}", f, said, go)
        return

    def go():
        if name not in out:
            return "it is not delivered"
        if fs is not None:
            return table(out[name], fs, names)
        return array(out[name], data)
    judged(rep, bad, "C23.fits", key, f, said, go)

    def go():
        hs = {k: v for k, v in out.items() if k != name}
        if hkey is not None:
            if hkey not in hs:
                return f"its header is not delivered as {hkey}"
            hs = {hkey: hs[hkey]}
        hs = {k: v for k, v in hs.items() if "HEADER" in k or hkey}
        if not hs:
            return "no header is delivered with it"
        for v in hs.values():
            if mapping(v):
                return mapping(v)
            if which(v) != at:
                return "the header delivered with it is of another HDU"
            if card and card not in cards(v):
                return ("the header delivered with it is without the card "
                        "that can be repaired")
    judged(rep, bad, "C23.header", f"with data|{key}", f, said, go)


def fatal(ctx, rep, tier, bad):
    """a header that cannot be repaired does not cost the data"""
    f = ctx.prog.funcs.get(HANDLER)
    if f is None:
        return
    what, kind, data, fs, names = hdus()[1]
    one_hdu(ctx, rep, bad, f, what + " with a card that cannot be repaired",
            kind, data, fs, names, "index", "fatal", "X")


def product(ctx, files, fits=None, images=None, pds4=None):
    class M(TypeModel):
        pass
    M.fits, M.images = fits or {}, images or {}
    M.pds4 = staticmethod(pds4) if pds4 else None
    return M


def whole(ctx, rep, bad, rule, key, what, model, files, fn, name, go,
          raises=False, **kw):
    f = ctx.prog.funcs.get("pdr.pdr.Data.load")
    rep.count("products read")
    try:
        for o in reading(ctx.prog, files, fn, name, model=model, **kw):
            rep.count("paths")
            if o.raised:
                note(bad, rule, f"raises|{key}", f,
                     f"{what}: raises {o.raised}")
                continue
            go(f, o)
    except Undecided as e:
        rep.count("objects not decided")
        rep.undecide(f"{what}: {e}")


def primary(ctx, rep, tier, bad):
    """a FITS file without a label"""
    cases = [(h, at, None) for h in hdus() for at in
             ((0, 2) if h[3] is None and h[1] == "ImageHDU" else (2,))]
    cases += [(hdus()[1], at, b) for at in (0, 2)
              for b in ("once", "always", "fatal")]
    for (what, kind, data, fs, names), at, b in cases:
        name = "X" if at else "PRIMARY"
        model = product(ctx, None, {"/p/a.fits": make_list(
            kind, data, fs, names, b, at, name)})
        said = f"{what} of a FITS file without a label"
        key = "unlabeled|" + kinds(what)
        if b:
            said += " with a card that is refused" + {
                "once": " until it is repaired", "always": "",
                "fatal": " and cannot be repaired"}[b]
            key = "unlabeled|refused card"

        def go(f, o):
            got_result(rep, bad, f, said, key, o.product.attrs, name, False,
                       data, fs, names, at, f"{name}_HEADER",
                       "BAD" if b == "once" else None)
        whole(ctx, rep, bad, "C23.fits", key, said, model,
              {"/p/a.fits": File(b"")}, "/p/a.fits", name, go)


def pds3(ctx, rep, tier, bad):
    """FITS files that a PDS3 label describes"""
    block = ("OBJECT = {n}\r\nLINES = 2\r\nLINE_SAMPLES = 3\r\n"
             "SAMPLE_BITS = 16\r\nSAMPLE_TYPE = MSB_INTEGER\r\n"
             "END_OBJECT = {n}\r\n")
    for what, kind, data, fs, names in hdus():
        n = "TABLE" if fs is not None else "IMAGE"
        at = 2
        ptr = f'("a.fits", {at * 8640 + 2880 + 1} <BYTES>)'
        model = product(ctx, None, {"/p/a.fits": make_list(
            kind, data, fs, names, None, at)})
        said = f"{what} of a FITS file that a PDS3 label describes"
        if data is None and fs is None:
            continue

        def go(f, o):
            got_result(rep, bad, f, said, "PDS3|" + kinds(what),
                       o.product.attrs, n, False, data, fs, names, at,
                       f"{n}_HEADER")
        whole(ctx, rep, bad, "C23.fits", "PDS3|" + kinds(what), said, model,
              {"/p/a.fits": File(b""), "/p/P.LBL": label(
                  f"^{n} = {ptr}\r\n" + block.format(n=n))}, "/p/P.LBL", n,
              go)
    # a header by itself, in files of every name
    what, kind, data, fs, names = hdus()[1]
    for said_, real, z in (("a.fits", "a.fits", None),
                           ("A.FITS", "a.fits", None),
                           ("A.FITS", "a.fits.gz", "gzip"),
                           ("a.fits", "A.FITS.GZ", "gzip")):
        for ptr, at in ((f'"{said_}"', 0), (f'("{said_}", 1)', 0),
                        (f'("{said_}", {2 * 8640 + 1} <BYTES>)', 2)):
            model = product(ctx, None, {f"/p/{real}": make_list(
                kind, data, fs, names)})
            said = f"the header at {ptr} in {real}"

            def go(f, o, at=at):
                got_result(rep, bad, f, said, "PDS3", o.product.attrs,
                           "HEADER", True, None, None, None, at)
            whole(ctx, rep, bad, "C23.header", "PDS3 header", said, model,
                  {f"/p/{real}": File(b"", z), "/p/P.LBL": label(
                      f"^HEADER = {ptr}\r\nOBJECT = HEADER\r\n"
                      "HEADER_TYPE = FITS\r\nBYTES = 2880\r\n"
                      "END_OBJECT = HEADER\r\n")}, "/p/P.LBL", "HEADER", go)


# ---------------------------------------------------------------------- PDS4
class Struct(AObj):
    tags = frozenset()
    BASES = {"array": ("ArrayStructure",), "table": ("TableStructure",),
             "header": ("HeaderStructure",), "label": ("Label",),
             "other": ("Structure",)}

    def __init__(self, kind, id_, fn=None, offset=0, data=None, length=None,
                 name=None, local=True):
        self.kind, self.id, self.fn, self.data = kind, id_, fn, data
        self.meta = {"offset": offset}
        if name is not None:
            self.meta["name"] = name
        if local:
            self.meta["local_identifier"] = id_
        if length is not None:
            self.meta["object_length"] = length

    def key(self):
        return ("struct", id(self))

    def a_truth(self, m):
        return True

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "==", "is not", "!="):
            return (other is self) is (op in ("is", "=="))
        return NotImplemented

    def a_attr(self, m, name):
        if self.kind == "label":
            return Top(what="label")
        r = {"id": self.id, "meta_data": self.meta, "data": self.data,
             "parent_filename": self.fn, "type": self.kind,
             "full_label": Top(what="label"), "label": Top(what="label")}
        return r.get(name, NotImplemented)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in self.BASES[self.kind] + ("object",)
                   + (("Structure",) if self.kind != "label" else ())
                   for n in names)

    def a_method(self, m, name, a, kw, node):
        if name in ("is_array", "is_table", "is_header"):
            return self.kind == name[3:]
        return NotImplemented


class Structs(AObj):
    tags = frozenset()

    def __init__(self, ss):
        self.ss = ss
        self.label = Struct("label", "label")

    def a_attr(self, m, name):
        if name == "structures":
            return list(self.ss)
        if name == "label":
            return self.label
        return NotImplemented

    def a_iter(self, m):
        return list(self.ss)

    def a_len(self, m):
        return len(self.ss)

    def a_truth(self, m):
        return True


def pds4(ctx, rep, tier, bad):
    lab = {"/p/p.xml": File(b"<Product_Observational>")}
    # arrays and tables of their own files
    for cls, d in itertools.product(("PDS_ndarray", "PDS_marray", "memmap"),
                                    (1, 2, 3)):
        a = filled("A", (2, 3, 4)[:d], I2, cls=cls)
        model = product(ctx, None, pds4=lambda a=a: Structs([
            Struct("array", "ARR", "/p/p.dat", 0, a)]))
        said = f"a PDS4 array of {d} axes, given as {cls}"

        def go(f, o, a=a):
            judged(rep, bad, "C23.pds4", f"array|{cls}", f, said,
                   lambda: array(o.value, a))
        whole(ctx, rep, bad, "C23.pds4", f"array|{cls}", said, model,
              dict(lab), "/p/p.xml", "ARR", go)
    for what, fs in fields().items():
        if any(f.raw != f.shape or f.shown.kind != f.dt.kind for f in fs):
            continue
        r = records(fs, "PDS_ndarray", shown=False)
        model = product(ctx, None, pds4=lambda r=r: Structs([
            Struct("table", "TAB", "/p/p.dat", 0, r.but(fields=dict(
                r.fields)))]))
        said = f"a PDS4 table of {what}"

        def go(f, o, fs=fs):
            judged(rep, bad, "C23.pds4", f"table|{what}", f, said,
                   lambda: table(o.value, fs))
        whole(ctx, rep, bad, "C23.pds4", f"table|{what}", said, model,
              dict(lab), "/p/p.xml", "TAB", go)
    # arrays, tables and headers of FITS files
    for what, kind, data, fs, names in hdus():
        if data is None and fs is None:
            continue
        for head in ("its own id", "a name", "the name of the data",
                     "no name", "none", "another file first",
                     "another file last", "another HDU first",
                     "a file in capitals"):
            if head != "its own id" and what != "an image of 2 axes":
                continue
            n = "DAT"
            off = 2 * 8640
            hs = {"its own id": dict(id_="HDR", name="HDR"),
                  "a name": dict(id_="HDR", name="THE HEADER"),
                  "the name of the data": dict(id_="HDR", name=n),
                  "no name": dict(id_="HEADER_0", local=False),
                  }.get(head, dict(id_="HDR", name="HDR"))
            make = make_list(kind, data, fs, names, None, 2)
            other = make_list(*hdus()[1][1:], None, 2)

            path = "/p/A.FITS" if head.endswith("capitals") else "/p/a.fits"

            def structs(head=head, hs=hs, kind=kind, fs=fs, path=path):
                d = Struct("table" if fs else "array", n, path,
                           off + 2880, Top(what="unread"), name=n)
                h = Struct("header", fn=path, offset=off,
                           length=2880, data=Top(), **hs)
                ss = [h, d] if head != "none" else [d]
                if head == "another HDU first":
                    ss = [Struct("header", "OTH", path, 0, Top(), 2880,
                                 "OTH"),
                          Struct("array", "OTD", path, 2880, Top(),
                                 name="OTD")] + ss
                elif head.startswith("another"):
                    o = [Struct("header", "OTH", "/p/b.fits", off, Top(),
                                2880, "OTH"),
                         Struct("array", "OTD", "/p/b.fits", off + 2880,
                                Top(), name="OTD")]
                    ss = o + ss if head.endswith("first") else ss + o
                return Structs(ss)
            model = product(ctx, None, {path: make, "/p/b.fits": other},
                            pds4=structs)
            files = dict(lab)
            files.update({path: File(b""), "/p/b.fits": File(b"")})
            said = (f"{what} of a FITS file that a PDS4 label describes "
                    f"(header: {head})")
            key = "PDS4|" + (kinds(what) if head == "its own id" else head)
            hk = hs["id_"] if head != "none" else None

            def go(f, o, hk=hk):
                at = dict(o.product.attrs)
                if "OTH" in at:
                    note(bad, "C23.header", key, f, f"{said}: its header is "
                         "delivered as that of another file or HDU")
                    return
                if hk is None:
                    hk = f"{n}_HEADER"
                elif f"{n}_HEADER" in at:
                    note(bad, "C23.header", key, f, f"{said}: its header is "
                         f"delivered as {n}_HEADER too, and not only as the "
                         "object of the label")
                    return
                got_result(rep, bad, f, said, key, at, n, False, data, fs,
                           names, 2, hk)
            whole(ctx, rep, bad, "C23.fits", key, said, model, files,
                  "/p/p.xml", n, go)
            if head == "none":
                continue

            def go(f, o):
                got_result(rep, bad, f, "the header of " + said, key,
                           o.product.attrs, hs["id_"], True, None, None,
                           None, 2)
            whole(ctx, rep, bad, "C23.header", key, said, model, files,
                  "/p/p.xml", hs["id_"], go)


# ------------------------------------------------------------------- desktop
MODES = {"1": 1, "L": 1, "I": 1, "F": 1, "I;16": 1, "I;16B": 1, "P": 1,
         "LA": 2, "PA": 2, "La": 2, "RGB": 3, "YCbCr": 3, "LAB": 3,
         "HSV": 3, "RGBA": 4, "RGBa": 4, "RGBX": 4, "CMYK": 4}


class Image(AObj):
    tags = frozenset()
    isimage = True

    def __init__(self, mode, size=(3, 2), frames=1, fmt="PNG", frame=0):
        self.mode, self.size, self.frames = mode, size, frames
        self.fmt, self.frame = fmt, frame

    def key(self):
        return ("image", id(self))

    def meta(self):
        d = {"fn": "x", "format": self.fmt, "mode": self.mode,
             "size": self.size, "width": self.size[0],
             "height": self.size[1]}
        if self.frames > 1:
            d["n_frames"] = self.frames
        if self.fmt == "MPO":
            d["MPEntry"] = [{"Attribute": {
                "MPType": "Baseline MP Primary Image" if not i else
                "Large Thumbnail (VGA Equivalent)"}}
                for i in range(self.frames)]
        return d

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        d = {"mode": self.mode, "size": self.size, "width": self.size[0],
             "height": self.size[1], "format": self.fmt,
             "n_frames": self.frames, "is_animated": self.frames > 1,
             "palette": Top(what="palette") if self.mode[0] == "P" else
             None, "info": {}}
        return d.get(name, NotImplemented)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("Image", "object") for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "seek":
            if not isinstance(a[0], int):
                raise Undecided("frame")
            if not 0 <= a[0] < self.frames:
                raise AExc("EOFError")
            self.frame = a[0]
            return None
        if name == "tell":
            return self.frame
        if name in ("load", "close", "verify"):
            return None
        if name == "copy":
            return Image(self.mode, self.size, self.frames, self.fmt,
                         self.frame)
        if name == "convert":
            mode = a[0] if a else kw.get("mode") or (
                "RGB" if self.mode == "P" else self.mode)
            if mode not in MODES:
                raise Undecided("mode")
            return Image(mode, self.size, 1, self.fmt, self.frame)
        if name == "getbands":
            return tuple("ABCD"[:MODES[self.mode]])
        if name in ("__array__",):
            w, h = self.size
            c = MODES[self.mode]
            s = (h, w) if c == 1 else (h, w, c)
            return filled("I", s, U1)
        if name == "split":
            raise Undecided("channels split")
        return NotImplemented


def image_wrong(v, modes, size):
    """v as an image of one of the modes"""
    t = of(v)
    if t is None:
        raise Undecided("the type of the object")
    if t != "ndarray":
        return f"it is delivered as {t}, not as a plain array"
    w, h = size
    for c in {MODES[x] for x in modes}:
        want = ND((h, w), filled("I", (h, w), U1).el) if c == 1 else filled(
            "I", (h, w, c), U1).move(2, 0)
        if v.shape == want.shape:
            if v.el != want.el:
                return "its pixels are not where they belong"
            return None
    return (f"its shape is {v.shape}, where that of the image is {h} lines "
            f"of {w} samples in {max(MODES[x] for x in modes)} channels")


def desktop(ctx, rep, tier, bad):
    f = ctx.prog.funcs.get(IMAGER)
    if f is None:
        rep.undecide(f"{IMAGER} is not there")
        return
    for mode, n, size in itertools.product(MODES, (1, 3), (
            (3, 2), (3, 1), (1, 3), (4, 4))):
        for frame in (None, 0, 2) if n == 3 else (None,):
            said = (f"an image of {size[0]} x {size[1]} pixels in mode "
                    f"{mode}" + (f", frame {frame} of {n}" if n > 1
                                 else ""))

            def make(m):
                m.model = TypeModel(ctx.prog, FS({"/p/a.png": File(b"")}))
                m.model.images = {"/p/a.png": lambda: Image(mode, size, n)}
                return ["/p/a.png"] + ([frame] if frame is not None
                                       else []), {}
            for p in run(ctx, rep, None, said, f, make):
                if p.kind == "raise":
                    note(bad, "C23.desktop", f"raises|{mode}", f,
                         f"{said}: raises {p.value.name}")
                    continue
                modes = [mode] + (["RGB", "RGBA"] if mode in (
                    "P", "PA") else [])
                judged(rep, bad, "C23.desktop", mode, f, said,
                       lambda: image_wrong(p.value, modes, size))


def frames(ctx, rep, tier, bad):
    """whole desktop images, and those a PDS3 label describes"""
    for ext, fmt, n, names in (
            ("png", "PNG", 1, ["IMAGE"]), ("jpg", "JPEG", 1, ["IMAGE"]),
            ("gif", "GIF", 3, ["FRAME_0", "FRAME_2"]),
            ("webp", "WEBP", 2, ["FRAME_1"]),
            ("jpg", "MPO", 2, ["IMAGE"]), ("tif", "TIFF", 1, ["IMAGE"])):
        for mode in ("L", "RGB", "RGBA"):
            for name in names:
                said = f"{name} of a {fmt} file in mode {mode}"
                fn = f"/p/a.{ext}"
                model = product(ctx, None, images={
                    fn: lambda: Image(mode, (3, 2), n, fmt)})

                def go(f, o):
                    judged(rep, bad, "C23.desktop", f"file|{mode}", f, said,
                           lambda: image_wrong(o.value, [mode], (3, 2)))
                whole(ctx, rep, bad, "C23.desktop", f"file|{mode}", said,
                      model, {fn: File(b"")}, fn, name, go)
    for mode in ("L", "RGB"):
        model = product(ctx, None, images={
            "/p/a.tif": lambda: Image(mode, (3, 2), 1, "TIFF")})
        said = f"a TIFF image in mode {mode} that a PDS3 label describes"

        def go(f, o):
            judged(rep, bad, "C23.desktop", f"PDS3|{mode}", f, said,
                   lambda: image_wrong(o.value, [mode], (3, 2)))
        whole(ctx, rep, bad, "C23.desktop", f"PDS3|{mode}", said, model, {
            "/p/a.tif": File(b""), "/p/P.LBL": label(
                '^IMAGE = "A.TIF"\r\nOBJECT = IMAGE\r\nLINES = 2\r\n'
                "LINE_SAMPLES = 3\r\nSAMPLE_BITS = 8\r\nSAMPLE_TYPE = "
                "UNSIGNED_INTEGER\r\nEND_OBJECT = IMAGE\r\n")}, "/p/P.LBL",
            "IMAGE", go)



