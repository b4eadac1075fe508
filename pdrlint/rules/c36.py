"""C36: what a product says of its metadata is what its label says.

Labels of every standard -- PVL text, PDS4 label trees, FITS headers, the tags
of desktop images -- are opened by the abstract interpreter (see `product`),
and what the metadata holds, and every lookup in it, is compared with the
label it came from."""
from __future__ import annotations

import itertools
from collections import OrderedDict

from ..absint import AExc, AObj, Inst, Machine, Undecided
from ..files import FS, File
from ..frames import MD
from ..product import annotations, open_product
from ..pvl import tree
from .c23 import Cards, Head, I2, Image, List, Struct, Structs, TypeModel
from .c23 import Unit, filled

OPEN = "pdr.pdr.Data"
META = "pdr.pdr.Metadata"
IDS = "pdr.pdrtypes.DataIdentifiers"


# ------------------------------------------------------------- what is said
def every(t, k):
    """all the values under a name, as a lookup meets them: those of a block
    before those of the blocks inside it"""
    out = [v for n, v in t if n == k]
    for _, v in t:
        if isinstance(v, list):
            out += every(v, k)
    return out


def names(t):
    out = []
    for k, v in t:
        out.append(k)
        if isinstance(v, list):
            out += names(v)
    return out


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def show(v):
    return "a block" if isinstance(v, list) else repr(v)[:50]


# ------------------------------------------------------------------- models
class Undef(AObj):
    """astropy's value of a keyword that has none"""
    tags = frozenset()
    pyclass = "astropy.io.fits.card.Undefined"

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, ns):
        return None if ns is None else any(
            n.split(".")[-1] in ("Undefined", "object") for n in ns)


class Told(Head):
    """a header of these cards"""

    def __init__(self, ix, cards, bad=None):
        super().__init__(ix, bad)
        self.cards = [("INDEX", ix, "")] + list(cards)
        if bad:
            self.cards.insert(2, ("BAD", "x", ""))
            self.cards.append(("BAD", "y", ""))

    def a_attr(self, m, name):
        if name == "cards":
            return Cards(self, self.cards)
        return super().a_attr(m, name)


class Label(Struct):
    def __init__(self, d):
        super().__init__("label", "label")
        self.d = d

    def a_method(self, m, name, a, kw, node):
        if name == "to_dict":
            return self.d
        return super().a_method(m, name, a, kw, node)

    def a_attr(self, m, name):
        return NotImplemented


class Elem(AObj):
    """an element of an XML tree"""
    tags = frozenset()

    def __init__(self, tag, text=None, attrib=None, kids=()):
        self.d = {"tag": tag, "text": text, "attrib": dict(attrib or {})}
        self.kids = list(kids)

    def key(self):
        return ("elem", id(self))

    def a_attr(self, m, name):
        return self.d.get(name, NotImplemented)

    def a_len(self, m):
        return len(self.kids)

    def a_iter(self, m):
        return list(self.kids)

    def a_item(self, m, k):
        if isinstance(k, int):
            return self.kids[k]
        raise Undecided("element")

    def a_truth(self, m):
        return bool(self.kids)

    def a_isinstance(self, m, ns):
        return None if ns is None else any(
            n.split(".")[-1] in ("Element", "object") for n in ns)

    def a_method(self, m, name, a, kw, node):
        if name == "items":
            return list(self.d["attrib"].items())
        if name == "get":
            return self.d["attrib"].get(*a)
        return NotImplemented


TAGS = {271: "Make", 272: "Model", 306: "DateTime", 700: "XMLPacket",
        34853: "GPSInfo", 33432: "Copyright"}
TIFF = {340: "SMinSampleValue", 700: "XMLPacket"}
GPS = {1: "GPSLatitudeRef", 2: "GPSLatitude", 6: "GPSAltitude"}


class Exif(AObj):
    tags = frozenset()

    def __init__(self, d, gps=None):
        self.d, self.gps = d, gps or {}

    def a_truth(self, m):
        return bool(self.d)

    def a_iter(self, m):
        return list(self.d)

    def a_len(self, m):
        return len(self.d)

    def a_item(self, m, k):
        if k not in self.d:
            raise AExc("KeyError")
        return self.d[k]

    def a_method(self, m, name, a, kw, node):
        if name == "get_ifd":
            return dict(self.gps)
        if name in ("items", "keys", "values"):
            return list(getattr(self.d, name)())
        if name == "get":
            return self.d.get(*a)
        return NotImplemented


class Tagged(Image):
    def __init__(self, fmt, exif, gps=None, mp=None):
        super().__init__("RGB", (3, 2), 1, fmt)
        self.exif, self.gps, self.mp = exif, gps, mp

    def a_attr(self, m, name):
        if name == "mpinfo":
            if self.mp is None:
                raise AExc("AttributeError")
            return dict(self.mp)
        if name == "format_description":
            return "An image"
        return super().a_attr(m, name)

    def a_method(self, m, name, a, kw, node):
        if name in ("getexif",):
            return Exif(self.exif, self.gps)
        if name in ("__enter__",):
            return self
        return super().a_method(m, name, a, kw, node)


class TagInfo(AObj):
    tags = frozenset()

    def __init__(self, name):
        self.name = name

    def a_attr(self, m, name):
        return self.name if name == "name" else NotImplemented


class SayModel(TypeModel):
    def global_value(self, m, module, name):
        if module is None:
            if name == "PIL.ExifTags.TAGS":
                return dict(TAGS)
            if name == "PIL.ExifTags.GPSTAGS":
                return dict(GPS)
            if name == "PIL.Image.MIME":
                return {"JPEG": "image/jpeg", "PNG": "image/png",
                        "TIFF": "image/tiff", "MPO": "image/mpo",
                        "GIF": "image/gif"}
        return super().global_value(m, module, name)

    def ext_call(self, m, name, args, kw, node):
        last = name.split(".")[-1]
        if name == "PIL.TiffTags.lookup":
            return TagInfo(TIFF.get(args[0], "unknown"))
        if name.startswith("xml.etree.") and last == "fromstring":
            if isinstance(args[0], AObj):
                return args[0]
            raise Undecided("XML")
        if name == "dustgoggles.func.constant":
            return lambda *a, _v=args[0], **k: _v
        if last.startswith("dig_for_"):
            return dig(m, last, args, kw, node)
        if name == "warnings.warn":
            c = args[1] if len(args) > 1 else kw.get("category")
            m.event("warn", args[0], getattr(c, "name", None) or getattr(
                getattr(c, "cls", None), "name", None))
            return None
        return super().ext_call(m, name, args, kw, node)

    def func_call(self, m, func, args, kw, node, me):
        if func.qual in ("pdr.parselabel.pds4.reformat_pds4_tools_label",
                         "pdr.pil_utils.skim_image_data",
                         "pdr.pil_utils.paramdig"):
            return NotImplemented
        return super().func_call(m, func, args, kw, node, me)


def dig(m, what, args, kw, node):
    """dustgoggles' searches of nested mappings"""
    p = dict(zip(("mapping", "ref", "match", "base_pred", "mtypes"), args))
    p.update(kw)
    top, ref = p["mapping"], p.get("ref")
    match, pred = p.get("match", "key"), p.get("base_pred")
    mt = p.get("mtypes")

    def nested(v):
        if mt is None:
            return isinstance(v, dict)
        return m.truth(m.isinstance(v, mt))

    def hit(k, v):
        x = k if match == "key" else v
        if pred is None or str(getattr(pred, "name", "")).endswith(
                "operator.eq"):
            return m.truth(m.compare("==", ref, x))
        return m.truth(m.call_value(pred, [ref, x], {}, node))

    def pairs(v):
        v = getattr(v, "md", v)
        if isinstance(v, MD):
            return list(v.items)
        if isinstance(v, dict):
            return list(v.items())
        raise Undecided("search of what is not a mapping")

    def all_(v):
        its = pairs(v)
        out = [(k, x) for k, x in its if hit(k, x)]
        for _, x in its:
            if nested(x):
                out += all_(x)
        return out
    if match not in ("key", "value"):
        raise Undecided("search")
    got = all_(top)
    kind = what[8:]
    if kind not in ("key", "keys", "value", "values", "item", "items"):
        raise Undecided(what)
    if not got:
        return None
    out = got if kind.startswith("item") else [
        g[kind.startswith("value")] for g in got]
    return out if kind.endswith("s") else out[0]


# ------------------------------------------------------------------ products
class Say:
    def __init__(self, what, key, rule, fn, want, files=None, fits=None,
                 images=None, pds4=None, whole=True, absent=()):
        self.what, self.key, self.rule, self.fn = what, key, rule, fn
        self.want = want
        self.files = files or {fn: File(b"")}
        self.whole = whole          # nothing else may be there
        self.absent = absent

        class M(SayModel):
            pass
        M.fits, M.images = fits or {}, images or {}
        M.pds4 = staticmethod(pds4) if pds4 else None
        self.model = M


def pvl(t, depth=0):
    pad = "  " * depth
    out = []
    for k, v in t:
        if isinstance(v, list):
            w = "GROUP" if k.startswith("G") else "OBJECT"
            out += [f"{pad}{w} = {k}", *pvl(v, depth + 1),
                    f"{pad}END_{w} = {k}"]
        else:
            out.append(f"{pad}{k} = {written(v)}")
    return out


def written(v):
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, tuple):
        return "(" + ", ".join(map(written, v)) + ")"
    if isinstance(v, set):
        return "{" + ", ".join(map(written, sorted(v))) + "}"
    if isinstance(v, dict):
        return f"{v['value']} <{v['units']}>"
    return str(v)


def shapes(n):
    """every nesting of n statements of two names, or blocks of two, of which
    one is the name of a statement as well"""
    if n == 0:
        yield []
        return
    for rest in shapes(n - 1):
        for k in ("ALPHA", "BETAS"):
            yield [(k, None)] + rest
    for inner in range(0, n):
        for a in shapes(inner):
            for b in shapes(n - 1 - inner):
                for k in ("T", "ALPHA"):
                    yield [(k, a)] + b


def number(t, c=None):
    """a value of its own for each statement; the first ones are falsy"""
    c = c or itertools.chain((0, "", 0.0, "x y"), itertools.count(7))
    return [(k, number(v, c) if v is not None else next(c)) for k, v in t]


def spread(t):
    """the same statements with values of other kinds"""
    c = itertools.cycle(((1, 2), "text", {"value": 5, "units": "KM"}, 4,
                         {1, 2}, -1.5))
    return number(t, c)


IDENT = ("INSTRUMENT_ID", "PRODUCT_ID", "DATA_SET_ID", "NOT_AN_IDENTIFIER")


def pds3(tier):
    def say(what, key, t):
        text = "\r\n".join(["PDS_VERSION_ID = PDS3", "RECORD_TYPE = STREAM",
                            *pvl(t), "END", ""])
        want = [("PDS_VERSION_ID", "PDS3"), ("RECORD_TYPE", "STREAM")] + t
        return Say(f"a PDS3 label: {what}", key, "C36.pds3", "/p/P.LBL",
                   want, {"/p/P.LBL": File(text.encode())})
    for n in range(0, 4 if tier != "thorough" else 5):
        for t in shapes(n):
            t = number(t)
            yield say("; ".join(x.strip() for x in pvl(t)), "nesting", t)
    for t in shapes(3):
        t = spread(t)
        yield say("; ".join(x.strip() for x in pvl(t)), "values", t)
    deep = [("ALPHA", 1)]
    for i in range(9):
        deep = [(f"T{i}", deep), ("BETAS", i)]
    yield say("blocks in blocks", "nesting", deep)
    for v in ("a", 5, 2.5, ("a", "b"), {"a", "b"}, 0, "", "N/A"):
        for w in IDENT:
            yield say(f"{w} = {written(v)}", "identifiers", [(w, v)])
            yield say(f"{w} = {written(v)} in a block", "identifiers",
                      [("T", [(w, v)]), ("BETAS", 1)])
    for a, b in itertools.permutations(IDENT[:3], 2):
        yield say(f"{a} twice and {b}", "identifiers",
                  [("T", [(a, "inner")]), (b, "other"), (a, "outer")])


def fits(tier):
    def unit(i, n, cards, bad=None):
        u = Unit(i, n, "PrimaryHDU" if not i else "ImageHDU",
                 filled("A", (2, 2), I2))
        u.header = Told(i, cards, bad)
        return u

    def told(i, cards):
        out = [("INDEX", i)]
        for k, v, c in cards:
            if not k:
                continue
            out.append((k, None if isinstance(v, Undef) else v if isinstance(
                v, (str, int, float)) else str(v)))
            if c:
                out.append((k + "_comment", c))
        return out
    sets = {
        "of every kind of value": [
            ("SIMPLE", True, "conforms"), ("BITPIX", -32, ""),
            ("EXPTIME", 1.5, "seconds"), ("OBJECT", "MARS", ""),
            ("EMPTY", "", ""), ("ZERO", 0, "zero"), ("NO", False, "")],
        "with blank cards": [
            ("", "text", ""), ("A", 1, ""), ("", "", ""), ("B", 2, "two")],
        "with repeated keywords": [
            ("HISTORY", "one", ""), ("A", 1, ""), ("HISTORY", "two", ""),
            ("COMMENT", "x", "note"), ("A", 2, "again"), ("A", 3, "more"), ("HISTORY", "three",
                                                      "")],
        "with complex values": [("Z", complex(1, 2), "complex"),
                                ("A", 1, "")],
        "without values": [("KEY", Undef(), ""), ("A", 1, ""), ("KEY2",
                                                              Undef(),
                                                              "why")],
        "of identifiers": [("INSTRUMENT_ID", "X", ""), ("PRODUCT_ID", "Y",
                                                        "of it")],
        "of nothing": []}
    for what, cards in sets.items():
        for ns in (("PRIMARY",), ("PRIMARY", "SCI"), ("PRIMARY", "SCI",
                                                      "ERR")):
            for where in range(len(ns)):
                def units(ns=ns, where=where, cards=cards):
                    return List([unit(i, n, cards if i == where else [
                        ("A", 100 + i, "")]) for i, n in enumerate(ns)])
                want = [(n, told(i, cards if i == where else [
                    ("A", 100 + i, "")])) for i, n in enumerate(ns)]
                yield Say(f"headers {what}, in HDU {where} of {len(ns)}",
                          what, "C36.fits", "/p/a.fits", want,
                          fits={"/p/a.fits": units})
            for bad in ("fatal",):
                def units(ns=ns, cards=cards, bad=bad):
                    return List([unit(i, n, cards, bad)
                                 for i, n in enumerate(ns)])
                want = [(n, told(i, cards)) for i, n in enumerate(ns)]
                yield Say(f"headers {what} with cards that cannot be read, "
                          f"in {len(ns)} HDUs", "unreadable cards",
                          "C36.fits", "/p/a.fits", want,
                          fits={"/p/a.fits": units})


def xml(t):
    """pds4_tools' dictionary of a label: repeated elements are lists"""
    d = OrderedDict()
    for k, v in t:
        v = xml(v) if isinstance(v, list) else v
        d.setdefault(k, []).append(v)
    for k, v in d.items():
        if len(v) == 1:
            d[k] = v[0]
    return d


def grouped(t):
    """with the elements of one name one after the other"""
    ks = list(dict.fromkeys(k for k, _ in t))
    return [(k, grouped(v) if isinstance(v, list) else v)
            for n in ks for k, v in t if k == n]


def pds4(tier):
    def say(what, t):
        t = [("Product_Observational", t)]

        def read(t=t):
            s = Structs([Struct("array", "ARR", "/p/p.dat", 0, filled(
                "A", (2, 3), I2))])
            s.label = Label(xml(t))
            return s
        return Say(f"a PDS4 label: {what}", "PDS4", "C36.pds4", "/p/p.xml",
                   grouped(t), {"/p/p.xml": File(
                       b"<Product_Observational>")}, pds4=read)

    def text(t):
        c = itertools.chain(("0", "a b"), map(str, itertools.count(5)))

        def go(t):
            return [(k, (go(v) or "-") if v is not None else next(c))
                    for k, v in t]
        return go(t)
    for n in range(1, 4 if tier != "thorough" else 5):
        for t in shapes(n):
            t = text(t)
            yield say("; ".join(x.strip() for x in pvl(t)), t)
    yield say("three of one class", [("T", [("A", "1")]), ("T", [
        ("A", "2"), ("T", [("A", "3")])]), ("T", [("A", "4")])])
    yield say("an empty element", [("A", None), ("B", "x"), ("C", "")])
    yield say("a namespace", [("disp:Settings", [("disp:axis", "x"), (
        "disp:axis", "y")]), ("A", "5")])


def desktop(tier):
    def say(what, key, fmt, exif, want, gps=None, mp=None, absent=()):
        ext = {"JPEG": "jpg", "MPO": "jpg", "TIFF": "tif"}.get(
            fmt, fmt.lower())
        fn = f"/p/a.{ext}"
        want = [("mode", "RGB"), ("size", (3, 2)), ("width", 3),
                ("height", 2), ("format", fmt), ("n_frames", 1)] + want
        return Say(f"a {fmt} image {what}", key, "C36.desktop", fn, want,
                   images={fn: lambda: Tagged(fmt, exif, gps, mp)},
                   whole=False, absent=absent)
    for fmt in ("JPEG", "PNG", "TIFF"):
        yield say("without tags", "plain", fmt, {}, [])
        yield say("with tags", "tags", fmt, {271: "ACME", 272: "M1",
                                             306: "2020"},
                  [("Make", "ACME"), ("Model", "M1"), ("DateTime", "2020")])
        yield say("with tags that have no name", "unnamed tags", fmt,
                  {271: "ACME", 60000: "x", 60001: 0},
                  [("Make", "ACME"), ("60000", "x"), ("60001", 0)])
        yield say("with values that are not text", "tags", fmt,
                  {271: 0, 272: "", 33432: (1, 2)},
                  [("Make", 0), ("Model", ""), ("Copyright", (1, 2))])
        yield say("with positions", "positions", fmt, {271: "ACME",
                                                       34853: 90},
                  [("Make", "ACME"), ("Altitude", 2.5),
                   ("LatitudeRef", "N")],
                  gps={1: "N", 6: 2.5})
    yield say("with a TIFF tag", "tags", "TIFF", {340: 3},
              [("SMinSampleValue", 3)])
    ns = "{http://x.y/z}"
    for fmt in ("TIFF", "JPEG"):
        # texts, attributes, repeated elements, nesting
        x = Elem(ns + "root", None, {}, [
            Elem(ns + "A", "one"), Elem(ns + "A", " two "),
            Elem(ns + "T", None, {ns + "id": "7"}, [
                Elem(ns + "B", "inner"), Elem(ns + "B", "other")]),
            Elem(ns + "E"), Elem(ns + "C", None, {"u": "m"}),
            Elem(ns + "D", "text", {"u": "km"}),
            Elem(ns + "F", "  ", {})])
        yield say("with XML", "XML", fmt, {271: "ACME", 700: x}, [
            ("Make", "ACME"), ("XMLPacket", [
                ("A", "one"), ("A", "two"), ("T", [
                    ("id", "7"), ("B", "inner"), ("B", "other")]),
                ("C", {"u": "m"}), ("D", {"attrib": {"u": "km"},
                                          "text": "text"})])])
    yield say("with more than one picture", "tags", "MPO", {271: "ACME"},
              [("Make", "ACME"), ("MPEntry", "x")], mp={45058: "x"})
TAGS[45058] = "MPEntry"


# ------------------------------------------------------------------- judging
def call(m, o, name, args, kw=None):
    """-> (result, how often it warned of repeated names)"""
    n = len(m.events)
    r = m.call_value(m.getattr(o, name), list(args), dict(kw or {}), None)
    return r, sum(1 for e in m.events[n:] if e[0] == "warn")


def held(v):
    return tree(getattr(v, "md", v))


def plain(v):
    """with every mapping as its pairs"""
    if isinstance(v, dict) and set(v) != {"value", "units"}:
        return [(k, plain(x)) for k, x in v.items()]
    if isinstance(v, list):
        if all(isinstance(x, tuple) and len(x) == 2 for x in v):
            return [(k, plain(x)) for k, x in v]
        return tuple(map(plain, v))
    return v


def contents(got, s):
    """what is wrong with what the metadata holds"""
    if s.whole:
        if same(got, s.want):
            return None
        a = [(p, v) for p, v in leaves(got)]
        b = [(p, v) for p, v in leaves(s.want)]
        for x in b:
            if x not in a:
                return "lost", (f"{'/'.join(map(str, x[0]))} = {show(x[1])} "
                                "of the label is not in the metadata")
        for x in a:
            if x not in b:
                return "extra", (f"{'/'.join(map(str, x[0]))} = {show(x[1])}"
                                 " of the metadata is not in the label")
        return "order", "the metadata is not in the order of the label"
    for k, v in s.want:
        hits = [plain(x) for n, x in got if n == k]
        if not any(same(x, plain(v)) for x in hits):
            return "lost", f"{k} = {show(v)} is not in the metadata"
    return None


def leaves(t, at=()):
    out = []
    for k, v in t:
        if isinstance(v, list):
            out.append((at + (k,), "a block"))
            out += leaves(v, at + (k,))
        else:
            out.append((at + (k,), v))
    return out


def look(m, d, s, ids, rep):
    md = m.getattr(d, "metadata")
    got = held(md)
    v = contents(got, s)
    if v:
        return v
    got = plain(got)
    asked = list(dict.fromkeys(names(got))) + ["ABSENT", "a", ""]
    absent = object.__new__(Mark)
    answers = []
    for k in asked:
        vals = every(got, k)
        first = vals[0] if vals else None
        for o, who in ((md, "the metadata"), (d, "the product")):
            for name, base, loud in (("metaget", 0, True),
                                     ("metaget_", 0, False),
                                     ("metablock", 1, True),
                                     ("metablock_", 1, False)):
                rep.count("lookups")
                args = [k] if base else [k, absent]
                r, w = call(m, o, name, args)
                bad = judge(k, vals, first, r, base, absent, md, d)
                if bad:
                    return (f"{name}", f"{who}: {name}({k!r}) {bad}")
                if loud and w != (len(vals) > 1) or not loud and w:
                    return ("warnings", f"{who}: {name}({k!r}) warns {w} "
                            f"times of the {len(vals)} values of that name")
                if loud:
                    r2, w2 = call(m, o, name, args, {"warn": False})
                    if w2:
                        return ("warnings", f"{who}: {name}({k!r}, warn="
                                "False) warns")
                    if judge(k, vals, first, r2, base, absent, md, d):
                        return (f"{name}", f"{who}: {name}({k!r}), asked "
                                "again, gives another answer")
                if not base and not vals:
                    r3, _ = call(m, o, name, [k])
                    if r3 is not None:
                        return ("default", f"{who}: {name}({k!r}) is "
                                f"{show(r3)}, not None")
    idd = m.getattr(md, "identifiers")
    if isinstance(idd, dict) and ids:
        for k in ids:
            vals = every(got, k)
            w = vals[0] if vals and vals[0] is not None else ""
            if isinstance(w, (tuple, set)):
                if not isinstance(idd.get(k), str):
                    return ("identifiers", f"the identifier {k} is "
                            f"{show(idd.get(k))}, which is not text")
                if isinstance(w, tuple):
                    w = str(w)
                else:
                    w = idd[k]
            if isinstance(w, list):
                continue
            if not same(idd.get(k), w):
                return ("identifiers", f"the identifier {k} is "
                        f"{show(idd.get(k))} where the label says {show(w)}")
    return None


class Mark(AObj):
    tags = frozenset()

    def key(self):
        return ("mark",)

    def a_truth(self, m):
        return True

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "==", "is not", "!="):
            return (other is self) is (op in ("is", "=="))
        return NotImplemented

    def a_isinstance(self, m, ns):
        return False if ns else None


def judge(k, vals, first, r, base, absent, md, d):
    if base:
        if not vals:
            return None if r is None or r is md else \
                "gives a block that is not there"
        if r is None:
            return "gives nothing" if isinstance(first, list) else None
        x = held(r) if not isinstance(r, Inst) or hasattr(r, "md") else None
        if isinstance(r, dict):
            x = [(a, plain(b)) for a, b in x.items()]
        if not isinstance(x, list):
            return "gives what is not a block"
        if isinstance(first, list) and not same(plain(x), first):
            return "gives another block than the first of that name"
        return None
    if first is None:
        return None if r is absent else (
            f"gives {show(r)} and not the default it is given")
    if r is absent:
        return f"gives the default where the label says {show(first)}"
    if isinstance(r, AObj) and not hasattr(r, "md") and not isinstance(
            r, MD):
        raise Undecided("a value that is not followed")
    if not same(plain(held(r)), first):
        return f"gives {show(plain(held(r)))} where the first is " \
            f"{show(first)}"
    return None


def check(ctx, rep, tier):
    rep.rule("C36.pds3", "the metadata of a PDS3 product is its label's "
             "statements and blocks, and a lookup gives the first value of "
             "its name, outermost first, or the default if there is none")
    rep.rule("C36.fits", "so for every card of every header of a FITS file")
    rep.rule("C36.pds4", "so for every element of a PDS4 label, repeated or "
             "not")
    rep.rule("C36.desktop", "so for the tags and attributes of an image")
    rep.assume("pds4_tools, astropy and pillow parse labels, headers and "
               "tags as documented, and dustgoggles' searches meet a level "
               "before what is in it")
    cls, meta = ctx.prog.classes.get(OPEN), ctx.prog.classes.get(META)
    if cls is None or meta is None:
        rep.undecide("the product or metadata class is not there")
        return
    c = ctx.prog.classes.get(IDS)
    ids = list(annotations(c)) if c is not None else []
    bad, seen = {}, set()
    for s in itertools.chain(pds3(tier), fits(tier), pds4(tier),
                             desktop(tier)):
        rep.count("labels")
        fs = FS(s.files)
        m = Machine(ctx.prog, None, steps=1_500_000, limit=40)
        m.decorate = True

        def go(m):
            fs.opened = []
            m.model = s.model(ctx.prog, fs)
            return look(m, open_product(m, ctx.prog, s.fn), s, ids, rep)
        try:
            for p in m.paths(go, lambda m: ((), {})):
                rep.count("paths")
                seen.update(m.functions)
                v = p.value
                if p.kind == "raise":
                    v = ("raises", f"raises {p.value.name}")
                if v is not None:
                    bad.setdefault((s.rule, f"{v[0]}|{s.key}"),
                                   f"{s.what}: {v[1]}")
            rep.count("labels decided")
        except Undecided as e:
            rep.undecide(f"{s.what}: {e}")
    rep.count("functions followed", len(seen))
    for q in sorted(seen):
        rep.sample(q)
    for (rule, key), msg in sorted(bad.items()):
        rep.find(rule, key, f"{meta.module.relpath}:{meta.node.lineno}", msg)
    rep.need("labels decided", 60)
