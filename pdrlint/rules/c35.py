"""C35: a product offers exactly the objects that are there.

Whole products of each standard are opened by the abstract interpreter (see
`product`) over virtual files, and every way of asking for the names of their
objects is compared with what the label, the HDU list, the PDS4 structures or
the frames of the image say is there -- before anything is loaded, and after
loading each of the objects."""
from __future__ import annotations

import itertools
import re

from ..absint import AExc, Machine, Undecided
from ..files import FS, File
from ..product import open_product
from .c23 import (I2, Image, List, Struct, Structs, TypeModel, Unit, filled,
                  product)

OPEN = "pdr.pdr.Data"
FORMS = {"a file": '"{f}"', "a record": "{r}", "bytes": "{b} <BYTES>",
         "a file and a record": '("{f}", {r})',
         "a file and bytes": '("{f}", {b} <BYTES>)',
         "nothing": '""'}
NAMES = ("IMAGE", "TABLE", "SPECTRAL_QUBE", "IMAGE_HEADER", "DESCRIPTION",
         "DATA_SET_MAP_PROJECTION", "MODEL_DESC", "HISTOGRAM", "HISTORY",
         "A", "BROWSE_IMAGE", "DOCUMENT", "TIFF_IMAGE", "TIFF_DOCUMENT",
         "INDEX_TABLE", "VICAR_HEADER", "PDF_DOCUMENT", "FILE_NAME",
         "LINE_PREFIX_TABLE", "GAZETTEER_TABLE", "X_OBJECT")
HIDDEN = ("TIFF_TAG", "TIFF_HEADER", "STRUCTURE", "LINE_STRUCTURE",
          "PDS_OBJECT", "TABLE_STRUCTURE")
SPECIAL = (
    ("MSL camera data", [
        ("INSTRUMENT_HOST_NAME", '"MARS SCIENCE LABORATORY"'),
        ("INSTRUMENT_ID", '"MAHLI"'), ("DATA_SET_ID", '"MSL-M-MAHLI-2-EDR"')],
     ("IMAGE",)),
    ("calibrated VNIS data", [
        ("SPACECRAFT_NAME", '"Chang\'E-3 Rover"'),
        ("PRODUCT_ID", '"CE3_BMYK_VNIS-CC_SCI_N_1.2A"')],
     ("IMAGE_PREFIX", "IMAGE")),
    ("SWIR VNIS data", [
        ("SPACECRAFT_NAME", '"Chang\'E-3 Rover"'),
        ("PRODUCT_ID", '"CE3_BMYK_VNIS-SC_SCI_N_1.2A"')], ("TABLE",)),
    ("dark VNIS data", [
        ("SPACECRAFT_NAME", '"Chang\'E-3 Rover"'),
        ("PRODUCT_ID", '"CE3_BMYK_VNIS-SD_SCI_N_1.2A"')], ("TABLE",)))


class Scene:
    def __init__(self, what, key, rule, files, fn, want, load=(), model=None,
                 more=False, order=True):
        self.what, self.key, self.rule = what, key, rule
        self.files, self.fn, self.want = files, fn, list(want)
        self.load = load            # what to load, one at a time
        self.model = model or TypeModel
        self.more = more            # others may be there as well
        self.order = order


def block(n, extra=()):
    return "\r\n".join([f"OBJECT = {n}", "LINES = 2", "LINE_SAMPLES = 2",
                        "SAMPLE_BITS = 8", "SAMPLE_TYPE = MSB_INTEGER",
                        *extra, f"END_OBJECT = {n}"]) + "\r\n"


def text(ptrs, depth=0, blocks=True, head=(), extra=None, form="a file"):
    """a label of these pointers; depth: how many objects each is in"""
    out = ["PDS_VERSION_ID = PDS3", "RECORD_TYPE = FIXED_LENGTH",
           "RECORD_BYTES = 64"] + [f"{k} = {v}" for k, v in head]
    lines, objs = [], []
    for i, n in enumerate(ptrs):
        f, n = (n[1], n[0]) if isinstance(n, tuple) else (form, n)
        v = FORMS[f].format(f=f"F{i}.DAT", r=2 + i, b=65 + i)
        one = [f"^{n} = {v}"]
        body = block(n, (extra or {}).get(n, ()))
        if depth:
            one = [f"OBJECT = {'UNCOMPRESSED_FILE' if j % 2 else 'FILE'}"
                   for j in range(depth)] + one
            if blocks:
                one.append(body)
            one += [f"END_OBJECT = {'UNCOMPRESSED_FILE' if j % 2 else 'FILE'}"
                    for j in reversed(range(depth))]
        elif blocks:
            objs.append(body)
        lines += one
    return ("\r\n".join(out + lines + objs) + "\r\nEND\r\n").encode()


def shown(n):
    return not ("TIFF" in n and "IMAGE" not in n and "DOCUMENT" not in n
                or "STRUCTURE" in n or "PDS_OBJECT" in n)


def want_of(ptrs):
    """for each object what its name is to be: the name, or a pattern"""
    ns = [n[0] if isinstance(n, tuple) else n for n in ptrs]
    return ["LABEL"] + [n if ns.count(n) == 1 else re.compile(
        re.escape(n) + r"(_\d+)+$") for n in ns if shown(n)]


def pointer_sets(tier):
    for n in NAMES + HIDDEN:
        yield f"{n} alone", (n,)
    for f in FORMS:
        yield f"a pointer to {f}", (("IMAGE", f),)
        yield f"a pointer to {f} and another", (("IMAGE", f), "TABLE")
    pool = NAMES[:4] + HIDDEN[:1] + HIDDEN[2:3]
    for a, b in itertools.permutations(NAMES if tier == "thorough"
                                       else NAMES[:8], 2):
        yield f"{a} and {b}", (a, b)
    for a, b in itertools.product(HIDDEN, ("IMAGE", "DESCRIPTION")):
        yield f"{a} between others", (b, a, "TABLE")
        yield f"{a} first", (a, b)
    for c in itertools.permutations(pool[:5], 3):
        yield ", ".join(c), c
    for k in (2, 3, 11):
        yield f"{k} of one name", ("TABLE",) * k
        yield f"{k} of one name and others", ("IMAGE",) + ("TABLE",) * k + (
            "HEADER",)
    yield "two of two names", ("TABLE", "IMAGE", "TABLE", "IMAGE")
    yield "two descriptions", ("DESCRIPTION", "IMAGE", "DESCRIPTION")
    yield "two of one name, and another that takes a name",\
        ("TABLE", "TABLE_0", "TABLE")
    yield "two of one name, one of them at a record",\
        (("TABLE", "a record"), "TABLE", "IMAGE")
    yield "nothing", ()
    yield "many", NAMES


def scenes(tier):
    for what, ptrs in pointer_sets(tier):
        for depth, how in ((0, ""), (1, ", each in an object of its own"),
                           (2, ", each in an object in another")):
            if depth == 2 and (len(ptrs) != 2 or tier != "thorough"):
                continue
            dup = len(set(ptrs)) < len(ptrs)
            yield Scene(f"a label of pointers: {what}{how}",
                        "repeated pointers" if dup else "pointers",
                        "C35.pds3", {"/p/P.LBL": File(text(ptrs, depth))},
                        "/p/P.LBL", want_of(ptrs),
                        load=want_of(ptrs)[:4] if depth == 0 and len(
                            ptrs) < 4 else ())
    for what, ptrs in list(pointer_sets("quick"))[::5]:
        yield Scene(f"a label of pointers without objects: {what}",
                    "pointers without objects", "C35.pds3",
                    {"/p/P.LBL": File(text(ptrs, 0, False))}, "/p/P.LBL",
                    want_of(ptrs))
        yield Scene(f"an attached label of pointers: {what}",
                    "pointers", "C35.pds3",
                    {"/p/P.IMG": File(text(ptrs, 0) + b"\x01\x02" * 512)},
                    "/p/P.IMG", want_of(ptrs))
    # line prefix tables that only the image tells of
    im = "IMAGE"
    for ptr, extra in (("LINE_PREFIX_STRUCTURE", '"P.FMT"'),
                       ("STRUCTURE", '"P.FMT"'),
                       ("LINE_PREFIX_STRUCTURE", '""'), (None, "")):
        for name in ("IMAGE", "L_IMAGE", "TABLE", "IMAGE_TABLE"):
            for others in ((), ("TABLE_X",), ("HISTOGRAM",)):
                ex = {name: [f"^{ptr} = {extra}"] if ptr else []}
                implied = [f"{name}_LINE_PREFIX_TABLE"] if (
                    im in name and "TABLE" not in name
                    and ptr == "LINE_PREFIX_STRUCTURE"
                    and extra != '""') else []
                if ptr == "STRUCTURE" and name in ("IMAGE", "L_IMAGE"):
                    continue        # of what, nothing says
                ps = (name,) + others
                yield Scene(
                    f"a label of {' and '.join(ps)}, where {name} has "
                    + (f"a {ptr} {extra}" if ptr else "no structure"),
                    "line prefix tables", "C35.pds3",
                    {"/p/P.LBL": File(text(ps, 0, extra=ex))}, "/p/P.LBL",
                    want_of(ps) + implied, order=not implied)
    for what, head, names in SPECIAL:
        for ps in (("IMAGE",), ("IMAGE", "TABLE", "MODEL_DESC"),
                   ("TABLE", "X_TABLE")):
            yield Scene(f"{what} with pointers to {', '.join(ps)}",
                        f"special|{what}", "C35.special",
                        {"/p/P.LBL": File(text(ps, 0, head=head))},
                        "/p/P.LBL", ["LABEL", *names], more=True,
                        order=False)
    yield from unlabeled(tier)


def hdu_list(names):
    def make():
        us = [Unit(0, "PRIMARY", "PrimaryHDU", None)]
        for i, n in enumerate(names, 1):
            us.append(Unit(i, n, "ImageHDU", filled(f"E{i}", (2, 2), I2)))
        return List(us)
    return make


def unlabeled(tier):
    for names in ((), ("A",), ("A", "B", "C"), ("A", "A"), ("A", "B", "A"),
                  ("", ""), ("", "A"), ("A_0", "A", "A"), ("A B", "C")):
        f = {"/p/a.fits": hdu_list(names)}
        want = ["PRIMARY"] + [n if names.count(n) == 1 else re.compile(
            re.escape(n) + r"(_\d+)+$") for n in names]
        yield Scene(f"a FITS file of HDUs named PRIMARY and {names}",
                    "FITS", "C35.fits", {"/p/a.fits": File(b"")},
                    "/p/a.fits", want, load=[n for n in want if isinstance(
                        n, str)][:2],
                    model=product(None, None, f), order=False)
    for ids in (("ARR",), ("A 1", "TAB", "ARR"), ("a", "b", "c d e"),
                ("ARRAY_0", "ARRAY_1", "TABLE_2"), ()):
        def structs(ids=ids):
            return Structs([Struct("array", i, "/p/p.dat", 0, filled(
                "A", (2, 3), I2)) for i in ids])
        yield Scene(f"a PDS4 product of structures {ids}", "PDS4",
                    "C35.pds4", {"/p/p.xml": File(b"<Product_Observational>")
                                 }, "/p/p.xml",
                    [i.replace(" ", "_") for i in ids] + ["label"],
                    load=[i.replace(" ", "_") for i in ids][:2],
                    model=product(None, None, None, None, structs))
    for ext, fmt, n in (("png", "PNG", 1), ("jpg", "JPEG", 1),
                        ("gif", "GIF", 1), ("gif", "GIF", 2),
                        ("gif", "GIF", 11), ("webp", "WEBP", 3),
                        ("jpg", "MPO", 2), ("jpg", "MPO", 3),
                        ("tif", "TIFF", 1), ("bmp", "BMP", 1)):
        fn = f"/p/a.{ext}"
        want = ["IMAGE"] if n == 1 else [
            f"FRAME_{i}" for i in range(n)]
        if fmt == "MPO":
            want = ["IMAGE"] + [re.compile(rf".*_{i}$")
                                for i in range(1, n)]
        yield Scene(f"a {fmt} file of {n} images", f"desktop|{fmt}",
                    "C35.desktop", {fn: File(b"")}, fn, want,
                    load=[w for w in want if isinstance(w, str)][:2],
                    model=product(None, None, None, {
                        fn: lambda n=n, fmt=fmt: Image("L", (3, 2), n, fmt)
                    }))


# ------------------------------------------------------------------- judging
def strings(m, v):
    out = [x for x in m.iterate(v)]
    if not all(isinstance(x, str) for x in out):
        raise Undecided("names that are not followed")
    return out


def fit(got, s):
    """what is wrong with the names, as (kind, message)"""
    for g in got:
        if got.count(g) > 1:
            return "twice", f"{g} is offered {got.count(g)} times"
    left, at = list(got), []
    for w in s.want:
        hit = next((g for g in left if g == w or hasattr(w, "match")
                    and w.match(g)), None)
        if hit is None:
            n = w if isinstance(w, str) else "one of several of one name"
            return "lost", f"{n} is not offered, only {got}"
        left.remove(hit)
        at.append(got.index(hit))
    if left and not s.more:
        return "more", f"{left[0]} is offered, which is not there"
    if s.order and at != sorted(at):
        return "order", f"they are offered in the order {got}"
    return None


def look(m, d, s, rep):
    """(kind, message) of the first thing wrong"""
    def ask(name, *a):
        return m.call_value(m.getattr(d, name), list(a), {}, None)
    got = strings(m, ask("keys"))
    v = fit(got, s)
    if v:
        return v
    if ask("__len__") != len(got):
        return "length", "its length is not the number of its objects"
    for n in got:
        if not m.truth(ask("__contains__", n)):
            return "in", f"{n} is not `in` it"
    for n in ("NOT_THERE", "", "index", "^" + (got[0] if got else "X")):
        if n not in got and m.truth(ask("__contains__", n)):
            return "in", f"{n!r} is `in` it"
    new = strings(m, ask("unloaded"))
    if sorted(new) != sorted(n for n in got if n not in d.attrs):
        return "unloaded", f"{new} are said not to be loaded of {got}"
    for w in s.load:
        n = next((g for g in got if g == w or hasattr(w, "match")
                  and w.match(g)), None)
        if n is None or n in d.attrs:
            continue
        try:
            ask("load", n)
        except AExc as e:
            rep.count("loads that raise")
            continue
        after = strings(m, ask("keys"))
        rep.count("loads")
        if [g for g in after if g in got] != got:
            return "after", f"once {n} is loaded, {after} are offered"
        for g in after:
            if after.count(g) > 1:
                return "after", f"once {n} is loaded, {g} is offered twice"
            if g not in got and g not in d.attrs:
                return "after", (f"once {n} is loaded, {g} is offered, "
                                 "which has no value")
        new = strings(m, ask("unloaded"))
        if n in d.attrs and n in new:
            return "unloaded", f"{n} is said not to be loaded when it is"
        if sorted(new) != sorted(g for g in after if g not in d.attrs):
            return "unloaded", f"{new} are said not to be loaded of {after}"
        got = after
    return None


def check(ctx, rep, tier):
    rep.rule("C35.pds3", "the data objects a PDS3 label points to, at "
             "whatever depth, are offered once each, in order, with the "
             "label, and nothing else")
    rep.rule("C35.special", "products whose objects are listed by hand offer "
             "each of them, and the label, once")
    rep.rule("C35.fits", "every HDU of a FITS file is offered")
    rep.rule("C35.pds4", "every structure of a PDS4 product is offered, and "
             "its label")
    rep.rule("C35.desktop", "every frame of a desktop image is offered")
    rep.assume("astropy, pillow and pds4_tools list their objects as "
               "documented")
    cls = ctx.prog.classes.get(OPEN)
    if cls is None:
        rep.undecide(f"{OPEN} is not there")
        return
    bad = {}
    for s in scenes(tier):
        rep.count("products")
        fs = FS(s.files)
        m = Machine(ctx.prog, None, steps=1_500_000, limit=40)
        m.decorate = True

        def go(m):
            fs.opened = []
            m.model = s.model(ctx.prog, fs)
            d = open_product(m, ctx.prog, s.fn)
            return look(m, d, s, rep)
        try:
            for p in m.paths(go, lambda m: ((), {})):
                rep.count("paths")
                v = p.value
                if p.kind == "raise":
                    v = ("raises", f"opening it raises {p.value.name}")
                if v is not None:
                    k = (s.rule, f"{v[0]}|{s.key}")
                    bad.setdefault(k, f"{s.what}: {v[1]}")
            rep.count("products decided")
        except Undecided as e:
            rep.undecide(f"{s.what}: {e}")
    for (rule, key), msg in sorted(bad.items()):
        rep.find(rule, key, f"{cls.module.relpath}:{cls.node.lineno}", msg)
    rep.need("products decided", 60)
