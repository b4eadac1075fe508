"""C18: tables and HDUs always get unique names.  The functions that name
columns, HDUs and repeated objects are interpreted over every short list of
names, colliding ones included."""
from __future__ import annotations

import itertools

from ..absint import AExc, AObj, Machine, Top, Undecided
from ..frames import MD, Frame
from ..pvl import PVLModel, tree
from .tabledata import PARSE, Data, Label, TableModel, identifiers

POOL = ("A", "A_0", "A_1", "A_0_0", "B")
FITS = "pdr.loaders.handlers.handle_fits_file"
HEADERS = "pdr.loaders.handlers.unpack_fits_headers"
PVL = "pdr.parselabel.pds3.parse_pvl"


def name_lists(tier, pool=POOL):
    for n in range(1, 4):
        yield from itertools.product(pool, repeat=n)
    for c in itertools.product(pool[:4], repeat=4 if tier != "thorough"
                               else 5):
        if len(set(c)) < len(c):
            yield c
    yield ("A",) * 12
    yield ("A",) * 12 + ("A_10", "A_11_11") + ("A_0",) * 3
    yield ("B",) + ("A",) * 3 + ("B",) * 2 + ("C", "A_2")


def verdict(given, got):
    """what is wrong with the names got for the names given"""
    if len(got) != len(given):
        return "lost", f"{len(got)} of {len(given)} are left"
    if len(set(map(str, got))) != len(got):
        d = next(x for x in got if got.count(x) > 1)
        return "shared", f"{d} is the name of {got.count(d)} of them"
    for a, b in zip(given, got):
        if given.count(a) == 1 and str(a) != str(b):
            return "renamed", f"{a}, which no other has, is renamed to {b}"
        if not str(b).startswith(str(a)):
            return "order", f"{a} is renamed to {b}"
    return None


def check(ctx, rep, tier):
    rep.rule("C18.columns", "the columns of a format definition have unique "
             "names before a table is built from it")
    rep.rule("C18.special", "and so have those of special cases that edit "
             "the names of a definition")
    rep.rule("C18.fits", "the columns of a FITS table have unique names "
             "before its data are touched")
    rep.rule("C18.hdus", "each HDU is found under its own name")
    rep.rule("C18.objects", "objects with repeated pointers are found under "
             "names of their own, with their own definitions")
    rep.assume("astropy makes the data of a table from its columns as they "
               "are named when the data are first asked for")
    bad = {}
    columns(ctx, rep, tier, bad)
    special(ctx, rep, tier, bad)
    fits(ctx, rep, tier, bad)
    hdus(ctx, rep, tier, bad)
    objects(ctx, rep, tier, bad)
    for (rule, kind), (f, given, msg) in sorted(bad.items()):
        rep.find(rule, kind, f"{f.module.relpath}:{f.node.lineno}",
                 f"{f.qual}, {given}: {msg}")


def note(bad, rule, kind, f, given, msg):
    old = bad.get((rule, kind))
    if old is None or len(str(given)) < len(str(old[1])):
        bad[rule, kind] = (f, given, msg)


# ------------------------------------------------------------------ columns
def labels(tier):
    for ns in name_lists(tier):
        lab = Label("", rows=2)
        for n in ns:
            lab.column("MSB_INTEGER", 2, name=n)
        yield f"columns named {', '.join(ns)}", list(ns), lab
    for a, b in itertools.product(("X", "X_0", "X_1", "RESERVED",
                                   "RESERVED_1", "RESERVED_3"), repeat=2):
        for n in (2, 3):
            lab = Label("", rows=2).column("MSB_INTEGER", 2, items=n,
                                           name=a)
            lab.column("MSB_INTEGER", 2, name=b)
            yield f"{n} items named {a} and a column named {b}", \
                [a] * n + [b], lab
        lab = Label("", rows=2)
        for x in (a, b, a, b):
            lab.column("MSB_INTEGER", 2, name=x)
        yield f"columns named {a}, {b}, {a}, {b}", [a, b] * 2, lab
        for reps in (2, 3):
            lab = Label("", rows=2).column("MSB_INTEGER", 2, name="X")

            def box(s, a=a, b=b):
                s.column("MSB_INTEGER", 2, name=a)
                s.column("MSB_INTEGER", 2, name=b)
            lab.container(reps, box)
            yield f"a column named X and {reps} repetitions of {a} and {b}",\
                ["X"] + [a, b] * reps, lab


def columns(ctx, rep, tier, bad):
    f = ctx.prog.funcs.get(PARSE)
    if f is None:
        rep.undecide(f"{PARSE} is not there")
        return
    x = Machine(ctx.prog, TableModel(), steps=400_000)
    for what, given, lab in labels(tier):
        for oname in ("TABLE", "ARRAY", "SPREADSHEET")[:1 if len(
                given) > 3 else 3]:
            rep.count("definitions")

            def go(m):
                ids = identifiers(ctx.prog)
                ids.update(RECORD_TYPE="FIXED_LENGTH",
                           RECORD_BYTES=lab.row())
                return m.call_func(f, [], dict(zip(f.param_names(), (
                    oname, lab.block(), "file", Data(), ids))), None)
            try:
                out = list(x.paths(go, lambda m: ((), {})))
            except Undecided as e:
                rep.undecide(f"{what}: {e}")
                continue
            for p in out:
                if p.kind == "raise":
                    note(bad, "C18.columns", f"raises|{p.value.name}", f,
                         what, f"raises {p.value.name}")
                    continue
                fd = p.value[0] if isinstance(p.value, (tuple, list)) else \
                    p.value
                if not isinstance(fd, Frame):
                    rep.undecide(f"{what}: definition")
                    continue
                names = list(fd.ser("NAME").vals)
                if any(isinstance(n, AObj) for n in names):
                    rep.undecide(f"{what}: names")
                    continue
                rep.count("definitions decided")
                names = [n for n in names if "PLACEHOLDER" not in str(n)]
                if given.count("RESERVED") > 1:
                    v = verdict([g if g != "RESERVED" else "" for g in given
                                 ], names)
                    if v and v[0] != "shared":
                        v = None
                else:
                    v = verdict(given, names)
                if v:
                    note(bad, "C18.columns", v[0], f, what, v[1])
    for q in sorted(x.functions):
        rep.sample(q)
    rep.count("functions followed", len(x.functions))


# ------------------------------------------------------------ special cases
STRUCTURE = "pdr.loaders.queries.read_table_structure"


def definition(names):
    n = len(names)
    w = [4] * n
    return Frame({
        "NAME": list(names), "COLUMN_NAME": list(names),
        "DATA_TYPE": ["MSB_INTEGER"] * n, "BYTES": w,
        "START_BYTE": [1 + 4 * i for i in range(n)],
        "COLUMN_NUMBER": list(range(1, n + 1)),
        "ITEMS": [1] * n, "ITEM_BYTES": w, "ITEM_OFFSET": w,
        "BLOCK_NAME": ["TABLE"] * n, "BLOCK_BYTES": [4 * n] * n,
        "UNIT": ["M"] * n})


class SpecialModel(TableModel):
    """read_table_structure gives any definition with unique names"""
    names = ()

    def func_call(self, m, func, args, kw, node, me):
        if func.qual == STRUCTURE:
            m.event("structure")
            return definition(self.names)
        # what follows the naming is C14's and C32's affair
        if func.name in ("insert_sample_types_into_df", "compute_offsets",
                         "_fill_empty_byte_rows") and args and isinstance(
                             args[0], Frame):
            return (args[0], None) if func.name[0] == "i" else args[0]
        return super().func_call(m, func, args, kw, node, me)


class Product(AObj):
    tags = frozenset()

    def key(self):
        return ("product",)

    def a_truth(self, m):
        return True


def special(ctx, rep, tier, bad):
    """functions of special cases that read a definition and return it"""
    made = ctx.prog.funcs.get(STRUCTURE)
    if made is None:
        return
    model = SpecialModel()
    x = Machine(ctx.prog, model, steps=60_000, limit=300)
    fs = [f for q, f in sorted(ctx.prog.funcs.items())
          if q.startswith("pdr.formats.") and f.param_names()[:2] == [
              "block", "name"]]
    sets = [[f"C{i}" for i in range(12)],
            ["A_0", "A_1", "A_2", "B_0", "B_1", "COUNTS", "STATUS WORD",
             "A_B", "RESERVED_1_0", "RESERVED_1_1", "T_0_1", "T_0_2"],
            ["X_0", "COUNTS", "X_1"]]
    for f in fs:
        for ns in sets:
            model.names = ns
            ids = identifiers(ctx.prog)
            ids.update(RECORD_TYPE="FIXED_LENGTH", RECORD_BYTES=48)
            vals = {"block": MD([("NAME", "T"), ("ROWS", 2),
                                 ("INTERCHANGE_FORMAT", "BINARY"),
                                 ("DESCRIPTION", "encounter data"),
                                 ("COLUMNS", len(ns)), ("ROW_BYTES", 48)]),
                    "name": "TABLE", "data": Product(), "filename": "a.dat",
                    "fn": "a.dat", "identifiers": ids}
            if any(n not in vals for n in f.param_names()):
                continue
            rep.count("special definitions")
            try:
                out = list(x.paths(f, lambda m: ((), {
                    k: vals[k] for k in f.param_names()})))
            except Undecided as e:
                rep.count("special definitions not followed")
                continue
            for p in out:
                if p.kind == "raise" or not any(
                        e[0] == "structure" for e in p.events):
                    continue
                fd = p.value[0] if isinstance(p.value, (tuple, list)) and \
                    p.value else p.value
                if not isinstance(fd, Frame) or "NAME" not in fd.cols:
                    continue
                names = list(fd.ser("NAME").vals)
                if any(isinstance(n, AObj) for n in names):
                    continue
                rep.count("special definitions decided")
                if len(set(map(str, names))) != len(names):
                    d = next(n for n in names if names.count(n) > 1)
                    note(bad, "C18.special", f.qual, f, "given columns named "
                         + ", ".join(ns), f"{names.count(d)} columns are "
                         f"then named {d}")


# --------------------------------------------------------------------- FITS
class Column(AObj):
    tags = frozenset()

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("column", id(self))

    def a_attr(self, m, name):
        if name == "name":
            return self.name
        return NotImplemented

    def a_setattr(self, m, name, v):
        if name != "name":
            return NotImplemented
        self.name = v


class Columns(AObj):
    tags = frozenset()

    def __init__(self, names):
        self.cs = [Column(n) for n in names]

    def key(self):
        return ("columns", id(self))

    def names(self):
        return [c.name for c in self.cs]

    def find(self, k):
        if isinstance(k, int):
            return self.cs[k]
        for c in self.cs:
            if c.name == k:
                return c
        raise AExc("KeyError")

    def a_attr(self, m, name):
        if name == "names":
            return self.names()
        if name == "columns":
            return list(self.cs)
        return NotImplemented

    def a_item(self, m, k):
        if isinstance(k, (int, str)):
            return self.find(k)
        return NotImplemented

    def a_iter(self, m):
        return list(self.cs)

    def a_len(self, m):
        return len(self.cs)

    def a_truth(self, m):
        return True

    def a_method(self, m, name, a, kw, node):
        if name in ("change_name",):
            self.find(a[0]).name = a[1]
            return None
        if name == "change_attrib" and a[1] == "name":
            self.find(a[0]).name = a[2]
            return None
        return NotImplemented


class Header(AObj):
    tags = frozenset()

    def __init__(self, ix):
        self.cards = [("SIMPLE", True, "c"), ("INDEX", ix, "")]

    def key(self):
        return ("header", self.cards[1][1])

    def a_attr(self, m, name):
        return list(self.cards) if name == "cards" else NotImplemented

    def a_item(self, m, k):
        if isinstance(k, int):
            return self.cards[k][1]
        for c in self.cards:
            if c[0] == k:
                return c[1]
        raise AExc("KeyError")

    def a_iter(self, m):
        return [c[0] for c in self.cards]

    def a_len(self, m):
        return len(self.cards)

    def a_truth(self, m):
        return True

    def a_method(self, m, name, a, kw, node):
        if name == "items":
            return [c[:2] for c in self.cards]
        if name == "keys":
            return [c[0] for c in self.cards]
        if name == "get":
            for c in self.cards:
                if c[0] == a[0]:
                    return c[1]
            return a[1] if len(a) > 1 else None
        return NotImplemented


class HDU(AObj):
    tags = frozenset()

    def __init__(self, ix, name, kind, columns=()):
        self.ix, self.name, self.kind = ix, name, kind
        self.columns = Columns(columns)
        self.header = Header(ix)

    def key(self):
        return ("hdu", self.ix)

    def a_attr(self, m, name):
        if name == "columns" and "Table" in self.kind:
            return self.columns
        if name == "header":
            return self.header
        if name == "name":
            return self.name
        if name == "data":
            m.event("data", tuple(self.columns.names()))
            raise AExc("Delivered")
        return NotImplemented

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if names is None:
            return None
        mro = {"BinTableHDU": ("BinTableHDU", "_TableBaseHDU"),
               "TableHDU": ("TableHDU", "_TableBaseHDU")}.get(
            self.kind, (self.kind,))
        return any(n.split(".")[-1] in mro for n in names)


class HDUList(AObj):
    tags = frozenset()

    def __init__(self, hdus):
        self.hdus = hdus

    def key(self):
        return ("hdulist", id(self))

    def a_item(self, m, k):
        if isinstance(k, int) and not isinstance(k, bool):
            if not -len(self.hdus) <= k < len(self.hdus):
                raise AExc("IndexError")
            return self.hdus[k]
        if isinstance(k, str):
            for h in self.hdus:
                if h.name == k.upper():
                    return h
            raise AExc("KeyError")
        return NotImplemented

    def a_iter(self, m):
        return list(self.hdus)

    def a_len(self, m):
        return len(self.hdus)

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("HDUList", "list") for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "info":
            return [(h.ix, h.name, 1, h.kind, 2, (), "", "")
                    for h in self.hdus]
        if name in ("verify", "close"):
            return None
        if name == "index_of" and len(a) == 1 and type(a[0]) in (int, str):
            return self.a_item(m, a[0]).ix
        return NotImplemented


class FitsModel(PVLModel):
    hdulist = None

    def ext_call(self, m, name, args, kw, node):
        if name == "astropy.io.fits.open":
            return self.hdulist
        return super().ext_call(m, name, args, kw, node)


def fits(ctx, rep, tier, bad):
    f = ctx.prog.funcs.get(FITS)
    if f is None:
        rep.undecide(f"{FITS} is not there")
        return
    model = FitsModel()
    x = Machine(ctx.prog, model, steps=200_000)
    for ns in name_lists(tier):
        for kind in ("BinTableHDU", "TableHDU"):
            what = f"a {kind} of columns named {', '.join(ns)}"
            rep.count("FITS tables")

            def go(m):
                model.hdulist = HDUList([
                    HDU(0, "PRIMARY", "PrimaryHDU"),
                    HDU(1, "T", kind, ns)])
                given = {"fn": "file", "name": "T", "hdu_id": 1,
                         "hdulist": model.hdulist, "hdu_id_is_index": True}
                return m.call_func(f, [], {
                    k: v for k, v in given.items()
                    if k in f.param_names()}, None)
            try:
                out = list(x.paths(go, lambda m: ((), {})))
            except Undecided as e:
                rep.undecide(f"{what}: {e}")
                continue
            for p in out:
                ev = [e for e in p.events if e[0] == "data"]
                if not ev:
                    if p.kind == "raise":
                        note(bad, "C18.fits", f"raises|{kind}", f, what,
                             f"raises {p.value.name}")
                    else:
                        rep.undecide(f"{what}: the data are not read")
                    continue
                rep.count("FITS tables decided")
                v = verdict(list(ns), list(ev[0][1]))
                if v:
                    note(bad, "C18.fits", f"{v[0]}|{kind}", f, what, v[1])
    rep.count("functions followed", len(x.functions))


def hdus(ctx, rep, tier, bad):
    f = ctx.prog.funcs.get(HEADERS)
    if f is None:
        rep.undecide(f"{HEADERS} is not there")
        return
    model = FitsModel()
    x = Machine(ctx.prog, model, steps=200_000)
    pool = ("A", "", "A_0", "_0", "A_0_0")
    for ns in name_lists(tier, pool):
        what = f"HDUs named PRIMARY, {', '.join(map(repr, ns))}"
        rep.count("HDU lists")

        def go(m):
            model.hdulist = HDUList(
                [HDU(0, "PRIMARY", "PrimaryHDU")]
                + [HDU(i + 1, n, "ImageHDU") for i, n in enumerate(ns)])
            return m.call_func(f, ["file", model.hdulist], {}, None)
        try:
            out = list(x.paths(go, lambda m: ((), {})))
        except Undecided as e:
            rep.undecide(f"{what}: {e}")
            continue
        for p in out:
            if p.kind == "raise":
                note(bad, "C18.hdus", "raises", f, what,
                     f"raises {p.value.name}")
                continue
            if not isinstance(p.value, tuple) or len(p.value) != 3 or \
                    not isinstance(p.value[0], (MD, dict)) or \
                    not isinstance(p.value[2], (dict, MD)):
                rep.undecide(f"{what}: result")
                continue
            rep.count("HDU lists decided")
            heads, _, hmap = p.value
            hmap = dict(hmap.items) if isinstance(hmap, MD) else hmap
            heads = list(heads.items) if isinstance(heads, MD) else list(
                heads.items())
            by = {}
            if not all(type(v) is int for v in hmap.values()):
                rep.undecide(f"{what}: what names stand for")
                continue
            for k, v in hmap.items():
                by.setdefault(v, []).append(k)
            given = ["PRIMARY"] + list(ns)
            got = [(by.get(i) or [None])[0] for i in range(len(given))]
            if None in got:
                i = got.index(None)
                note(bad, "C18.hdus", "lost", f, what, f"HDU {i} is under "
                     "no name")
                continue
            v = verdict(given, got)
            if v:
                note(bad, "C18.hdus", v[0], f, what, v[1])
                continue
            hk = [k for k, _ in heads]
            if sorted(hk) != sorted(got):
                note(bad, "C18.hdus", "headers", f, what, "there are "
                     f"headers named {hk}")
                continue
            for k, h in heads:
                ix = tree(h)
                if isinstance(ix, list) and ("INDEX", hmap[k]) not in ix:
                    note(bad, "C18.hdus", "header", f, what, f"{k} has the "
                         "header of another")
    rep.count("functions followed", len(x.functions))


# ------------------------------------------------------------------ objects
#: names of data objects; whatever is special about DESCRIPTION, STRUCTURE
#: and PDS_OBJECT is not special about words that begin the same
OBJECTS = ("ARRAY", "BROWSE_IMAGE", "COLLECTION", "FILE", "GAZETTEER_TABLE",
           "HEADER", "HISTOGRAM", "HISTORY", "IMAGE_HEADER", "LINE_TABLE",
           "PALETTE", "QUBE", "SERIES", "SPECTRAL_QUBE", "SPECTRUM",
           "SPREADSHEET", "TELEMETRY_TABLE", "TEXT", "TIME_SERIES", "TABLE_2",
           "EXTENSION_HEADER", "A_TABLE", "BAND_SUFFIX_TABLE",
           "INDEX_TABLE", "ENGINEERING_TABLE", "CALIBRATION_IMAGE") + tuple(
    w[:i] + "_TABLE" for w in ("DESCRIPTION", "STRUCTURE", "PDS_OBJECT")
    for i in range(3, len(w)))


def pointer_texts(tier):
    """(what, text, [(name, file, rows)])"""
    pool = ("TABLE", "TABLE_0", "TABLE_1")
    for n in (1, 2, 3, 4) if tier != "thorough" else (1, 2, 3, 4, 5):
        for c in itertools.product(pool, repeat=n):
            yield c, c
    for c in (("IMAGE", "TABLE", "IMAGE"), ("IMAGE", "TABLE", "TABLE",
                                            "IMAGE"), ("IMAGE",) * 11):
        yield c, c
    for n in OBJECTS:
        yield (n, n), (n, n)
    yield ("TABLE", "TABLE"), ("TABLE",) * 3
    yield ("TABLE", "TABLE"), ("TABLE",)
    yield ("TABLE", "TABLE"), ("TABLE", "TABLE_0", "TABLE")


def text_of(ptrs, objs, nested):
    if nested:
        # each pointer and its object in a block of their own
        out = []
        for i, n in enumerate(ptrs):
            out += ["OBJECT = WHOLE", f"^{n} = \"F{i}.DAT\"",
                    f"OBJECT = {n}", f"NUMBER_OF_IT = {i}",
                    f"END_OBJECT = {n}", "END_OBJECT = WHOLE"]
        return "\r\n".join(out) + "\r\nEND\r\n"
    out = [f"^{n} = \"F{i}.DAT\"" for i, n in enumerate(ptrs)]
    seen = {}
    for n in objs:
        # the k-th object of a name goes with the k-th pointer of that name
        k = seen[n] = seen.get(n, -1) + 1
        ids = [i for i, p in enumerate(ptrs) if p == n]
        i = ids[k] if k < len(ids) else 90
        out += [f"OBJECT = {n}", f"NUMBER_OF_IT = {i}", f"END_OBJECT = {n}"]
    return "\r\n".join(out) + "\r\nEND\r\n"


def objects(ctx, rep, tier, bad):
    f = ctx.prog.funcs.get(PVL)
    if f is None:
        rep.undecide(f"{PVL} is not there")
        return
    x = Machine(ctx.prog, PVLModel(), steps=400_000, unroll=40)
    for (ptrs, objs), nested in itertools.product(pointer_texts(tier),
                                                  (False, True)):
        if nested and ptrs != objs:
            continue
        what = f"pointers to {', '.join(ptrs)} and objects {', '.join(objs)}"
        what += ", each in an object of its own" * nested
        rep.count("labels")
        try:
            out = list(x.paths(f, lambda m: ([text_of(ptrs, objs, nested)], {})))
        except Undecided as e:
            rep.undecide(f"{what}: {e}")
            continue
        for p in out:
            if p.kind == "raise":
                note(bad, "C18.objects", "raises", f, what,
                     f"raises {p.value.name}")
                continue
            try:
                got = tree(p.value[0])
                names = list(x.iterate(p.value[1]))
            except (Undecided, TypeError, IndexError):
                rep.undecide(f"{what}: result")
                continue
            rep.count("labels decided")
            if nested:
                got = [x for k, v in got if k == "WHOLE" for x in v]
            pt = [(k, v) for k, v in got if str(k).startswith("^")]
            blocks = [(k, v) for k, v in got if isinstance(v, list)]
            v = verdict([f"^{n}" for n in ptrs], [k for k, _ in sorted(
                pt, key=lambda kv: kv[1])]) if len(pt) <= 10 else None
            ks = [k for k, _ in pt]
            if v is None and len(set(ks)) != len(ptrs):
                v = ("shared", f"pointers are named {ks}")
            if v:
                note(bad, "C18.objects", v[0], f, what, v[1])
                continue
            for k, fn in pt:
                i = int(str(fn)[1:-4])
                mine = [b for n, b in blocks if n == k[1:]]
                if not mine:
                    if len(objs) == len(ptrs):
                        note(bad, "C18.objects", "block", f, what,
                             f"{k} has no definition")
                    continue
                if dict(mine[0]).get("NUMBER_OF_IT") != i:
                    note(bad, "C18.objects", "block", f, what,
                         f"{k} has the definition of another object")
                if len(mine) > 1:
                    note(bad, "C18.objects", "blocks", f, what,
                         f"there are {len(mine)} objects {k[1:]}")
                for n in (k, k[1:]):
                    if names.count(n) != 1:
                        note(bad, "C18.objects", "names", f, what,
                             f"{n} is listed {names.count(n)} times")
    rep.count("functions followed", len(x.functions))


__all__ = ["check", "Top"]
