"""Classes of table labels, and what the generic table reader makes of them:
shared by C19, C21 and C32."""
from __future__ import annotations

import ast
import itertools

from ..absint import AExc, AObj, Machine, Model, Top, Undecided
from ..coldata import Blob, Col, DT, Rec, Rows, Table, data_call, dtype_of, \
    from_bytes, NATIVE
from ..frames import MD, NAN, Ser, elems, md_call

PARSE = "pdr.loaders.queries.parse_table_structure"
READ = "pdr.loaders.table.read_table"
POSITION = "pdr.loaders.queries.table_position"
IDENTIFIERS = "pdr.pdrtypes.DataIdentifiers"


def identifiers(prog):
    """those of a product that matches no special case"""
    c = prog.classes.get(IDENTIFIERS)
    names = ["DATA_SET_ID", "FILE_NAME", "INSTRUMENT_ID", "PRODUCT_ID",
             "PRODUCT_TYPE", "NOTE"] if c is None else [
        st.target.id for st in c.node.body if isinstance(
            st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
    return {n: "" for n in names}



class Data(AObj):
    """the product; nothing the generic path needs is asked of it"""
    tags = frozenset()

    def a_truth(self, m):
        return True


class TableModel(Model):
    def __init__(self):
        self.text = None        # the text of an ASCII table, per scenario

    def func_call(self, m, func, args, kw, node, me):
        q = func.qual
        if q == "pdr.utils.decompress":
            return Top(what="file")
        if q == "pdr.np_utils.np_from_buffered_io":
            d = dict(zip(func.param_names(), args))
            d.update(kw)
            dt = dtype_of(m, d.get("dtype"))
            if dt is None:
                raise Undecided("dtype")
            m.event("read", d.get("count"), d.get("offset"), dt.size)
            return from_bytes(dt)
        if func.name in ("ibm32_to_np_f32", "ibm64_to_np_f64") and args:
            return self.real(m, args[0], "IBM",
                             4 if "32" in func.name else 8)
        if q == "pdr.utils.head_file":
            d = dict(zip(func.param_names(), args))
            d.update(kw)
            m.event("head", d.get("nbytes"), d.get("offset"))
            return Top(what="text")
        return NotImplemented

    def real(self, m, c, kind, size):
        if not isinstance(c, Col):
            return NotImplemented
        why = None
        if c.parts is not None or not c.raw():
            why = "values that are no longer the raw ones"
        elif c.dt.size != size:
            if kind == "IBM" and size == 8 and c.dt.size == 4:
                raise AExc("OverflowError")
            why = f"{c.dt.size}-byte values"
        elif c.dt.kind not in ("u", "i") or kind == "IBM" and \
                c.dt.kind != "u":
            why = f"{c.dt.text()} values"
        elif kind == "IBM" and not c.sane():
            why = "values in the wrong byte order"
        elif kind == "VAX" and c.stored != "<":
            why = "values whose bytes have been swapped"
        if why:
            c = c.bad(f"{kind} {8 * size}-bit conversion of {why}")
        return c.step(f"{kind}{8 * size}").but(
            dt=DT("f", 8 if kind == "IBM" else 4, NATIVE), stored=NATIVE)

    def method(self, m, obj, name, args, kw, node):
        if isinstance(obj, bytes) and name == "join" and args:
            x = args[0]
            if isinstance(x, Rows):
                return Blob(x.col)
            if isinstance(x, Col):
                return Blob(x)
            xs = m.iterate(x)
            if len(xs) == 1 and hasattr(xs[0], "col"):
                return Blob(xs[0].col)
        return NotImplemented

    def ext_call(self, m, name, args, kw, node):
        r = md_call(m, name, args, kw)
        if r is not NotImplemented:
            return r
        if name.startswith("vax.from_vax") and args:
            return self.real(m, args[0], "VAX",
                             4 if name.endswith("32") else 8)
        if name.startswith("warnings."):
            return None
        if name == "numpy.frombuffer" and args and isinstance(args[0], Rows):
            args = [Blob(args[0].col)] + list(args[1:])
        if name in ("pandas.read_csv", "pandas.read_fwf",
                    "pandas.read_table"):
            return self.parse(m, name, args, kw)
        if name.startswith(("numpy.", "pandas.", "builtins.bin",
                            "more_itertools.", "math.")):
            return data_call(m, name, args, kw, node)
        return NotImplemented

    def parse(self, m, name, args, kw):
        """the text parsed: one column per piece of text"""
        t = self.text
        if t is None:
            raise Undecided("text")
        specs = kw.get("colspecs")
        if name.endswith("fwf") and isinstance(specs, (list, tuple)):
            out = []
            for i, s in enumerate(specs):
                lo, hi = elems(m, s)
                m.event("spec", lo, hi)
                out.append((i, Col(DT("O", 8), lo, hi - lo, src="text")))
            return Table(out)
        if name.endswith("fwf"):
            return Table([(i, Col(DT("O", 8), at, w, src="text"))
                          for i, (at, w) in enumerate(t["fields"])])
        if t["commas"] is None:
            raise AExc("pandas.errors.ParserError")
        if kw.get("header", 0) is not None:
            m.event("odd", "the first row is taken for a header")
        return Table([(i, Col(DT("O", 8), at, w, src="text"))
                      for i, (at, w) in enumerate(t["commas"])])

    def global_value(self, m, module, name):
        if module is None and name in ("numpy.nan", "numpy.NaN",
                                       "math.nan"):
            return NAN
        return NotImplemented


class F:
    """a field the label declares"""

    def __init__(self, name, dt, at, width, scale=None, offset=None,
                 bits=None):
        self.name, self.dt, self.at, self.width = name, dt, at, width
        self.scale, self.offset, self.bits = scale, offset, bits

    def where(self):
        return (self.at, self.width)


NOBYTES = object()


class Label:
    """builds the label block of a table along with the fields it stands
    for, by the PDS3 Standards Reference: START_BYTE counts from 1 within
    the enclosing object, items are repeated every ITEM_OFFSET (or
    ITEM_BYTES) bytes, containers every BYTES bytes, and the row prefix is
    not part of the row"""

    def __init__(self, what, rows=3, fmt="BINARY", prefix=0, suffix=0,
                 spare=0, name="TABLE"):
        self.what, self.rows, self.fmt = what, rows, fmt
        self.prefix, self.suffix, self.spare = prefix, suffix, spare
        self.cols, self.fields, self.pos = [], [], 0
        self.oname = name
        self.sees = ()      # what the ASCII file holds

    def column(self, dt, width, items=None, item_offset=None, gap=0,
               name=None, scale=None, offset=None, bits=None, into=None,
               drop_bytes=False):
        """append a COLUMN at the current position"""
        box = into or self
        name = name or f"C{len(self.fields)}"
        start = box.pos + gap
        step = item_offset or width
        total = width if items is None else step * (items - 1) + width
        if items is not None:
            total = step * items if item_offset else width * items
        md = [("NAME", name), ("DATA_TYPE", dt), ("START_BYTE", start + 1)]
        if not drop_bytes:
            md.append(("BYTES", total))
        if items is not None:
            md += [("ITEMS", items), ("ITEM_BYTES", width)]
            if item_offset:
                md.append(("ITEM_OFFSET", item_offset))
        if scale is not None:
            md.append(("SCALING_FACTOR", scale))
        if offset is not None:
            md.append(("OFFSET", offset))
        for b in bits or ():
            bd = [("NAME", b[0]), ("BIT_DATA_TYPE", b[1]),
                  ("START_BIT", b[2])]
            if len(b) == 4:
                bd.append(("BITS", b[3]))
            else:
                step = (list(b) + [b[4]])[5]
                bd += [("ITEMS", b[3]), ("ITEM_BITS", b[4]),
                       ("BITS", b[3] * step)]
                if len(b) > 5:
                    bd.append(("ITEM_OFFSET", step))
            md.append(("BIT_COLUMN", MD(bd)))
        box.cols.append(("COLUMN", MD(md)))
        blist = None
        if bits:
            blist = []
            for b in bits:
                if len(b) == 4:
                    blist.append((b[2] - 1, b[2] - 1 + b[3]))
                else:
                    by = (list(b) + [b[4]])[5]
                    blist += [(b[2] - 1 + i * by, b[2] - 1 + i * by + b[4])
                              for i in range(b[3])]
        for i in range(items or 1):
            box.fields.append(F(name, dt, start + i * step, width, scale,
                                offset, blist))
        box.pos = start + total
        return self

    def container(self, reps, make, gap=0, name=None, pad=0, into=None):
        box = into or self
        sub = Label("")
        make(sub)
        size = sub.pos + pad
        start = box.pos + gap
        name = name or f"BOX{len(box.fields)}"
        box.cols.append(("CONTAINER", MD([
            ("NAME", name), ("START_BYTE", start + 1), ("BYTES", size)]
            + ([("REPETITIONS", reps)] if reps else []) + sub.cols)))
        for i in range(reps or 1):
            for f in sub.fields:
                box.fields.append(F(f.name, f.dt, start + i * size + f.at,
                                    f.width, f.scale, f.offset, f.bits))
        box.pos = start + size * (reps or 1)
        return self

    def block(self):
        b = [("NAME", "T"), ("INTERCHANGE_FORMAT", self.fmt),
             ("ROWS", self.rows), ("COLUMNS", len(self.cols)),
             ("ROW_BYTES", self.pos + self.spare)]
        if self.prefix:
            b.append(("ROW_PREFIX_BYTES", self.prefix))
        if self.suffix:
            b.append(("ROW_SUFFIX_BYTES", self.suffix))
        return MD(b + self.cols)

    def expected(self):
        return [F(f.name, f.dt, f.at + self.prefix, f.width, f.scale,
                  f.offset, f.bits) for f in self.fields]

    def row(self):
        return self.prefix + self.pos + self.spare + self.suffix


# data types by what has to be done to them
TYPES = {
    "MSB_INTEGER": (1, 2, 4, 8), "LSB_INTEGER": (2, 4, 8),
    "MSB_UNSIGNED_INTEGER": (1, 2, 4), "LSB_UNSIGNED_INTEGER": (2, 4),
    "IEEE_REAL": (4, 8), "PC_REAL": (4, 8), "IBM_REAL": (4, 8),
    "VAX_REAL": (4,), "VAX_INTEGER": (4,), "IBM_INTEGER": (4,),
    "CHARACTER": (5,), "EBCDIC_CHARACTER": (6,), "BOOLEAN": (1,),
    "DATE": (10,), "BCD": (3,),
}
MAIN = (("MSB_INTEGER", 2), ("LSB_INTEGER", 4), ("IEEE_REAL", 8),
        ("PC_REAL", 4), ("IBM_REAL", 4), ("IBM_REAL", 8), ("VAX_REAL", 4),
        ("CHARACTER", 5), ("EBCDIC_CHARACTER", 6), ("BOOLEAN", 1),
        ("BCD", 3), ("MSB_BIT_STRING", 2), ("LSB_BIT_STRING", 4))
BITS = {1: [("a", "MSB_UNSIGNED_INTEGER", 1, 3),
            ("b", "MSB_UNSIGNED_INTEGER", 4, 5)],
        2: [("a", "MSB_UNSIGNED_INTEGER", 1, 3),
            ("b", "MSB_UNSIGNED_INTEGER", 4, 13)],
        3: [("a", "MSB_UNSIGNED_INTEGER", 1, 20),
            ("b", "MSB_UNSIGNED_INTEGER", 21, 4)],
        4: [("a", "MSB_UNSIGNED_INTEGER", 1, 2, 8),
            ("b", "MSB_UNSIGNED_INTEGER", 17, 16)],
        8: [("a", "MSB_UNSIGNED_INTEGER", 1, 32),
            ("b", "MSB_UNSIGNED_INTEGER", 40, 20)]}

SPACED = {1: [("a", "MSB_UNSIGNED_INTEGER", 1, 2, 3, 4)],
          2: [("a", "MSB_UNSIGNED_INTEGER", 1, 1, 3, 5),
              ("b", "MSB_UNSIGNED_INTEGER", 5, 3, 3, 4)],
          3: [("a", "MSB_UNSIGNED_INTEGER", 1, 3, 6, 8)],
          4: [("a", "MSB_UNSIGNED_INTEGER", 1, 2, 1),
              ("b", "MSB_UNSIGNED_INTEGER", 4, 3, 8, 10)]}


def put(lab, t, w, **k):
    if "BIT_STRING" in t:
        k.setdefault("bits", BITS[w])
    return lab.column(t, w, **k)


def decode_labels(tier):
    """binary tables over the kinds of data types"""
    for t, ws in TYPES.items():
        for w in ws:
            yield Label(f"one {w}-byte {t} column").column(t, w)
            yield Label(f"two {w}-byte {t} columns").column(t, w).column(
                t, w)
    for t in ("MSB_BIT_STRING", "LSB_BIT_STRING"):
        for w in BITS:
            if t == "LSB_BIT_STRING" and w == 3:
                continue
            yield put(Label(f"one {w}-byte {t} column"), t, w)
        for w, bs in SPACED.items():
            if t == "LSB_BIT_STRING" and w == 3:
                continue
            yield Label(f"one {w}-byte {t} column of spaced bit items"
                        ).column(t, w, bits=bs)
            yield Label(f"a column and a {w}-byte {t} column of spaced bit "
                        "items").column("PC_REAL", 4).column(t, w, bits=bs)
    for t in ("MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"):
        for w in (2, 4):
            yield Label(f"one {w}-byte {t} column of bit columns").column(
                t, w, bits=[(b[0], t) + b[2:] for b in BITS[w]])
            yield Label(f"a {w}-byte {t} column of bit columns and a "
                        "column of another type").column("PC_REAL", 4).column(
                t, w, bits=[(b[0], t) + b[2:] for b in BITS[w]])
    for (a, x), (b, y) in itertools.permutations(MAIN, 2):
        lab = Label(f"a {a} and a {b} column")
        put(lab, a, x)
        yield put(lab, b, y)
    for t, w in MAIN:
        if "BIT_STRING" in t or t in ("CHARACTER", "BCD"):
            continue
        yield Label(f"a {t} column with items").column(t, w, items=2)
        yield Label(f"a {t} column with items after another").column(
            "MSB_INTEGER", 2).column(t, w, items=3).column("PC_REAL", 4)
        yield Label(f"a {t} column with spaced items").column(
            t, w, items=2, item_offset=w + 3)
    n = len(MAIN)
    orders = [MAIN] if tier != "thorough" else [
        MAIN[i:] + MAIN[:i] for i in range(n)]
    for o in orders:
        lab = Label("a column of every kind")
        for t, w in o:
            put(lab, t, w)
        yield lab
    if tier == "thorough":
        for a, b, c in itertools.permutations(MAIN, 3):
            lab = Label(f"a {a[0]}, a {b[0]} and a {c[0]} column")
            for t, w in (a, b, c):
                put(lab, t, w)
            yield lab


def pads(fmt):
    for p, s, sp in itertools.product((0, 5), (0, 4), (0, 3)):
        words = []
        if p:
            words.append("a row prefix")
        if s:
            words.append("a row suffix")
        if sp:
            words.append("unused bytes at the end of the row")
        yield dict(prefix=p, suffix=s, spare=sp, fmt=fmt), (
            " with " + " and ".join(words) if words else "")


NUMS = {"BINARY": (("MSB_INTEGER", 2), ("PC_REAL", 4)),
        "ASCII": (("ASCII_REAL", 6), ("CHARACTER", 8))}


def layout_labels(tier, fmt="BINARY"):
    """tables over the ways of laying out a row"""
    for lab in layouts(tier, fmt):
        yield seen(lab) if fmt == "ASCII" else lab


def seen(lab):
    """the ways the text of an ASCII table may be divided"""
    f = [x.where() for x in lab.expected()]
    lab.sees = ({"commas": None, "fields": f},)
    if not lab.prefix:
        lab.sees += ({"commas": f, "fields": f},)
    return lab


def layouts(tier, fmt):
    (a, x), (b, y) = NUMS[fmt]
    for k, w in pads(fmt):
        yield Label("two columns" + w, **k).column(a, x).column(b, y)
        yield Label("columns with a gap" + w, **k).column(a, x).column(
            b, y, gap=3).column(a, x)
        yield Label("columns of the same name" + w, **k).column(
            a, x, name="X").column(b, y, name="X")
        yield Label("a column with items" + w, **k).column(
            a, x).column(b, y, items=3).column(a, x)
        yield Label("a last column with items" + w, **k).column(
            a, x).column(b, y, items=3)
        yield Label("a column with spaced items" + w, **k).column(
            a, x, items=2, item_offset=x + 2).column(b, y)
        yield Label("a last column with spaced items" + w, **k).column(
            b, y).column(a, x, items=2, item_offset=x + 2)
        for g1, g2 in ((None, 2), (2, None), (2, 3)):
            yield Label("several columns with items, some spaced" + w,
                        **k).column(
                a, x, items=2, item_offset=g1 and x + g1).column(
                b, y, items=3, item_offset=g2 and y + g2).column(a, x)
        yield Label("a column with items after another with items" + w,
                    **k).column(a, x, items=2).column(b, y, items=2)
        yield Label("a container" + w, **k).column(a, x).container(
            None, lambda s: s.column(b, y).column(a, x))
        for reps in (2, 3):
            yield Label(f"a container repeated {reps} times" + w,
                        **k).column(a, x).container(
                reps, lambda s: s.column(b, y).column(a, x))
        yield Label("a repeated container with unused bytes" + w,
                    **k).column(a, x).container(
            2, lambda s: s.column(b, y).column(a, x), pad=2)
        yield Label("a repeated container of one column" + w,
                    **k).column(a, x).container(
            3, lambda s: s.column(b, y))

        def ab(s):
            s.column(b, y).column(a, x)
        for reps in (None, 2):
            r = "repeated " if reps else ""
            yield Label(f"a {r}container and a column after it" + w,
                        **k).column(a, x).container(reps, ab).column(b, y)
            yield Label(f"{r}containers apart" + w, **k).column(
                a, x).container(reps, ab).column(b, y).container(3, ab)
            yield Label(f"{r}adjacent containers" + w, **k).column(
                a, x).container(reps, ab).container(reps, ab)
            yield Label(f"a {r}container after a gap" + w, **k).column(
                a, x).container(reps, ab, gap=3)
            yield Label(f"a {r}container before any column" + w,
                        **k).container(reps, ab).column(b, y)
            yield Label(f"nothing but a {r}container" + w,
                        **k).container(reps, ab)
            yield Label(f"{r}nested containers" + w, **k).column(
                a, x).container(reps, lambda s: s.column(b, y).container(
                    2, ab))
        yield Label("a repeated container of items" + w, **k).column(
            a, x).container(2, lambda s: s.column(b, y, items=3).column(
                a, x))
        yield Label("a gap in a repeated container" + w, **k).column(
            a, x).container(2, lambda s: s.column(b, y, gap=2).column(a, x))
        if tier == "thorough":
            for reps in (4, 5):
                yield Label(f"a container of three columns repeated {reps} "
                            "times" + w, **k).column(a, x).container(
                    reps, lambda s: s.column(b, y).column(a, x).column(
                        b, y))


def scale_labels(tier, fmt="BINARY"):
    for lab in scales(tier, fmt):
        yield seen(lab) if fmt == "ASCII" else lab


def scales(tier, fmt):
    (a, x), (b, y) = NUMS[fmt]
    a = "ASCII_REAL" if fmt == "ASCII" else a
    opts = ((None, None), (2.5, None), (None, -7), (0.1, 40), (1, 3),
            (2.5, 0))
    for (s1, o1), (s2, o2) in itertools.product(opts, opts):
        for k, w in (pads(fmt) if tier == "thorough" else
                     list(pads(fmt))[:2]):
            yield Label(
                f"columns of SCALING_FACTOR, OFFSET {s1}, {o1} and "
                f"{s2}, {o2}" + w, **k).column(
                    a, x, scale=s1, offset=o1).column(
                    a, x, scale=s2, offset=o2)
    for k, w in pads(fmt):
        yield Label("a scaled column of several items" + w, **k).column(
            a, x, items=2, scale=2.5, offset=4).column(b, y)


def columns(o, rep):
    """[(label, column, field it holds)] or None when not followed; the
    field is None for bytes no field has"""
    lab = o.label
    by = {}
    for f in lab.expected():
        by[f.where()] = f
    out = []
    for n, c in o.table.c:
        if not isinstance(c, Col):
            rep.undecide(f"{lab.what}: column {n} is not followed")
            return None
        at, w = c.at, c.width
        if not isinstance(at, int) or not isinstance(w, int):
            rep.undecide(f"{lab.what}: position of column {n}")
            return None
        out.append((n, c, by.get((at, w))))
    return out


class Outcome:
    def __init__(self, label, path, table, m):
        self.label, self.path, self.table = label, path, table
        self.events = path.events
        self.m = m


def run(prog, labels, rep, texts=None):
    """interpret the two steps of a table load over each class of label;
    yields Outcomes"""
    parse, read = prog.funcs.get(PARSE), prog.funcs.get(READ)
    place = prog.funcs.get(POSITION)
    if parse is None or read is None or place is None:
        rep.undecide("the table reader or its structure query are not found")
        return
    model = TableModel()
    x = Machine(prog, model, steps=400_000)
    for lab in labels:
        rep.count("classes of label")

        def go(m, lab=lab):
            ids = identifiers(prog)
            ids["RECORD_TYPE"] = "FIXED_LENGTH"
            ids["RECORD_BYTES"] = lab.row()
            block = lab.block()
            fd = m.call_func(parse, [], dict(zip(
                parse.param_names(), (lab.oname, block, "file", Data(),
                                      ids))), None)
            props = m.call_func(place, [], {
                k: v for k, v in (
                    ("identifiers", ids), ("block", block),
                    ("target", ["file", 1]), ("name", lab.oname),
                    ("start_byte", 0)) if k in place.param_names()}, None)
            kw = {"identifiers": ids, "fn": "file", "fmtdef_dt": fd,
                  "table_props": props, "block": block, "start_byte": 0}
            return m.call_func(read, [], {
                k: v for k, v in kw.items() if k in read.param_names()},
                None)
        for sees in (lab.sees or (None,)):
            model.text = sees
            try:
                got = list(x.paths(go, lambda m: ((), {})))
            except Undecided as e:
                rep.undecide(f"{lab.what}: {e}")
                continue
            rep.count("classes of label decided")
            for p in got:
                rep.count("paths")
                yield Outcome(lab, p, p.value if isinstance(
                    p.value, Table) else None, x)
    for f in sorted(x.functions):
        rep.sample(f)
    rep.count("functions followed", len(x.functions))
    run.reader = read


__all__ = ["Label", "run", "decode_labels", "layout_labels",
           "scale_labels", "Ser", "Rec", "Machine"]
