"""C22: scaling is applied at most once, and only where it belongs: loaded
objects, the prescaled flags and the scaling functions are interpreted over
every class of object, standard, label and overflow outcome.  The values of
an array are followed as the linear function of the loaded ones they are."""
from __future__ import annotations

import itertools

from ..absint import (AExc, AObj, BoundM, Cls, Ext, Inst, Machine, Model, Top,
                      Undecided)

DATA = "pdr.pdr.Data"
SCALE = 3
OFFSET = 7


class Named(AObj):
    """what x.__class__ answers"""

    def __init__(self, name):
        self.n = name

    def a_attr(self, m, name):
        if name in ("__name__", "__qualname__"):
            return self.n
        return NotImplemented


class Thing(AObj):
    """a loaded object that is not an array"""

    def __init__(self, kind):
        self.kind = kind

    def a_attr(self, m, name):
        if name == "__class__":
            return Named(self.kind)
        if name == "dtype":
            raise AExc("AttributeError")
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in (self.kind, "object") for n in names)

    def a_truth(self, m):
        return True


class Cell:
    """the memory of an array: what its values are, per plane"""

    def __init__(self, kind, planes):
        self.kind = kind                    # i or f
        self.lin = [(1, 0)] * planes
        self.wide = False                   # nothing overflows any more

    def fresh(self):
        c = Cell(self.kind, len(self.lin))
        c.lin, c.wide = list(self.lin), self.wide
        return c


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def apply(lin, op, x, rev):
    a, b = lin
    if op == "*":
        return a * x, b * x
    if op == "+":
        return a, b + x
    if op == "-":
        return (-a, x - b) if rev else (a, b - x)
    if op in ("/", "//") and not rev and x:
        return a / x, b / x
    return None


class Value(AObj):
    """an extreme value of an array, a numpy scalar"""

    def __init__(self, cell, lin):
        self.cell, self.lin = cell, lin

    def a_bin(self, m, op, other, rev):
        if isinstance(other, (list, tuple)) and op == "*":
            raise AExc("TypeError")
        if not num(other) and not isinstance(other, Number_):
            return NotImplemented
        x = other.v if isinstance(other, Number_) else other
        r = apply(self.lin[0], op, x, rev)
        if r is None:
            return NotImplemented
        overflow(m, self.cell, self.lin, op, x)
        return Value(self.cell, [r] * len(self.lin))

    def a_conv(self, m, name):
        return Top(what=name) if name in ("int", "float") else NotImplemented


class Number_(AObj):
    """a number wrapped in the array's own type"""

    def __init__(self, v):
        self.v = v


def overflow(m, cell, lin, op, x):
    """the type of the array may not hold the result"""
    if cell.wide:
        return
    if m.decide(("overflow", tuple(lin), op, repr(x))):
        raise AExc("OverflowError" if cell.kind == "i" else
                   "RuntimeWarning")


class DType(AObj):
    def __init__(self, arr):
        self.arr = arr

    def a_attr(self, m, name):
        k = self.arr.cell.kind
        if name == "kind":
            return k
        if name == "char":
            return "h" if k == "i" else "f"
        if name == "name":
            return "int16" if k == "i" else "float32"
        if name == "itemsize":
            return 2 if k == "i" else 4
        if name == "type":
            return Ext("$arraytype")
        return NotImplemented


class Arr(AObj):
    def __init__(self, cell, mask=None, view=None):
        self.cell = cell
        self.mask = mask        # the values the mask was computed from
        self.view = view        # the plane this is a view of

    # values
    @property
    def lin(self):
        return self.cell.lin if self.view is None else [
            self.cell.lin[self.view]]

    def a_attr(self, m, name):
        if name == "__class__":
            return Named("ndarray" if self.mask is None else "MaskedArray")
        if name == "dtype":
            return DType(self)
        if name == "size":
            return 3000 * len(self.lin)
        if name in ("data", "base"):
            return Arr(self.cell, None, self.view)
        if name == "mask":
            if self.mask is None:
                raise AExc("AttributeError")
            return Top(what="mask")
        if name == "shape":
            return (len(self.lin), 50, 60) if len(self.lin) > 1 else (50, 60)
        if name == "ndim":
            return 3 if len(self.lin) > 1 else 2
        return NotImplemented

    def a_setattr(self, m, name, v):
        if name == "mask":
            self.mask = list(self.lin)

    def a_truth(self, m):
        return None

    def a_len(self, m):
        return len(self.lin) if len(self.lin) > 1 else 50

    def a_isinstance(self, m, names):
        if names is None:
            return None
        ok = ("ndarray", "object") + (
            ("MaskedArray",) if self.mask is not None else ())
        return any(n.split(".")[-1] in ok for n in names)

    def operand(self, m, x):
        """one number per plane, or None"""
        n = len(self.lin)
        if isinstance(x, Number_):
            x = x.v
        if num(x):
            return [x] * n
        if isinstance(x, (list, tuple)) and len(x) == n > 1 and all(
                num(y) for y in x):
            raise Undecided("per-plane operand")
        return None

    def a_bin(self, m, op, other, rev):
        if other is None or isinstance(other, (str, dict)):
            raise AExc("TypeError")
        x = self.operand(m, other)
        if x is None:
            return Top(what=op) if isinstance(other, AObj) else \
                NotImplemented
        out = []
        for lin, y in zip(self.lin, x):
            r = apply(lin, op, y, rev)
            if r is None:
                return NotImplemented
            out.append(r)
        overflow(m, self.cell, self.lin, op, x[0])
        c = Cell(self.cell.kind, len(out))
        c.lin, c.wide = out, self.cell.wide
        if any(isinstance(y, float) for y in x):
            c.kind, c.wide = "f", self.cell.wide
        return Arr(c, self.mask)

    def a_inplace(self, m, op, other):
        r = self.a_bin(m, op, other, False)
        if not isinstance(r, Arr):
            return NotImplemented
        self.store(r.cell.lin)
        return self

    def store(self, lin):
        if self.view is None:
            self.cell.lin = list(lin)
        else:
            self.cell.lin[self.view] = lin[0]

    def a_item(self, m, k):
        if isinstance(k, int) and len(self.cell.lin) > 1 and \
                self.view is None and -len(self.lin) <= k < len(self.lin):
            return Arr(self.cell, self.mask, k % len(self.lin))
        if k is Ellipsis or k == slice(None):
            return Arr(self.cell, self.mask, self.view)
        return Top(what="item")

    def a_setitem(self, m, k, v):
        whole = k is Ellipsis or k == slice(None)
        if isinstance(v, Arr):
            if whole:
                self.store(v.lin)
                return
            if isinstance(k, int) and self.view is None:
                self.cell.lin[k] = v.lin[0]
                return
        if isinstance(k, AObj) and not isinstance(v, Arr):
            # assignment under a computed selection: masked values
            m.event("fill", list(self.lin))
            return
        raise Undecided("item assignment")

    def a_iter(self, m):
        if len(self.lin) > 1:
            return [Arr(self.cell, self.mask, i)
                    for i in range(len(self.lin))]
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) == (op == "is")
        if op in ("in", "not in"):
            return NotImplemented
        return Top(what=op)

    def a_un(self, m, op):
        if op == "-":
            return self.a_bin(m, "*", -1, False)
        return self if op == "+" else NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name in ("min", "max"):
            return Value(self.cell, list(self.lin))
        if name == "copy":
            c = self.cell.fresh()
            c.lin = list(self.lin)
            return Arr(c, self.mask)
        if name == "astype":
            c = self.cell.fresh()
            c.lin = list(self.lin)
            c.wide = True
            t = args[0] if args else kw.get("dtype")
            if isinstance(t, str):
                c.kind = "f" if t[:1] == "f" or "float" in t else "i"
            elif isinstance(t, FloatType):
                c.kind, c.wide = "f", self.cell.wide
            if kw.get("copy") is False and m.fork("no copy"):
                c = self.cell
            return Arr(c, self.mask)
        if name in ("view", "squeeze", "reshape", "ravel"):
            return Arr(self.cell, self.mask, self.view)
        if name in ("any", "all"):
            return Top(what=name)
        if name in ("__imul__", "__iadd__", "__isub__"):
            return self.a_inplace(m, {"u": "*", "d": "+",
                                      "b": "-"}[name[-3]], args[0])
        return NotImplemented


class FloatType(AObj):
    """the float_dtype argument"""

    def a_attr(self, m, name):
        if name == "kind":
            return "f"
        return NotImplemented


class ScaleModel(Model):
    def __init__(self, prog, scene):
        self.p, self.s = prog, scene

    # ----------------------------------------------------------- the world
    def func_call(self, m, func, args, kw, node, me):
        s, n = self.s, func.name
        if func.cls is not None and func.cls.name == "Data":
            if n == "__getitem__":
                return m.getattr(args[0], args[1])
            if n == "find_special_constants":
                return {"NULL": -32768} if s.get("specials") else {}
            if n in ("metaget", "metaget_", "metablock", "metablock_"):
                return Top(what=n)
        if n in ("specialblock", "check_special_block"):
            return s["block"] if n == "specialblock" else Top(what=n)
        if n == "apply_scaling_and_value_offset":
            a = args[0] if args else kw.get("array")
            return self.pds4_scale(m, a, kw)
        if n == "fit_to_scale":
            # which type it chooses is not this property's affair
            d = self.args(func, args, kw)
            arr = d.get("arr", args[0] if args else None)
            if isinstance(arr, Arr):
                if any(isinstance(x, (list, tuple)) for x in d.values()):
                    raise AExc("TypeError")
                if m.decide("some type holds the result"):
                    return arr.a_method(m, "astype", ["i8" if arr.cell.kind
                                                      == "i" else "f8"], {},
                                        node)
                raise AExc("TypeError")
        if n == "pointer_to_loader":
            return Inst(s["loader"])
        if n == "__call__" and func.cls is not None and me is not None and \
                me.cls is s.get("loader"):
            d = {"OBJ": s["obj"](m)}
            d["OBJ_HEADER"] = Thing("MultiDict")
            return d
        if n == "skim_image_data":
            if args and args[0] == "/x/obj.fits":
                # the product's file, which is not the object's
                return {"format": "PNG" if s["skim"].get("format") ==
                        "JPEG2000" or any("GeoKey" in k for k in s["skim"])
                        else "JPEG2000"}
            return dict(s["skim"])
        if n == "handle_fits_file":
            d = self.args(func, args, kw)
            nm = d.get("name")
            return {nm: s["obj"](m), f"{nm}_HEADER": Thing("MultiDict")}
        if n == "check_special_pds4_cases":
            return None
        if n == "check_primary_fmt":
            return "FITS" if s.get("parent_fits") else None
        if n == "structured_array_to_df":
            return Thing("DataFrame")
        if n in ("_find_fits_header_pds4_id",):
            return None
        return NotImplemented

    @staticmethod
    def args(func, args, kw):
        d = dict(zip(func.param_names(), args))
        d.update(kw)
        return d

    def pds4_scale(self, m, a, kw):
        if not isinstance(a, Arr):
            return NotImplemented
        # in place when it can be
        a.store([apply(apply(x, "*", SCALE, False), "+", OFFSET, False)
                 for x in a.lin])
        return a if m.fork("unmasked") else Arr(a.cell, list(a.lin))

    def new(self, m, cls, args, kw, node):
        return NotImplemented

    def global_value(self, m, module, name):
        if module is None and name == "numpy.typecodes":
            return {"AllInteger": "bBhHiIlLqQnNpP", "Integer": "bhilqnp",
                    "UnsignedInteger": "BHILQNP", "Float": "efdg",
                    "AllFloat": "efdgFDG"}
        if module is None and name in ("numpy.ma.nomask",):
            return Top(what="nomask")
        return NotImplemented

    def ext_call(self, m, name, args, kw, node):
        if name == "$arraytype":
            return Number_(args[0]) if num(args[0]) else Top(what="number")
        if name.startswith("warnings."):
            return Top(what="warn")
        if name.endswith("Dynamic.from_function"):
            return Wrapped(args[0])
        a = args[0] if args else None
        last = name.split(".")[-1]
        if isinstance(a, Arr) and name.startswith("numpy."):
            if last in ("masked_array", "MaskedArray") or name in (
                    "numpy.ma.array", "numpy.ma.asarray"):
                c = a.cell
                if kw.get("copy") is True:
                    c = c.fresh()
                    c.lin = list(a.lin)
                    return Arr(c, list(a.lin))
                return Arr(c, list(a.lin), a.view)
            if last.startswith("masked_"):
                c = a.cell if kw.get("copy") is False else a.cell.fresh()
                c.lin = list(a.lin) if c is not a.cell else c.lin
                return Arr(c, list(a.lin))
            if name in ("numpy.array", "numpy.copy") and kw.get(
                    "copy") is not False:
                c = a.cell.fresh()
                c.lin = list(a.lin)
                return Arr(c, None)
            if name in ("numpy.array", "numpy.asarray", "numpy.asanyarray",
                        "numpy.ascontiguousarray", "numpy.squeeze"):
                return Arr(a.cell, a.mask if last == "asanyarray" else None,
                           a.view)
            if last in ("multiply", "add", "subtract", "divide",
                        "true_divide"):
                op = {"m": "*", "a": "+", "s": "-"}.get(last[0], "/")
                r = a.a_bin(m, op, args[1], False)
                o = kw.get("out", args[2] if len(args) > 2 else None)
                if isinstance(o, tuple):
                    o = o[0]
                if isinstance(o, Arr) and isinstance(r, Arr):
                    o.store(r.lin)
                    return o
                return r
            if last in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
                return Value(a.cell, list(a.lin))
            if last in ("rollaxis", "moveaxis", "transpose"):
                return a
        if name.startswith("numpy.") and last in (
                "dstack", "stack", "array", "vstack", "concatenate"):
            ps = m.iterate(a) if isinstance(a, (list, tuple)) else None
            if ps and all(isinstance(x, Arr) and len(x.lin) == 1
                          for x in ps):
                c = Cell(ps[0].cell.kind, len(ps))
                c.lin = [x.lin[0] for x in ps]
                return Arr(c, ps[0].mask if ".ma." in name or last ==
                           "stack" else None)
        if name in ("numpy.shares_memory", "numpy.may_share_memory") and \
                all(isinstance(x, Arr) for x in args):
            return args[0].cell is args[1].cell
        if name == "numpy.multiply" or name == "numpy.add":
            if len(args) > 1 and isinstance(args[1], Arr):
                return args[1].a_bin(m, "*" if last == "multiply" else "+",
                                     a, True)
        if name in ("numpy.asarray", "numpy.array") and num(a):
            return Number_(a)
        return NotImplemented


class Wrapped(AObj):
    """dustgoggles' Dynamic around a loader"""

    def __init__(self, f):
        self.f = f
        self.failed = False

    def a_attr(self, m, name):
        if name == "func":
            return Bound(self.f)
        if name == "errors":
            return [{"exception": "x"}] if self.failed else []
        return NotImplemented

    def a_call(self, m, args, kw, node):
        if m.fork("loader fails"):
            self.failed = True
            return None
        return m.call_value(self.f, args, kw, node)


class Bound(AObj):
    def __init__(self, inst):
        self.inst = inst

    def a_attr(self, m, name):
        if name == "__self__":
            return self.inst
        return NotImplemented


class Struct(AObj):
    """a pds4_tools structure"""

    def __init__(self, kind, arr):
        self.kind, self.arr = kind, arr

    def a_attr(self, m, name):
        if name == "data":
            return self.arr
        if name == "parent_filename":
            return "/x/file.dat"
        if name == "meta_data":
            return Top(what="meta")
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name.startswith("is_"):
            return name == "is_" + self.kind
        return NotImplemented

    def a_isinstance(self, m, names):
        return False

    def a_truth(self, m):
        return True


# ------------------------------------------------------------------ obliga-
def product_(prog, **attrs):
    cls = prog.classes[DATA]
    d = {"_scaleflags": {}, "specials": {}, "identifiers": {}, "debug": False,
         "_pds4_structures": {}, "standard": "PDS3", "loaders": {},
         "file_mapping": {"OBJ": "/x/obj.img"}, "tracker": Top(what="log"),
         "_hdumap": {"OBJ": 0}, "_hdulist": Top(what="hdul"),
         "filename": "/x/obj.fits", "index": ["OBJ"], "metadata": Top(),
         "_interleaved_objects": {}}
    d.update(attrs)
    return Inst(cls, d)


def flag_of(o, name="OBJ"):
    f = o.attrs.get("_scaleflags")
    if not isinstance(f, dict):
        return None
    return f.get(name, False)


OBJS = {"an array": lambda k="i": (lambda m: Arr(Cell(k, 1))),
        "a table": lambda k=None: (lambda m: Thing("DataFrame")),
        "a mapping": lambda k=None: (lambda m: Thing("MultiDict")),
        "text": lambda k=None: (lambda m: "text"),
        "nothing": lambda k=None: (lambda m: None)}
SKIMS = {"an ordinary image": ({"format": "PNG", "mode": "L"}, True),
         "a plain TIFF": ({"format": "TIFF", "Compression": 1}, True),
         "a GeoTIFF": ({"format": "TIFF",
                        "GeoKeyDirectoryTag": (1, 1)}, False),
         "a JPEG 2000 image": ({"format": "JPEG2000"}, False)}


class Run:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.prog = ctx, rep, ctx.prog
        self.found = {}

    def f(self, name):
        return self.prog.funcs.get(f"{DATA}.{name}")

    def machine(self, scene):
        return Machine(self.prog, ScaleModel(self.prog, scene), limit=400)

    def bad(self, rule, key, func, msg):
        self.found.setdefault((rule, key), (func, msg))

    def over(self, what, scene, fn, make):
        """the paths of one scenario"""
        m = self.machine(scene)
        try:
            out = list(m.paths(fn, make))
        except Undecided as x:
            self.rep.undecide(f"{what}: {x}")
            return []
        self.seen |= m.functions
        self.rep.count("scenarios", 1)
        self.rep.count("paths", len(out))
        return out

    seen = set()


def check(ctx, rep, tier):
    rep.rule("C22.flag", "every loading path marks FITS arrays, and desktop "
             "images unless they are GeoTIFF or JPEG 2000, as already "
             "scaled, and marks nothing else so")
    rep.rule("C22.refuse", "get_scaled refuses objects that are not arrays")
    rep.rule("C22.once", "every scaled value is the loaded one times the "
             "label's scale plus its offset, once, whatever overflows on the "
             "way; arrays marked as scaled are not scaled at all")
    rep.rule("C22.mask", "special constants are masked by the values as "
             "loaded, before scaling")
    rep.rule("C22.copy", "a scaled copy leaves the loaded array alone")
    rep.assume("numpy arithmetic, in-place operators and numpy.ma behave as "
               "documented; pds4_tools applies scaling in place when it can")
    r = Run(ctx, rep)
    Run.seen = set()
    loading(r)
    scaled(r, tier)
    for (rule, key), (func, msg) in sorted(r.found.items(),
                                           key=lambda kv: kv[0]):
        where = "" if func is None else f"{func.file}:{func.line}"
        rep.find(rule, key, where, msg)
    rep.count("functions followed", len(Run.seen))
    for q in sorted(Run.seen):
        rep.sample(q)


# ----------------------------------------------------------------- loading
def loaders(prog):
    out = []
    for c in prog.classes.values():
        if c.module.name == "pdr.loaders.datawrap" and c.name.startswith(
                "Read") or c.name in ("TBD", "Trivial") and \
                c.module.name == "pdr.loaders.datawrap":
            out.append(c)
    return out


def loading(r):
    f = r.f("load_from_pointer")
    if f is None:
        r.rep.undecide("load_from_pointer is not there")
    else:
        for c in loaders(r.prog):
            for what in OBJS:
                one_loader(r, f, c, what)
    g = r.f("_load_primary_fits")
    if g is not None:
        for what in OBJS:
            o = None

            def make(m):
                nonlocal o
                o = product_(r.prog, standard="FITS")
                m.product = o
                return [o, "OBJ"], {}
            for p in r.over("primary FITS", {"obj": OBJS[what]()}, keep(g),
                            make):
                got, want = p.value if p.kind == "return" else None, \
                    what == "an array"
                if p.kind == "raise":
                    continue
                if flag_of(got) is not True and want:
                    r.bad("C22.flag", "primary FITS array", g, "arrays of "
                          "FITS products opened directly are not marked as "
                          "already scaled")
    h = r.f("_load_pds4")
    if h is not None:
        for kind, fits in itertools.product(("array", "table", "header"),
                                            (True, False)):
            obj = {"array": "an array", "table": "a table",
                   "header": "a mapping"}[kind]

            def make(m):
                o = product_(r.prog, standard="PDS4")
                o.attrs["_pds4_structures"] = {"OBJ": Struct(
                    kind, Arr(Cell("i", 1)))}
                return [o, "OBJ"], {}
            for p in r.over(f"PDS4 {kind}", {"obj": OBJS[obj](),
                                             "parent_fits": fits}, keep(h),
                            make):
                if p.kind == "raise":
                    continue
                flag = flag_of(p.value)
                if fits and kind == "array" and flag is not True:
                    r.bad("C22.flag", "FITS array of a PDS4 product", h,
                          "arrays of PDS4 products read from FITS files are "
                          "not marked as already scaled")
                if not fits and flag is True:
                    r.bad("C22.flag", "other PDS4 object", h, "PDS4 objects "
                          "that are not in FITS files are marked as already "
                          "scaled")


def keep(f):
    """call f and answer the product it was given"""
    def call(m, *args, **kw):
        m.call_func(f, list(args), dict(kw), None)
        return args[0]
    return call


def one_loader(r, f, cls, what):
    skims = SKIMS if cls.name == "ReadCompressedImage" else {
        "": ({"format": "PNG"}, True)}
    for (sk, (skim, ordinary)), debug in itertools.product(
            skims.items(), (False, True)):
        def make(m):
            return [product_(r.prog, debug=debug), "OBJ"], {}
        for p in r.over(f"{cls.name} giving {what}", {
                "loader": cls, "obj": OBJS[what](), "skim": skim}, keep(f),
                make):
            if p.kind == "raise":
                continue
            flag = flag_of(p.value)
            if flag is None or isinstance(flag, AObj):
                r.rep.undecide(f"flag for {cls.name}")
                continue
            arr = what == "an array"
            if cls.name == "ReadFits" and arr and flag is not True:
                r.bad("C22.flag", "FITS array", f, "arrays loaded from FITS "
                      "files" + (" in debug mode" if debug else "")
                      + " are not marked as already scaled")
            elif cls.name == "ReadCompressedImage" and arr:
                if ordinary and flag is not True:
                    r.bad("C22.flag", sk, f, f"{sk} is not marked as already "
                          "scaled" + (" in debug mode" if debug else ""))
                elif not ordinary and flag is True:
                    r.bad("C22.flag", sk, f, f"{sk}, which may need scaling, "
                          "is marked as already scaled")
            elif cls.name not in ("ReadFits", "ReadCompressedImage") and \
                    flag is True:
                r.bad("C22.flag", cls.name, f, f"{what} loaded by {cls.name} "
                      "is marked as already scaled")


# ----------------------------------------------------------------- scaling
BLOCKS = {
    "no scale in the label": ({}, [(1, 0)] * 2),
    "a scale of 1 and an offset of 0": (
        {"SCALING_FACTOR": 1, "OFFSET": 0}, [(1, 0)] * 2),
    "a scale": ({"SCALING_FACTOR": SCALE}, [(SCALE, 0)] * 2),
    "an offset": ({"OFFSET": OFFSET}, [(1, OFFSET)] * 2),
    "a scale and an offset": (
        {"SCALING_FACTOR": SCALE, "OFFSET": OFFSET}, [(SCALE, OFFSET)] * 2),
    "a scale and an offset with units": (
        {"SCALING_FACTOR": {"value": SCALE, "units": "M"},
         "OFFSET": {"value": OFFSET, "units": "M"}}, [(SCALE, OFFSET)] * 2),
    "a fractional scale": (
        {"SCALING_FACTOR": 0.5, "OFFSET": OFFSET}, [(0.5, OFFSET)] * 2),
    "scales given as not applicable": (
        {"SCALING_FACTOR": "N/A", "OFFSET": "NULL"}, [(1, 0)] * 2),
    "a scale given as not applicable": (
        {"SCALING_FACTOR": "N/A", "OFFSET": OFFSET}, [(1, OFFSET)] * 2),
    "an offset given as not applicable": (
        {"SCALING_FACTOR": SCALE, "OFFSET": "N/A"}, [(SCALE, 0)] * 2),
    "a scale and an offset per plane": (
        {"SCALING_FACTOR": [2, 4], "OFFSET": [5, 6]}, [(2, 5), (4, 6)]),
}


def scaled(r, tier):
    f = r.f("get_scaled")
    if f is None:
        r.rep.undecide("get_scaled is not there")
        return
    for what in OBJS:
        if what == "an array":
            continue
        for std, flag in itertools.product(("PDS3", "PDS4", "FITS", "PNG"),
                                           ({}, {"OBJ": True})):
            def make(m):
                o = product_(r.prog, standard=std, _scaleflags=dict(flag))
                o.attrs["OBJ"] = OBJS[what]()(m)
                o.attrs["_pds4_structures"] = {"OBJ": Struct(
                    "table", Arr(Cell("i", 1)))}
                return [o, "OBJ"], {}
            for p in r.over(f"get_scaled of {what}", {
                    "block": {"SCALING_FACTOR": SCALE}}, f, make):
                if p.kind == "return":
                    r.bad("C22.refuse", f"{what} of a {std} product", f,
                          f"get_scaled answers for {what} of a {std} product "
                          "instead of refusing it")
    # arrays delivered scaled, and standards that are not scaled
    for std, flag, inplace in itertools.product(
            ("PDS3", "PDS4", "FITS", "PNG"), (True, False), (False, True)):
        if not flag and std == "PDS3":
            continue
        want = [(1, 0)] if flag or std in ("FITS", "PNG") else [
            (SCALE, OFFSET)]
        sequence(r, f, std, flag, "a scale and an offset", inplace, None,
                 "i", 1, False, want)
    for blk, kind, planes, inplace, fdt, sp in itertools.product(
            BLOCKS, "if", (1, 2), (False, True), (None, 1), (False, True)):
        if "per plane" in blk and planes == 1:
            continue
        if planes == 2 and "per plane" not in blk and (fdt or tier ==
                                                       "quick" and sp):
            continue
        want = BLOCKS[blk][1][:planes]
        sequence(r, f, "PDS3", False, blk, inplace, fdt, kind, planes, sp,
                 want)


def sequence(r, f, std, flag, blk, inplace, fdt, kind, planes, sp, want):
    """two scaled accesses, one after the other"""
    block = BLOCKS[blk][0]

    def twice(m, o):
        kw = {"inplace": inplace}
        if fdt:
            kw["float_dtype"] = FloatType()
        arr = o.attrs["OBJ"]
        first = m.call_func(f, [o, "OBJ"], dict(kw), None)
        if not isinstance(first, Arr):
            raise Undecided("result not followed")
        a = (list(first.lin), first.mask)
        left = list(arr.lin)
        second = m.call_func(f, [o, "OBJ"], {}, None)
        if not isinstance(second, Arr):
            raise Undecided("result not followed")
        return a, left, (list(second.lin), second.mask), list(arr.lin)

    def make(m):
        c = Cell(kind, planes)
        o = product_(r.prog, standard=std,
                     _scaleflags={"OBJ": True} if flag else {})
        o.attrs["OBJ"] = Arr(c)
        o.attrs["_pds4_structures"] = {"OBJ": Struct("array", Arr(c))}
        return [o], {}
    ty = "integer" if kind == "i" else "floating-point"
    who = f"{ty} arrays with {blk}" if std == "PDS3" else f"{std} arrays"
    if flag:
        who = f"{std} arrays marked as scaled"
    how = " in place" if inplace else ""
    key = who + how
    for p in r.over(f"{who}{how}", {"block": block, "specials": sp}, twice,
                    make):
        over = [k for k, v in p.decisions.items() if isinstance(k, tuple)
                and k and k[0] == "overflow" and v]
        if p.kind == "raise":
            if p.value.name in ("TypeError",) and over:
                continue        # no type is wide enough
            r.bad("C22.once", key, f, f"scaling {who}{how} fails with "
                  f"{p.value.name}")
            continue
        (lin, mask), left, (lin2, mask2), left2 = p.value
        tail = " when widening is needed" if over else ""
        if lin != want:
            r.bad("C22.once", key, f, f"{who} come out of scaling{how} as "
                  f"{show(lin)} instead of {show(want)}{tail}")
        elif lin2 != want:
            if inplace and std == "PDS3" and not flag:
                r.bad("C22.once", "again after scaling in place", f,
                      "values scaled in place are scaled again by the next "
                      "get_scaled")
            else:
                r.bad("C22.once", key + ", again", f, f"{who} come out as "
                      f"{show(lin2)} the second time")
        if not inplace and (left != [(1, 0)] * planes or
                            left2 != [(1, 0)] * planes):
            r.bad("C22.copy", key, f, f"scaling {who} changes the loaded "
                  "array")
        if std == "PDS4" and left != [(1, 0)] * planes:
            r.bad("C22.copy", key, f, "scaling PDS4 arrays changes the "
                  "loaded array")
        if std == "PDS3" and not flag and sp:
            if mask is None:
                r.bad("C22.mask", who, f, f"special constants of {who} are "
                      "not masked")
            elif any(x != (1, 0) for x in mask):
                r.bad("C22.mask", who, f, f"special constants of {who} are "
                      "looked for among values that are already scaled")


def show(lin):
    out = []
    for a, b in lin:
        s = "v" if a == 1 else f"{a}*v"
        out.append(s + (f" + {b}" if b else ""))
    return ", ".join(out)
