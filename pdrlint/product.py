"""A whole product, read by interpreting the library's own constructor and
`load` over a virtual file system: the label is parsed by the library's
parser, the reader chosen by its dispatch, and every file that is opened on
the way is on record.  What numpy, pandas, astropy and pillow would make of
the bytes is left to the rules."""
from __future__ import annotations

import ast
import operator

from .absint import AExc, AObj, BoundM, Cls, Inst, Machine, Undecided
from .coldata import data_call
from .files import FS, File, PathV, Stream
from .frames import MD, NAN
from .rules.c26 import Cached
from .rules.c28 import ReadModel

DATA = "pdr.pdr.Data"
MULTI = ("add", "getall", "getone", "popall", "popone", "extend")
OPENERS = ("astropy.io.fits.open", "PIL.Image.open", "numpy.fromfile",
           "numpy.load", "numpy.loadtxt", "numpy.genfromtxt",
           "numpy.memmap", "pandas.read_csv", "pandas.read_table",
           "pandas.read_fwf", "pandas.read_excel", "pvl.load",
           "astropy.io.ascii.read", "rasterio.open",
           "pdr.pds4_tools.read")


class Quiet(AObj):
    """the load tracker"""

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        return Quiet()

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "==", "is not", "!="):
            return (other is self) is (op in ("is", "=="))
        return NotImplemented

    def a_call(self, m, args, kw, node):
        return None

    def a_method(self, m, name, args, kw, node):
        return None


class Meta(Inst):
    """an instance of a class derived from MultiDict"""

    def __init__(self, cls, md):
        super().__init__(cls)
        self.md = md

    def a_attr(self, m, name):
        if name in self.attrs or m.p.find_method(self.cls, name):
            return NotImplemented
        if name in MULTI or hasattr(dict, name):
            return BoundM(self.md, name)
        return NotImplemented

    def a_item(self, m, k):
        return self.md.a_item(m, k)

    def a_setitem(self, m, k, v):
        return self.md.a_setitem(m, k, v)

    def a_delitem(self, m, k):
        return self.md.a_delitem(m, k)

    def a_len(self, m):
        return self.md.a_len(m)

    def a_iter(self, m):
        return self.md.a_iter(m)

    def a_truth(self, m):
        return self.md.a_truth(m)

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        return self.md.a_cmp(m, op, other, rev)

    def a_conv(self, m, name):
        return self.md.a_conv(m, name)

    def a_isinstance(self, m, names):
        return super().a_isinstance(m, names) or self.md.a_isinstance(
            m, names)


def multi(cls):
    """is the class derived from MultiDict"""
    return any(b and b[0] == "ext" and "MultiDict" in str(b[1])
               for b in cls.bases)


def annotations(c):
    return {st.target.id: None for st in c.node.body
            if isinstance(st, ast.AnnAssign) and isinstance(
                st.target, ast.Name)}


class ProductModel(ReadModel):
    """the libraries a product needs before its bytes are decoded"""

    def new(self, m, cls, args, kw, node):
        if multi(cls):
            x = args[0] if args else MD()
            ini = m.p.find_method(cls, "__init__")
            if isinstance(x, tuple) and x:
                x = x[0]
            if isinstance(x, dict):
                x = MD(x.items())
            if not isinstance(x, MD):
                raise Undecided("a mapping of unknown contents")
            o = Meta(cls, x)
            if ini is not None:
                m.call_func(ini, [o] + args, kw, node, None, o)
            return o
        return super().new(m, cls, args, kw, node)

    def func_call(self, m, func, args, kw, node, me):
        if func.name == "get_annotations" and args and isinstance(
                args[0], Cls):
            return annotations(args[0].cls)
        if func.qual == "pdr.np_utils.np_from_buffered_io":
            d = dict(zip(func.param_names(), args))
            d.update(kw)
            m.event("array", d)
            return self.decode(m, "array", d)
        return super().func_call(m, func, args, kw, node, me)

    def global_value(self, m, module, name):
        if module is None and name in ("numpy.nan", "numpy.NaN",
                                       "math.nan"):
            return NAN
        return super().global_value(m, module, name)

    def decode(self, m, how, what):
        """what a library makes of the bytes: not judged here"""
        raise AExc("ValueError")

    def ext_call(self, m, name, args, kw, node):
        last = name.split(".")[-1]
        if name in ("functools.cache",) and args:
            return Cached(args[0])
        if name == "functools.lru_cache":
            if args and not isinstance(args[0], (int, type(None))):
                return Cached(args[0])
            return lambda f: Cached(f)
        if name.startswith("operator.") and all(
                not isinstance(a, AObj) for a in args) and hasattr(
                    operator, last) and last not in (
                        "attrgetter", "itemgetter", "methodcaller"):
            return m.native(getattr(operator, last), *args)
        if name.startswith("dustgoggles.tracker."):
            return Quiet()
        if last == "gmap":
            its = [m.iterate(a) for a in args[1:]]
            out = [m.call_value(args[0], list(t), {}, node)
                   for t in zip(*its)]
            ev = kw.get("evaluator")
            return tuple(out) if ev is None else m.call_value(
                ev, [out], {}, node)
        if last == "exc_report" and args:
            return {"exception": args[0]}
        if last == "countby" and len(args) == 2:
            out = {}
            for x in m.iterate(args[1]):
                k = m.call_value(args[0], [x], {}, node)
                out[k] = out.get(k, 0) + 1
            return out
        if last == "get_annotations" and args and isinstance(args[0], Cls):
            return annotations(args[0].cls)
        if name == "itertools.chain.from_iterable":
            return [x for a in m.iterate(args[0]) for x in m.iterate(a)]
        if name in OPENERS:
            p = args[0] if args else next(iter(kw.values()), None)
            if isinstance(p, PathV):
                p = str(p)
            m.event("library", name, p.name if isinstance(p, Stream) else p)
            if isinstance(p, str):
                self.fs.get(m, p)
                self.fs.opened.append((self.fs.norm(p), name))
            return self.decode(m, name, p)
        args = [a.md if isinstance(a, Meta) else a for a in args]
        kw = {k: a.md if isinstance(a, Meta) else a for k, a in kw.items()}
        if name.startswith(("pandas.", "numpy.")):
            r = data_call(m, name, args, kw, node)
            if r is not NotImplemented:
                return r
        return super().ext_call(m, name, args, kw, node)


class Outcome:
    """what became of one object"""

    def __init__(self):
        self.raised = None
        self.opened = []
        self.events = []
        self.warned = []
        self.value = None
        self.product = None
        self.has = False


def open_product(m, prog, fn, **kw):
    return m.instantiate(prog.classes[DATA], [fn], kw, None)


def reading(prog, files, fn, name, model=ProductModel, limit=40,
            steps=1_500_000, load_kw=None, order=0, **kw):
    """the outcomes of opening fn and loading `name` (or several, of which
    the last is judged), one for each path; files: {path: File}"""
    fs = FS(files)
    m = Machine(prog, None, steps=steps, limit=limit)
    m.decorate = True
    m.set_order = order
    names = [name] if name is None or isinstance(name, str) else name
    name = names[-1]

    def go(m):
        fs.opened = []
        m.model = model(prog, fs)
        o = Outcome()
        o.product = open_product(m, prog, fn, **kw)
        for x in names[:-1]:
            m.call_value(m.getattr(o.product, "load"), [x], {}, None)
        n = len(m.events)
        k = len(fs.opened)
        if name is not None:
            try:
                m.call_value(m.getattr(o.product, "load"), [name],
                             dict(load_kw or {}), None)
            except AExc as e:
                o.raised = e.name
        o.opened = [p for p, _ in fs.opened[k:]]
        o.warned = [str(e[1]) for e in m.events[n:] if e[0] == "warn"]
        o.events = m.events[n:]
        o.has = name in o.product.attrs
        o.value = o.product.attrs.get(name)
        return o
    for p in m.paths(go, lambda m: ((), {})):
        if p.kind == "raise":
            o = Outcome()
            o.raised = "opening: " + p.value.name
            o.opened = [q for q, _ in fs.opened]
            yield o
        else:
            p.value.trail = p.trail
            yield p.value
