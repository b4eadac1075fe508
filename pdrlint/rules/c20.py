"""C20: images come out band-first, contiguous and without prefixes or
suffixes: a shape-and-layout interpretation of the image queries and the
generic reader over every class of label."""
from __future__ import annotations

import itertools

from ..absint import (AExc, AObj, Machine, Model, Top, Undecided,
                      deep_abstract)

READ = "pdr.loaders.image.read_image"
IMAGE = "pdr.loaders.queries.generic_image_properties"
QUBE = "pdr.loaders.queries.generic_qube_properties"
NPREAD = "pdr.np_utils.np_from_buffered_io"


# ------------------------------------------------------------------- sizes
class Sz(AObj):
    """a size: a polynomial with rational coefficients over sizes >= 1"""

    LOW = {}

    def __init__(self, terms):
        self.t = {k: v for k, v in terms.items() if v}

    @staticmethod
    def sym(name, low=1):
        Sz.LOW[name] = low
        return Sz({(name,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, Sz):
            return x
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return Sz({(): x}) if x else Sz({})
        return None

    def norm(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            v = self.t[()]
            return int(v) if v == int(v) else v
        return self

    def key(self):
        return ("sz",) + tuple(sorted((k, float(v))
                                      for k, v in self.t.items()))

    def add(self, o, f=1):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + f * v
        return Sz(r)

    def mul(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return Sz(r)

    def div(self, o):
        """exact quotient or None"""
        if not o.t:
            return None
        num, out = Sz(dict(self.t)), Sz({})
        lead = max(o.t, key=lambda k: (len(k), k))
        for _ in range(40):
            if not num.t:
                return out
            k = max(num.t, key=lambda k: (len(k), k))
            rest = list(k)
            try:
                for s in lead:
                    rest.remove(s)
            except ValueError:
                return None
            q = Sz({tuple(rest): num.t[k] / o.t[lead]})
            out = out.add(q)
            num = num.add(q.mul(o), -1)
            num = Sz({a: v for a, v in num.t.items() if abs(v) > 1e-9})
        return None

    def low(self):
        """lower bound, when no coefficient but the constant is negative"""
        s = 0
        for k, v in self.t.items():
            if v < 0 and k:
                return None
            m = 1
            for n in k:
                m *= self.LOW.get(n, 1)
            s += v * m
        return s

    def a_bin(self, m, op, other, rev):
        o = Sz.of(other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if op == "+":
            return a.add(b).norm()
        if op == "-":
            return a.add(b, -1).norm()
        if op == "*":
            return a.mul(b).norm()
        if op in ("/", "//"):
            if not b.t:
                raise AExc("ZeroDivisionError")
            r = a.div(b)
            return m.derive(what="/") if r is None else r.norm()
        if op == "%":
            r = a.div(b)
            if r is not None:
                return 0
        return NotImplemented

    def a_un(self, m, op):
        if op == "-":
            return Sz({k: -v for k, v in self.t.items()})
        if op == "+":
            return self
        return NotImplemented

    def a_conv(self, m, name):
        return self if name in ("int", "float", "abs", "round") else \
            NotImplemented

    def a_truth(self, m):
        return m.truth(m.compare("!=", self, 0))

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("int", "Number", "Integral", "Real",
                                        "object") for n in names)

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in"):
            return NotImplemented
        if op in ("is", "is not"):
            if other is None:
                return op == "is not"
            return self is other if op == "is" else self is not other
        o = Sz.of(other)
        if o is None:
            return {"==": False, "!=": True}.get(op, NotImplemented)
        a, b = (o, self) if rev else (self, o)
        d = a.add(b, -1)
        if op in ("==", "!="):
            if not d.t:
                return op == "=="
            for x in (d, Sz({}).add(d, -1)):
                lo = x.low()
                if lo is not None and lo > 0:
                    return op == "!="
            return NotImplemented
        if op in ("<", "<="):
            d = Sz({}).add(d, -1)
            op = {"<": ">", "<=": ">="}[op]
        lo, hi = d.low(), Sz({}).add(d, -1).low()
        if op == ">":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi >= 0:
                return False
        else:
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi > 0:
                return False
        return NotImplemented

    def a_attr(self, m, name):
        if name == "is_integer":
            return lambda: True
        return NotImplemented

    def __str__(self):
        return " + ".join("*".join(
            ([] if v == 1 and k else [f"{v:g}"]) + list(k))
            for k, v in self.t.items()) or "0"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


def same(a, b):
    a, b = Sz.of(a), Sz.of(b)
    return a is not None and b is not None and not Sz(
        {k: v for k, v in a.add(b, -1).t.items() if abs(v) > 1e-9}).t


# ------------------------------------------------------------------- layout
class Leaf:
    def __init__(self, name, size):
        self.name, self.size = name, Sz.of(size)

    def __repr__(self):
        return self.name


class Cat:
    """parts one after another: [(factors...)]"""

    def __init__(self, parts):
        self.parts = [tuple(p) for p in parts]

    @property
    def size(self):
        r = Sz({})
        for p in self.parts:
            r = r.add(prod(p))
        return r

    def __repr__(self):
        return "[" + "|".join(" x ".join(map(repr, p))
                              for p in self.parts) + "]"


def prod(factors):
    r = Sz({(): 1})
    for f in factors:
        r = r.mul(f.size)
    return r


def cat(parts):
    parts = [p for p in parts if p is not None]
    return parts[0] if len(parts) == 1 and len(parts[0]) == 1 else (
        Cat(parts),)


class Arr(AObj):
    def __init__(self, dims, contig=True, vax=False, bad=None):
        self.dims = tuple(tuple(d) for d in dims)
        self.contig, self.vax, self.bad = contig, vax, bad

    def but(self, **k):
        a = dict(dims=self.dims, contig=self.contig, vax=self.vax,
                 bad=self.bad)
        a.update(k)
        return Arr(**a)

    def shape(self):
        return tuple(prod(d).norm() for d in self.dims)

    def factors(self):
        return tuple(f for d in self.dims for f in d)

    def a_truth(self, m):
        return None

    def a_len(self, m):
        return self.shape()[0]

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n in ("numpy.ndarray", "object") for n in names)

    def a_attr(self, m, name):
        if name == "shape":
            return self.shape()
        if name == "ndim":
            return len(self.dims)
        if name == "size":
            return prod(self.factors()).norm()
        if name == "T":
            return self.transpose(tuple(reversed(range(len(self.dims)))))
        if name == "flags":
            return Flags(self)
        return NotImplemented

    def transpose(self, order):
        if sorted(order) != list(range(len(self.dims))):
            raise AExc("ValueError")
        same_order = tuple(order) == tuple(range(len(order)))
        return self.but(dims=[self.dims[i] for i in order],
                        contig=self.contig and same_order)

    def moveaxis(self, m, a, b):
        n = len(self.dims)
        a = a if isinstance(a, (tuple, list)) else (a,)
        b = b if isinstance(b, (tuple, list)) else (b,)
        if not all(isinstance(x, int) for x in tuple(a) + tuple(b)):
            raise Undecided("axis")
        if any(not -n <= x < n for x in tuple(a) + tuple(b)):
            raise AExc("AxisError")
        a, b = [x % n for x in a], [x % n for x in b]
        order = [i for i in range(n) if i not in a]
        for d, s in sorted(zip(b, a)):
            order.insert(d, s)
        return self.transpose(tuple(order))

    def reshape(self, m, shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        want = list(shape)
        if any(isinstance(w, Top) for w in want):
            raise Undecided("shape")
        if not all(self.dims[i] == () or self.dims[i] for i in range(
                len(self.dims))):
            raise Undecided("shape")
        fs = list(self.factors())
        if not self.contig and len(self.dims) > 1:
            # values are taken in C order of the view: still its dimensions
            pass
        holes = [i for i, w in enumerate(want) if w == -1 or isinstance(
            w, int) and w == -1]
        if len(holes) == 1:
            total = prod(fs)
            rest = Sz({(): 1})
            for i, w in enumerate(want):
                if i != holes[0]:
                    rest = rest.mul(Sz.of(w))
            q = total.div(rest)
            if q is None:
                return self.broken(m, f"reshape to {want}")
            want[holes[0]] = q.norm()
        elif holes:
            raise AExc("ValueError")
        total = Sz({(): 1})
        for w in want:
            if Sz.of(w) is None:
                raise Undecided("shape")
            total = total.mul(Sz.of(w))
        if not same(total, prod(fs)):
            m.event("shape", f"{len(want)}-dimensional reshape to "
                    f"({', '.join(str(w) for w in want)}) of "
                    f"{prod(fs)} values")
            raise AExc("ValueError")
        dims = []
        for i, w in enumerate(want):
            got, size = [], Sz({(): 1})
            while fs and not same(size, w):
                f = fs.pop(0)
                got.append(f)
                size = size.mul(f.size)
            while fs and same(fs[0].size, 1) and i == len(want) - 1:
                got.append(fs.pop(0))
            if not same(size, w):
                return self.broken(m, f"reshape to {want}")
            dims.append(got)
        if fs:
            if all(same(f.size, 1) for f in fs):
                dims[-1] += fs
            else:
                return self.broken(m, f"reshape to {want}")
        return self.but(dims=dims, contig=True)

    def broken(self, m, why):
        """the dimensions no longer follow the layout of the file"""
        if self.bad:
            return self
        return Arr((), self.contig, self.vax, why)

    def a_method(self, m, name, args, kw, node):
        if self.bad:
            return self
        if name == "reshape":
            return self.reshape(m, args if args else [kw.get(
                "shape", kw.get("newshape"))])
        if name in ("copy",):
            return self.but(contig=True)
        if name in ("ravel", "flatten"):
            return self.but(dims=[self.factors()], contig=True)
        if name in ("astype", "byteswap", "view", "newbyteorder"):
            return self
        if name == "transpose":
            o = args[0] if len(args) == 1 and isinstance(
                args[0], (tuple, list)) else args
            return self.transpose(tuple(o) if o else tuple(reversed(range(
                len(self.dims)))))
        if name == "swapaxes":
            o = list(range(len(self.dims)))
            a, b = args
            o[a], o[b] = o[b], o[a]
            return self.transpose(tuple(o))
        if name == "squeeze":
            return self.squeeze(args[0] if args else kw.get("axis"))
        return NotImplemented

    def squeeze(self, axis=None):
        d = [x for i, x in enumerate(self.dims) if not (same(
            prod(x), 1) and (axis is None or i == axis))]
        return self.but(dims=d)

    def cut(self, m, i, sl):
        """dimension i of self sliced"""
        d = self.dims[i]
        if sl.step not in (None, 1):
            if sl.step == -1 and sl.start is None and sl.stop is None:
                return None
            return None
        total = prod(d)
        lo = self.pos(sl.start, total, Sz({}))
        hi = self.pos(sl.stop, total, total)
        if lo is None or hi is None:
            raise Undecided("slice")
        if not lo.t and same(hi, total):
            return d
        big = [f for f in d if not same(f.size, 1)]
        parts = big[0].parts if len(big) == 1 and isinstance(
            big[0], Cat) else [d]
        at, keep, inside = Sz({}), [], False
        starts = []
        for p in parts:
            starts.append(at)
            at = at.add(prod(p))
        starts.append(at)
        a = [k for k, s in enumerate(starts) if same(s, lo)]
        b = [k for k, s in enumerate(starts) if same(s, hi)]
        if not a or not b:
            return None
        keep = parts[a[0]:b[-1]]
        if not keep:
            return (Leaf("nothing", 0),)
        if len(keep) == 1:
            return tuple(keep[0])
        return (Cat(keep),)

    @staticmethod
    def pos(x, total, dflt):
        if x is None:
            return dflt
        s = Sz.of(x)
        if s is None:
            return None
        lo = s.low()
        if lo is not None and lo >= 0:
            return s
        neg = Sz({}).add(s, -1).low()
        if neg is not None and neg > 0:
            return total.add(s)
        return None

    def a_item(self, m, k):
        if self.bad:
            return self
        ks = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in ks:
            i = ks.index(Ellipsis)
            ks[i:i + 1] = [slice(None)] * (len(self.dims) - len(ks) + 1)
        if len(ks) > len(self.dims):
            raise AExc("IndexError")
        dims, contig = [], self.contig
        for i, d in enumerate(self.dims):
            x = ks[i] if i < len(ks) else slice(None)
            if isinstance(x, slice):
                n = self.cut(m, i, x)
                if n is None:
                    return self.broken(
                        m, "a slice through the middle of a plane")
                if n is not d and tuple(n) != tuple(d) and any(
                        not same(prod(y), 1) for y in dims):
                    contig = False
                dims.append(n)
            elif isinstance(x, int) and same(prod(d), 1):
                pass
            elif isinstance(x, int):
                contig = contig and i == 0
                return self.broken(m, "one element of a dimension")
            else:
                raise Undecided("index")
        return self.but(dims=dims, contig=contig)


class Flags(AObj):
    def __init__(self, arr):
        self.arr = arr

    def flag(self, k):
        if str(k).upper() in ("C_CONTIGUOUS", "C", "CONTIGUOUS",
                              "C_CONTIG"):
            return self.arr.contig
        return NotImplemented

    def a_item(self, m, k):
        return self.flag(k)

    def a_attr(self, m, name):
        return self.flag(name)


class ImageModel(Model):
    def __init__(self, prog):
        self.p = prog

    def func_call(self, m, func, args, kw, node, me):
        if func.qual == NPREAD:
            d = dict(zip(func.param_names(), args))
            d.update(kw)
            return self.read(m, d.get("count"), d.get("offset"))
        if func.qual == "pdr.utils.decompress":
            return Top(what="file")
        if func.name == "sample_types":
            return ">i2"
        return NotImplemented

    def read(self, m, count, offset):
        m.event("read", count)
        return Arr([m.raw])

    def ext_call(self, m, name, args, kw, node):
        a = args[0] if args else None
        if name == "numpy.fromfile":
            n = kw.get("count", args[2] if len(args) > 2 else None)
            return self.read(m, n, None)
        if name.startswith("vax.") and isinstance(a, Arr):
            return a.but(vax=True, contig=True)
        if name.startswith("warnings."):
            return None
        if not isinstance(a, Arr):
            if name in ("numpy.dtype",):
                return Top(what="dtype")
            return NotImplemented
        if a.bad:
            return a
        if name in ("numpy.moveaxis",):
            b = list(args[1:]) + [kw[k] for k in ("source", "destination")
                                  if k in kw]
            return a.moveaxis(m, *b)
        if name == "numpy.rollaxis":
            if len(args) == 2:
                return a.moveaxis(m, args[1], 0)
        if name == "numpy.reshape":
            return a.reshape(m, args[1:] or [kw.get("shape")])
        if name == "numpy.transpose":
            o = args[1] if len(args) > 1 else kw.get("axes")
            return a.transpose(tuple(o) if o else tuple(reversed(range(
                len(a.dims)))))
        if name == "numpy.swapaxes":
            return a.a_method(m, "swapaxes", args[1:], kw, node)
        if name == "numpy.squeeze":
            return a.squeeze(args[1] if len(args) > 1 else kw.get("axis"))
        if name in ("numpy.ascontiguousarray", "numpy.require"):
            return a.but(contig=True)
        if name == "numpy.ravel":
            return a.but(dims=[a.factors()], contig=True)
        if name in ("numpy.array", "numpy.asarray", "numpy.copy",
                    "numpy.asanyarray"):
            if kw.get("order") == "C":
                return a.but(contig=True)
            return a
        return NotImplemented


# ---------------------------------------------------------------- scenarios
NROWS, NCOLS = Sz.sym("LINES"), Sz.sym("SAMPLES")
NBANDS = Sz.sym("BANDS", 2)
LP, LS = Sz.sym("line_prefix"), Sz.sym("line_suffix")
PADS = {(s, a): Sz.sym(f"{s}_{a}") for s in ("prefix", "suffix")
        for a in ("band", "line", "sample")}
BST = {"BAND_SEQUENTIAL": "BLS", "LINE_INTERLEAVED": "LBS",
       "SAMPLE_INTERLEAVED": "LSB"}
LONG = {"B": "band", "L": "line", "S": "sample"}


class Scene:
    """one class of labels: what it declares, and what a correct reader of
    it has to do"""

    def __init__(self, kind, bands, bst, lp, ls, pads, vax, zero=()):
        self.kind, self.bands, self.bst = kind, bands, bst
        self.lp, self.ls, self.pads, self.vax = lp, ls, pads, vax
        self.zero = zero

    def name(self):
        out = [self.kind]
        out.append({None: "no BANDS", 1: "1 band"}.get(
            0 if isinstance(self.bands, Sz) else self.bands,
            "several bands"))
        out.append(str(self.bst))
        if self.lp:
            out.append("line prefix")
        if self.ls:
            out.append("line suffix")
        out += [f"{s} planes along the {a} axis" for s, a in self.pads]
        out += [f"no {s} planes declared along the {a} axis"
                for s, a in self.zero]
        if self.vax:
            out.append("VAX reals")
        return ", ".join(out)

    def multi(self):
        return isinstance(self.bands, Sz)

    def order(self):
        if not self.multi() and not any(a == "band" for _, a in self.pads):
            return "BLS"
        return BST.get(self.bst, "BLS")

    def raw(self):
        """factors of the file, slowest first"""
        core = {"B": NBANDS if self.multi() else 1, "L": NROWS, "S": NCOLS}
        ax = {}
        for x, size in core.items():
            a = LONG[x]
            parts = [
                (Leaf(f"prefix {a}s", PADS["prefix", a]),)
                if ("prefix", a) in self.pads else None,
                (Leaf(x, size),),
                (Leaf(f"suffix {a}s", PADS["suffix", a]),)
                if ("suffix", a) in self.pads else None]
            ax[x] = cat(parts)
        o = self.order()
        if self.lp or self.ls:
            line = o.replace("L", "") if o[0] == "L" else "S"
            inner = tuple(f for x in line for f in ax[x])
            c = cat([(Leaf("line prefix", LP),) if self.lp else None,
                     inner,
                     (Leaf("line suffix", LS),) if self.ls else None])
            return tuple(f for x in o if x not in line
                         for f in ax[x]) + c
        return tuple(f for x in o for f in ax[x])

    def must_read(self):
        """the reader supports these"""
        if self.kind == "IMAGE":
            if self.multi() and self.bst not in BST:
                return False
            if self.lp or self.ls:
                return not self.multi() or self.bst == "LINE_INTERLEAVED"
            return True
        if self.lp or self.ls:
            return not self.pads and (not self.multi() or
                                      self.bst == "LINE_INTERLEAVED")
        return len({a for _, a in self.pads}) <= 1 and not (
            not self.multi() and any(a == "band" for _, a in self.pads))

    def block(self):
        b = {}
        if self.lp:
            b["LINE_PREFIX_BYTES"] = LP.mul(Sz.of(2))
        if self.ls:
            b["LINE_SUFFIX_BYTES"] = LS.mul(Sz.of(2))
        if ("line", "zero") in self.zero:
            b["LINE_SUFFIX_BYTES"] = 0
        if self.kind == "IMAGE":
            b.update({"LINES": NROWS, "LINE_SAMPLES": NCOLS,
                      "SAMPLE_BITS": 16,
                      "SAMPLE_TYPE": "VAX_REAL" if self.vax
                      else "MSB_INTEGER"})
            if self.bands is not None:
                b["BANDS"] = self.bands
            if self.bst is not None:
                b["BAND_STORAGE_TYPE"] = self.bst
            return b
        names = tuple(LONG[x].upper() for x in reversed(
            BST.get(self.bst, "BLS")))
        size = {"BAND": self.bands, "LINE": NROWS, "SAMPLE": NCOLS}
        b.update({"AXES": 3, "AXIS_NAME": names,
                  "CORE_ITEMS": tuple(size[n] for n in names),
                  "CORE_ITEM_BYTES": 2,
                  "CORE_ITEM_TYPE": "VAX_REAL" if self.vax
                  else "MSB_INTEGER"})
        for side in ("prefix", "suffix"):
            mine = [a for s, a in self.pads if s == side]
            zero = [a for s, a in self.zero if s == side]
            if mine or zero:
                b[f"{side.upper()}_ITEMS"] = tuple(
                    PADS[side, n.lower()] if n.lower() in mine else 0
                    for n in names)
                for a in mine + zero:
                    b[f"{a.upper()}_{side.upper()}_ITEM_BYTES"] = 2
        return b


def scenes(tier):
    for bands, bst, lp, ls, vax in itertools.product(
            (None, 1, NBANDS), (None, "ODD") + tuple(BST), (0, 1), (0, 1),
            (0, 1)):
        if bands is None and bst is not None:
            continue
        yield Scene("IMAGE", bands, bst, lp, ls, (), vax)
    keys = list(PADS)
    sets = [()] + [(k,) for k in keys] + list(itertools.combinations(
        keys, 2))
    if tier == "thorough":
        for n in (3, 4, 5, 6):
            sets += list(itertools.combinations(keys, n))
    for bands, bst, given in itertools.product((1, NBANDS), BST, (0, 1)):
        for pads in sets:
            fixes = ((0, 0), (1, 0), (0, 1), (1, 1)) if not pads else (
                (0, 0), (1, 0))
            for lp, ls in fixes:
                for vax in (0, 1) if len(pads) < 2 and not lp else (0,):
                    s = Scene("QUBE", bands, bst, lp, ls, pads, vax)
                    s.given = given
                    yield s
        for z in keys:
            for p in [()] + [(k,) for k in keys if k != z]:
                s = Scene("QUBE", bands, bst, 0, 0, p, 0, (z,))
                s.given = given
                yield s


def judge(sc, path, m):
    """-> list of (rule, msg)"""
    out = []
    reads = [e for e in path.events if e[0] == "read"]
    if path.kind == "raise":
        why = [e[1] for e in path.events if e[0] == "shape"]
        if reads:
            out.append(("C20.refuse", f"fails with {path.value.name} after "
                        "the data were read" + (
                            f" ({why[0]})" if why else "")))
        elif sc.must_read():
            out.append(("C20.read", f"is refused with {path.value.name}"))
        return out
    a = path.value
    if not isinstance(a, Arr):
        raise Undecided("result")
    raw = prod(sc.raw())
    for _, n in reads:
        if n is None or isinstance(n, int) and n == -1:
            out.append(("C20.extent", "reads to the end of the file instead "
                        "of the image's extent"))
        elif Sz.of(n) is None:
            raise Undecided("count")
        elif not same(n, raw):
            out.append(("C20.extent", f"reads {n} values where the label "
                        f"declares {raw}"))
    if a.bad:
        out.append(("C20.layout", f"is taken apart against its layout in "
                    f"the file ({a.bad})"))
        return out
    want = ["B", "L", "S"] if len(a.dims) == 3 else ["L", "S"]
    if len(a.dims) == 2 and sc.multi() or len(a.dims) not in (2, 3):
        out.append(("C20.axes", f"comes out with {len(a.dims)} axes"))
        return out
    got = []
    for d in a.dims:
        names = [getattr(f, "name", None) or repr(f) for f in d]
        if not sc.multi():
            names = [n for n in names if n != "B"] or (
                ["B"] if names else [])
        got.append(" x ".join(names))
    pads = [g for g in got if "fix" in g or "nothing" in g]
    if any("nothing" in g for g in got):
        out.append(("C20.planes", "comes out empty"))
    elif pads:
        out.append(("C20.planes", f"comes out with {pads[0]} still in it"))
    elif got != want:
        ax = ", ".join(LONG.get(g, g) for g in got)
        out.append(("C20.axes", f"comes out with axes ({ax})"))
    if not a.contig:
        out.append(("C20.contiguous", "is not C-contiguous"))
    if a.vax is not bool(sc.vax):
        out.append(("C20.vax", "has its VAX reals left unconverted"
                    if sc.vax else "is converted as VAX reals though it is "
                    "not"))
    return out


def check(ctx, rep, tier):
    rep.rule("C20.axes", "over every class of label the image that leaves "
             "the reader has its bands first, then lines and samples")
    rep.rule("C20.layout", "values are divided into dimensions in the order "
             "in which the band storage type lays them out")
    rep.rule("C20.planes", "no declared line prefix/suffix or side plane is "
             "left and nothing else is removed")
    rep.rule("C20.extent", "exactly the values the label declares are read")
    rep.rule("C20.contiguous", "the image is C-contiguous")
    rep.rule("C20.vax", "VAX reals, and only those, are converted")
    rep.rule("C20.refuse", "a combination that cannot be read is refused "
             "before any byte is read")
    rep.rule("C20.read", "supported combinations are not refused")
    rep.assume("sizes are abstract: every count is either zero or any "
               "positive number; several bands means two or more")
    rep.assume("numpy's reshape, slicing, moveaxis, transpose and "
               "ascontiguousarray behave as documented")
    prog = ctx.prog
    reader = prog.funcs.get(READ)
    props = {"IMAGE": prog.funcs.get(IMAGE), "QUBE": prog.funcs.get(QUBE)}
    if reader is None or None in props.values():
        rep.undecide("the generic reader or its queries are not found")
        return
    x = Machine(prog, ImageModel(prog))
    worst = {}
    for sc in scenes(tier):
        rep.count("classes of label")
        x.raw = sc.raw()

        def go(m, sc=sc):
            b = sc.block()
            if sc.kind == "IMAGE":
                p = m.call_func(props["IMAGE"], [b, ">i2"], {}, None)
            else:
                p = m.call_func(props["QUBE"], [
                    b, sc.bst if sc.given else None], {}, None)
            return m.call_func(reader, [sc.kind, p, "file", 0], {}, None)
        try:
            got = []
            for path in x.paths(go, lambda m: ((), {})):
                rep.count("paths")
                got += judge(sc, path, x)
        except Undecided as e:
            rep.undecide(f"{sc.name()}: {e}")
            continue
        rep.count("classes of label decided")
        for rule, msg in got:
            worst.setdefault((rule, sc.kind, shape_of(rule, sc)), (sc, msg))
    for (rule, kind, what), (sc, msg) in sorted(worst.items()):
        rep.find(rule, f"{kind}|{what}", f"{reader.file}:{reader.line}",
                 f"an object with {sc.name()} {msg}")
    for f in sorted(x.functions):
        rep.sample(f)
    rep.count("functions followed", len(x.functions))


def shape_of(rule, sc):
    """which part of the reader a finding is about"""
    out = ["several bands" if sc.multi() else "one band"]
    if sc.multi() and rule not in ("C20.vax", "C20.contiguous"):
        out.append(str(sc.bst))
    if sc.lp or sc.ls:
        out.append("line fix")
    if sc.pads and rule not in ("C20.vax",):
        out.append("planes along several axes" if len({
            a for _, a in sc.pads}) > 1 else f"{sc.pads[0][1]} planes")
    if sc.zero:
        out.append("empty planes")
    if rule == "C20.vax":
        out.append("VAX" if sc.vax else "not VAX")
    return ", ".join(out)
