"""Arrays with known shapes whose elements are labels: where they end up shows
which axis is which, and whether an object is an array, a data frame or
neither."""
from __future__ import annotations

import itertools
from math import prod

from .absint import AExc, AObj, BoundM, Top, Undecided
from .coldata import DT, Table, dtype_of
from .frames import Labels

ARRAYS = {"ndarray": ("ndarray",),
          "recarray": ("recarray", "ndarray"),
          "FITS_rec": ("FITS_rec", "recarray", "ndarray"),
          "memmap": ("memmap", "ndarray"),
          "chararray": ("chararray", "ndarray"),
          "MaskedArray": ("MaskedArray", "ndarray"),
          "_VLF": ("_VLF", "ndarray"),
          "PDS_ndarray": ("PDS_ndarray", "PDS_array", "ndarray"),
          "PDS_marray": ("PDS_marray", "PDS_array", "MaskedArray",
                         "ndarray")}


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.append(n)
        n *= s
    return out[::-1]


class ND(AObj):
    """an array"""
    tags = frozenset()

    def __init__(self, shape, el=None, dt=None, cls="ndarray", fields=None,
                 raw=None):
        self.shape, self.cls = tuple(shape), cls
        self.el = el                # flat, in C order; None for records
        self.fields = fields        # {name: ND of shape self.shape + sub}
        self.rawdt = raw            # [(name, DT)]: as they are stored
        self._dt = dt

    @property
    def pyclass(self):
        return CLASS.get(self.cls, "numpy.ma." + self.cls)

    @property
    def dt(self):
        if self.fields is None:
            return self._dt or DT("f", 8, "=")
        out, p = [], 0
        for n, f in self.fields.items():
            d = dict(self.rawdt)[n] if self.rawdt else f.dt if len(
                f.shape) == len(self.shape) else sub(
                    f.dt, f.shape[len(self.shape):])
            out.append((n, d, p))
            p += d.size
        return DT("V", p, "|", out)

    def key(self):
        return ("nd", id(self))

    def __str__(self):
        return f"<{self.cls} {self.shape}>"

    __repr__ = __str__

    def but(self, **k):
        r = ND(self.shape, self.el, self._dt, self.cls, self.fields,
               self.rawdt)
        for n, v in k.items():
            setattr(r, n, v)
        return r

    def plain(self):
        return self.but(cls="ndarray")

    def actual(self):
        """with the values it shows rather than those it stores"""
        return self.but(rawdt=None)

    # ------------------------------------------------------------- layout
    def reshape(self, shape):
        shape = list(shape)
        n = prod(self.shape)
        if shape.count(-1) == 1:
            rest = prod(s for s in shape if s != -1)
            if not rest or n % rest:
                raise AExc("ValueError")
            shape[shape.index(-1)] = n // rest
        if prod(shape) != n or any(s < 0 for s in shape):
            raise AExc("ValueError")
        if self.fields is not None:
            k = len(self.shape)
            return self.but(shape=tuple(shape), fields={
                n: f.reshape(tuple(shape) + f.shape[k:])
                for n, f in self.fields.items()})
        return self.but(shape=tuple(shape))

    def transpose(self, perm=None):
        nd = len(self.shape)
        perm = list(range(nd))[::-1] if perm is None else [
            self.axis(p) for p in perm]
        if sorted(perm) != list(range(nd)):
            raise AExc("ValueError")
        if self.fields is not None:
            if nd < 2:
                return self
            raise Undecided("records transposed")
        st = strides(self.shape)
        shape = tuple(self.shape[p] for p in perm)
        el = [self.el[sum(i * st[p] for i, p in zip(ix, perm))]
              for ix in itertools.product(*map(range, shape))]
        return self.but(shape=shape, el=el)

    def axis(self, a):
        nd = len(self.shape)
        if not isinstance(a, int) or isinstance(a, bool):
            raise Undecided("axis")
        if not -nd <= a < nd:
            raise AExc("AxisError")
        return a % nd

    def swap(self, a, b):
        perm = list(range(len(self.shape)))
        a, b = self.axis(a), self.axis(b)
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(perm)

    def move(self, src, dst):
        src = [src] if isinstance(src, int) else list(src)
        dst = [dst] if isinstance(dst, int) else list(dst)
        src, dst = [self.axis(a) for a in src], [self.axis(a) for a in dst]
        if len(src) != len(dst):
            raise AExc("ValueError")
        rest = [i for i in range(len(self.shape)) if i not in src]
        for d, s in sorted(zip(dst, src)):
            rest.insert(d, s)
        return self.transpose(rest)

    def roll(self, axis, start=0):
        nd = len(self.shape)
        axis = self.axis(axis)
        if start < 0:
            start += nd
        if not 0 <= start <= nd:
            raise AExc("AxisError")
        if axis < start:
            start -= 1
        perm = [i for i in range(nd) if i != axis]
        perm.insert(start, axis)
        return self.transpose(perm)

    def take(self, m, k):
        """basic indexing"""
        k = k if isinstance(k, tuple) else (k,)
        if any(not (x is None or x is Ellipsis or isinstance(x, slice)
                    or isinstance(x, int) and not isinstance(x, bool))
               for x in k):
            raise Undecided("index")
        nd = len(self.shape)
        used = sum(1 for x in k if x is not None and x is not Ellipsis)
        if used > nd:
            raise AExc("IndexError")
        if Ellipsis in k:
            i = k.index(Ellipsis)
            k = k[:i] + (slice(None),) * (nd - used) + k[i + 1:]
        else:
            k = k + (slice(None),) * (nd - used)
        if self.fields is not None:
            return self.but(fields={n: f.take(m, k) for n, f in
                                    self.fields.items()},
                            shape=ND(self.shape, [0] * prod(
                                self.shape)).take(m, k).shape) if not any(
                isinstance(x, int) for x in k) else Top(what="a record")
        shape, picks, ax = [], [], 0
        for x in k:
            if x is None:
                shape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(x, int):
                if not -n <= x < n:
                    raise AExc("IndexError")
                picks.append([x % n])
            else:
                try:
                    picks.append(list(range(n))[x])
                except TypeError:
                    raise Undecided("index")
                shape.append(len(picks[-1]))
            ax += 1
        st = strides(self.shape)
        el = [self.el[sum(i * s for i, s in zip(ix, st))]
              for ix in itertools.product(*picks)]
        if not shape and len(el) == 1:
            return Top(what="an element")
        return self.but(shape=tuple(shape), el=el)

    def cast(self, d, cls=None):
        if d is None:
            raise Undecided("dtype")
        if self.fields is None:
            if d.fields is not None:
                raise AExc("ValueError")
            return self.but(_dt=d, rawdt=None)
        if d.fields is None:
            if d.kind == "O":
                return ND(self.shape, [("a record", i) for i in range(
                    prod(self.shape))], d)
            raise AExc("TypeError")
        if len(d.fields) != len(self.fields):
            raise AExc("ValueError")
        return self.but(fields={n: f.but(_dt=x.sub[0] if x.sub else x)
                                for (n, x, _), f in zip(
                                    d.fields, self.fields.values())},
                        rawdt=None)

    # ------------------------------------------------------------- protocol
    def a_attr(self, m, name):
        if name == "shape":
            return self.shape
        if name == "ndim":
            return len(self.shape)
        if name == "size":
            return prod(self.shape)
        if name == "dtype":
            return self.dt
        if name == "T":
            return self.transpose()
        if name == "names" and self.cls == "FITS_rec":
            return list(self.fields)
        if name in ("base", "data", "mask", "fill_value"):
            return Top(what=name)
        if name == "flags":
            return Top(what="flags")
        return BoundM(self, name)

    def a_len(self, m):
        if not self.shape:
            raise AExc("TypeError")
        return self.shape[0]

    def a_truth(self, m):
        if prod(self.shape) > 1:
            raise AExc("ValueError")
        return False if not prod(self.shape) else NotImplemented

    def a_iter(self, m):
        if not self.shape:
            raise AExc("TypeError")
        return [self.take(m, i) for i in range(self.shape[0])]

    def a_item(self, m, k):
        if isinstance(k, str):
            if self.fields is None or k not in self.fields:
                raise AExc("KeyError" if self.cls == "FITS_rec"
                           else "ValueError")
            f = self.fields[k]
            return f if self.rawdt is None or self.cls == "FITS_rec" else \
                stored(f, dict(self.rawdt)[k])
        if isinstance(k, (list, Labels)) and k and all(
                isinstance(x, str) for x in k):
            if self.fields is None or any(x not in self.fields for x in k):
                raise AExc("KeyError")
            return self.but(fields={x: self.fields[x] for x in k},
                            rawdt=[r for r in self.rawdt if r[0] in k]
                            if self.rawdt else None)
        return self.take(m, k)

    def a_setitem(self, m, k, v):
        if isinstance(k, str) and self.fields and k in self.fields and \
                isinstance(v, ND):
            self.fields[k] = v
            return None
        raise Undecided("array changed")

    def a_bin(self, m, op, other, rev):
        return self.but(el=None if self.el is None else [
            (op, e) for e in self.el], cls=self.cls)

    def a_inplace(self, m, op, other):
        return self.a_bin(m, op, other, False)

    def a_cmp(self, m, op, other, rev):
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        return m.derive(self, what=op)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        mro = ARRAYS.get(self.cls, (self.cls, "ndarray"))
        return any(n.split(".")[-1] in mro + ("object",) for n in names)

    def a_conv(self, m, name):
        return NotImplemented

    def a_method(self, m, name, a, kw, node):
        if name in ("copy", "compute", "__array__", "squeeze", "tobytes",
                    "newbyteorder", "byteswap", "filled", "to_numpy"):
            if name == "squeeze":
                return self.reshape([s for s in self.shape if s != 1])
            if name == "byteswap":
                if a and a[0] is True or kw.get("inplace") is True:
                    self.el = swapped(self).el
                    self.fields = swapped(self).fields
                    return self
                return swapped(self)
            if name == "newbyteorder":
                raise AExc("AttributeError")
            if name == "tobytes":
                return Top(what="bytes")
            return self.plain() if name in ("__array__", "filled") else \
                self.but()
        if name == "reshape":
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) \
                else a
            if any(not isinstance(x, int) for x in s):
                raise Undecided("shape")
            return self.reshape(s)
        if name in ("ravel", "flatten"):
            return self.reshape([-1] if prod(self.shape) else [0])
        if name == "transpose":
            s = a[0] if len(a) == 1 and (isinstance(
                a[0], (tuple, list)) or a[0] is None) else a or None
            return self.transpose(s)
        if name == "swapaxes":
            return self.swap(*a)
        if name == "astype":
            x = a[0] if a else kw.get("dtype")
            return self.cast(dtype_of(m, x))
        if name == "view":
            x = a[0] if a else kw.get("dtype", kw.get("type"))
            c = classname(x)
            if c in ARRAYS:
                return self.but(cls=c)
            d = dtype_of(m, x)
            if d is None:
                raise Undecided("view")
            if self.fields is None and d.fields is None and d.size and \
                    d.size != self.dt.size:
                raise Undecided("view")
            o = self.cast(d)
            return flagged(self, o)
        if name == "tolist":
            return Top(what="list")
        if name in ("field",) and a:
            return self.a_item(m, a[0])
        if name in ("max", "min", "sum", "mean", "any", "all"):
            return Top(what=name)
        return NotImplemented


CLASS = {"ndarray": "numpy.ndarray", "recarray": "numpy.recarray",
         "FITS_rec": "astropy.io.fits.fitsrec.FITS_rec"}


def classname(x):
    n = getattr(x, "name", None)
    return n.split(".")[-1] if isinstance(n, str) else None


def sub(d, shape):
    return DT("V", d.size * prod(shape), "|", None, (d, tuple(shape)))


def swapped(x):
    if x.fields is not None:
        return x.but(fields={n: swapped(f) for n, f in x.fields.items()})
    if x.dt.kind not in "iufc" or x.dt.size < 2:
        return x.but()
    return x.but(el=[e[1] if isinstance(e, tuple) and e and e[0] == "swapped"
                     else ("swapped", e) for e in x.el])


def flagged(old, new):
    """a view: where the dtype's byte order changes and the bytes do not,
    the values are others"""
    if new.fields is not None:
        return new.but(fields={
            n: flagged(o, f) for (n, f), o in zip(
                new.fields.items(), old.fields.values())})
    if old.dt.order != new.dt.order and old.dt.size > 1 and {
            old.dt.order, new.dt.order} == {"<", ">"}:
        return new.but(el=swapped(old).el)
    return new


def stored(f, d):
    """the field as it is in the file, where that is another dtype"""
    b = d.sub[0] if d.sub else d
    if b.kind == f.dt.kind or (b.kind, f.dt.kind) in (("S", "U"),):
        return f.plain()
    return ND(f.shape[:1] + d.subshape(), [
        ("stored", i) for i in range(prod(f.shape[:1] + d.subshape()))], b)


def filled(name, shape, dt, rows=None, cls="ndarray"):
    return ND(shape, [(name,) + ix for ix in itertools.product(
        *map(range, shape))], dt, cls)


def frame(x, columns=None):
    """what pandas makes of an array"""
    if x.fields is not None:
        if len(x.shape) != 1 or any(len(x.a_item(None, n).shape) != 1
                                    for n in x.fields):
            raise AExc("ValueError")
        cols = [(n, x.a_item(None, n)) for n in x.fields]
        if any(not f.dt.native() for _, f in cols):
            pass
        return Table([(n, f.plain()) for n, f in cols])
    if len(x.shape) == 1:
        cols = [(0, x.plain())]
    elif len(x.shape) == 2:
        cols = [(i, x.take(None, (slice(None), i)).plain())
                for i in range(x.shape[1])]
    else:
        raise AExc("ValueError")
    if columns is not None:
        if len(columns) != len(cols):
            raise AExc("ValueError")
        cols = [(n, c) for n, (_, c) in zip(columns, cols)]
    return Table(cols)


def stacked(xs, axis):
    s = xs[0].shape
    if any(x.shape != s or x.fields is not None for x in xs):
        raise AExc("ValueError")
    r = ND((len(xs),) + s, [e for x in xs for e in x.el], xs[0]._dt)
    return r.move(0, axis) if axis else r


def seq(m, x):
    if isinstance(x, ND):
        return list(x.a_iter(m))
    return list(m.iterate(x))


def nd_call(m, name, a, kw, node):
    """numpy and pandas over known arrays, or NotImplemented"""
    last = name.split(".")[-1]
    x = a[0] if a else kw.get("a", kw.get("data", kw.get("object", kw.get(
        "arr", kw.get("m")))))
    if name.startswith("numpy."):
        if last in ("array", "asarray", "ascontiguousarray", "copy",
                    "asfortranarray", "require", "asanyarray",
                    "asarray_chkfinite"):
            d = kw.get("dtype", a[1] if len(a) > 1 else None)
            if isinstance(x, AObj) and not isinstance(x, ND):
                r = x.a_method(m, "__array__", [], {}, node) if hasattr(
                    x, "isimage") else NotImplemented
                if r is NotImplemented:
                    return NotImplemented
                x = r
            if isinstance(x, ND):
                keep = last == "asanyarray" or kw.get("subok") is True
                r = x if keep else x.plain()
                if x.cls == "FITS_rec" and not keep and x.rawdt:
                    r = x.but(cls="ndarray")
                return r.but() if d is None else r.cast(dtype_of(m, d))
            if isinstance(x, (list, tuple)) and not x:
                return ND((0,), [], dtype_of(m, d) if d is not None
                          else None)
            if isinstance(x, (list, tuple)) and all(
                    isinstance(v, ND) for v in x):
                return stacked(list(x), 0)
            return NotImplemented
        if last in ("empty", "zeros", "ones", "full"):
            s = x if x is not None else kw.get("shape")
            s = (s,) if isinstance(s, int) else s
            if isinstance(s, (tuple, list)) and all(
                    isinstance(i, int) for i in s):
                return ND(s, [(last, i) for i in range(prod(s))])
            return NotImplemented
        if last == "fromarrays":
            xs = seq(m, x)
            d = kw.get("dtype", a[1] if len(a) > 1 else None)
            if not xs or any(not isinstance(v, ND) for v in xs):
                return NotImplemented
            if d is None:
                ns = kw.get("names")
                ns = [n.strip() for n in ns.split(",")] if isinstance(
                    ns, str) else list(ns) if ns is not None else [
                        f"f{i}" for i in range(len(xs))]
                return ND(xs[0].shape[:1], None, None, "recarray",
                          dict(zip(ns, (v.plain() for v in xs))))
            d = dtype_of(m, d)
            if d is None:
                raise Undecided("dtype")
            if d.fields is None or len(d.fields) != len(xs):
                raise AExc("ValueError")
            n = len(d.fields[0][1].subshape())
            lead = xs[0].shape[:len(xs[0].shape) - n]
            out = {}
            for (fn, fd, _), v in zip(d.fields, xs):
                if v.shape != lead + fd.subshape():
                    raise AExc("ValueError")
                out[fn] = v.plain().cast(fd.sub[0] if fd.sub else fd)
            return ND(lead, None, None, "recarray", out)
        if last in ("stack", "dstack", "array") and x is not None and \
                not isinstance(x, AObj):
            xs = seq(m, x)
            if xs and all(isinstance(v, ND) for v in xs):
                if last == "dstack":
                    return stacked(xs, 2)
                return stacked(xs, kw.get("axis", a[1] if len(a) > 1
                                          else 0))
        if not isinstance(x, ND):
            return NotImplemented
        rest = list(a[1:])

        def arg(i, n, default=None):
            return rest[i] if len(rest) > i else kw.get(n, default)
        if last == "rollaxis":
            return x.roll(arg(0, "axis"), arg(1, "start", 0))
        if last == "moveaxis":
            return x.move(arg(0, "source"), arg(1, "destination"))
        if last == "swapaxes":
            return x.swap(arg(0, "axis1"), arg(1, "axis2"))
        if last in ("transpose", "permute_dims"):
            return x.transpose(arg(0, "axes"))
        if last == "reshape":
            s = arg(0, "shape", kw.get("newshape"))
            return x.reshape((s,) if isinstance(s, int) else s)
        if last in ("ravel", "squeeze"):
            return x.a_method(m, last, [], {}, node)
        if last == "expand_dims":
            return x.reshape(x.shape[:arg(0, "axis")] + (1,) + x.shape[
                arg(0, "axis"):]) if isinstance(arg(
                    0, "axis"), int) and arg(0, "axis") >= 0 else \
                NotImplemented
        if last == "atleast_1d":
            return x
        if last == "ndim":
            return len(x.shape)
        if last == "shape":
            return x.shape
        if last == "size":
            return prod(x.shape)
        return NotImplemented
    if name in ("pandas.DataFrame", "pandas.DataFrame.from_records",
                "pandas.DataFrame.from_dict"):
        if isinstance(x, ND):
            cols = kw.get("columns")
            return frame(x, list(m.iterate(cols)) if cols is not None
                         else None)
        if isinstance(x, dict) and x and all(isinstance(v, ND)
                                             for v in x.values()):
            if any(len(v.shape) != 1 for v in x.values()) or len(
                    {v.shape for v in x.values()}) > 1:
                raise AExc("ValueError")
            return Table([(k, v.plain()) for k, v in x.items()])
    if name == "pandas.concat" and isinstance(x, (list, tuple)) and x and \
            all(isinstance(t, Table) for t in x) and kw.get(
                "axis", 0) in (1, "columns"):
        return Table([c for t in x for c in t.c])
    return NotImplemented
