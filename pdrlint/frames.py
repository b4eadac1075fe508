"""Tables for the abstract interpreter: frames of known cells (format
definitions), and tables whose columns are only known by where their bytes
come from and what has been done to them."""
from __future__ import annotations

import re

from .absint import (AExc, AObj, BoundM, CONCRETE, Model, Top, Undecided,
                     deep_abstract)

NAN = float("nan")


def isnan(x):
    return isinstance(x, float) and x != x


def missing(x):
    return x is None or isnan(x)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def settle(vals):
    """missing cells or floats among numbers make the column floating
    point"""
    vals = list(vals)
    if any(missing(v) or isinstance(v, float) for v in vals) and any(
            num(v) for v in vals) and all(
            num(v) or missing(v) for v in vals):
        return [NAN if missing(v) else float(v) for v in vals]
    return vals


class Labels(list):
    """an index"""

    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def values(self):
        return self

    def copy(self):
        return Labels(self)

    @property
    def str(self):
        return LabelText(self)

    def map(self, f):
        return Labels(f(x) for x in self)

    def get_loc(self, x):
        return self.index(x)

    def isin(self, xs):
        return Ser([x in xs for x in self], None)

    def unique(self):
        return Labels(dict.fromkeys(self))

    def difference(self, xs):
        return Labels([x for x in self if x not in xs])

    def drop(self, xs):
        xs = xs if isinstance(xs, (list, tuple)) else [xs]
        return Labels([x for x in self if x not in xs])


class LabelText(AObj):
    """the string methods of an index"""

    tags = frozenset()

    def __init__(self, labels):
        self.labels = labels

    def a_method(self, m, name, a, kw, node):
        if any(isinstance(x, AObj) for x in [*a, *kw.values()]):
            return NotImplemented
        f = getattr(self, name, None)
        if name.startswith(("a_", "_")) or f is None:
            return NotImplemented
        return m.native(f, *a, **kw)

    def each(self, f):
        return Labels(f(x) if isinstance(x, str) else NAN
                      for x in self.labels)

    def replace(self, pat, repl, n=-1, case=None, flags=0, regex=False):
        if regex:
            return self.each(lambda x: re.sub(pat, repl, x, max(n, 0),
                                              flags))
        return self.each(lambda x: x.replace(pat, repl, n))

    def strip(self, chars=None):
        return self.each(lambda x: x.strip(chars))

    def lstrip(self, chars=None):
        return self.each(lambda x: x.lstrip(chars))

    def rstrip(self, chars=None):
        return self.each(lambda x: x.rstrip(chars))

    def lower(self):
        return self.each(str.lower)

    def upper(self):
        return self.each(str.upper)

    def removeprefix(self, t):
        return self.each(lambda x: x.removeprefix(t))

    def removesuffix(self, t):
        return self.each(lambda x: x.removesuffix(t))


def find(index, x):
    for i, y in enumerate(index):
        if type(x) is not AObj and y == x and (y is x or isinstance(
                y, str) == isinstance(x, str)):
            return i
    raise AExc("KeyError")


def elems(m, x):
    """a list of cells out of anything list-like"""
    if isinstance(x, Ser):
        return list(x.vals)
    if isinstance(x, (list, tuple, set, dict, range)):
        return list(x)
    return m.iterate(x)


class Ser(AObj):
    tags = frozenset()

    def __init__(self, vals, index=None, name=None):
        self.vals = list(vals)
        self.idx = Labels(range(len(self.vals)) if index is None else index)
        self.bare = index is None       # an array, not a series
        self.name = name

    def __str__(self):
        return f"<Ser {self.name} {self.vals}>"

    __repr__ = __str__

    def key(self):
        return ("ser", id(self))

    def like(self, vals, name=None):
        r = Ser(vals, self.idx, self.name)
        r.bare = self.bare
        return r

    def map(self, f):
        return self.like([f(v) for v in self.vals])

    # ------------------------------------------------------------ operators
    def zip(self, m, other, f):
        if isinstance(other, Ser):
            if other.bare or self.bare or list(other.idx) == list(self.idx):
                if len(other.vals) != len(self.vals):
                    if len(other.vals) == 1:
                        return self.map(lambda v: f(v, other.vals[0]))
                    raise AExc("ValueError")
                base = other if self.bare else self
                return base.like([f(a, b) for a, b in zip(self.vals,
                                                          other.vals)])
            idx = list(self.idx) + [i for i in other.idx
                                    if i not in self.idx]
            if all(isinstance(i, int) for i in idx):
                idx.sort()
            a = dict(zip(self.idx, self.vals))
            b = dict(zip(other.idx, other.vals))
            return Ser([f(a.get(i, NAN), b.get(i, NAN)) for i in idx], idx,
                       self.name)
        if isinstance(other, (list, tuple)):
            return self.zip(m, Ser(other), f)
        return self.map(lambda v: f(v, other))

    def a_bin(self, m, op, other, rev):
        if isinstance(other, AObj) and not isinstance(other, Ser):
            return NotImplemented

        def f(a, b):
            if rev:
                a, b = b, a
            if missing(a) or missing(b):
                return NAN
            return m.binop(op, a, b)
        return self.zip(m, other, f)

    def a_inplace(self, m, op, other):
        return self.a_bin(m, op, other, False)

    def a_un(self, m, op):
        if op == "~":
            return self.map(lambda v: (not v) if isinstance(v, bool)
                            else m.unop(op, v))
        return self.map(lambda v: m.unop(op, v))

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in"):
            if rev:     # x in series: its index; in an array: its values
                r = other in (self.vals if self.bare else list(self.idx))
                return r is (op == "in")
            return NotImplemented
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        swap = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        if rev:
            op = swap.get(op, op)

        def f(a, b):
            if missing(a) or missing(b):
                return op == "!="
            return m.compare(op, a, b)
        return self.zip(m, other, f)

    def a_truth(self, m):
        if len(self.vals) == 1:
            return m.truth(self.vals[0])
        raise AExc("ValueError")

    def a_iter(self, m):
        return list(self.vals)

    def a_len(self, m):
        return len(self.vals)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        last = [n.split(".")[-1] for n in names]
        return ("ndarray" if self.bare else "Series") in last or \
            "object" in last

    def a_conv(self, m, name):
        if name in ("int", "float") and len(self.vals) == 1:
            return m.native({"int": int, "float": float}[name],
                            self.vals[0])
        if name == "abs":
            return self.map(lambda v: abs(v))
        if name == "dict":
            return dict(zip(self.idx, self.vals))
        return NotImplemented

    # ------------------------------------------------------------- contents
    def mask(self, k):
        ks = k.vals if isinstance(k, Ser) else k
        if isinstance(ks, (list, tuple)) and len(ks) == len(
                self.vals) and ks and all(isinstance(x, bool) for x in ks):
            return [i for i, x in enumerate(ks) if x]
        return None

    def take(self, pos):
        r = Ser([self.vals[i] for i in pos], [self.idx[i] for i in pos],
                self.name)
        r.bare = self.bare
        if r.bare:
            r.idx = Labels(range(len(r.vals)))
        return r

    def a_item(self, m, k):
        hit = self.mask(k)
        if hit is not None:
            return self.take(hit)
        if isinstance(k, slice):
            return self.take(range(len(self.vals))[k])
        if isinstance(k, (Ser, list)):
            ks = elems(m, k)
            if self.bare:
                return self.take([int(i) for i in ks])
            return self.take([find(self.idx, x) for x in ks])
        if self.bare:
            return m.native(self.vals.__getitem__, k)
        return self.vals[find(self.idx, k)]

    def a_setitem(self, m, k, v):
        hit = self.mask(k)
        if hit is None:
            try:
                hit = [find(self.idx, k)] if not isinstance(
                    k, (Ser, list)) else [find(self.idx, x)
                                          for x in elems(m, k)]
            except AExc:
                self.idx.append(k)
                self.vals.append(NAN)
                hit = [len(self.vals) - 1]
        put(m, self.vals, self.idx, hit, v)

    def a_attr(self, m, name):
        if name == "values" or name == "array":
            return Ser(self.vals)
        if name == "index":
            return Labels(self.idx)
        if name == "name":
            return self.name
        if name == "empty":
            return not self.vals
        if name in ("size",):
            return len(self.vals)
        if name == "shape":
            return (len(self.vals),)
        if name == "ndim":
            return 1
        if name in ("iloc", "iat"):
            return ILoc(self)
        if name in ("loc", "at"):
            return SerLoc(self)
        if name == "str":
            return StrOf(self)
        if name == "T":
            return self
        if name == "hasnans":
            return any(missing(v) for v in self.vals)
        if name == "is_unique":
            return len(set(self.vals)) == len(self.vals)
        if name == "dtype":
            return Top(what="dtype")
        return BoundM(self, name)

    def a_method(self, m, name, a, kw, node):
        v = self.vals
        have = [x for x in v if not missing(x)]
        if name in ("any", "all"):
            return {"any": any, "all": all}[name](
                m.truth(x) for x in v)
        if name in ("tolist", "to_list", "to_numpy", "copy", "unique",
                    "drop_duplicates"):
            u = v
            if name in ("unique", "drop_duplicates"):
                seen, u = [], []
                for x in v:
                    if not any(x == y or missing(x) and missing(y)
                               for y in seen):
                        seen.append(x)
                        u.append(x)
            if name in ("tolist", "to_list"):
                return list(u)
            return self.like(u) if name == "copy" else Ser(u)
        if name in ("isna", "isnull"):
            return self.map(missing)
        if name in ("notna", "notnull"):
            return self.map(lambda x: not missing(x))
        if name == "fillna":
            fill = a[0] if a else kw.get("value")
            if isinstance(fill, (Ser, dict)):
                d = fill if isinstance(fill, dict) else dict(
                    zip(fill.idx, fill.vals))
                r = self.like(settle([d.get(i, NAN) if missing(x) else x
                                      for i, x in zip(self.idx, v)]))
            else:
                r = self.map(lambda x: fill if missing(x) else x)
            if kw.get("inplace"):
                self.vals = r.vals
                return None
            return r
        if name == "dropna":
            return self.take([i for i, x in enumerate(v)
                              if not missing(x)])
        if name == "isin":
            xs = elems(m, a[0])
            return self.map(lambda x: x in xs)
        if name == "astype":
            return self.astype(m, a[0] if a else kw.get("dtype"))
        if name in ("mul", "multiply", "add", "sub", "div", "truediv"):
            op = {"mul": "*", "multiply": "*", "add": "+", "sub": "-"}.get(
                name, "/")
            return self.a_bin(m, op, a[0], False)
        if name in ("eq", "ne", "lt", "gt", "le", "ge"):
            op = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=",
                  "ge": ">="}[name]
            return self.a_cmp(m, op, a[0], False)
        if name in ("min", "max", "sum", "count", "nunique", "prod",
                    "mean"):
            if name == "sum":
                return m.native(sum, [x for x in have])
            if name == "count":
                return len(have)
            if name == "nunique":
                return len(set(have))
            if name in ("min", "max"):
                if not have:
                    return NAN
                return m.native({"min": min, "max": max}[name], have)
        if name in ("map", "apply", "transform"):
            f = a[0]
            if isinstance(f, dict):
                return self.map(lambda x: f.get(x, NAN))
            return self.map(lambda x: m.call_value(f, [x], {}, node))
        if name in ("items", "iteritems"):
            return list(zip(self.idx, v))
        if name == "keys":
            return Labels(self.idx)
        if name == "get":
            try:
                return self.vals[find(self.idx, a[0])]
            except AExc:
                return a[1] if len(a) > 1 else kw.get("default")
        if name == "to_dict":
            return dict(zip(self.idx, v))
        if name == "value_counts":
            seen = []
            for x in have:
                if x not in seen:
                    seen.append(x)
            seen.sort(key=lambda x: -have.count(x))
            return Ser([have.count(x) for x in seen], seen, "count")
        if name in ("sort_index", "sort_values"):
            by = self.idx if name == "sort_index" else v
            order = m.native(sorted, range(len(v)), key=lambda i: by[i],
                             reverse=kw.get("ascending") is False)
            return self.take(order)
        if name == "squeeze":
            return v[0] if len(v) == 1 else self
        if name == "item":
            if len(v) != 1:
                raise AExc("ValueError")
            return v[0]
        if name == "reset_index" and kw.get("drop"):
            return Ser(v, range(len(v)), self.name)
        if name == "rename":
            return Ser(v, self.idx, a[0] if a else kw.get("index"))
        if name == "to_frame":
            return Frame({a[0] if a else self.name: list(v)}, self.idx)
        if name in ("shift",):
            n = a[0] if a else 1
            fill = kw.get("fill_value", NAN)
            if n >= 0:
                return self.like(settle([fill] * n + v[:len(v) - n]))
            return self.like(settle(v[-n:] + [fill] * -n))
        if name in ("cumsum",):
            out, s = [], 0
            for x in v:
                s = s + x
                out.append(s)
            return self.like(out)
        if name == "diff":
            return self.like([NAN] + [b - a for a, b in zip(v, v[1:])])
        if name in ("where", "mask"):
            c = a[0]
            o = a[1] if len(a) > 1 else kw.get("other", NAN)
            os_ = o.vals if isinstance(o, Ser) else [o] * len(v)
            return self.like([x if bool(t) is (name == "where") else y
                              for x, t, y in zip(v, c.vals, os_)])
        if name in ("duplicated",):
            keep = kw.get("keep", a[0] if a else "first")
            out = []
            for i, x in enumerate(v):
                if keep is False:
                    out.append(v.count(x) > 1)
                else:
                    out.append(x in (v[:i] if keep == "first"
                                     else v[i + 1:]))
            return self.like(out)
        if name in ("groupby",):
            by = a[0] if a else kw.get("by")
            by = by.vals if isinstance(by, Ser) else list(by)
            return SerGroups(self, by)
        if name in ("head",):
            return self.take(range(min(a[0] if a else 5, len(v))))
        if name in ("tail",):
            n = a[0] if a else 5
            return self.take(range(max(0, len(v) - n), len(v)))
        if name in ("infer_objects", "convert_dtypes"):
            return self
        if name == "repeat":
            return Ser([x for x in v for _ in range(a[0])])
        if name == "replace" and len(a) == 2:
            return self.map(lambda x: a[1] if x == a[0] else x)
        if name in ("reshape", "flatten", "ravel"):
            return Ser(v)
        raise Undecided(f"Series.{name}")

    def astype(self, m, t):
        n = typename(t)
        if n is None:
            raise Undecided("astype")
        if n.startswith("int") or n.startswith("uint") or n in "iulq":
            def f(x):
                if missing(x):
                    raise AExc("ValueError")
                return m.builtin("int", [x], {}, None)
            return self.map(f)
        if n.startswith("float") or n in ("f", "d"):
            return self.map(lambda x: NAN if missing(x) else m.builtin(
                "float", [x], {}, None))
        if n == "str":
            return self.map(lambda x: m.builtin("str", [x], {}, None))
        if n == "bool":
            return self.map(lambda x: m.truth(x))
        if n in ("object", "O"):
            return self.like(self.vals)
        raise Undecided(f"astype {n}")


def typename(t):
    if isinstance(t, type):
        return t.__name__
    if isinstance(t, str):
        return t.lstrip("<>=|")
    n = getattr(t, "name", None)
    if isinstance(n, str):
        return n.split(".")[-1].rstrip("_")
    return None


class SerGroups(AObj):
    tags = frozenset()

    def __init__(self, ser, by):
        self.ser, self.by = ser, by

    def a_method(self, m, name, a, kw, node):
        out = []
        if name == "cumcount":
            for i, x in enumerate(self.by):
                out.append(self.by[:i].count(x))
            return self.ser.like(out)
        if name == "transform" and a and a[0] in ("count", "size"):
            return self.ser.like([self.by.count(x) for x in self.by])
        raise Undecided(f"groupby.{name}")


def put(m, vals, idx, hit, v):
    """vals[hit] = v, aligned"""
    if isinstance(v, Ser) and not v.bare:
        d = dict(zip(v.idx, v.vals))
        for i in hit:
            vals[i] = d.get(idx[i], NAN)
    elif isinstance(v, (Ser, list, Labels)) or isinstance(
            v, tuple) and len(hit) > 1:
        xs = elems(m, v)
        if len(xs) != len(hit):
            if len(xs) == 1:
                xs = xs * len(hit)
            else:
                raise AExc("ValueError")
        for i, x in zip(hit, xs):
            vals[i] = x
    else:
        for i in hit:
            vals[i] = v
    vals[:] = settle(vals)


class StrOf(AObj):
    """.str of a series of strings"""
    tags = frozenset()

    def __init__(self, ser):
        self.ser = ser

    def a_item(self, m, k):
        return self.ser.map(lambda x: NAN if missing(x) else m.getitem(x, k))

    def a_method(self, m, name, a, kw, node):
        def each(f):
            return self.ser.map(lambda x: NAN if not isinstance(
                x, (str, bytes)) else f(x))
        if name in ("contains", "match", "fullmatch"):
            pat = a[0] if a else kw["pat"]
            fl = kw.get("flags", 0)
            if kw.get("case") is False:
                fl |= re.I
            na = kw.get("na", NAN)
            if isinstance(pat, re.Pattern):
                f = {"contains": pat.search, "match": pat.match,
                     "fullmatch": pat.fullmatch}[name]
                g = lambda x: f(x) is not None      # noqa
            elif name == "contains" and kw.get("regex") is False:
                g = lambda x: pat in x      # noqa
            else:
                f = {"contains": re.search, "match": re.match,
                     "fullmatch": re.fullmatch}[name]
                g = lambda x: f(pat, x, fl) is not None     # noqa
            return self.ser.map(lambda x: na if not isinstance(x, str)
                                else g(x))
        if name in ("split", "rsplit") and m.truth(kw.get("expand", False)):
            kw = {"maxsplit" if k == "n" else k: v for k, v in kw.items()
                  if k not in ("expand", "regex")}
            parts = [m.native(getattr(x, name), *a, **kw)
                     if isinstance(x, str) else [NAN] for x in self.ser.vals]
            w = max(map(len, parts), default=0)
            return Frame({i: [p[i] if i < len(p) else None for p in parts]
                          for i in range(w)}, self.ser.idx)
        if name == "cat" and (a or "others" in kw):
            sep = kw.get("sep") or ""
            xs = elems(m, a[0] if a else kw["others"])
            if len(xs) != len(self.ser.vals):
                raise AExc("ValueError")
            return self.ser.like([NAN if missing(u) or missing(v) else
                                  u + sep + v
                                  for u, v in zip(self.ser.vals, xs)])
        if name in ("startswith", "endswith", "strip", "lstrip", "rstrip",
                    "upper", "lower", "split", "zfill", "title", "isdigit",
                    "find", "count", "removeprefix", "removesuffix",
                    "encode", "decode"):
            return each(lambda x: m.native(getattr(x, name), *a, **{
                k: v for k, v in kw.items() if k != "na"}))
        if name == "replace":
            pat, rep = a[0], a[1]
            if kw.get("regex"):
                return each(lambda x: re.sub(pat, rep, x))
            return each(lambda x: x.replace(pat, rep))
        if name == "len":
            return each(len)
        if name == "slice":
            return each(lambda x: x[slice(*a)])
        raise Undecided(f".str.{name}")


class ILoc(AObj):
    tags = frozenset()

    def __init__(self, ser):
        self.ser = ser

    def a_item(self, m, k):
        if isinstance(k, int):
            return m.native(self.ser.vals.__getitem__, k)
        if isinstance(k, slice):
            return self.ser.take(range(len(self.ser.vals))[k])
        return self.ser.take(elems(m, k))

    def a_setitem(self, m, k, v):
        n = range(len(self.ser.vals))
        put(m, self.ser.vals, self.ser.idx, [n[k]] if isinstance(
            k, int) else list(n[k]), v)


class SerLoc(AObj):
    tags = frozenset()

    def __init__(self, ser):
        self.ser = ser

    def rows(self, m, k):
        hit = self.ser.mask(k)
        if hit is not None:
            return hit, False
        if isinstance(k, slice):
            return label_slice(self.ser.idx, k), False
        if isinstance(k, (Ser, list)):
            return [find(self.ser.idx, x) for x in elems(m, k)], False
        return [find(self.ser.idx, k)], True

    def a_item(self, m, k):
        hit, one = self.rows(m, k)
        return self.ser.vals[hit[0]] if one else self.ser.take(hit)

    def a_setitem(self, m, k, v):
        hit, _ = self.rows(m, k)
        put(m, self.ser.vals, self.ser.idx, hit, v)


def label_slice(idx, k):
    lo = 0 if k.start is None else find(idx, k.start)
    hi = len(idx) if k.stop is None else find(idx, k.stop) + 1
    return list(range(lo, hi))[::k.step or 1]


class Frame(AObj):
    """rows and columns of known cells"""
    tags = frozenset()

    def __init__(self, cols=None, index=None):
        self.cols = {k: list(v) for k, v in (cols or {}).items()}
        n = len(next(iter(self.cols.values()))) if self.cols else 0
        self.idx = Labels(range(n) if index is None else index)

    def __str__(self):
        return f"<Frame {list(self.cols)} x {len(self.idx)}>"

    __repr__ = __str__

    def key(self):
        return ("frame", id(self))

    @staticmethod
    def records(recs, columns=None):
        cols = list(columns or [])
        for r in recs:
            for k in r:
                if k not in cols:
                    cols.append(k)
        return Frame({c: settle([r.get(c, NAN) for r in recs])
                      for c in cols}, range(len(recs)))

    def ser(self, c):
        if c not in self.cols:
            raise AExc("KeyError")
        return Ser(self.cols[c], self.idx, c)

    def row(self, i):
        return Ser([v[i] for v in self.cols.values()], list(self.cols),
                   self.idx[i])

    def take(self, pos):
        pos = list(pos)
        return Frame({c: [v[i] for i in pos] for c, v in self.cols.items()},
                     [self.idx[i] for i in pos])

    def pick(self, cs):
        for c in cs:
            if c not in self.cols:
                raise AExc("KeyError")
        return Frame({c: self.cols[c] for c in cs}, self.idx)

    def mask(self, k):
        ks = k.vals if isinstance(k, Ser) else k
        if isinstance(ks, (list, tuple)) and len(ks) == len(self.idx) and \
                (ks and all(isinstance(x, bool) for x in ks)):
            return [i for i, x in enumerate(ks) if x]
        return None

    def a_item(self, m, k):
        hit = self.mask(k)
        if hit is not None:
            return self.take(hit)
        if isinstance(k, slice):
            return self.take(range(len(self.idx))[k])
        if isinstance(k, (list, Ser)):
            return self.pick(elems(m, k))
        return self.ser(k)

    def a_setitem(self, m, k, v):
        if isinstance(k, (list, Ser)):
            ks = elems(m, k)
            for i, c in enumerate(ks):
                if isinstance(v, Frame):
                    self.assign(m, c, v.ser(list(v.cols)[i]))
                else:
                    self.assign(m, c, v)
            return
        self.assign(m, k, v)

    def assign(self, m, c, v):
        if not self.cols and not self.idx and isinstance(v, (list, Ser)):
            self.idx = Labels(v.idx if isinstance(v, Ser) else range(
                len(v)))
        vals = [NAN] * len(self.idx)
        put(m, vals, self.idx, list(range(len(self.idx))), v)
        self.cols[c] = vals

    def a_delitem(self, m, k):
        self.cols.pop(k)

    def a_attr(self, m, name):
        if name == "columns":
            return Labels(self.cols)
        if name == "index":
            return Labels(self.idx)
        if name in ("loc", "at"):
            return Loc(self)
        if name in ("iloc", "iat"):
            return FrameILoc(self)
        if name == "empty":
            return not self.cols or not self.idx
        if name == "shape":
            return (len(self.idx), len(self.cols))
        if name == "size":
            return len(self.idx) * len(self.cols)
        if name == "T":
            raise Undecided("transpose")
        if name in self.cols:
            return self.ser(name)
        return BoundM(self, name)

    def a_setattr(self, m, name, v):
        if name == "columns":
            new = elems(m, v)
            if len(new) != len(self.cols):
                raise AExc("ValueError")
            self.cols = dict(zip(new, self.cols.values()))
        elif name == "index":
            self.idx = Labels(elems(m, v))
        elif name in self.cols:
            self.assign(m, name, v)

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in") and rev:
            return (other in self.cols) is (op == "in")
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        return NotImplemented

    def a_truth(self, m):
        raise AExc("ValueError")

    def a_iter(self, m):
        return list(self.cols)

    def a_len(self, m):
        return len(self.idx)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in ("DataFrame", "object")
                   for n in names)

    def a_method(self, m, name, a, kw, node):
        if name == "to_dict":
            o = a[0] if a else kw.get("orient", "dict")
            if o == "records":
                return [{c: v[i] for c, v in self.cols.items()}
                        for i in range(len(self.idx))]
            if o == "list":
                return {c: list(v) for c, v in self.cols.items()}
            if o == "index":
                return {ix: {c: v[i] for c, v in self.cols.items()}
                        for i, ix in enumerate(self.idx)}
            if o == "series":
                return {c: self.ser(c) for c in self.cols}
            return {c: dict(zip(self.idx, v)) for c, v in self.cols.items()}
        if name == "iterrows":
            return [(ix, self.row(i)) for i, ix in enumerate(self.idx)]
        if name == "itertuples":
            return [RowTuple(self, i, kw.get("index", True) and not (
                a and a[0] is False)) for i in range(len(self.idx))]
        if name in ("items", "iteritems"):
            return [(c, self.ser(c)) for c in self.cols]
        if name == "keys":
            return Labels(self.cols)
        if name == "copy":
            return Frame(self.cols, self.idx)
        if name == "get":
            if a[0] in self.cols:
                return self.ser(a[0])
            return a[1] if len(a) > 1 else kw.get("default")
        if name == "groupby":
            by = a[0] if a else kw.get("by")
            return Groups(self, by, kw.get("dropna", True),
                          kw.get("sort", True))
        if name == "reset_index":
            if kw.get("drop"):
                r = Frame(self.cols, range(len(self.idx)))
                if kw.get("inplace"):
                    self.idx = r.idx
                    return None
                return r
            return Frame({"index": list(self.idx), **self.cols},
                         range(len(self.idx)))
        if name == "drop":
            axis = kw.get("axis", a[1] if len(a) > 1 else 0)
            what = kw.get("columns")
            if what is None and "index" not in kw:
                what = a[0] if a else kw.get("labels")
                if axis in (0, "index"):
                    kw = {**kw, "index": what}
                    what = None
            if what is not None:
                ws = [what] if isinstance(what, str) else elems(m, what)
                for w in ws:
                    if w not in self.cols:
                        raise AExc("KeyError")
                r = Frame({c: v for c, v in self.cols.items()
                           if c not in ws}, self.idx)
            else:
                what = kw["index"]
                ws = elems(m, what) if isinstance(what, (
                    Ser, list, tuple)) else [what]
                for w in ws:
                    find(self.idx, w)
                r = self.take([i for i, x in enumerate(self.idx)
                               if x not in ws])
            if kw.get("inplace"):
                self.cols, self.idx = r.cols, r.idx
                return None
            return r
        if name == "rename":
            cmap = kw.get("columns")
            if cmap is None and kw.get("axis") in (1, "columns"):
                cmap = a[0]
            if cmap is None:
                raise Undecided("rename")

            def new(c):
                if isinstance(cmap, dict):
                    return cmap.get(c, c)
                return m.call_value(cmap, [c], {}, node)
            cols = {new(c): v for c, v in self.cols.items()}
            if kw.get("inplace"):
                self.cols = cols
                return None
            return Frame(cols, self.idx)
        if name == "assign":
            r = Frame(self.cols, self.idx)
            for c, v in kw.items():
                if not isinstance(v, AObj) and callable(v):
                    v = m.call_value(v, [r], {}, node)
                r.assign(m, c, v)
            return r
        if name == "squeeze":
            if len(self.idx) == 1 and len(self.cols) == 1:
                return next(iter(self.cols.values()))[0]
            if len(self.idx) == 1:
                return self.row(0)
            if len(self.cols) == 1:
                return self.ser(next(iter(self.cols)))
            return self
        if name in ("isna", "isnull", "notna", "notnull"):
            neg = name.startswith("not")
            return Frame({c: [missing(x) is not neg for x in v]
                          for c, v in self.cols.items()}, self.idx)
        if name in ("fillna",):
            f = a[0] if a else kw.get("value")
            cols = {}
            for c, v in self.cols.items():
                y = f.get(c, NAN) if isinstance(f, dict) else f
                cols[c] = [y if missing(x) else x for x in v]
            if kw.get("inplace"):
                self.cols = cols
                return None
            return Frame(cols, self.idx)
        if name in ("any", "all"):
            return Ser([{"any": any, "all": all}[name](v)
                        for v in self.cols.values()], list(self.cols))
        if name == "dropna":
            sub = kw.get("subset")
            axis = kw.get("axis", 0)
            if axis in (1, "columns"):
                every = kw.get("how", "any") == "all"
                keep = [c for c, v in self.cols.items() if not (
                    all if every else any)(missing(x) for x in v)]
                return self.pick(keep)
            cs = [sub] if isinstance(sub, str) else list(sub or self.cols)
            return self.take([i for i in range(len(self.idx)) if not any(
                missing(self.cols[c][i]) for c in cs)])
        if name == "sort_values":
            by = a[0] if a else kw.get("by")
            by = [by] if isinstance(by, str) else list(by)
            order = m.native(sorted, range(len(self.idx)),
                             key=lambda i: tuple(self.cols[c][i]
                                                 for c in by),
                             reverse=kw.get("ascending") is False)
            r = self.take(order)
            if kw.get("ignore_index"):
                r.idx = Labels(range(len(order)))
            if kw.get("inplace"):
                self.cols, self.idx = r.cols, r.idx
                return None
            return r
        if name == "sort_index":
            return self.take(sorted(range(len(self.idx)),
                                    key=lambda i: self.idx[i]))
        if name == "pop":
            s = self.ser(a[0])
            del self.cols[a[0]]
            return s
        if name == "insert":
            items = list(self.cols.items())
            self.assign(m, a[1], a[2])
            items.insert(a[0], (a[1], self.cols[a[1]]))
            self.cols = dict(items)
            return None
        if name == "astype":
            t = a[0] if a else kw.get("dtype")
            cols = {}
            for c in self.cols:
                y = t.get(c) if isinstance(t, dict) else t
                cols[c] = self.cols[c] if y is None else self.ser(
                    c).astype(m, y).vals
            return Frame(cols, self.idx)
        if name == "apply":
            axis = kw.get("axis", a[1] if len(a) > 1 else 0)
            if axis in (1, "columns"):
                return Ser([m.call_value(a[0], [self.row(i)], {}, node)
                            for i in range(len(self.idx))], self.idx)
            return Ser([m.call_value(a[0], [self.ser(c)], {}, node)
                        for c in self.cols], list(self.cols))
        if name in ("head", "tail"):
            n = a[0] if a else 5
            k = slice(0, n) if name == "head" else slice(
                max(0, len(self.idx) - n), None)
            return self.take(range(len(self.idx))[k])
        if name == "set_index":
            r = Frame(self.cols, self.cols[a[0]])
            if kw.get("drop", True):
                del r.cols[a[0]]
            return r
        raise Undecided(f"DataFrame.{name}")


class RowTuple(AObj):
    tags = frozenset()

    def __init__(self, fr, i, index):
        self.fr, self.i, self.index = fr, i, index

    def a_attr(self, m, name):
        if name == "Index":
            return self.fr.idx[self.i]
        if name in self.fr.cols:
            return self.fr.cols[name][self.i]
        if name == "_asdict":
            return BoundM(self, name)
        raise AExc("AttributeError")

    def vals(self):
        r = [v[self.i] for v in self.fr.cols.values()]
        return ([self.fr.idx[self.i]] if self.index else []) + r

    def a_method(self, m, name, a, kw, node):
        return {c: v[self.i] for c, v in self.fr.cols.items()}

    def a_iter(self, m):
        return self.vals()

    def a_item(self, m, k):
        return self.vals()[k]

    def a_len(self, m):
        return len(self.vals())


class Groups(AObj):
    tags = frozenset()

    def __init__(self, fr, by, dropna, sort):
        self.fr, self.by = fr, by
        cs = [by] if isinstance(by, str) else list(by)
        keys, rows = [], []
        for i in range(len(fr.idx)):
            k = []
            for c in cs:
                if c not in fr.cols:
                    raise AExc("KeyError")
                k.append(fr.cols[c][i])
            if dropna and any(missing(x) for x in k):
                continue
            kk = tuple(("nan",) if missing(x) else x for x in k)
            if kk not in keys:
                keys.append(kk)
                rows.append((k, []))
            rows[keys.index(kk)][1].append(i)
        if sort:
            rows.sort(key=lambda r: tuple(
                (1, "") if missing(x) else (0, (isinstance(x, str), x))
                for x in r[0]))
        self.groups = [(k[0] if isinstance(by, str) else tuple(k),
                        fr.take(r), r) for k, r in rows]

    def a_iter(self, m):
        return [(k, f) for k, f, _ in self.groups]

    def a_len(self, m):
        return len(self.groups)

    def a_attr(self, m, name):
        if name == "groups":
            return {k: Labels(f.idx) for k, f, _ in self.groups}
        if name == "ngroups":
            return len(self.groups)
        return BoundM(self, name)

    def a_item(self, m, k):
        return ColGroups(self, k)

    def a_method(self, m, name, a, kw, node):
        n = len(self.fr.idx)
        out = [NAN] * n
        if name in ("cumcount", "ngroup"):
            for g, (_, _, r) in enumerate(self.groups):
                for j, i in enumerate(r):
                    out[i] = j if name == "cumcount" else g
            return Ser(out, self.fr.idx)
        if name == "size":
            return Ser([len(r) for _, _, r in self.groups],
                       [k for k, _, _ in self.groups])
        if name == "get_group":
            for k, f, _ in self.groups:
                if k == a[0]:
                    return f
            raise AExc("KeyError")
        raise Undecided(f"groupby.{name}")


class ColGroups(AObj):
    tags = frozenset()

    def __init__(self, g, col):
        self.g, self.col = g, col

    def a_iter(self, m):
        return [(k, m.getitem(f, self.col)) for k, f, _ in self.g.groups]

    def a_method(self, m, name, a, kw, node):
        out = [NAN] * len(self.g.fr.idx)
        if name == "cumcount":
            return self.g.a_method(m, name, a, kw, node)
        if name == "transform" and a and a[0] in ("count", "size"):
            for _, _, r in self.g.groups:
                for i in r:
                    out[i] = len(r)
            return Ser(out, self.g.fr.idx)
        if name in ("size", "count"):
            return self.g.a_method(m, "size", a, kw, node)
        raise Undecided(f"groupby.{name}")


class Loc(AObj):
    tags = frozenset()

    def __init__(self, fr):
        self.fr = fr

    def rows(self, m, k, grow=False):
        fr = self.fr
        hit = fr.mask(k)
        if hit is not None:
            return hit, False
        if isinstance(k, slice):
            return label_slice(fr.idx, k), False
        if isinstance(k, (Ser, list)):
            ks = elems(m, k)
            if not ks:
                return [], False
            return [find(fr.idx, x) for x in ks], False
        try:
            return [find(fr.idx, k)], True
        except AExc:
            if not grow:
                raise
            fr.idx.append(k)
            for v in fr.cols.values():
                v.append(NAN)
            return [len(fr.idx) - 1], True

    def cols(self, m, k):
        if isinstance(k, slice):
            cs = list(self.fr.cols)
            if k == slice(None):
                return cs, False
            lo = 0 if k.start is None else cs.index(k.start)
            hi = len(cs) if k.stop is None else cs.index(k.stop) + 1
            return cs[lo:hi], False
        if isinstance(k, (Ser, list)):
            return elems(m, k), False
        return [k], True

    def a_item(self, m, k):
        if isinstance(k, tuple):
            rows, one = self.rows(m, k[0])
            cols, onec = self.cols(m, k[1])
            for c in cols:
                if c not in self.fr.cols:
                    raise AExc("KeyError")
            if one and onec:
                return self.fr.cols[cols[0]][rows[0]]
            if onec:
                return self.fr.ser(cols[0]).take(rows)
            if one:
                return self.fr.pick(cols).row(rows[0])
            return self.fr.pick(cols).take(rows)
        rows, one = self.rows(m, k)
        return self.fr.row(rows[0]) if one else self.fr.take(rows)

    def a_setitem(self, m, k, v):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        rows, one = self.rows(m, k[0], grow=True)
        cols, onec = self.cols(m, k[1])
        for i, c in enumerate(cols):
            if c not in self.fr.cols:
                self.fr.cols[c] = [NAN] * len(self.fr.idx)
            x = v
            if isinstance(v, Frame):
                x = v.ser(list(v.cols)[i])
            elif not onec and one and isinstance(v, (list, tuple, Ser)):
                x = elems(m, v)[i]
            if one and onec and isinstance(v, (tuple, list)):
                self.fr.cols[c][rows[0]] = v        # .at
                continue
            put(m, self.fr.cols[c], self.fr.idx, rows, x)


class FrameILoc(AObj):
    tags = frozenset()

    def __init__(self, fr):
        self.fr = fr

    def a_item(self, m, k):
        if isinstance(k, tuple):
            r, c = k
            f = self.fr
            if isinstance(c, int):
                s = f.ser(list(f.cols)[c])
                return ILoc(s).a_item(m, r)
            f = f.pick(list(f.cols)[c] if isinstance(c, slice) else [
                list(f.cols)[i] for i in elems(m, c)])
            return FrameILoc(f).a_item(m, r)
        n = range(len(self.fr.idx))
        if isinstance(k, int):
            m.native(n.__getitem__, k)
            return self.fr.row(n[k])
        if isinstance(k, slice):
            return self.fr.take(n[k])
        return self.fr.take(elems(m, k))

    def a_setitem(self, m, k, v):
        if not isinstance(k, tuple):
            raise Undecided("iloc assignment")
        n = range(len(self.fr.idx))
        rows = [n[k[0]]] if isinstance(k[0], int) else list(n[k[0]])
        cs = list(self.fr.cols)
        cols = [cs[k[1]]] if isinstance(k[1], int) else cs[k[1]]
        for c in cols:
            put(m, self.fr.cols[c], self.fr.idx, rows, v)


def frame_call(m, name, a, kw, node):
    """pandas / numpy functions over known cells"""
    x = a[0] if a else None
    if name == "pandas.DataFrame.from_records" or name == \
            "pandas.DataFrame.from_dict" and kw.get("orient") is None:
        if isinstance(x, (list, tuple)) and all(
                isinstance(r, dict) for r in x):
            return Frame.records(list(x), kw.get("columns"))
        if isinstance(x, dict) and not deep_abstract(x, 1):
            return Frame({k: v for k, v in x.items()})
        return NotImplemented
    if name == "pandas.DataFrame":
        if x is None and "data" in kw:
            x = kw["data"]
        if x is None:
            f = Frame({c: [] for c in (kw.get("columns") or ())})
            return f
        if isinstance(x, list) and all(isinstance(r, dict) for r in x):
            return Frame.records(x, kw.get("columns"))
        if isinstance(x, list) and x and all(isinstance(r, Ser)
                                             for r in x):
            return Frame.records([dict(zip(r.idx, r.vals)) for r in x])
        if isinstance(x, dict) and x and all(isinstance(v, (
                list, tuple, Ser)) for v in x.values()):
            d = {k: settle(elems(m, v)) for k, v in x.items()}
            if len({len(v) for v in d.values()}) > 1:
                raise AExc("ValueError")
            return Frame(d, kw.get("index"))
        if isinstance(x, Frame):
            return Frame(x.cols, x.idx)
        return NotImplemented
    if name == "pandas.Series":
        if isinstance(x, Ser):
            return Ser(x.vals, x.idx)
        if isinstance(x, (list, tuple)):
            ix = kw.get("index", a[1] if len(a) > 1 else None)
            return Ser(settle(x), elems(m, ix) if ix is not None
                       else range(len(x)), kw.get("name"))
        if isinstance(x, dict):
            return Ser(settle(x.values()), list(x), kw.get("name"))
        return NotImplemented
    if name == "pandas.concat":
        xs = elems(m, x)
        if xs and all(isinstance(f, Frame) for f in xs):
            if kw.get("axis", 0) in (1, "columns"):
                cols = {}
                for f in xs:
                    cols.update(f.cols)
                return Frame(cols, xs[0].idx)
            cols = []
            for f in xs:
                cols += [c for c in f.cols if c not in cols]
            out = {c: settle([v for f in xs for v in f.cols.get(
                c, [NAN] * len(f.idx))]) for c in cols}
            idx = [i for f in xs for i in f.idx]
            return Frame(out, range(len(idx)) if kw.get("ignore_index")
                         else idx)
        if xs and all(isinstance(s, Ser) for s in xs):
            if kw.get("axis", 0) in (1, "columns"):
                return Frame({s.name if s.name is not None else i: s.vals
                              for i, s in enumerate(xs)}, xs[0].idx)
            return Ser([v for s in xs for v in s.vals],
                       [i for s in xs for i in s.idx], xs[0].name)
        return NotImplemented
    if name in ("pandas.isna", "pandas.isnull", "pandas.notna",
                "pandas.notnull", "numpy.isnan", "math.isnan",
                "numpy.isfinite"):
        neg = "not" in name or name == "numpy.isfinite"
        if isinstance(x, Ser):
            return x.map(lambda v: missing(v) is not neg)
        if isinstance(x, Frame):
            return x.a_method(m, "notna" if neg else "isna", [], {}, node)
        if isinstance(x, AObj):
            return NotImplemented
        if not name.startswith("pandas") and not num(x) and not isinstance(
                x, bool):
            raise AExc("TypeError")
        if isinstance(x, (list, tuple)):
            return Ser([missing(v) is not neg for v in x])
        return missing(x) is not neg
    if name in ("numpy.array", "numpy.asarray") and isinstance(
            x, (list, tuple, Ser, range)) and not (kw.get("dtype") and
                                                   isinstance(kw["dtype"],
                                                              AObj)):
        if isinstance(x, Ser) or not any(isinstance(v, (
                list, tuple, AObj)) for v in x):
            return Ser(elems(m, x))
        return NotImplemented
    if name == "numpy.arange":
        return Ser(m.native(range, *a))
    if name == "numpy.repeat" and isinstance(x, (Ser, list, tuple)):
        return Ser([v for v in elems(m, x) for _ in range(a[1])])
    if name == "numpy.repeat" and num(x):
        return Ser([x] * a[1])
    if name == "numpy.tile" and isinstance(x, (Ser, list, tuple)):
        return Ser(elems(m, x) * a[1])
    if name == "numpy.cumsum" and isinstance(x, (Ser, list, tuple)):
        return Ser(elems(m, x)).a_method(m, "cumsum", [], {}, node)
    if name == "numpy.where" and len(a) == 3 and isinstance(x, Ser):
        p = [y.vals if isinstance(y, Ser) else [y] * len(x.vals)
             for y in a[1:]]
        return Ser([p[0][i] if t else p[1][i]
                    for i, t in enumerate(x.vals)])
    if name == "numpy.unique" and isinstance(x, (Ser, list)):
        return Ser(sorted(set(elems(m, x))))
    if name == "numpy.isin" and isinstance(x, Ser):
        return x.a_method(m, "isin", [a[1]], {}, node)
    if name in ("numpy.zeros", "numpy.ones") and isinstance(x, int):
        return Ser([0 if name.endswith("zeros") else 1] * x)
    if name in ("numpy.int64", "numpy.int32", "numpy.intp") and num(x):
        return int(x)
    if name in ("numpy.prod", "numpy.sum", "numpy.max", "numpy.min",
                "numpy.any", "numpy.all") and isinstance(
                    x, (Ser, list, tuple)):
        return Ser(elems(m, x)).a_method(m, name[6:], [], {}, node)
    if name == "more_itertools.divide":
        n, xs = a[0], elems(m, a[1])
        if not isinstance(n, int):
            if isinstance(n, float):
                raise AExc("TypeError")
            raise Undecided("divide")
        q, r = divmod(len(xs), n)
        out, s = [], 0
        for i in range(n):
            e = s + q + (1 if i < r else 0)
            out.append(xs[s:e])
            s = e
        return out
    if name in ("more_itertools.windowed",):
        xs = elems(m, x)
        return [tuple(xs[i:i + a[1]]) for i in range(
            max(0, len(xs) - a[1] + 1))]
    return NotImplemented


class MD(AObj):
    """a MultiDict"""
    tags = frozenset()

    def __init__(self, items=()):
        self.items = [tuple(x) for x in items]

    def __str__(self):
        return f"<MD {[k for k, _ in self.items]}>"

    __repr__ = __str__

    def key(self):
        return ("md", id(self))

    def a_item(self, m, k):
        for a, b in self.items:
            if a == k:
                return b
        raise AExc("KeyError")

    def a_setitem(self, m, k, v):
        for i, (a, _) in enumerate(self.items):
            if a == k:
                self.items[i] = (k, v)
                self.items = [x for j, x in enumerate(self.items)
                              if j <= i or x[0] != k]
                return
        self.items.append((k, v))

    def a_delitem(self, m, k):
        if not any(a == k for a, _ in self.items):
            raise AExc("KeyError")
        self.items = [x for x in self.items if x[0] != k]

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in") and rev:
            return any(a == other for a, _ in self.items) is (op == "in")
        if op in ("is", "is not"):
            return (other is self) is (op == "is")
        if op in ("==", "!=") and isinstance(other, MD):
            return (other.items == self.items) is (op == "==")
        return NotImplemented

    def a_truth(self, m):
        return bool(self.items)

    def a_iter(self, m):
        return [k for k, _ in self.items]

    def a_len(self, m):
        return len(self.items)

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n.split(".")[-1] in (
            "MultiDict", "MutableMultiMapping", "MultiMapping", "Mapping",
            "MutableMapping", "object", "Collection", "Iterable", "Sized",
            "Container") for n in names)

    def a_conv(self, m, name):
        if name == "dict":
            d = {}
            for k, v in self.items:
                d.setdefault(k, v)
            return d
        return NotImplemented

    def copy(self, deep=False):
        if not deep:
            return MD(self.items)
        return MD([(k, v.copy(True) if isinstance(v, MD) else v)
                   for k, v in self.items])

    def a_method(self, m, name, a, kw, node):
        if name in ("get", "getone"):
            for k, v in self.items:
                if k == a[0]:
                    return v
            if name == "getone" and len(a) < 2:
                raise AExc("KeyError")
            return a[1] if len(a) > 1 else kw.get("default")
        if name == "getall":
            r = [v for k, v in self.items if k == a[0]]
            if r:
                return r
            if len(a) > 1 or "default" in kw:
                return a[1] if len(a) > 1 else kw["default"]
            raise AExc("KeyError")
        if name == "items":
            return list(self.items)
        if name == "keys":
            return [k for k, _ in self.items]
        if name == "values":
            return [v for _, v in self.items]
        if name == "copy":
            return self.copy()
        if name == "__deepcopy__":
            return self.copy(True)
        if name == "add":
            self.items.append((a[0], a[1]))
            return None
        if name in ("pop", "popone"):
            for i, (k, v) in enumerate(self.items):
                if k == a[0]:
                    del self.items[i]
                    return v
            if len(a) > 1:
                return a[1]
            raise AExc("KeyError")
        if name == "popall":
            r = [v for k, v in self.items if k == a[0]]
            self.items = [x for x in self.items if x[0] != a[0]]
            if r:
                return r
            if len(a) > 1:
                return a[1]
            raise AExc("KeyError")
        if name == "popitem":
            if not self.items:
                raise AExc("KeyError")
            return self.items.pop()
        if name in ("update", "extend"):
            x = a[0] if a else kw
            its = x.items if isinstance(x, MD) else list(
                x.items()) if isinstance(x, dict) else m.iterate(x)
            if callable(its):
                its = its()
            for k, v in its:
                if name == "extend":
                    self.items.append((k, v))
                else:
                    self.a_setitem(m, k, v)
            return None
        if name == "setdefault":
            for k, v in self.items:
                if k == a[0]:
                    return v
            d = a[1] if len(a) > 1 else None
            self.items.append((a[0], d))
            return d
        if name == "clear":
            self.items = []
            return None
        return NotImplemented


def md_call(m, name, a, kw):
    if name.split(".")[-1] in ("MultiDict",) and name.startswith(
            "multidict"):
        x = a[0] if a else None
        if x is None:
            return MD(list(kw.items()))
        if isinstance(x, MD):
            return MD(x.items)
        if isinstance(x, dict):
            return MD(list(x.items()))
        return MD([tuple(y) for y in m.iterate(x)])
    return NotImplemented


__all__ = ["Frame", "Ser", "Labels", "MD", "NAN", "frame_call", "md_call",
           "missing", "elems", "Model", "CONCRETE"]
