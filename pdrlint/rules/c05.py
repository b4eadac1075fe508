"""C05: viewing, scaling and exporting leave loaded data unchanged."""
from __future__ import annotations

import ast

from ..domains import Alias, DATA
from ..flow import AV, Interp, BOT, FALSE, K, TOP
from ..program import unparse

FETCH = {"__getitem__", "__getattribute__", "getattr", "load",
         "load_from_pointer", "__iter__"}
VIEWS = ("get_scaled", "show", "dump_browse", "find_special_constants")
ASK = ("inplace", "purge")          # how a caller asks for it

VIEW_ATTRS = {"data", "T", "flat", "values", "array", "loc", "iloc", "at",
              "iat", "real", "imag", "base", "mT", "_data", "baseclass"}
VIEW_METHODS = {"reshape", "ravel", "swapaxes", "transpose", "squeeze",
                "view", "diagonal", "to_numpy", "filled", "get", "item_view",
                "newbyteorder", "getfield", "__getitem__", "rollaxis",
                "__array__", "harden_mask", "soften_mask", "compress_view",
                "unshare_mask"}
INPLACE_METHODS = {"sort", "fill", "put", "itemset", "partition", "resize",
                   "setfield", "insert", "pop", "update", "clear",
                   "append_", "__setitem__", "__delitem__", "__iadd__",
                   "__imul__", "__isub__", "__itruediv__", "__ifloordiv__",
                   "extend", "remove", "reverse", "setflags"}
VIEW_EXT = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
    "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose",
    "numpy.moveaxis", "numpy.swapaxes", "numpy.rollaxis", "numpy.rot90",
    "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.expand_dims",
    "numpy.broadcast_to", "numpy.require", "numpy.real", "numpy.imag",
    "numpy.diagonal", "numpy.frombuffer", "numpy.ma.asarray",
    "numpy.ma.asanyarray", "numpy.ma.getdata", "numpy.ma.masked_array",
    "numpy.ma.MaskedArray", "numpy.ma.array", "numpy.ma.core.MaskedArray",
    "numpy.lib.stride_tricks.as_strided", "builtins.memoryview",
    "dustgoggles.structures.listify", "numpy.ma.filled",
    "numpy.lib.stride_tricks.sliding_window_view", "numpy.matrix_transpose",
}
COPY_FALSE = {"numpy.array", "numpy.nan_to_num", "numpy.ma.fix_invalid",
              "numpy.ma.masked_where", "numpy.ma.masked_equal",
              "numpy.ma.masked_values", "numpy.ma.masked_invalid",
              "numpy.ma.masked_inside", "numpy.ma.masked_outside",
              "numpy.ma.masked_less", "numpy.ma.masked_greater"}
COPY_INPLACE = {"numpy.nan_to_num", "numpy.ma.fix_invalid"}
WRITES_FIRST = {"numpy.copyto", "numpy.put", "numpy.putmask", "numpy.place",
                "numpy.fill_diagonal", "numpy.random.shuffle",
                "random.shuffle", "numpy.put_along_axis", "numpy.add.at",
                "numpy.subtract.at", "numpy.multiply.at", "numpy.ma.put",
                "numpy.ma.putmask", "builtins.setattr_"}
BINARY_UFUNCS = {"add", "subtract", "multiply", "divide", "true_divide",
                 "floor_divide", "power", "mod", "minimum", "maximum",
                 "bitwise_and", "bitwise_or", "bitwise_xor", "fmin", "fmax",
                 "left_shift", "right_shift"}
MASKISH = {"numpy.isin", "numpy.isfinite", "numpy.isnan", "numpy.isinf",
           "numpy.ma.getmask", "numpy.ma.getmaskarray", "numpy.where",
           "numpy.nonzero", "numpy.argwhere", "numpy.argsort",
           "numpy.logical_and", "numpy.logical_or", "numpy.logical_not",
           "numpy.ma.mask_or", "numpy.flatnonzero", "numpy.equal",
           "numpy.less", "numpy.greater", "numpy.in1d"}
MASK = AV(unk=True, insts=frozenset(["%mask"]))


class Loaded(Alias):
    KIND = "loaded data"

    def __init__(self, rep):
        super().__init__()
        self.rep = rep
        self.events = 0
        self.fetches = set()
        self.reported = set()
        self.handed = set()

    def data(self, node, caller, what):
        if caller is not None:
            self.fetches.add((caller.qual, getattr(node, "lineno", 0)))
        return AV(tags=frozenset([(self.KIND, 0, what)]), unk=True)

    def default_call_tags(self, vals, node):
        return frozenset()

    def own_call(self, func, bound, node, caller):
        if any(self.hot(v) for v in bound.values()):
            self.handed.add(func.qual)
        if func.cls is not None and func.cls.qual == DATA:
            if func.name in FETCH:
                n = bound.get("name", bound.get("attr"))
                s = n.strs() if n is not None else None
                if func.name in ("getattr", "__getattribute__") and s:
                    return None
                return self.data(node, caller, f"Data.{func.name}")
            if func.name in ("metaget", "metaget_", "metablock",
                             "metablock_"):
                return TOP
            if func.name == "__delattr__":
                self.deleted(node, caller)
        return None

    def attr(self, recv, name, node, caller):
        if DATA in recv.insts:
            if name in ("_pds4_structures", "_hdulist"):
                return AV(unk=True, insts=frozenset(["%structs"]))
            if name in ("metadata", "identifiers", "tracker"):
                return TOP
        if name == "mask" and self.all_tags(recv):
            return MASK
        if "%struct" in recv.insts and name == "data":
            return self.data(node, caller, "structure.data")
        if recv.tags:
            if name in VIEW_ATTRS:
                return AV(recv.tags, unk=True)
            return AV(unk=True)
        return None

    def subscript(self, recv, key, node, caller):
        if "%structs" in recv.insts:
            return AV(unk=True, insts=frozenset(["%struct"]))
        if self.hot(recv):
            if key is not None and ("%mask" in key.insts or (
                    key.elts is not None and key.elts[0] == "list") or
                    self.all_tags(key)):
                return AV(unk=True)         # fancy indexing copies
            if isinstance(node.slice, ast.Tuple) and any(
                    isinstance(x, (ast.Compare, ast.List))
                    for x in node.slice.elts):
                return AV(unk=True)
            return AV(recv.tags, unk=True)
        return None

    def binop(self, op, a, b, node, caller):
        if "%mask" in a.insts or "%mask" in b.insts:
            return MASK
        for x, y in ((a, b), (b, a)):
            if x.elts is not None and x.elts[0] in ("list", "tuple"):
                return super().binop(op, a, b, node, caller)
        return AV(unk=True) if (a.tags or b.tags) else None

    def compare(self, a, b, node, caller):
        if (self.hot(a) or self.hot(b)) and not all(
                isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn))
                for o in node.ops):
            return MASK
        return None

    # -- calls
    def method(self, recv, name, args, kwargs, node, caller):
        if DATA in recv.insts:
            if name in ("__delattr__", "__delitem__"):
                self.deleted(node, caller)
            if name == "__setattr__" and args and args[0].strs() is None:
                self.flag([], "replacing a loaded object of the product",
                          node, caller)
            if name in ("metaget", "metaget_", "metablock", "metablock_"):
                return TOP
            if name == "getattr" and args and args[0].strs() is None:
                return self.data(node, caller, "Data.getattr")
            return None
        if recv.insts and not recv.tags:
            return None
        h = self.hot(recv)
        if not h:
            self.outputs(args, kwargs, "." + name, node, caller)
            return None
        self.events += 1
        inp = kwargs.get("inplace")
        on = inp is not None and self.it.truth(inp) is not False
        if name == "byteswap" and args:
            on = self.it.truth(args[0]) is not False
        if name in INPLACE_METHODS or on:
            if name == "resize" and kwargs:
                pass
            self.flag(h, f"`.{name}(...)` on `{_recv(node)}`", node, caller)
        self.outputs(args, kwargs, "." + name, node, caller)
        if name == "astype":
            c = kwargs.get("copy")
            if c is not None and self.it.truth(c) is not True:
                return AV(recv.tags, unk=True)
            return AV(unk=True)
        if name in ("__eq__", "isin", "isna", "notna", "isnull", "__lt__",
                    "__gt__"):
            return MASK
        if name in VIEW_METHODS:
            return AV(recv.tags, unk=True)
        return AV(unk=True)

    def outputs(self, args, kwargs, name, node, caller):
        for k in ("out", "output", "casting_out"):
            v = kwargs.get(k)
            if v is not None:
                h = self.hot(v) or [
                    t for t in self.all_tags(v) if t[1] <= 1]
                if h:
                    self.flag(h, f"`{name.lstrip('.')}(..., {k}=...)`", node,
                              caller)

    def ext_call(self, name, args, kwargs, node, caller):
        last = name.split(".")[-1]
        self.outputs(args, kwargs, last, node, caller)
        h = self.hot(args[0]) if args else []
        hk = {k: self.hot(v) for k, v in kwargs.items() if self.hot(v)}
        if h or hk:
            self.events += 1
        ow = kwargs.get("overwrite_input")
        if ow is not None and h and self.it.truth(ow) is not False:
            self.flag(h, f"`{last}(..., overwrite_input)`", node, caller)
        if name in WRITES_FIRST and h:
            self.flag(h, f"`{name}(...)`", node, caller)
        if name.startswith("numpy.") and last in BINARY_UFUNCS and \
                len(args) > 2 and self.hot(args[2]):
            self.flag(self.hot(args[2]), f"`{last}(..., out)`", node, caller)
        if name in ("numpy.clip",) and len(args) > 3 and self.hot(args[3]):
            self.flag(self.hot(args[3]), "`clip(..., out)`", node, caller)
        if name == "builtins.getattr" and len(args) > 1 and \
                args[1].strs() is None and DATA in args[0].insts:
            return self.data(node, caller, "getattr")
        if name == "builtins.delattr" and args and DATA in args[0].insts:
            self.deleted(node, caller)
        if name == "builtins.setattr" and len(args) == 3 and \
                DATA in args[0].insts and args[1].strs() is None:
            self.flag([], "replacing a loaded object of the product", node,
                      caller)
        if name in COPY_FALSE:
            c = kwargs.get("copy")
            if name in COPY_INPLACE and c is None and len(args) > 1:
                c = args[1]
            if c is not None and self.it.truth(c) is not True and h:
                if name in COPY_INPLACE:
                    self.flag(h, f"`{last}(..., copy=False)`", node, caller)
                return AV(args[0].tags, unk=True)
            return AV(unk=True)
        if name in VIEW_EXT and args:
            c = kwargs.get("copy")
            if c is not None and self.it.truth(c) is True:
                return AV(unk=True)
            return AV(self.all_tags(args[0]), unk=True)
        if name in ("copy.copy", "copy.deepcopy") and h:
            return AV(unk=True)
        if name in MASKISH:
            return MASK
        if name.split(".")[0] in ("numpy", "pandas", "PIL"):
            return AV(unk=True)
        if h and not name.startswith("builtins."):
            return AV(unk=True)
        if not h:
            return super().ext_call(name, args, kwargs, node, caller)
        return None

    # -- events
    def flag(self, hot, what, node, caller):
        if caller is None:
            return
        key = f"{caller.qual}|{what}"
        if key in self.reported:
            return
        self.reported.add(key)
        origin = ", ".join(sorted({x[2] for x in hot})) or "the product"
        chain = [s.qual for s in self.it.stack]
        self.rep.find(
            "C05.mutate", key,
            f"{caller.file}:{getattr(node, 'lineno', 0)}",
            f"{caller.qual}: {what} changes loaded data (reached through "
            f"{origin}) although neither in-place nor purging was requested",
            ["call chain: " + " -> ".join(chain)])

    def deleted(self, node, caller):
        self.flag([], "deleting a loaded object of the product", node,
                  caller)

    def on_setitem(self, base, key, value, node, caller):
        self.events += 1
        h = self.hot(base)
        if h:
            self.flag(h, f"assignment to `{unparse(node, 60)}`", node,
                      caller)

    def on_setattr(self, base, attr, value, node, caller):
        self.events += 1
        h = self.hot(base)
        if h and attr not in ("mask", "fill_value", "hardmask", "attrs",
                              "soften_mask"):
            self.flag(h, f"assignment to `{unparse(node, 60)}`", node,
                      caller)

    def on_delete(self, base, node, caller):
        self.events += 1
        h = self.hot(base)
        if h:
            self.flag(h, f"`{unparse(node, 60)}`", node, caller)
        elif DATA in base.insts and any(
                isinstance(t, (ast.Attribute, ast.Subscript))
                for t in node.targets):
            self.deleted(node, caller)

    def on_aug(self, cur, value, node, caller):
        self.events += 1
        h = self.hot(cur)
        if h:
            self.flag(h, f"`{unparse(node, 60)}`", node, caller)
            return cur
        return AV(unk=True) if cur.unk and not cur.tags and not cur.refs \
            and not cur.consts else None


class _Mute:
    def find(self, *a, **k):
        pass


def _recv(node):
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        return unparse(node.func.value, 40)
    return unparse(node, 40)


ARRAYS = {"obj", "image", "array", "arr", "masked_array"}


def check(ctx, rep, tier):
    rep.rule("C05.mutate", "with in-place and purging left at their declared "
             "defaults, no statement reachable from the viewing, scaling and "
             "exporting entry points writes into an object fetched from the "
             "product or into a view of it, deletes it or replaces it")
    rep.rule("C05.default", "every in-place or purging switch with a default "
             "is off by default")
    prog = ctx.prog
    # the functions viewing, scaling and exporting hand loaded data to
    mute = Loaded(_Mute())
    pre = Interp(prog, mute)
    pre.run_roots([(f, {}) for n in VIEWS
                   for f in [prog.funcs.get(f"{DATA}.{n}")] if f is not None])
    entered = {f.qual for f in prog.funcs.values() if f.module.name in (
        "pdr._scaling", "pdr.browsify")} | mute.handed
    roots = []
    switches = 0
    for q, f in sorted(prog.funcs.items()):
        if f.vendored or f.name == "<lambda>" or f.module.name.endswith(
                ".tests") or ".tests." in f.module.name:
            continue
        viewing = f.module.name in ("pdr._scaling", "pdr.browsify")
        if not viewing and not (f.cls is not None and f.cls.qual == DATA) \
                and f.qual not in entered:
            continue
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None})
        sw = [n for n in ASK if n in dfl]
        for n in sw:
            switches += 1
            d = dfl[n]
            if isinstance(d, ast.Constant) and d.value:
                rep.find("C05.default", f"{q}|{n}",
                         f"{f.file}:{f.node.lineno}",
                         f"{q}: `{n}` is on unless the caller turns it off")
        required = [n for n in ASK if n in pos and n not in dfl]
        if f.cls is not None and f.cls.qual == DATA and f.name in VIEWS or \
                (f.cls is None and f.parent is None and not required and (
                    sw or (viewing and f.name in (
                        "browsify", "find_special_constants")))):
            roots.append((f, sw, a.kwarg.arg if a.kwarg else None))
    dom = Loaded(rep)
    it = Interp(prog, dom)
    it.never_star = set(ASK)
    it.enter_vendored = lambda f, bound: any(
        dom.hot(v) for v in bound.values())
    todo = []
    for f, sw, kw in roots:
        args = {n: FALSE for n in sw}
        for n in f.all_param_names():
            if n in ARRAYS and f.cls is None:
                args[n] = AV(tags=frozenset([(dom.KIND, 0, f"`{n}`")]),
                             unk=True)
        if f.cls is None:
            for n in f.all_param_names():
                if n in ("data", "meta") and "obj" in f.all_param_names():
                    args[n] = AV(insts=frozenset([DATA]))
        todo.append((f, args))
        rep.sample({"entry point": f.qual, "switched off": sw})
    it.run_roots(todo)
    rep.count("viewing entry points", len(todo))
    rep.need("viewing entry points", 1)
    rep.count("in-place/purge switches", switches)
    rep.count("functions analysed", len(it.entered))
    rep.count("fetches of loaded objects", len(dom.fetches))
    rep.count("operations on loaded data examined", dom.events)

