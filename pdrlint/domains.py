"""Domains for the abstract interpreter."""
from __future__ import annotations

import ast

from .flow import AV, Domain, TOP, NONE, BOT, K, MUTATORS
from .program import unparse

DATA = "pdr.pdr.Data"
META = "pdr.pdr.Metadata"


def inst(q):
    return AV(insts=frozenset([q]))


def data_param(name):
    if name in ("data", "pdrlike"):
        return inst(DATA)
    return None


PASS_FIRST = {      # answers (part of) its argument itself
    "dustgoggles.structures.listify", "cytoolz.identity",
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
    "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose",
    "numpy.moveaxis", "numpy.swapaxes", "numpy.rollaxis", "numpy.rot90",
    "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.expand_dims",
    "numpy.broadcast_to", "numpy.require", "numpy.array_split",
    "numpy.split", "numpy.dsplit", "numpy.hsplit", "numpy.vsplit",
    "numpy.real", "numpy.imag", "numpy.diagonal", "numpy.frombuffer",
    "numpy.ma.asarray", "numpy.ma.asanyarray", "numpy.ma.getdata",
    "numpy.lib.stride_tricks.as_strided", "builtins.memoryview",
    "PIL.Image.frombuffer",
}
SHALLOW = {
    "copy.copy", "multidict.MultiDict", "multidict.CIMultiDict",
    "collections.OrderedDict", "collections.deque", "collections.ChainMap",
    "cytoolz.keyfilter", "cytoolz.valfilter", "cytoolz.itemfilter",
    "cytoolz.curried.valfilter", "cytoolz.curried.keyfilter",
    "cytoolz.keymap", "cytoolz.valmap", "cytoolz.merge", "cytoolz.concat",
    "cytoolz.groupby", "cytoolz.take",
    "itertools.islice", "itertools.chain", "dustgoggles.structures.dcom",
    "multidict.MultiDictProxy",
}


class Alias(Domain):
    """tags (KIND, depth, origin): depth 0 = the tracked object itself (or a
    view of it), depth n = a fresh container that reaches it in n steps"""
    KIND = "M"
    CAP = 3

    def container_tags(self, vals):
        out = set()
        for v in vals:
            for k, d, o in self.all_tags(v):
                out.add((k, min(d + 1, self.CAP), o))
        return frozenset(out)

    def element_tags(self, tags):
        return frozenset((k, max(d - 1, 0), o) for k, d, o in tags)

    def copy_tags(self, tags):
        return frozenset((k, max(d, 1), o) for k, d, o in tags)

    def default_call_tags(self, vals, node):
        return frozenset()

    def binop(self, op, a, b, node, caller):
        if isinstance(op, (ast.Add, ast.BitOr, ast.Mult)):
            t = self.copy_tags(self.all_tags(a) | self.all_tags(b))
            if t and not (a.fields is not None and b.fields is not None
                          or a.elts is not None and b.elts is not None):
                return AV(t, unk=True)
        return None

    def hot(self, v):
        return sorted(t for t in v.tags if t[1] == 0)

    def src(self, node, func, what):
        f = func.module.relpath if func is not None else "?"
        return AV(tags=frozenset([(self.KIND, 0, what)]), unk=True)

    def ext_call(self, name, args, kwargs, node, caller):
        if name in PASS_FIRST and args:
            return AV(self.all_tags(args[0]), unk=True)
        if name in ("multidict.MultiDict", "multidict.CIMultiDict",
                    "collections.OrderedDict", "builtins.dict") and len(
                args) == 1 and args[0].fields is None and any(
                t[1] >= 2 for t in args[0].tags):
            # a mapping, or an iterable of pairs
            t = self.copy_tags(self.all_tags(args[0]))
            t |= frozenset((k, max(d - 1, 1), o) for k, d, o in t)
            return AV(t, unk=True)
        if name in SHALLOW and args:
            t = frozenset()
            for a in args:
                if not a.refs:
                    t |= self.copy_tags(self.all_tags(a))
            return AV(t, unk=True)
        if name == "copy.deepcopy":
            a = args[0]
            return AV(unk=True)
        if name in ("dustgoggles.structures.dig_for_value",
                    "dustgoggles.structures.dig_for_key",
                    "cytoolz.get_in", "cytoolz.get") and args:
            t = frozenset()
            for a in args:
                for x in self.all_tags(a):
                    t |= {(x[0], 0, x[2])}
            return AV(t, unk=True)
        if name in ("dustgoggles.structures.dig_for_values",
                    "dustgoggles.structures.dig_for_all") and args:
            t = frozenset((x[0], 1, x[2]) for x in self.all_tags(args[0]))
            return AV(t, unk=True)
        if name in ("cytoolz.valmap", "cytoolz.keymap"):
            return AV(self.copy_tags(self.all_tags(args[1])) if len(
                args) > 1 else frozenset(), unk=True)
        return None
