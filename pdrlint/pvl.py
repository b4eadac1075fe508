"""Interpreting the PVL parser: multi-dicts, and the few functions of other
libraries that it uses, by their documentation."""
from __future__ import annotations

import ast
import warnings

from .absint import AExc, AObj, Model, Undecided
from .frames import MD, md_call


def isdict(m, v, types):
    names = {str(getattr(t, "name", t)).split(".")[-1] for t in types}
    if isinstance(v, MD):
        return bool(names & {"MultiDict", "Mapping", "MutableMapping"})
    if isinstance(v, dict):
        return bool(names & {"dict", "<class 'dict'>", "Mapping",
                             "MutableMapping"}) or "dict" in names
    return False


def dug(m, mapping, pred):
    """breadth first within a level, then into nested mappings"""
    its = list(mapping.items) if isinstance(mapping, MD) else list(
        mapping.items())
    out = [(k, v) for k, v in its if m.truth(pred(k, v))]
    for _, v in its:
        if isinstance(v, (MD, dict)):
            out += dug(m, v, pred)
    return out


class PVLModel(Model):
    def ext_call(self, m, name, args, kw, node):
        r = md_call(m, name, args, kw)
        if r is not NotImplemented:
            return r
        return pvl_call(m, name, args, kw, node)


def pvl_call(m, name, args, kw, node):
    a = args[0] if args else None
    if name == "ast.literal_eval":
        if not isinstance(a, str):
            raise Undecided("literal_eval of a value that is not followed")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return m.native(ast.literal_eval, a)
    if name in ("cytoolz.groupby", "toolz.groupby", "cytoolz.itertoolz."
                "groupby"):
        out = {}
        for x in m.iterate(args[1]):
            k = x if isid(a) else m.call_value(a, [x], {}, node)
            out.setdefault(k, []).append(x)
        return out
    if name in ("cytoolz.identity", "toolz.identity"):
        return a
    if name in ("cytoolz.unique", "more_itertools.unique_everseen"):
        return list(dict.fromkeys(m.iterate(a)))
    if name == "more_itertools.split_before":
        out, cur = [], []
        for x in m.iterate(a):
            if cur and m.truth(m.call_value(args[1], [x], {}, node)):
                out.append(cur)
                cur = []
            cur.append(x)
        if cur:
            out.append(cur)
        return out
    if name.startswith("dustgoggles.structures.dig_for_"):
        what = name.rsplit("_", 1)[1]
        ref = args[1] if len(args) > 1 else kw.get("ref")
        match = kw.get("match", "key")
        if callable_value(ref):
            def pred(k, v):
                return m.call_value(ref, [k, v], {}, node)
        else:
            def pred(k, v):
                return (k if match == "key" else v) == ref
        if a is None:
            a = kw.get("mapping")
        if not isinstance(a, (MD, dict)):
            raise Undecided("dig")
        hits = dug(m, a, pred)
        if what in ("keys", "values", "items"):
            if not hits:
                return None
            return hits if what == "items" else [
                h[what == "values"] for h in hits]
        if what in ("key", "value", "item"):
            if not hits:
                return None
            return hits[0] if what == "item" else hits[0][what == "value"]
    if name.startswith("warnings."):
        if name == "warnings.warn":
            m.event("warn", a)
        return None
    return NotImplemented


def isid(f):
    return getattr(f, "name", None) in ("cytoolz.identity", "toolz.identity")


def callable_value(f):
    return f is not None and not isinstance(f, (str, int, float, tuple)) \
        and not isinstance(f, MD)


def tree(v):
    """a parsed mapping as nested lists of pairs"""
    if isinstance(v, MD):
        return [(k, tree(x)) for k, x in v.items]
    if isinstance(v, dict):
        return {k: tree(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(tree(x) for x in v)
    if isinstance(v, AObj):
        raise Undecided("value in a parsed label")
    return v


__all__ = ["PVLModel", "pvl_call", "tree", "AExc"]
