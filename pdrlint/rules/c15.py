"""C15: special-constant tables are complete and representable; constants
are masked before any scale or offset is applied."""
from __future__ import annotations

import math
import struct

from ..fold import Folder, Unknown
from ..paths import Overflow, Paths
from ..tags import TagDomain, arg

MOD = "pdr.datatypes"
TABLE = "IMPLICIT_PDS3_CONSTANTS"
NAMES = "PDS3_CONSTANT_NAMES"
FIND = "pdr._scaling.find_special_constants"
MASK = "pdr._scaling.mask_specials"
SCALE = "pdr._scaling.scale_array"
PDS4 = "pdr._scaling.scale_pds4_tools_struct"
GET = "pdr.pdr.Data.get_scaled"

INTS = {f"{s}int{b}": (-(1 << b - 1) if not s else 0,
                       (1 << b - 1) - 1 if not s else (1 << b) - 1)
        for s in ("", "u") for b in (8, 16, 32, 64)}
TYPES = tuple(INTS) + ("float32", "float64")


def f32(h):
    return struct.unpack(">f", bytes.fromhex(h))[0]


# PDS Standards Reference (N/A, UNK) and the ISIS special pixel values
REF = {
    "int16": {"N/A": -32768, "UNK": 32767, "ISIS_LOW_INST_SAT": -32766,
              "ISIS_LOW_REPR_SAT": -32767, "ISIS_HIGH_INST_SAT": -32765,
              "ISIS_HIGH_REPR_SAT": -32764},
    "uint16": {"NULL": 0, "N/A": 65533, "UNK": 65534,
               "ISIS_LOW_INST_SAT": 2, "ISIS_LOW_REPR_SAT": 1,
               "ISIS_HIGH_INST_SAT": 65534, "ISIS_HIGH_REPR_SAT": 65535},
    "int32": {"N/A": -2147483648, "UNK": 2147483647},
    "uint32": {"N/A": 4294967293, "UNK": 4294967294},
    "float32": {"NULL": f32("FF7FFFFB"), "N/A": -1e32, "UNK": 1e32,
                "ISIS_LOW_INST_SAT": f32("FF7FFFFD"),
                "ISIS_LOW_REPR_SAT": f32("FF7FFFFC"),
                "ISIS_HIGH_INST_SAT": f32("FF7FFFFE"),
                "ISIS_HIGH_REPR_SAT": f32("FF7FFFFF")},
}
KEYWORDS = ("INVALID_CONSTANT", "MISSING_CONSTANT", "NOT_APPLICABLE_CONSTANT",
            "NULL_CONSTANT", "UNKNOWN_CONSTANT", "INFINITY_CONSTANT",
            "CORE_NULL", "CORE_LOW_REPR_SATURATION",
            "CORE_LOW_INSTR_SATURATION", "CORE_HIGH_REPR_SATURATION",
            "CORE_HIGH_INSTR_SATURATION")


def as32(x):
    try:
        return struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError:
        return math.inf


def tables(ctx, rep):
    m = ctx.prog.modules.get(MOD)
    if m is None:
        rep.undecide("no data type module")
        return
    fo = Folder(ctx.prog)
    try:
        t = fo.module_value(m, TABLE)
    except Unknown:
        t = None
    loc = f"{m.relpath}:{_line(m, TABLE)}"
    if not isinstance(t, dict) or not all(
            isinstance(v, dict) for v in t.values()):
        rep.undecide(f"{TABLE} is not a constant")
    else:
        for ty in TYPES:
            rep.count("sample types")
            if ty not in t:
                if not _default_lookup(ctx):
                    rep.find("C15.complete", ty, loc,
                             f"{TABLE} has no entry for {ty}")
                continue
            for name, v in t[ty].items():
                rep.count("constants")
                why = representable(ty, v)
                if why:
                    rep.find("C15.representable", f"{ty}|{name}", loc,
                             f"{name} of {ty}, {v!r}, {why}")
            for name, want in REF.get(ty, {}).items():
                rep.count("standard constants")
                if name not in t[ty]:
                    rep.find("C15.value", f"{ty}|{name}", loc,
                             f"{ty} has no {name} constant")
                elif not same(ty, t[ty][name], want):
                    rep.find("C15.value", f"{ty}|{name}", loc,
                             f"{name} of {ty} is {t[ty][name]!r}, the "
                             f"standard says {want!r}")
    try:
        names = set(fo.module_value(m, NAMES))
    except (Unknown, TypeError):
        rep.undecide(f"{NAMES} is not a constant")
        return
    for k in KEYWORDS:
        rep.count("label keywords")
        if k not in names:
            rep.find("C15.keyword", k, f"{m.relpath}:{_line(m, NAMES)}",
                     f"the label keyword {k} is not recognised as a special "
                     f"constant")


def _line(m, name):
    vs = m.assigns.get(name) or []
    return getattr(vs[-1], "lineno", 1) if vs else 1


def _default_lookup(ctx):
    """the table is read through .get with a default everywhere"""
    import ast
    ok = True
    seen = False
    for f in ctx.prog.own_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and _is_table(n.value):
                ok = False
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "get" and \
                    _is_table(n.func.value):
                seen = True
                if len(n.args) < 2:
                    ok = False
    return ok and seen


def _is_table(e):
    import ast
    return isinstance(e, ast.Name) and e.id == TABLE or isinstance(
        e, ast.Attribute) and e.attr == TABLE


def representable(ty, v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return "is not a number"
    if ty in INTS:
        if v != int(v):
            return "is not an integer"
        lo, hi = INTS[ty]
        if not lo <= v <= hi:
            return f"does not fit in {ty}"
        return None
    if ty == "float32":
        x = as32(v)
        if math.isinf(x) and not math.isinf(v):
            return "does not fit in float32"
        if v and abs(x - v) > abs(v) * 2.0 ** -23:
            return "is not a float32 value"
    return None


def same(ty, a, b):
    if ty == "float32":
        return as32(a) == as32(b)
    return a == b


# ------------------------------------------------------------------ masking
class Masking(TagDomain):
    """RAW: the loaded object; MASKED: constants masked; SPECIALS: the
    constants found; SCALED: scale or offset applied"""

    def __init__(self, prog, rep):
        super().__init__(prog)
        self.rep = rep
        self.hits = {}
        self.scales = 0

    def is_self(self, v):
        return v == ("self",)

    def attr(self, val, name, node, dom, fr):
        if self.is_self(val):
            if name == "specials":
                return ("t", frozenset(["STORE"]))
            if name == "standard":
                return ("std",)
            return None
        return super().attr(val, name, node, dom, fr)

    def subscript(self, val, k, node, dom, fr):
        if self.is_self(val):
            v, d = self.new(node, {"RAW"}, dom, fr)
            return [("ok", v, d)]
        if "STORE" in self.tags(val, dom):
            return [("ok", ("sp",), dom)]
        return super().subscript(val, k, node, dom, fr)

    def tags(self, v, dom):
        if v == ("sp",):
            return frozenset(["SPECIALS"])
        return super().tags(v, dom)

    def empty(self, v):
        return isinstance(v, tuple) and v and (
            v[0] == "D" and not v[1] or v[0] == "k" and v[2] == 0)

    def unknown(self, op, a, b, node, dom, fr):
        import ast
        for x, y in ((a, b), (b, a)):
            if x in (("sp",), ("len sp",)) and self.empty(y):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    return ("b", "empty", isinstance(op, ast.Eq))
                if isinstance(op, (ast.Gt, ast.Lt)):
                    return ("b", "empty", False)
            if x == ("std",) and isinstance(y, tuple) and y[0] == "k":
                return ("b", ("std", y[2]), isinstance(op, ast.Eq))
        return None

    def truth(self, val, dom):
        if val in (("sp",), ("len sp",)):
            f = self.fact(dom, "empty")
            return None if f is None else not f
        return super().truth(val, dom)

    def branch(self, val, b, dom, fr):
        if val in (("sp",), ("len sp",)):
            return self.with_fact(dom, "empty", not b)
        return super().branch(val, b, dom, fr)

    def store_item(self, base, k, val, node, dom, fr):
        return dom

    def on_binop(self, op, a, b, node, dom, fr):
        return (a | b) - {"SPECIALS"}

    def on_call(self, q, recv, name, args, kwargs, node, dom, fr):
        if q == "builtins.len" or q == "len":
            if args and args[0] == ("sp",):
                return [("ok", ("len sp",), dom)]
        if recv == ("sp",) and name in ("values", "items", "copy"):
            return [("ok", ("sp",), dom)]
        if q in ("list", "tuple", "dict", "builtins.list") and args and \
                args[0] == ("sp",):
            return [("ok", ("sp",), dom)]
        if recv == ("self",) and name == "find_special_constants" or \
                q == FIND:
            return [("ok", ("sp",), dom)]
        if recv == ("self",) and name == "__getitem__":
            v, d = self.new(node, {"RAW"}, dom, fr)
            return [("ok", v, d)]
        if recv == ("self",) and name:
            c = self.p.classes.get("pdr.pdr.Data")
            m = c.methods.get(name) if c else None
            if m is not None and name.startswith("_") and not m.is_property \
                    if hasattr(m, "is_property") else m is not None and \
                    name.startswith("_"):
                return ("inline", m, ("self",))
        if recv is not None and "STORE" in self.tags(recv, dom):
            if name in ("get", "setdefault", "__getitem__", "pop"):
                return [("ok", ("sp",), dom)]
            return [("ok", None, dom)]
        if q == MASK:
            o = arg(args, kwargs, 0, "obj")
            s = arg(args, kwargs, 1, "specials")
            t = self.tags(o, dom)
            if s == ("sp",) or s is None:
                t = t | {"MASKED"}
            v, d = self.new(node, t, dom, fr)
            return [("ok", v, d)]
        if q == SCALE:
            o = arg(args, kwargs, 1, "obj")
            t = self.tags(o, dom)
            self.scales += 1
            if "MASKED" not in t and self.fact(dom, "empty") is not True:
                self.hits.setdefault(
                    ("order", fr.func.qual), (fr.func, node))
            v, d = self.new(node, t | {"SCALED"}, dom, fr)
            return [("ok", v, d)]
        return None


def masking(ctx, rep):
    prog = ctx.prog
    f = prog.funcs.get(GET)
    if f is None or SCALE not in prog.funcs or MASK not in prog.funcs:
        rep.undecide("get_scaled: not found")
        return
    dom = Masking(prog, rep)
    x = Paths(prog, dom)
    ps = f.all_param_names()
    try:
        res = x.run(f, {n: (("self",) if i == 0 else None)
                        for i, n in enumerate(ps)}, dom.EMPTY)
    except Overflow:
        rep.undecide("get_scaled: paths")
        return
    rep.count("scaling calls on paths", dom.scales)
    if not dom.scales:
        rep.undecide("get_scaled: no scaling call followed")
    for (k, q), (g, node) in dom.hits.items():
        rep.find("C15.order", q, f"{g.file}:{node.lineno}",
                 f"{g.name} scales an array whose special constants have "
                 f"not been masked")
    rep.count("paths through get_scaled", len(res))


class MaskBody(TagDomain):
    """what the returned array's mask is made of"""

    def __init__(self, prog, obj, specials):
        super().__init__(prog)
        self.raw = False

    def view(self, tags, name):
        if name in ("dtype", "shape", "ndim", "size", "kind"):
            return frozenset(["TYPE"]) if "OBJ" in tags else frozenset()
        return tags

    def on_call(self, q, recv, name, args, kwargs, node, dom, fr):
        ts = [self.tags(a, dom) for a in args]
        short = (q or name or "").split(".")[-1]
        if short in ("isin", "in1d") and len(args) >= 2:
            if "SPEC" in ts[1]:
                if "TYPE" not in ts[1]:
                    k = ts[1] | {"UNTYPED"}
                else:
                    k = ts[1]
                v, d = self.new(node, (k | {"TEST"}) - {"SPEC", "OBJ"}, dom,
                                fr)
                return [("ok", v, d)]
        if short in ("isfinite", "isnan", "isinf"):
            v, d = self.new(node, {"FINITE"}, dom, fr)
            return [("ok", v, d)]
        return None

    def unknown(self, op, a, b, node, dom, fr):
        import ast
        t = self.tags(a, dom) | self.tags(b, dom)
        if isinstance(op, ast.Eq) and {"OBJ", "SPEC"} <= t:
            return ("t", frozenset(["TEST"]))
        return None


def mask_body(ctx, rep):
    """mask_specials masks exactly by comparison with the constants, in the
    precision of the array"""
    prog = ctx.prog
    f = prog.funcs.get(MASK)
    if f is None or len(f.param_names()) < 2:
        return
    a, b = f.param_names()[:2]
    dom = MaskBody(prog, a, b)
    x = Paths(prog, dom)
    d0 = dom.put(("p", a), {"OBJ"}, dom.EMPTY)
    d0 = dom.put(("p", b), {"SPEC"}, d0)
    try:
        res = x.run(f, {a: ("o", ("p", a)), b: ("o", ("p", b))}, d0)
    except Overflow:
        rep.undecide("mask_specials: paths")
        return
    typed = False
    worst = None
    for kind, v, d in res:
        if kind != "return":
            continue
        rep.count("mask paths")
        t = dom.tags(v, d)
        if "TEST" not in t and "SPEC" not in t:
            rep.find("C15.mask", f"{f.qual}|none", f"{f.file}:{f.line}",
                     "mask_specials returns an array without the constants "
                     "masked")
        if "TEST" in t:
            if "UNTYPED" in t:
                worst = t
            else:
                typed = True
    if worst is not None and not typed:
        rep.find("C15.mask", f"{f.qual}|precision", f"{f.file}:{f.line}",
                 "mask_specials compares constants in double precision, so "
                 "those without an exact 32-bit representation are never "
                 "masked in 32-bit float arrays")


class Found(TagDomain):
    """which sources the constants found come from"""

    def name_ref(self, ref, node, dom, fr):
        if ref[0] == "global" and ref[2] in (TABLE, NAMES):
            return ("t", frozenset([ref[2]]))
        return None

    def attr(self, val, name, node, dom, fr):
        if name == "name" and val == ("dtype",):
            return ("dtname",)
        if name == "dtype" and "OBJ" in self.tags(val, dom):
            return ("dtype",)
        if name in ("itemsize", "char", "kind"):
            return None
        return super().attr(val, name, node, dom, fr)

    def unknown(self, op, a, b, node, dom, fr):
        import ast
        for x, y in ((a, b), (b, a)):
            if x == ("dtname",) and isinstance(y, tuple) and y[0] == "k" \
                    and isinstance(op, (ast.Eq, ast.NotEq)):
                return ("b", ("type", y[2]), isinstance(op, ast.Eq))
        if isinstance(op, (ast.In, ast.NotIn)) and a == ("dtname",):
            els = self.elements(b, dom)
            if els and all(isinstance(e, tuple) and e[0] == "k"
                           for e in els):
                return ("b", ("types", tuple(e[2] for e in els)),
                        isinstance(op, ast.In))
        return None

    def comp(self, e, acc, dom):
        return None


def found(ctx, rep):
    """every path through find_special_constants reports both kinds"""
    import ast
    prog = ctx.prog
    f = prog.funcs.get(FIND)
    if f is None:
        return
    # the label keywords and the implicit table are both consulted
    src = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {
        n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    reach = ctx.cg.reach([f])
    for g in list(reach):
        g = g if not isinstance(g, str) else prog.funcs.get(g)
        if g is not None and not g.vendored:
            src |= {n.id for n in ast.walk(g.node) if isinstance(
                n, ast.Name)} | {n.attr for n in ast.walk(g.node)
                                 if isinstance(n, ast.Attribute)}
    for n in (TABLE, NAMES):
        rep.count("constant sources")
        if n not in src:
            rep.find("C15.found", n, f"{f.file}:{f.line}",
                     f"find_special_constants does not consult {n}")
    # explicit constants survive on every path
    dom = Found(prog)
    x = Paths(prog, dom)
    ps = f.all_param_names()
    d0 = dom.put(("p", "obj"), {"OBJ"}, dom.EMPTY)
    env = {n: None for n in ps}
    if len(ps) > 1:
        env[ps[1]] = ("o", ("p", "obj"))
    try:
        res = x.run(f, env, d0)
    except Overflow:
        rep.undecide("find_special_constants: paths")
        return
    for kind, v, d in res:
        if kind != "return":
            continue
        rep.count("paths through find_special_constants")
        names = [k[1] for k, b in d[1] if b and isinstance(k, tuple)
                 and k[0] == "type"]
        names += [y for k, b in d[1] if b and isinstance(k, tuple)
                  and k[0] == "types" for y in k[1]]
        if isinstance(v, tuple) and v and v[0] == "D" and not v[1] or \
                isinstance(v, tuple) and v and v[0] == "k":
            if not names or any(n in REF for n in names):
                rep.find("C15.found", "nothing", f"{f.file}:{f.line}",
                         f"find_special_constants finds nothing for "
                         f"{', '.join(names) or 'some arrays'}")


def pds4(ctx, rep):
    """the vendored PDS4 scaling is given the special constants"""
    import ast
    prog = ctx.prog
    f = prog.funcs.get(PDS4)
    if f is None:
        return
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        r = prog.resolve_expr_static(n.func, f.module, f)
        if not r or r[0] != "func" or r[1].name != \
                "apply_scaling_and_value_offset":
            continue
        rep.count("PDS4 scaling calls")
        kw = {k.arg: k.value for k in n.keywords}
        if None in kw:
            continue
        i = r[1].param_names().index("special_constants") if \
            "special_constants" in r[1].param_names() else None
        v = kw.get("special_constants")
        if v is None and i is not None and len(n.args) > i:
            v = n.args[i]
        if v is None or isinstance(v, ast.Constant) and v.value is None:
            rep.find("C15.pds4", f.qual, f"{f.file}:{n.lineno}",
                     f"{f.name} scales a PDS4 array without its special "
                     f"constants")


def check(ctx, rep, tier):
    rep.rule("C15.complete", "constant folding of the implicit constants: an "
             "entry for every integer and float sample type")
    rep.rule("C15.representable", "each constant is a value of its type")
    rep.rule("C15.value", "the constants the standard defines are present "
             "with its values")
    rep.rule("C15.keyword", "constant folding of the label keywords: the "
             "standard's are recognised")
    rep.rule("C15.order", "on every path through get_scaled, an array that "
             "reaches scale_array has its constants masked or has none")
    rep.rule("C15.mask", "mask_specials masks by comparison with the "
             "constants, in the precision of the array")
    rep.rule("C15.found", "explicit and implicit constants are both found")
    rep.rule("C15.pds4", "PDS4 arrays are scaled with their constants given")
    tables(ctx, rep)
    masking(ctx, rep)
    mask_body(ctx, rep)
    found(ctx, rep)
    pds4(ctx, rep)
