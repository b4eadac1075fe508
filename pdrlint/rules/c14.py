"""C14: PDS3 data types decode with the standard's byte order, width, kind."""
from __future__ import annotations

import ast
import re

from ..geval import Evaluator
from ..gval import Ite, Term, TooBig, show
from ..paths import Overflow, PathDomain, Paths
from ..program import own_walk

TYPES = "pdr.datatypes.sample_types"
ORDER = "pdr.datatypes.determine_byte_order"
SPECS = "pdr.loaders.image.make_format_specifications"
INSERT = "pdr.pd_utils.insert_sample_types_into_df"
WIDTHS = tuple(range(1, 17)) + (20, 32, 64)

# PDS Standards Reference, data types: name -> (byte order, kind)
STANDARD = {}
for _p, _o in (("", ">"), ("MSB_", ">"), ("SUN_", ">"), ("MAC_", ">"),
               ("LSB_", "<"), ("PC_", "<"), ("VAX_", "<")):
    STANDARD[_p + "INTEGER"] = (_o, "int")
    STANDARD[_p + "UNSIGNED_INTEGER"] = (_o, "uint")
for _p, _o in (("", ">"), ("IEEE_", ">"), ("MAC_", ">"), ("SUN_", ">"),
               ("PC_", "<")):
    STANDARD[_p + "REAL"] = (_o, "float")
STANDARD["FLOAT"] = (">", "float")
STANDARD["VAX_REAL"] = ("<", "raw real")
STANDARD["IBM_REAL"] = (">", "raw real")
STANDARD["BOOLEAN"] = (">", "int")
for _t in ("ASCII_REAL", "ASCII_INTEGER", "DATE", "TIME", "CHARACTER"):
    STANDARD[_t] = (None, "text")
for _t in ("MSB_BIT_STRING", "LSB_BIT_STRING", "VOID", "BCD",
           "BINARY_CODED_DECIMAL", "EBCDIC", "EBCDIC_CHARACTER"):
    STANDARD[_t] = (None, "raw")
REQUIRED = {"int": (1, 2, 4, 8), "uint": (1, 2, 4, 8), "float": (4, 8),
            "raw real": (4,), "text": WIDTHS, "raw": WIDTHS}
NAMES = tuple(STANDARD)
NUMPY = {"b": ("int", 1), "B": ("uint", 1), "h": ("int", 2),
         "H": ("uint", 2), "i": ("int", 4), "I": ("uint", 4),
         "l": ("int", 8), "L": ("uint", 8), "q": ("int", 8),
         "Q": ("uint", 8), "e": ("float", 2), "f": ("float", 4),
         "d": ("float", 8), "g": ("float", 16), "?": ("bool", 1)}
SIZED = {"i": "int", "u": "uint", "f": "float", "S": "text", "a": "text",
         "V": "raw", "b": "bool"}


def parse(s):
    """(order, kind, width) of a numpy type string; None when malformed"""
    m = re.fullmatch(r"([<>=|]?)(.*)", s)
    order, rest = m.group(1) or "=", m.group(2)
    if rest in NUMPY:
        return (order,) + NUMPY[rest]
    m = re.fullmatch(r"([a-zA-Z])(\d+)", rest)
    if m and m.group(1) in SIZED:
        k, w = SIZED[m.group(1)], int(m.group(2))
        if k in ("int", "uint") and w not in (1, 2, 4, 8):
            return None
        if k == "float" and w not in (2, 4, 8, 16):
            return None
        return order, k, w
    m = re.fullmatch(r"(\d+)([sSV])", rest)
    if m:
        return order, {"V": "raw"}.get(m.group(2), "text"), int(m.group(1))
    return None


def fits(s, name, width):
    """why the string is wrong for this type and width, or None"""
    got = parse(s)
    order, kind = STANDARD[name]
    if got is None:
        return f"{s!r} is not a data type"
    o, k, w = got
    if w != width:
        return f"{s!r} is {w} bytes wide, the object {width}"
    if kind == "raw real":
        if k not in ("uint", "int", "raw"):
            return f"{s!r} is not raw bytes"
        if k != "raw" and w > 1 and o != order:
            return f"{s!r} has the wrong byte order"
        return None
    if name == "BOOLEAN" and k in ("uint", "bool"):
        k = "int"
    if k != kind:
        return f"{s!r} is {k}, the standard says {kind}"
    if order is not None and w > 1 and o != order:
        return f"{s!r} has the wrong byte order"
    return None


def outcome(v):
    """("str", s) | ("raise",) | None when not a single known outcome"""
    if isinstance(v, Ite):
        return None
    if v.op == "const":
        return ("str", v.value) if isinstance(v.value, str) else None
    if v.op == "raise":
        return ("raise",)
    if v.op == "sub" and isinstance(v.args[0], Term) and \
            v.args[0].op == "dict" and v.args[1].op == "const":
        ks = v.args[0].args[0::2]
        if all(isinstance(k, Term) and k.op == "const" for k in ks):
            if all(k.value != v.args[1].value for k in ks):
                return ("raise",)        # KeyError
    return None


def evaluate(prog, f, **consts):
    ev = Evaluator(prog, inline=lambda g: not g.vendored, budget=200_000)
    args = {k: ev.sp.const(v) for k, v in consts.items()
            if k in f.all_param_names()}
    try:
        return ev.run(f, args).value
    except (TooBig, RecursionError):
        return None


def table(ctx, rep, f, for_numpy):
    """{(name, width): outcome}"""
    out = {}
    pos = f.param_names()
    for name in NAMES:
        for w in WIDTHS:
            v = evaluate(ctx.prog, f, **{
                pos[0]: name, pos[1]: w, **(
                    {pos[2]: for_numpy} if len(pos) > 2 else {})})
            out[name, w] = None if v is None else outcome(v)
    return out


def mapping(ctx, rep):
    f = ctx.prog.funcs.get(TYPES)
    if f is None or len(f.param_names()) < 2:
        rep.undecide("sample_types")
        return None
    loc = f"{f.file}:{f.line}"
    ok = {}
    for mode in (True, False):
        bad = {}
        res = table(ctx, rep, f, mode)
        for (name, w), o in res.items():
            need = w in REQUIRED[STANDARD[name][1]]
            rep.count("type, width and mode combinations evaluated")
            if o is None:
                rep.count("combinations not evaluated")
                if mode:
                    rep.undecide(f"{name} of {w} bytes")
                continue
            if o[0] == "raise":
                if need:
                    bad[name, w] = f"{name} of {w} bytes is refused"
                continue
            why = fits(o[1], name, w)
            if why:
                bad[name, w] = f"{name} of {w} bytes: {why}"
        ok[mode] = not bad
        if mode:
            by = {}
            for (name, w), why in bad.items():
                by.setdefault(name, []).append(why)
            for name, whys in sorted(by.items()):
                rep.find("C14.table", name, loc, "; ".join(whys[:3]))
    return ok


def order(ctx, rep):
    f = ctx.prog.funcs.get(ORDER)
    if f is None:
        return
    for name, want in [(n, o) for n, (o, _) in STANDARD.items() if o] + [
            ("MSB_BIT_STRING", ">"), ("LSB_BIT_STRING", "<")]:
        v = evaluate(ctx.prog, f, **{f.param_names()[0]: name})
        rep.count("byte orders evaluated")
        o = None if v is None else outcome(v)
        if o is None:
            rep.undecide(f"byte order of {name}")
        elif o != ("str", want):
            rep.find("C14.order", name, f"{f.file}:{f.line}",
                     f"{name} is given byte order {o[-1]!r}, the standard "
                     f"says {want!r}")


def specs(ctx, rep):
    """the image reader's dtype is the sample type it was given"""
    f = ctx.prog.funcs.get(SPECS)
    if f is None or len(f.param_names()) != 1:
        return
    for s in (">b", "<B", ">h", "<H", ">i4", "<u4", ">i8", ">f", "<d", "S4",
              "V2", "<u1", ">u2"):
        ev = Evaluator(ctx.prog, inline=lambda g: True, budget=200_000)
        sp = ev.sp
        props = sp.term("dict", sp.const("sample_type"), sp.const(s),
                        sp.const("pixels"), sp.const(6))
        try:
            v = ev.run(f, {f.param_names()[0]: props}).value
        except (TooBig, RecursionError):
            continue
        rep.count("image formats evaluated")
        got = set()
        walk(v, got)
        if not got:
            rep.undecide(f"dtype of {s}")
        for g in got:
            if parse(g) != parse(s):
                rep.find("C14.image", s, f"{f.file}:{f.line}",
                         f"samples described as {s!r} are read as {g!r}")


def walk(v, got, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Ite):
        return
    if isinstance(v, Term):
        if v.op == "call" and v.args[0].op == "ext" and \
                v.args[0].args[0] == "numpy.dtype":
            a = v.args[1].args
            if a and isinstance(a[0], Term) and a[0].op == "const" and \
                    isinstance(a[0].value, str):
                got.add(a[0].value)
        for x in v.args:
            if isinstance(x, (Term, Ite)):
                walk(x, got, seen)


# ----------------------------------------------------------- widths given
class Units:
    def __init__(self, prog):
        self.p = prog

    def key(self, k):
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            if re.search(r"(^|_)BITS$", k.value):
                return "bits"
            if re.search(r"(^|_)BYTES(_PER_PIXEL)?$", k.value):
                return "bytes"
        return None

    def unit(self, e, f, seen=()):
        if isinstance(e, ast.Subscript):
            return self.key(e.slice)
        if isinstance(e, ast.Call):
            fe = e.func
            if isinstance(fe, ast.Attribute) and fe.attr == "get" and e.args:
                return self.key(e.args[0])
            if isinstance(fe, ast.Name) and fe.id in (
                    "int", "float", "round", "abs") and e.args:
                return self.unit(e.args[0], f, seen)
            if isinstance(fe, ast.Attribute) and fe.attr in (
                    "ceil", "floor") and e.args:
                return self.unit(e.args[0], f, seen)
            return None
        if isinstance(e, ast.BinOp):
            u = self.unit(e.left, f, seen)
            n = e.right.value if isinstance(e.right, ast.Constant) else None
            if u is None or n is None:
                return None
            if isinstance(e.op, (ast.Div, ast.FloorDiv)) or isinstance(
                    e.op, ast.RShift):
                by = 2 ** n if isinstance(e.op, ast.RShift) else n
                if u == "bits":
                    return "bytes" if by == 8 else f"bits / {by}"
                return u if by == 1 else f"{u} / {by}"
            if isinstance(e.op, ast.Mult) and n == 8 and u == "bytes":
                return "bits"
            return None
        if isinstance(e, ast.IfExp):
            return self.join([self.unit(e.body, f, seen),
                              self.unit(e.orelse, f, seen)])
        if isinstance(e, ast.BoolOp):
            return self.join([self.unit(x, f, seen) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.unit(e.value, f, seen)
        if isinstance(e, ast.Name) and f is not None and e.id not in seen:
            us = []
            for n in own_walk(f.node):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in n.targets) or isinstance(
                        n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(
                        n.target, ast.Name) and n.target.id == e.id and \
                        n.value is not None:
                    us.append(self.unit(n.value, f, seen + (e.id,)))
            return self.join(us)
        return None

    def join(self, us):
        bad = [u for u in us if u not in (None, "bytes")]
        return bad[0] if bad else ("bytes" if "bytes" in us else None)


def args_of(call, names):
    out = dict(zip(names, call.args))
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


def uses(ctx, rep, ok):
    prog = ctx.prog
    f = prog.funcs.get(TYPES)
    un = Units(prog)
    names = f.param_names()
    for g in prog.own_funcs():
        for n in own_walk(g.node, include_lambdas=True):
            pairs = []
            if isinstance(n, ast.Dict):
                pairs = list(zip(n.keys, n.values))
            elif isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Subscript):
                pairs = [(n.targets[0].slice, n.value)]
            for k, v in pairs:
                if isinstance(k, ast.Constant) and k.value == \
                        "BYTES_PER_PIXEL":
                    rep.count("sample widths")
                    u = un.unit(v, g)
                    if u not in (None, "bytes"):
                        rep.find("C14.width", f"{g.qual}|BYTES_PER_PIXEL",
                                 f"{g.file}:{n.lineno}",
                                 f"{g.name} gives a sample width in {u} "
                                 f"where bytes are meant")
            if not isinstance(n, ast.Call):
                continue
            r = prog.resolve_expr_static(n.func, g.module, g)
            if not r or r[0] != "func" or r[1] is not f:
                continue
            rep.count("uses of sample_types")
            if any(isinstance(a, ast.Starred) for a in n.args) or any(
                    k.arg is None for k in n.keywords):
                continue
            a = args_of(n, names)
            loc = f"{g.file}:{n.lineno}"
            if len(names) > 1 and names[1] in a:
                u = un.unit(a[names[1]], g)
                rep.count("widths traced", u is not None)
                if u not in (None, "bytes"):
                    rep.find("C14.width", f"{g.qual}|sample_types", loc,
                             f"{g.name} passes sample_types a width in {u}")
            if len(names) > 2 and not ok.get(False):
                m = a.get(names[2])
                is_true = isinstance(m, ast.Constant) and bool(m.value)
                by_name = m is not None and not isinstance(m, ast.Constant)
                parent = getattr(n, "_parent", None)
                first = isinstance(parent, ast.Subscript) and isinstance(
                    parent.slice, ast.Constant) and parent.slice.value == 0
                if not is_true and not by_name and not first:
                    rep.find("C14.mode", f"{g.qual}|sample_types", loc,
                             f"{g.name} uses struct codes, whose widths "
                             f"differ from numpy's, to read data")
            t = a.get(names[0])
            if isinstance(t, ast.Constant) and isinstance(t.value, str) and \
                    t.value.replace(" ", "_") not in STANDARD:
                rep.find("C14.name", f"{g.qual}|{t.value}", loc,
                         f"{g.name} asks for the unknown type {t.value!r}")


# --------------------------------------------- per-item width of columns
class Cols(PathDomain):
    """dom: (isnan facts, calls)"""

    def __init__(self, prog, target):
        super().__init__()
        self.p = prog
        self.t = target

    def elements(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "G":
            return (("L", (("KEYS", v[1]), ("GROUP",))),)
        if isinstance(v, tuple) and v and v[0] == "KEYS":
            return tuple(("F", k) for k in v[1])
        if isinstance(v, tuple) and v and v[0] == "L":
            return v[1]
        return None

    def subscript(self, v, k, node, dom, fr):
        els = self.elements(v, dom)
        if els is not None and isinstance(k, tuple) and k and \
                k[0] == "k" and isinstance(k[2], int) and -len(
                    els) <= k[2] < len(els) and v[0] != "G":
            return [("ok", els[k[2]], dom)]
        if v == ("SAMP",) and isinstance(k, tuple) and k and k[0] == "k":
            return [("ok", dict(dom[2]).get(k[2]), dom)]
        return [("ok", None, dom)]

    def build(self, kind, vals, dom):
        if kind in ("tuple", "list"):
            return ("L", tuple(vals))
        return None

    def truth(self, v, dom):
        if isinstance(v, tuple) and v and v[0] == "NAN":
            return dict(dom[0]).get(v[1])
        return super().truth(v, dom)

    def names_of(self, v):
        if isinstance(v, tuple) and v and v[0] == "L" and all(
                isinstance(x, tuple) and x and x[0] == "k" for x in v[1]):
            return tuple(x[2] for x in v[1])
        if isinstance(v, tuple) and v and v[0] == "k" and isinstance(
                v[2], (tuple, list)):
            return tuple(v[2])
        return None

    def call(self, target, recv, name, args, kwargs, node, dom, fr):
        if target is not None and target[0] == "func":
            if target[1] is self.t:
                ps = self.t.param_names()
                b = dict(zip(ps, args))
                b.update(kwargs)
                return [("ok", None, (dom[0], dom[1] + (
                    (b.get(ps[0]), b.get(ps[1])),)) + dom[2:])]
            if target[1].name.startswith("check_special"):
                return [("ok", None, dom)]
            if target[1].module.name == INSERT.rsplit(".", 1)[0] and any(
                    isinstance(a, tuple) and a and a[0] in (
                        "F", "G", "KEYS", "L") for a in args):
                return ("inline", target[1], None)
            return [("ok", None, dom)]
        if name == "groupby":
            ks = self.names_of(args[0] if args else kwargs.get("by"))
            return [("ok", ("G", ks) if ks else None, dom)]
        x = args[0] if args else None
        if target is not None and target[0] in ("ext", "builtin"):
            n = target[1]
            if n in ("tuple", "list", "int", "float", "iter", "sorted",
                     "round"):
                return [("ok", x, dom)]
            if n.split(".")[-1] in ("isnan", "isna", "isnull"):
                if isinstance(x, tuple) and x and x[0] == "F":
                    if x[1] in dict(dom[0]):
                        return [("ok", self.const(dict(dom[0])[x[1]]), dom)]
                    return [("ok", self.const(b), (
                        dom[0] + ((x[1], b),),) + dom[1:])
                        for b in (True, False)]
                return [("ok", None, dom)]
        if name in ("isna", "isnull", "notna") or target is not None:
            return [("ok", None, dom)]
        return [("ok", None, dom)]


def columns(ctx, rep):
    prog = ctx.prog
    f = prog.funcs.get(INSERT)
    t = prog.funcs.get(TYPES)
    if f is None or t is None:
        return
    dom = Cols(prog, t)
    x = Paths(prog, dom)
    try:
        res = x.run(f, {n: None for n in f.all_param_names()}, ((), (), ()))
    except Overflow:
        rep.undecide("insert_sample_types_into_df: paths")
        return
    seen = False
    for kind, v, d in res:
        nan = dict(d[0])
        for ty, w in d[1]:
            if not (isinstance(ty, tuple) and ty[0] == "F" and isinstance(
                    w, tuple) and w and w[0] == "F"):
                continue
            seen = True
            rep.count("column width paths")
            loc = f"{f.file}:{f.line}"
            item = nan.get("ITEM_BYTES")
            if ty[1] != "DATA_TYPE":
                rep.find("C14.column", "type", loc,
                         f"columns are decoded by their {ty[1]}, not by "
                         f"their DATA_TYPE")
            if item is True and w[1] != "BYTES":
                rep.find("C14.column", "bytes", loc,
                         f"columns without ITEM_BYTES are decoded with "
                         f"{w[1]} as their width")
            if item is not True and w[1] != "ITEM_BYTES":
                rep.find("C14.column", "item", loc,
                         f"columns of several items are decoded with {w[1]} "
                         f"as the width of an item")
    if not seen:
        rep.undecide("insert_sample_types_into_df: not followed")


def check(ctx, rep, tier):
    rep.rule("C14.table", "constant propagation through sample_types for "
             "every standard type name and width: the numpy type has the "
             "standard's byte order, kind and width, or is refused; every "
             "supported width is accepted")
    rep.rule("C14.order", "determine_byte_order agrees with the standard for "
             "every type name")
    rep.rule("C14.image", "the image reader's dtype is the sample type it "
             "was given")
    rep.rule("C14.width", "widths passed on are in bytes (unit analysis)")
    rep.rule("C14.mode", "every use that reads data asks for numpy codes")
    rep.rule("C14.name", "literal type names passed are in the table")
    rep.rule("C14.column", "a column is decoded by its own data type, with "
             "the width of one item when it has several")
    ok = mapping(ctx, rep)
    order(ctx, rep)
    specs(ctx, rep)
    if ok is not None:
        uses(ctx, rep, ok)
    columns(ctx, rep)
    rep.assume("numpy's type codes on 64-bit Linux: l and L are 8 bytes "
               "wide whatever the byte order mark")
