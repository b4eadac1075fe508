"""C27: PVL parsing keeps every statement at the depth where it was written.
The parser is interpreted over texts built from every short sequence of
statements, and what it makes of them is compared with their structure."""
from __future__ import annotations

import itertools

from ..absint import Machine, Undecided
from ..pvl import PVLModel, tree

PARSE = "pdr.parselabel.pds3.parse_pvl"
LITERAL = "pdr.parselabel.pds3.literalize_pvl"

# (text, what it is)
SET = [("A = 1", ("set", "A", 1)), ("BANDNAME = \"x y\"", ("set", "BANDNAME", "x y")),
       ("END_TIME = 5", ("set", "END_TIME", 5))]
OPEN = [("OBJECT = T", ("open", "T")), ("GROUP = G", ("open", "G"))]
CLOSE = [("END_OBJECT = T", ("close",)), ("END_GROUP = G", ("close",)),
         ("END_OBJECT", ("close",)), ("END_GROUP", ("close",))]
MORE = [("BEGIN_OBJECT = T", ("open", "T")),
        ("BEGIN_GROUP = G", ("open", "G")),
        ("^TABLE = \"a.tab\"", ("set", "^TABLE", "a.tab")),
        ("LINE_SIZES = (1,\r\n      2)", ("set", "LINE_SIZES", (1, 2))),
        ("EQUATION = \"p = q\"", ("set", "EQUATION", "p = q")),
        ("TARGET_NAME = MARS  /* the planet */", ("set", "TARGET_NAME",
                                                  "MARS")),
        ("ENDPOINT_LIST = (1, 2)", ("set", "ENDPOINT_LIST", (1, 2))),
        ("N:OBJECT_ID = 4", ("set", "N:OBJECT_ID", 4))]

SHORT = [("ID = \"ab\"", ("set", "ID", "ab")),
         ("NAME=\"ab\"", ("set", "NAME", "ab"))]

VALUES = [
    ("5", 5), ("-2.5", -2.5), ("1E3", 1000.0), ("\"q\"", "q"),
    ("'q'", "q"), ("MARS", "MARS"), ("(1, 2, 3)", (1, 2, 3)),
    ("{1, 2}", {1, 2}), ("16#FF#", 255), ("2#101#", 5),
    ("(\"a\", \"b\")", ("a", "b")), ("5 <BYTES>", {
        "value": 5, "units": "BYTES"}),
    ("(\"a.dat\", 10 <BYTES>)", ("a.dat", {"value": 10,
                                           "units": "BYTES"})),
    ("1999-01-02T03:04:05", "1999-01-02T03:04:05"),
    ("1999-12-12", "1999-12-12"), ("12:30", "12:30"),
    ("N/A", "N/A"), ("a b c", "a b c"), ("UNK", "UNK"),
    # what cannot be interpreted
    ("\"open", "\"open"), ("16#XY#", "16#XY#"), ("3-4", "3-4"),
    ("<", "<"), ("1 +", "1 +"), ("A.B(3)", "A.B(3)"), ("f(1)", "f(1)"),
    ("1__2", "1__2"), ("\"a\" + 1", "\"a\" + 1"), ("-\"a\"", "-\"a\""),
    ("007", "007"), ("5 m", "5 m"), ("\x005", "\x005"), ("$", "$"),
    ("[1", "[1"), ("{[1]: 2", None), ("[{}, [[]], {[]}]", "[{}, [[]], {[]}]"),
    ("{\"a\": {[]}}", None), ("()", ()), ("(", None), ("{", None),
    ("{(1, 2), {3, 4}}", None), ("{{1, 2}, {3}}", None),
    ("({1}, {{2}})", None), ("9" * 5000, "9" * 5000), ("", ""),
    ("1#", None), ("##", None), ("(2#1#, 16#G#)", None), ("> <", None),
    ("x > 3 <", None), ("<km>", None), (". <km>", None)]


def oracle(kinds):
    """-> (mapping, names, number of unclosed blocks)"""
    root = []
    stack = [root]
    names = []
    opened = []
    for k in kinds:
        if k[0] == "set":
            stack[-1].append((k[1], k[2]))
            names.append(k[1])
        elif k[0] == "open":
            opened.append(k[1])
            stack.append([])
        elif len(stack) > 1:
            b = stack.pop()
            n = opened.pop()
            stack[-1].append((n, b))
            names.append(n)
    left = len(stack) - 1
    while len(stack) > 1:
        b = stack.pop()
        n = opened.pop()
        stack[-1].append((n, b))
        names.append(n)
    return root, names, left


def texts(tier):
    base = SET + OPEN + CLOSE
    for n in range(0, 4 if tier != "thorough" else 5):
        for c in itertools.product(base, repeat=n):
            yield c
    for c in itertools.product(MORE + SET[:1], repeat=2):
        yield (OPEN[0],) + c + (CLOSE[0], SET[1])
        yield c
    o, g, e, h = OPEN[0], OPEN[1], CLOSE[0], CLOSE[1]
    a, b = SET[:2]
    for c in itertools.product((a, b, o, e), repeat=5):
        yield c
    for d in (6, 12):
        yield (o, a) * d + (e, b) * d
        yield (g, a) * d + (h, b) * (d - 2)
        yield (o, a, g, b) * d + (h, a, e, b) * d
    yield (a, b) * 40
    for x in SHORT:
        for c in ((a, x), (a, x, b), (o, a, x, e), (b, x, x)):
            yield c


def flat(t):
    """the statements of a mapping with the blocks they are in"""
    out = []
    for k, v in t:
        if isinstance(v, list):
            out.append((k, "block"))
            out += [((k,) + (x if isinstance(x, tuple) else (x,)), y)
                    for x, y in flat(v)]
        else:
            out.append((k, v))
    return out


def check(ctx, rep, tier):
    rep.rule("C27.statements", "each assignment of a PVL text is in the "
             "parsed mapping exactly once, inside the blocks that enclose "
             "it, and no other is")
    rep.rule("C27.order", "in the order of the text")
    rep.rule("C27.names", "the flat list names each of them, and each block")
    rep.rule("C27.errors", "no such text, whatever its blocks, is an error; "
             "an unclosed block is warned of")
    rep.rule("C27.values", "a value that cannot be interpreted is kept as "
             "its text, and is not an error")
    rep.assume("statements begin lines in capitals, and comments run to the "
               "ends of their lines")
    f = ctx.prog.funcs.get(PARSE)
    if f is None:
        rep.undecide(f"{PARSE} is not there")
        return
    m = Machine(ctx.prog, PVLModel(), steps=400_000)
    where = f"{f.module.relpath}:{f.node.lineno}"
    bad = {}
    for c in texts(tier):
        for end in ((), ("END",)):
            if end and len(c) > 2 and tier != "thorough":
                continue
            judge(m, f, rep, c, end, bad)
    for (rule, kind), (text, msg) in sorted(bad.items()):
        rep.find(rule, kind, where, f"{PARSE}: {msg} (text: {text!r})")
    values(ctx, rep, m)
    for q in sorted(m.functions):
        rep.sample(q)
    rep.count("functions followed", len(m.functions))


def only(m, f, args, kw):
    got = list(m.paths(f, lambda m: (args, kw)))
    if len(got) != 1:
        raise Undecided("more than one path")
    return got[0]


def judge(m, f, rep, c, end, bad):
    text = "\r\n".join([x[0] for x in c] + list(end)) + "\r\n"
    rep.count("texts")
    try:
        p = only(m, f, [text, False], {})
        if p.kind == "raise":
            bad.setdefault(("C27.errors", "raises"), (
                text, f"raises {p.value.name}"))
            return
        if not isinstance(p.value, tuple) or len(p.value) != 2:
            raise Undecided("result")
        got, names = tree(p.value[0]), list(m.iterate(p.value[1]))
    except Undecided as x:
        rep.undecide(f"a text of {len(c)} statements: {x}")
        return
    rep.count("texts decided")
    want, wnames, left = oracle([k[1] for k in c])
    have, need = flat(got), flat(want)
    if have != need:
        lost = [x for x in need if x not in have]
        extra = [x for x in have if x not in need]
        k = "lost" if lost else "extra" if extra else "order"
        rule = "C27.order" if k == "order" and sorted(
            map(repr, have)) == sorted(map(repr, need)) else \
            "C27.statements"
        x = (lost or extra or [(None,)])[0]
        kind = kindof(c, left)
        bad.setdefault((rule, f"{k}|{kind}"), (text, {
            "lost": f"{tell(x)} is not where it was written",
            "extra": f"there is a {tell(x)} that nobody wrote",
            "order": "statements are repeated, missing or out of order",
        }[k]))
    if sorted(map(str, names)) != sorted(wnames) and have == need:
        bad.setdefault(("C27.names", "names"), (
            text, f"the names listed are {names}"))
    if (left > 1 or left and not end) and not any(
            e[0] == "warn" for e in p.events):
        bad.setdefault(("C27.errors", "silent"), (
            text, "an unclosed block is not warned of"))


def kindof(c, left):
    if any(k in SHORT for k in c):
        return "short names of values in small letters"
    if left:
        return "unclosed blocks"
    if any(k[1][0] == "close" and "=" not in k[0] for k in c):
        return "block ends without names"
    if any(k[1][0] == "set" and k[1][1].startswith("END") for k in c):
        return "names that begin with END"
    if any(k[0].count("=") > 1 for k in c):
        return "values with equals signs"
    return "others"


def tell(x):
    k = x[0]
    return "/".join(map(str, k)) if isinstance(k, tuple) else str(k)


def same(a, b):
    return type(a) is type(b) and a == b


def values(ctx, rep, m):
    f = ctx.prog.funcs.get(LITERAL)
    if f is None:
        rep.undecide(f"{LITERAL} is not there")
        return
    where = f"{f.module.relpath}:{f.node.lineno}"
    for v, want in VALUES:
        rep.count("values")
        try:
            p = only(m, f, [v], {})
            if p.kind == "raise":
                rep.find("C27.values", f"raises|{v[:40]}", where,
                         f"{LITERAL} raises {p.value.name} for the value "
                         f"{v[:60]!r}")
                continue
            got = tree(p.value)
        except Undecided as x:
            rep.undecide(f"value {v[:30]!r}: {x}")
            continue
        rep.count("values decided")
        if want is not None and not same(got, want):
            rep.find("C27.values", f"value|{v[:40]}", where,
                     f"{LITERAL} makes {str(got)[:60]!r} of the value "
                     f"{v[:60]!r}")
