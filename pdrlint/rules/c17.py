"""C17: loaded text has canonical line endings.  The loader of every kind of
text object, with its special cases, is interpreted over files in which lines
end in every usual way."""
from __future__ import annotations

import itertools

from ..absint import AObj, Fn, Machine, Undecided
from ..files import AnyPath, FS, File, FSModel

LOADERS = "pdr.loaders.datawrap"
ENDS = {"newlines": b"\n", "carriage returns and newlines": b"\r\n",
        "carriage returns": b"\r", "a mixture": None}
LINES = [b"PDS_VERSION_ID = PDS3", "KEY = 'caf\u00e9'".encode(), b"NOTE = x", b"",
         b"LAST = y"]


def body(end, label):
    lines = LINES + ([b"END", b"DATA"] if label else [b"THE TAIL"])
    mix = itertools.cycle([b"\r\n", b"\n", b"\r"])
    return b"".join(x + (end or next(mix)) for x in lines)


def canon(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def scenes():
    n = len(LINES)
    for e, end in ENDS.items():
        t = body(end, False)
        yield "ReadText", "text objects", e, t, {"target": "X_TEXT"}, \
            canon(t.decode())
        yield "ReadText", "lists of text objects", e, t, {
            "target": "X_TEXT", "list": True}, [canon(t.decode())] * 2
        yield "ReadHeader", "headers given in rows", e, t, {"table_props": {
            "start": 1, "length": 3, "as_rows": True}}, canon(
                t.decode()).split("\n")[1:4]
        yield "ReadHeader", "headers given in bytes", e, t, {"table_props": {
            "start": 0, "length": len(t) - 3, "as_rows": False}}, canon(
                t[:-3].decode("latin-1"))
        yield "ReadLabel", "labels", e, body(end, True), {}, None
        t = body(end, False) * 9000
        yield "ReadText", "text objects", e, t, {"target": "X_TEXT"}, \
            canon(t.decode())
        t = t[:78000]
        yield "ReadHeader", "headers given in bytes", e, t, {"table_props": {
            "start": 0, "length": len(t) - 3, "as_rows": False}}, canon(
                t[:-3].decode("latin-1"))
        t = b"".join(LINES[0] + (end or b"\r\n") for _ in range(
            9000)) + b"END" + (end or b"\n")
        yield "ReadLabel", "labels", e, t, {}, None


class Specials(FSModel):
    def func_call(self, m, func, args, kw, node, me):
        if func.module.name.startswith("pdr.formats.") and \
                not func.module.name.endswith("checkers"):
            m.event("special", func.qual)
        return super().func_call(m, func, args, kw, node, me)


def check(ctx, rep, tier):
    rep.rule("C17.endings", "no text handed to the user by a text, header or "
             "label loader, on any of its paths and special cases, contains "
             "a line ending other than a newline")
    rep.rule("C17.lines", "and no line is lost or joined to the next")
    rep.assume("io.TextIOWrapper translates line endings as documented; PDS4 "
               "headers are delivered as bytes")
    prog = ctx.prog
    for cls, what, e, data, kw, want in scenes():
        c = prog.classes.get(f"{LOADERS}.{cls}")
        if c is None:
            rep.undecide(f"{cls} is not there")
            continue
        fs = FS({"/d/a.dat": File(data), "/d/b.dat": File(data)})
        model = Specials(prog, fs)

        def go(m):
            o = m.instantiate(c, [], {}, None)
            f = o.attrs.get("loader_function")
            if not isinstance(f, Fn):
                raise Undecided("loader function")
            a = AnyPath(fs, "/d/a.dat")
            k = {"fn": a, "name": "X", "target": "X", "data": None,
                 "tracker": None, **kw}
            if k.pop("list", False):
                k["fn"] = [a, AnyPath(fs, "/d/b.dat")]
            n = f.params()
            if n is not None:
                k = {x: y for x, y in k.items() if x in n}
            return m.call_value(f, [], k, None)
        m = Machine(prog, model, limit=600)
        m.decorate = True
        try:
            out = list(m.paths(go, lambda m: ([], {})))
        except Undecided as x:
            rep.undecide(f"{what} with {e}: {x}")
            continue
        rep.count("scenarios")
        rep.count("paths", len(out))
        q = f"{LOADERS}.{cls}"
        where = f"{c.module.relpath}:{c.node.lineno}"
        for p in out:
            if p.kind == "raise":
                continue        # this property is about what is delivered
            vals = p.value if isinstance(p.value, (list, tuple)) else [
                p.value]
            text = [v for v in vals if isinstance(v, str)]
            if any(isinstance(v, AObj) for v in vals):
                rep.undecide(f"text of {what}")
                continue
            if not text:
                continue
            rep.count("texts")
            if any("\r" in v for v in text):
                rep.find("C17.endings", f"{cls}|{what}|{via(m, p)}", where,
                         f"{q} delivers {what} with carriage returns, from "
                         f"files with {e}{via(m, p)}")
            elif want is not None and not via(m, p):
                got = p.value
                if isinstance(want, list) and isinstance(got, str):
                    got = [x for x in got.split("\n")]
                    got, w = got[:len(want)], want
                else:
                    w = want
                if got != w and e in ("newlines", "carriage returns",
                                      "carriage returns and newlines"):
                    rep.find("C17.lines", f"{cls}|{what}", where,
                             f"{q} delivers {what} with lines lost or "
                             f"joined, from files with {e}")
        for f in m.functions:
            FUNCS.add(f)
    rep.count("functions followed", len(FUNCS))
    rep.need("texts", 0)


FUNCS = set()


def via(m, p):
    for e in p.events:
        if e[0] == "special":
            return f", through {e[1]}"
    return ""
