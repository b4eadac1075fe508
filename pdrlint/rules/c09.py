"""C09: special-case checks answer (bool, value), no value when the flag is
no; trivial-object checks answer a bool."""
from __future__ import annotations

import ast

from ..gval import Term, Ite, TooBig, witness, show
from ..geval import Evaluator
from .protocol import pair_checkers, bool_consumers, BOOL_METHODS

NONBOOL_BUILTINS = {"str", "int", "float", "list", "dict", "tuple", "set",
                    "len", "max", "min", "sum", "sorted", "map", "filter"}


FOREIGN = {"Path", "PurePath", "PosixPath", "DataFrame", "StringIO",
           "BytesIO", "OrderedDict", "MultiDict"}


def foreign(v):
    """an object that cannot be a flag, nor unpacked into one and a value"""
    return v.op in ("call", "new") and isinstance(v.args[0], Term) and \
        v.args[0].op == "ext" and str(v.args[0].args[0]).split(".")[-1] in \
        FOREIGN


def is_text(v, path):
    return any(a.op in ("startswith", "endswith", "rematch", "research")
               and x and a.args[0] is v for a, x in path)


class Forms:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.memo = {}
        self.visited = set()

    def leaves(self, f):
        k = ("L", f.qual)
        if k not in self.memo:
            ev = Evaluator(self.ctx.prog, keep_effects=False,
                           budget=600_000)
            try:
                r = ev.run(f)
                self.memo[k] = (ev, r)
            except TooBig:
                self.memo[k] = (ev, None)
        return self.memo[k]

    def boolish(self, ev, v, seen=(), given=()):
        """(bad leaf, path) list for a value that must be a bool"""
        bad = []
        for leaf, path in ev.sp.leafset(v):
            if witness(path)[0] == "unsat":
                continue
            if leaf.op == "const":
                if not isinstance(leaf.value, bool):
                    bad.append((leaf, path))
            elif leaf.op in ("tuple", "list", "dict", "set", "concat",
                             "func", "class", "comp", "dictcomp", "new",
                             "closure", "rematch_obj", "mut", "setitem",
                             "unbound"):
                bad.append((leaf, path))
            elif leaf.op == "call" and leaf.args[0].op == "builtin" and \
                    leaf.args[0].args[0] in NONBOOL_BUILTINS:
                bad.append((leaf, path))
            elif leaf.op == "call" and leaf.args[0].op == "func":
                g = self.ctx.prog.funcs.get(leaf.args[0].args[0])
                if g is not None and g.qual not in seen:
                    sub = self.bool_form(g, seen + (g.qual,))
                    bad += [(leaf, path + ((x, True),) if False else path)
                            for x in sub[:1]]
                    if sub:
                        self.rep.note = sub
            elif leaf.op in ("raise",):
                pass
            elif is_text(leaf, (*given, *path)) or foreign(leaf):
                bad.append((leaf, path))
            else:
                self.rep.undecide(f"flag {show(leaf)[:80]}")
        return bad

    def bool_form(self, f, seen=()):
        """problems with f as a function answering a plain bool"""
        k = ("B", f.qual)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        ev, r = self.leaves(f)
        if r is None:
            self.rep.undecide(f"{f.qual}: too large")
            return []
        self.visited.add(f.qual)
        out = []
        for leaf, path in self.boolish(ev, r.value, seen):
            out.append((f, leaf, path, "answers a non-boolean"))
        self.memo[k] = out
        return out

    def answer(self, v):
        """whether a value is a check's (flag, value) answer"""
        if v.op == "tuple":
            return len(v.args) == 2 and isinstance(v.args[0], Term) and \
                v.args[0].op == "const" and isinstance(v.args[0].value, bool)
        if v.op != "call" or v.args[0].op != "func":
            return False
        g = self.ctx.prog.funcs.get(v.args[0].args[0])
        if g is None or g.vendored:
            return False
        ev, r = self.leaves(g)
        if r is None:
            return False
        ls = [x for x, _ in ev.sp.leafset(r.value) if x.op != "raise"]
        return bool(ls) and all(x.op == "tuple" and self.answer(x)
                                for x in ls)

    def none_only(self, qual):
        g = self.ctx.prog.funcs.get(qual)
        if g is None:
            return False
        ev, r = self.leaves(g)
        return r is not None and all(
            x is ev.sp.NONE or x.op == "raise"
            for x, _ in ev.sp.leafset(r.value))

    def pair_form(self, f, seen=()):
        k = ("P", f.qual)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        ev, r = self.leaves(f)
        if r is None:
            self.rep.undecide(f"{f.qual}: too large")
            return []
        self.visited.add(f.qual)
        sp = ev.sp
        out = []
        for leaf, path in sp.leafset(r.value):
            self.rep.count("return outcomes examined")
            if witness(path)[0] == "unsat":
                continue
            if leaf.op == "raise":
                continue
            if leaf.op in ("tuple", "list"):
                if leaf.op == "list" or len(leaf.args) != 2 or any(
                        isinstance(a, Term) and a.op in (
                            "starred", "optional") for a in leaf.args):
                    if any(isinstance(a, Term) and a.op == "starred"
                           for a in leaf.args):
                        self.rep.undecide(f"{f.qual}: starred tuple")
                        continue
                    if leaf.op == "list" and len(leaf.args) == 2:
                        self.rep.undecide(f"{f.qual}: list pair")
                        continue
                    out.append((f, leaf, path,
                                "answers something other than a pair"))
                    continue
                flag, val = leaf.args
                for bl, bp in self.boolish(ev, flag, seen, path):
                    out.append((f, leaf, path + bp,
                                f"flag is {show(bl)}, not a bool"))
                # flag True => the value itself, not another answer
                for vl, vp in sp.leafset(val):
                    if witness(path + vp)[0] != "unsat" and \
                            self.answer(vl):
                        out.append((f, leaf, path + vp, "gives another "
                                    "check's whole answer as its value"))
                # flag False => value None
                pairs = sp.map(lambda a, b: sp.term("tuple", a, b), flag,
                               val)
                for pl, vp in sp.leafset(pairs):
                    fl, vl = pl.args
                    if not (fl.op == "const" and fl.value is False):
                        continue
                    if vl is sp.NONE or vl.op == "raise":
                        continue
                    full = path + vp
                    if witness(full)[0] == "unsat":
                        continue
                    if any(a.op == "isnone" and a.args[0] is vl and v
                           for a, v in full):
                        continue
                    if vl.op in ("call",) and vl.args[0].op == "func" and \
                            self.none_only(vl.args[0].args[0]):
                        continue
                    out.append((f, leaf, full,
                                "answers no but gives a value"))
                continue
            if leaf.op == "call" and leaf.args[0].op == "func":
                g = self.ctx.prog.funcs.get(leaf.args[0].args[0])
                if g is not None:
                    if g.vendored:
                        self.rep.undecide(f"{f.qual}: vendored {g.qual}")
                        continue
                    self.rep.count("delegated answers")
                    if g.qual not in seen:
                        out += self.pair_form(g, seen + (g.qual,))
                    continue
            if leaf.op in ("const", "dict", "set", "concat", "func", "class",
                           "param", "comp", "dictcomp", "closure", "bin",
                           "mut", "setitem", "raise", "unbound") or (
                    leaf.op == "call" and leaf.args[0].op == "builtin"):
                if leaf.op == "call" and leaf.args[0].args[0] in (
                        "tuple",):
                    self.rep.undecide(f"{f.qual}: tuple(...)")
                    continue
                if leaf.op == "param" or leaf.op == "bin":
                    # a parameter handed straight back is not a pair unless
                    # the caller passed one
                    if leaf.op == "bin":
                        self.rep.undecide(f"{f.qual}: {show(leaf)[:60]}")
                        continue
                out.append((f, leaf, path,
                            "answers something other than a pair"))
                continue
            if foreign(leaf):
                out.append((f, leaf, path,
                            "answers something other than a pair"))
                continue
            if is_text(leaf, path):
                out.append((f, leaf, path, "answers a string"))
                continue
            self.rep.undecide(f"{f.qual}: {show(leaf)[:80]}")
        self.memo[k] = out
        return out


def describe(path):
    return " and ".join(
        ("" if v else "not ") + f"({show(a)[:90]})" for a, v in path) or \
        "always"


def check(ctx, rep, tier):
    rep.rule("C09.pair", "every return outcome of a function consulted as a "
             "(flag, value) check, followed through the handlers it "
             "delegates to, is a 2-tuple whose first element is a bool, with "
             "None as second element when the first is False")
    rep.rule("C09.bool", "functions consulted directly as a condition "
             "(trivial-object checks) return a bool on every outcome")
    fm = Forms(ctx, rep)
    pcs = pair_checkers(ctx)
    # every check_special_* the package exports whose annotation or name says
    # pair protocol is covered through its consumers
    for q, (f, why) in sorted(pcs.items()):
        rep.count("pair checkers")
        rep.sample({"checker": q, "consumed": why[:2]})
        for (g, leaf, path, what) in fm.pair_form(f):
            rep.find("C09.pair", f"{g.qual}|{show(leaf)[:120]}",
                     f"{g.file}:{g.line}",
                     f"{g.qual} {what}: {show(leaf)[:120]} "
                     f"(when {describe(path)[:300]})",
                     [f"consulted through {q}: {why[0]}"])
    for q, (f, locs) in sorted(bool_consumers(ctx).items()):
        if not (f.module.name.startswith("pdr.formats")
                or f.name in ("is_trivial",)):
            continue
        if "special" in f.name and q in pcs:
            continue
        if not f.module.name.endswith("checkers") and f.name != "is_trivial":
            continue
        rep.count("boolean checkers")
        for (g, leaf, path, what) in fm.bool_form(f):
            rep.find("C09.bool", f"{g.qual}|{show(leaf)[:120]}",
                     f"{g.file}:{g.line}",
                     f"{g.qual} {what}: {show(leaf)[:120]} "
                     f"(when {describe(path)[:300]})")
    rep.count("functions followed", len(fm.visited))
    rep.assume("opaque results (method calls on data objects, container "
               "look-ups) used as a flag or a value are not judged")
    rep.need("pair checkers", 10)
    rep.need("functions followed", 40)
    rep.need("return outcomes examined", 100)
    rep.need("boolean checkers", 1)
