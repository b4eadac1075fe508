"""C25: every object name is routed to a reader by the documented precedence."""
from __future__ import annotations

import json
import os

from .. import decide
from ..gval import Term, Ite, TooBig, witness, show
from ..geval import Evaluator
from . import tables

FUNC = "pdr.loaders.dispatch.pointer_to_loader"
LOOKS = "pdr.loaders.utility.looks_like_this_kind_of_file"
TRIVIAL = "pdr.formats.checkers.check_trivial_case"


def is_target(t):
    """the path of the file the object lives in"""
    if not isinstance(t, Term):
        return False
    if t.op == "method" and t.args[1] == "_target_path" and \
            decide.is_data(t.args[0]) and len(t.args[2].args) == 1:
        a = t.args[2].args[0]
        return isinstance(a, Term) and a.op == "param"
    b = None
    if t.op == "sub":
        b, k = t.args
    elif t.op == "method" and t.args[1] == "get" and t.args[2].args:
        b, k = t.args[0], t.args[2].args[0]
    if b is not None and b.op == "attr" and b.args[1] == "file_mapping" and \
            decide.is_data(b.args[0]):
        return isinstance(k, Term) and k.op == "param"
    return t.op == "call" and t.args[0].op == "builtin" and \
        t.args[0].args[0] == "str" and len(t.args[1].args) == 1 and \
        is_target(t.args[1].args[0])


def models(prog):
    def looks(ev, bound):
        sp = ev.sp
        f = prog.funcs[LOOKS].param_names()
        fn, kinds = bound.get(f[0]), bound.get(f[1])
        els = ev.iter_elements(kinds) if kinds is not None else None
        if fn is None or els is None or isinstance(fn, Ite) or not all(
                isinstance(e, Term) and e.op == "const"
                and isinstance(e.value, str) for e in els):
            return None
        subj = sp.term("suffixes", "file" if is_target(fn) else show(fn))
        r = sp.FALSE
        for e in els:
            r = sp.or_(r, sp.atomv(sp.term("contains", subj, e)))
        return r

    def trivial(ev, bound):
        sp = ev.sp
        f = prog.funcs[TRIVIAL].param_names()
        vals = [bound.get(n) for n in f]
        ok = len(f) == 3 and all(isinstance(v, Term) for v in vals) and \
            vals[0].op == "param" and decide.is_ids(vals[1]) and \
            decide.base_key(vals[2]) == ("data", "filename")
        return sp.atomv(sp.term("truth", sp.term(
            "flag", "trivial object" if ok else "trivial? " + ", ".join(
                show(v) for v in vals if v is not None))))
    return {LOOKS: looks, TRIVIAL: trivial}


def inline(f):
    return f.module.name == "pdr.loaders.dispatch" or (
        f.module.name == "pdr.loaders.utility" and f.qual != LOOKS)


def reader_class(leaf):
    if leaf.op == "call" and leaf.args[0].op == "class":
        return ("reader", leaf.args[0].args[0].split(".")[-1])
    if leaf.op == "reader":
        return ("reader", leaf.args[0])
    if leaf.op == "const":
        return ("none",)
    if leaf.op == "raise":
        return ("raises",)
    return None


def differs(a, b):
    return a is not None and b is not None and a != b


def canon(sp):
    unk = sp.term("unk")

    def f(leaf):
        c = reader_class(leaf)
        if c is None:
            return unk
        if c[0] == "none":
            return sp.NONE
        if c[0] == "raises":
            return sp.term("raise")
        return sp.term("reader", c[1])
    return f


def table(prog, func):
    sp, v = tables.evaluate(prog, func, inline, models=models(prog))
    if v is None:
        return sp, None
    return sp, sp.map(canon(sp), v, tag="c25")


def reference(prog):
    sp, v = table(prog, prog.funcs[FUNC])
    return decide.dump(v)


def check(ctx, rep, tier):
    rep.rule("C25.route", "the routing table (object name words, extension "
             "of the object's file, data set id -> reader class) summarised "
             "over every branch equals the committed documented table; a "
             "difference is reported with a concrete name/file on which both "
             "were evaluated")
    rep.rule("C25.total", "no feasible path of the routing function answers "
             "None or a non-reader, or raises")
    rep.rule("C25.suffix", "file kinds are recognised from every suffix of "
             "the name, ignoring case")
    prog = ctx.prog
    f = prog.funcs.get(FUNC)
    if f is None:
        rep.undecide("pointer_to_loader no longer exists")
        rep.need("routing tables", 0)
    else:
        sp, v = table(prog, f)
        if v is None:
            rep.undecide("routing table too large")
        else:
            sp.budget += 700_000
            rep.count("routing tables")
            rep.count("reader outcomes", len(sp.leafset(v)))
            for leaf, _ in sp.leafset(v):
                c = reader_class(leaf)
                rep.sample({"outcome": show(leaf)})
            for path, leaf in _paths(v, lambda l: (reader_class(l) or ("?",)
                                                   )[0] in ("none", "raises")):
                st, _, _ = witness(path)
                if st == "unsat":
                    continue
                w = decide.assignment(path)
                try:
                    got = decide.outcome(v, w, reader_class)
                except decide.Unknown:
                    continue
                if got is None or got[0] not in ("none", "raises"):
                    continue
                rep.find("C25.total", f"{f.qual}|{got[0]}", f"{f.file}:"
                         f"{f.line}", f"{f.qual}: for {decide.describe(w)} "
                         f"routing {'fails' if got[0] == 'raises' else 'answers no reader'}")
                break
            try:
                with open(os.path.join(tables.REFDIR, "c25.json")) as fh:
                    ref = decide.load(json.load(fh), sp)
                ds, n = decide.compare(sp, ref, v, reader_class, differs,
                                       overlap=False)
                for d in ds:
                    if d.cur[0] in ("none", "raises"):
                        continue
                    ex = decide.describe(d.example)
                    rep.find("C25.route", f"{f.qual}|"
                             f"{decide.describe_class(d.ref)}|"
                             f"{decide.describe_class(d.cur)}|{ex}",
                             f"{f.file}:{f.line}",
                             f"{f.qual}: for {ex} the documented reader is "
                             f"{decide.describe_class(d.ref)}, the current "
                             f"source chooses {decide.describe_class(d.cur)}")
                if n:
                    rep.undecide(f"{n} path group(s) could not be evaluated")
            except (TooBig, RecursionError):
                rep.undecide("routing tables too large to compare")
    g = prog.funcs.get(LOOKS)
    if g is not None:
        ev = Evaluator(prog, inline=lambda h: h.module.name
                       == "pdr.loaders.utility", keep_effects=False)
        txt = " ".join(show(l) for l, _ in ev.sp.leafset(
            ev.run(g).value)) + " " + " ".join(
            show(a) for a in _atoms(ev.run(g).value))
        rep.count("file kind tests")
        if not any(m in txt for m in (".lower", ".upper", ".casefold",
                                      "IGNORECASE", "(?i)")):
            rep.find("C25.suffix", f"{g.qual}|case", f"{g.file}:{g.line}",
                     f"{g.qual}: file names are compared with extensions "
                     f"without folding case")
        if ".suffix" in txt and ".suffixes" not in txt:
            rep.find("C25.suffix", f"{g.qual}|suffixes",
                     f"{g.file}:{g.line}", f"{g.qual}: only the last suffix "
                     f"is considered, compressed files are not recognised")
    rep.need("routing tables", 0)


def _atoms(v, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, Ite) and v.uid not in seen:
        seen.add(v.uid)
        out.append(v.atom)
        _atoms(v.hi, out, seen)
        _atoms(v.lo, out, seen)
    return out


def _paths(v, want, limit=2000):
    memo = {}

    def has(x):
        if x.uid not in memo:
            memo[x.uid] = (has(x.hi) or has(x.lo)) if isinstance(x, Ite) \
                else want(x)
        return memo[x.uid]
    stack = [(v, ())]
    while stack and limit:
        x, p = stack.pop()
        if not has(x):
            continue
        if isinstance(x, Ite):
            stack.append((x.hi, p + ((x.atom, True),)))
            stack.append((x.lo, p + ((x.atom, False),)))
            continue
        limit -= 1
        yield p, x
