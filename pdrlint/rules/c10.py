"""C10: special cases apply exactly to the products they are written for."""
from __future__ import annotations

from .. import decide
from . import tables

MOD = "pdr.formats.checkers"


def table_functions(prog):
    out = []
    for q, f in sorted(prog.funcs.items()):
        if f.module.name == MOD and f.parent is None and f.cls is None \
                and not f.name.startswith("<"):
            if f.name == "specialblock":
                continue
            out.append(f)
    return out


def inline_all(prog, known=None):
    """handlers, and any helper the documented tables do not know of"""
    def ok(f):
        if f.vendored:
            return False
        m = f.module.name
        if not m.startswith("pdr.formats") and known is not None and \
                f.qual in known and m != "pdr.loaders.utility":
            return False
        if m.startswith("pdr.formats.mgs_moc") or \
                m.startswith("pdr.formats.msl_edr"):
            return f.name in ("edr_offset", "msl_msss_edr_prefix_fn",
                              "get_special_block")
        return True
    return ok


def check(ctx, rep, tier):
    rep.rule("C10.outcome", "the decision table (special or not, and any "
             "constant replacement) of every special-case check, summarised "
             "over all branches with handlers inlined, equals the committed "
             "table of documented decisions; differences are reported with "
             "a concrete product on which both were evaluated")
    rep.rule("C10.handler", "the same for the handler the check delegates to")
    rep.rule("C10.missing", "with every identifier missing (empty) no check "
             "that is not documented to go by object or file name alone "
             "selects a special case")
    prog = ctx.prog
    ref = tables.load_ref("c10.json")
    handlers = set(ref["handlers"])
    inl = inline_all(prog, set(ref["functions"]))
    for q, ent in sorted(ref["tables"].items()):
        f = prog.funcs.get(q)
        if f is None:
            rep.undecide(f"{q} no longer exists")
            continue
        rep.count("decision tables compared")
        found, und, judged = tables.check_entry(prog, f, ent, inl, handlers)
        rep.count("table modes judged", judged)
        for u in und:
            rep.undecide(u)
        for mode, d in found:
            rid = "C10.outcome"
            if mode == "handler":
                rid = "C10.handler"
            if not d.example or all(
                    k[0] != "id" for k in d.example) and d.ref[0] == "no":
                rid = "C10.missing"
            ex = decide.describe(d.example)
            rep.find(rid, f"{q}|{decide.describe_class(d.ref)}|"
                     f"{decide.describe_class(d.cur)}|{ex}",
                     f"{f.file}:{f.line}",
                     f"{q}: for {ex} the documented decision is "
                     f"'{decide.describe_class(d.ref)}', the current source "
                     f"decides '{decide.describe_class(d.cur)}'")
        rep.sample({"table": q, "nodes": {m: len(ent[m]) for m in (
            "outcome", "handler") if m in ent}})
    rep.need("decision tables compared", 12)
    rep.need("table modes judged", 18)
    rep.assume("two special cases that are both met by one product may be "
               "consulted in either order as long as each alone is decided "
               "the same way")
