"""C19: padding never surfaces, and declared scales are applied once, after
padding is removed."""
from __future__ import annotations

import itertools

from .tabledata import columns, layout_labels, run, scale_labels


def check(ctx, rep, tier):
    rep.rule("C19.padding", "no pseudo-column for pad bytes, row prefixes "
             "or suffixes, or container gaps is in the table handed over")
    rep.rule("C19.lost", "dropping those pseudo-columns drops no column of "
             "the label")
    rep.rule("C19.scale", "each column is multiplied by its own "
             "SCALING_FACTOR and increased by its own OFFSET, in this "
             "order, once, and by nothing else, in text as in binary tables")
    rep.rule("C19.read", "no such table is refused")
    rep.assume("pandas' label-aligned operations behave as documented")
    worst = {}
    for fmt in ("BINARY", "ASCII"):
        for o in itertools.chain(
                run(ctx.prog, layout_labels(tier, fmt), rep),
                run(ctx.prog, scale_labels(tier, fmt), rep)):
            for rule, kind, msg in judge(o, rep):
                worst.setdefault((rule, fmt, kind), (o.label.what, msg))
    where = ""
    if getattr(run, "reader", None) is not None:
        where = f"{run.reader.file}:{run.reader.line}"
    for (rule, fmt, kind), (what, msg) in sorted(worst.items()):
        rep.find(rule, f"{fmt}|{kind}", where,
                 f"of a {fmt.lower()} table with {what}, {msg}")


def judge(o, rep):
    lab = o.label
    scaled = any(f.scale is not None or f.offset is not None
                 for f in lab.fields)
    if o.path.kind == "raise":
        # layouts that cannot be read at all are C32's affair
        return [("C19.read", "scaled", "the load fails with "
                 + o.path.value.name)] if scaled else []
    if o.table is None:
        rep.undecide(f"{lab.what}: the result is not followed")
        return []
    cs = columns(o, rep)
    if cs is None:
        return []
    out = []
    for n, c, f in cs:
        if "PLACEHOLDER" in str(n):
            out.append(("C19.padding", "placeholder", f"column {n} is left"))
            break
    if len(cs) > len(lab.fields):
        out.append(("C19.padding", "extra", f"there are {len(cs)} columns "
                    f"for {len(lab.fields)} fields"))
    if len(cs) < len(lab.fields):
        out.append(("C19.lost", "missing", f"there are {len(cs)} columns "
                    f"for {len(lab.fields)} fields"))
    for n, c, f in cs:
        if f is None:
            continue
        for s in c.steps:
            if s.startswith("! "):
                out.append(("C19.scale", "order", f"column {n} shows the "
                            f"result of {s[2:]}"))
        want = [("*", f.scale)] if f.scale not in (None, 1) else []
        if f.offset not in (None, 0):
            want.append(("+", f.offset))
        have = [(k, v) for k, v in c.ops
                if (k, v) not in (("*", 1), ("+", 0))]
        if have != want:
            out.append(("C19.scale", "ops", f"column {n} is {told(have)} "
                        f"where its label has it {told(want)}"))
            break
    return out


def told(ops):
    if not ops:
        return "left alone"
    return " then ".join(("multiplied by " if k == "*" else "increased by ")
                         + str(v) for k, v in ops)
