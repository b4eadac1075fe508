"""C32: every table column comes from the bytes its label gives it."""
from __future__ import annotations

from .tabledata import columns, layout_labels, run


def check(ctx, rep, tier):
    rep.rule("C32.where", "over every class of row layout, the columns of "
             "the table are the bytes the label gives its columns, items "
             "and container repetitions")
    rep.rule("C32.name", "each column has the name of the field it holds, "
             "and no two columns share a name")
    rep.rule("C32.stride", "a record is as long as the row with its prefix "
             "and suffix")
    rep.rule("C32.extent", "as many rows are read as the label declares")
    rep.rule("C32.read", "no layout of these classes is refused")
    rep.assume("numpy's structured dtypes and pandas' label-aligned "
               "operations behave as documented")
    worst = {}
    for fmt in ("BINARY", "ASCII"):
        for o in run(ctx.prog, layout_labels(tier, fmt), rep):
            for rule, msg in judge(o, fmt, rep):
                what = o.label.what.split(" with a row")[0].split(
                    " with unused bytes at the")[0]
                pad = ", ".join(w for w, x in (
                    ("prefix", o.label.prefix), ("suffix", o.label.suffix),
                    ("spare", o.label.spare)) if x)
                worst.setdefault((rule, fmt, kind(what)), (what, pad, msg))
    where = ""
    if getattr(run, "reader", None) is not None:
        where = f"{run.reader.file}:{run.reader.line}"
    for (rule, fmt, k), (what, pad, msg) in sorted(worst.items()):
        rep.find(rule, f"{fmt}|{k}", where,
                 f"of a {fmt.lower()} table with {what}"
                 + (f" and row {pad}" if pad else "") + f", {msg}")


def kind(what):
    for w in ("nested containers", "adjacent containers",
              "container after a gap", "container before any column",
              "nothing but a", "containers apart", "column after it",
              "container", "spaced items", "items", "gap", "same name"):
        if w in what:
            return w
    return "columns"


def judge(o, fmt, rep):
    lab = o.label
    if o.path.kind == "raise":
        return [("C32.read", f"the load fails with {o.path.value.name}")]
    if o.table is None:
        rep.undecide(f"{lab.what}: the result is not followed")
        return []
    out = []
    cs = columns(o, rep)
    if cs is None:
        return []
    want = lab.expected()
    got = [(c.at, c.width) for _, c, _ in cs]
    real = [(n, c, f) for n, c, f in cs if f is not None]
    for f in want:
        if f.where() not in got:
            out.append(("C32.where", f"no column holds bytes {f.at} to "
                        f"{f.at + f.width} of the record, those of "
                        f"{f.name}"))
            break
    for n, c, f in cs:
        if f is None and "PLACEHOLDER" not in str(n):
            out.append(("C32.where", f"column {n} holds bytes {c.at} to "
                        f"{c.at + c.width} of the record, which are no "
                        "column's"))
            break
    for n, c, f in real:
        if not str(n).startswith(f.name):
            out.append(("C32.name", f"column {n} holds the bytes of "
                        f"{f.name}"))
            break
    names = [n for n, _, _ in cs]
    if len(set(map(str, names))) != len(names):
        out.append(("C32.name", "two columns have the same name"))
    for e in o.events:
        if e[0] == "read":
            if e[3] != lab.row():
                out.append(("C32.stride", f"records are taken as {e[3]} "
                            f"bytes long where rows are {lab.row()}"))
            if isinstance(e[1], int) and e[1] != lab.rows:
                out.append(("C32.extent", f"{e[1]} rows are read of "
                            f"{lab.rows}"))
        if e[0] == "head" and isinstance(e[1], int) and \
                e[1] != lab.rows * lab.row():
            out.append(("C32.extent", f"{e[1]} bytes are read where the "
                        f"rows take {lab.rows * lab.row()}"))
    return out
