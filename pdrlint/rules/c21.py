"""C21: binary table columns are always fully decoded."""
from __future__ import annotations

from .tabledata import columns, decode_labels, run


def check(ctx, rep, tier):
    rep.rule("C21.decoded", "over every class of binary table definition, "
             "each field's values have gone through the conversion its data "
             "type calls for, once, and through no other")
    rep.rule("C21.raw", "each conversion receives the bytes it needs: those "
             "of its own width, in the byte order it expects, not yet "
             "changed by another step")
    rep.rule("C21.native", "the values handed over are in native byte "
             "order, and their type says so")
    rep.rule("C21.bits", "bit strings are divided into the bits the label "
             "gives, in the order of its bytes")
    rep.rule("C21.read", "no mix of data types is refused")
    rep.assume("numpy's structured dtypes, pandas' label-aligned operations "
               "and vax.from_vax32 behave as documented; the host is "
               "little-endian")
    worst = {}
    for o in run(ctx.prog, decode_labels(tier), rep):
        for rule, kind, msg in judge(o, rep):
            old = worst.get((rule, kind))
            if old is None or len(o.label.fields) < old[0]:
                worst[rule, kind] = (len(o.label.fields), o.label.what, msg)
    where = ""
    if getattr(run, "reader", None) is not None:
        where = f"{run.reader.file}:{run.reader.line}"
    for (rule, kind), (_, what, msg) in sorted(worst.items()):
        rep.find(rule, kind, where, f"of a table with {what}, {msg}")


def judge(o, rep):
    lab = o.label
    types = sorted({f.dt for f in lab.fields})
    if o.path.kind == "raise":
        t = types[0] if len(types) == 1 else "mixed types"
        return [("C21.read", t, f"the load fails with {o.path.value.name}")]
    if o.table is None:
        rep.undecide(f"{lab.what}: the result is not followed")
        return []
    cs = columns(o, rep)
    if cs is None:
        return []
    out = []
    for n, c, f in cs:
        if f is None:
            continue        # C32's affair
        if f.bits is not None:
            out += [(r, f.dt, f"column {n} " + s)
                    for r, s in judge_bits(c, f)]
        else:
            out += [(r, f.dt, f"column {n} " + s)
                    for r, s in judge_plain(c, f)]
        if c.ops:
            out.append(("C21.decoded", f.dt, f"column {n} is scaled without "
                        "a scale in the label"))
    return out


def bad(c):
    return [s[2:] for s in c.steps if s.startswith("! ")]


def judge_plain(c, f):
    for why in bad(c):
        return [("C21.raw", f"shows the result of {why}")]
    steps = [s for s in c.steps if not s.startswith("cast to object")]
    t, w = f.dt, f.width
    if "REAL" in t and ("IBM" in t or "VAX" in t):
        want = [("IBM" if "IBM" in t else "VAX") + str(8 * w)]
        steps = [s for s in steps if not s.startswith("cast to float")]
        if steps != want:
            return [("C21.decoded", wrong(steps, want))]
        return native(c, "f")
    if "EBCDIC" in t:
        want = ["decoded as EBCDIC"]
        return [] if steps == want else [("C21.decoded", wrong(steps, want))]
    if t == "BOOLEAN":
        if c.dt.kind == "b" and steps in ([], ["bool"]):
            return []
        return [("C21.decoded", f"is of {c.dt.text()} values, not booleans")]
    if "INTEGER" in t or "REAL" in t:
        if steps:
            return [("C21.decoded", wrong(steps, []))]
        return native(c, "f" if "REAL" in t else
                      "u" if "UNSIGNED" in t else "i")
    # left as the bytes they are, or decoded as what they say they are
    odd = [s for s in steps if s not in ("decoded as text",
                                         "decoded as ASCII")]
    if odd:
        return [("C21.decoded", wrong(odd, []))]
    return []


def wrong(steps, want):
    have = " then ".join(steps) if steps else "nothing"
    return f"has gone through {have}" + (
        f" instead of {want[0]}" if want else
        " though its type calls for no conversion")


def native(c, kind):
    if c.dt.kind == "O" or c.parts is not None:
        return [("C21.decoded", "does not hold numbers")]
    if not c.sane():
        return [("C21.native", "holds values whose bytes are in another "
                 "order than its type says")]
    if not c.dt.native():
        return [("C21.native", f"is of {c.dt.text()} values, which are not "
                 "in native order")]
    if c.dt.kind != kind and not (kind == "i" and c.dt.kind == "u"):
        return [("C21.decoded", f"is of {c.dt.text()} values")]
    return []


def judge_bits(c, f):
    for why in bad(c):
        return [("C21.raw", f"shows the result of {why}")]
    if c.parts is None or "split" not in c.steps:
        return [("C21.decoded", "is not divided into its bits")]
    if list(c.steps) != ["bits", "split"]:
        return [("C21.decoded", "has gone through "
                 + " then ".join(c.steps))]
    parts, cuts = c.parts
    at = 0
    for a, n, order in parts:
        if a != at:
            return [("C21.bits", "has its bytes out of order")]
        at += n
        want = "<" if "LSB" in f.dt else ">"
        if n > 1 and order != want:
            return [("C21.bits", f"has bytes {a} to {a + n} taken as "
                     + ("least" if order == "<" else "most")
                     + " significant first")]
    if at != f.width:
        return [("C21.bits", f"has {at} of its {f.width} bytes")]
    if [tuple(x) for x in cuts] != [tuple(x) for x in f.bits]:
        return [("C21.bits", f"is cut at {list(cuts)} where the label has "
                 f"{list(f.bits)}")]
    return []
