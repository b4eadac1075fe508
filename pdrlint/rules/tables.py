"""Build and compare decision tables of named functions."""
from __future__ import annotations

import json
import os

from .. import decide
from ..geval import Evaluator
from ..gval import Space, Term, TooBig
from ..report import VERIF

REFDIR = os.path.join(VERIF, "reference")
BUDGET = 700_000


def load_ref(name):
    with open(os.path.join(REFDIR, name)) as f:
        return json.load(f)


def evaluate(prog, func, inline, names=None, budget=BUDGET, models=None):
    """-> (Space, gated value) or (Space, None) when too large"""
    ev = Evaluator(prog, inline=inline, keep_effects=False, budget=budget,
                   models=models)
    args = None
    cur = func.all_param_names()
    if names and names != cur and len(names) == len(cur) and \
            set(names) != set(cur):
        args = {c: ev.sp.term("param", n) for c, n in zip(cur, names)}
    try:
        return ev.sp, ev.run(func, args).value
    except (TooBig, RecursionError):
        return ev.sp, None


def handler_class(known):
    """outcome = the documented handler the call is handed to"""
    def cls(leaf):
        if leaf.op in ("tuple", "list") and len(leaf.args) == 2:
            f, v = leaf.args
            if isinstance(f, Term) and f.op == "const" and f.value is False:
                return ("no",)
            if isinstance(v, Term):
                h = _h(v)
                if h:
                    return ("handler", h)
            return None
        if leaf.op == "func":
            h = _h(leaf)
            return ("handler", h) if h else None
        if leaf.op == "const" and leaf.value is False:
            return ("no",)
        if leaf.op == "const" and leaf.value is None:
            return ("none",)
        h = _h(leaf)
        return ("handler", h) if h else None

    def _h(v):
        if v.op == "call" and v.args[0].op == "func" and \
                v.args[0].args[0] in known:
            return v.args[0].args[0]
        if v.op == "func" and v.args[0] in known:
            return v.args[0]
        return None
    cls.__name__ = "handler"
    return cls


def handler_differs(a, b):
    return a is not None and b is not None and a != b


def canon_pair(sp):
    """leaf -> canonical outcome leaf (merges what is not distinguished)"""
    unk = sp.term("unk")

    def f(leaf):
        c = decide.pair_class(leaf)
        if c is None:
            return unk
        if c[0] == "no":
            return sp.FALSE
        if c[0] == "none":
            return sp.NONE
        if c[1] is None:
            return sp.TRUE
        return sp.term("tuple", sp.TRUE, leaf.args[1])
    return f


def canon_value(sp):
    unk = sp.term("unk")

    def f(leaf):
        return leaf if decide.const_of(leaf) is not None else unk
    return f


def canon_handler(sp, cls):
    unk = sp.term("unk")

    def f(leaf):
        c = cls(leaf)
        if c is None:
            return unk
        if c[0] == "no":
            return sp.FALSE
        if c[0] == "none":
            return sp.NONE
        return sp.term("func", c[1])
    return f


def reference_entry(prog, func, inline_all, handlers):
    out = {"params": func.all_param_names()}
    sp, v = evaluate(prog, func, inline_all)
    if v is not None:
        out["value"] = decide.dump(sp.map(canon_value(sp), v, tag="cv"))
        if set(str(r) for r in out["value"] if r[0] == "T") and \
                not any(decide.const_of(l) is not None and
                        decide.pair_class(l) is None
                        for l, _ in sp.leafset(v)):
            del out["value"]
        out["outcome"] = decide.dump(sp.map(canon_pair(sp), v, tag="cp"))
    sp, v = evaluate(prog, func, lambda f: inline_all(f)
                     and f.qual not in handlers)
    if v is not None:
        out["handler"] = decide.dump(
            sp.map(canon_handler(sp, handler_class(handlers)), v, tag="ch"))
    return out


def check_entry(prog, func, ent, inline_all, handlers):
    """-> [(mode, Diff)], undecided messages, modes judged"""
    found, und, judged = [], [], 0
    known = {h for h in handlers if h in prog.funcs}
    pair = {}

    def defer(w):
        """both sides hand the product to (different) documented handlers:
        the handler table judges that"""
        if "handler" not in pair:
            return False
        cls, r, c = pair["handler"]
        try:
            x, y = decide.outcome(r, w, cls), decide.outcome(c, w, cls)
        except decide.Unknown:
            return False
        return x is not None and y is not None and x != y and \
            x[0] == y[0] == "handler"
    for mode in ("handler", "outcome", "value"):
        if mode not in ent:
            continue
        if mode == "value":
            inl, cls, dif = inline_all, decide.value_class, \
                decide.value_differs
        elif mode == "outcome":
            inl, cls, dif = inline_all, decide.pair_class, \
                decide.pair_differs
        else:
            def inl(f):
                return inline_all(f) and f.qual not in handlers
            cls, dif = handler_class(known), handler_differs
        try:
            sp, v = evaluate(prog, func, inl, ent["params"])
            if v is None:
                und.append(f"{func.qual} ({mode}): too large")
                continue
            sp.budget += BUDGET
            v = sp.map({"outcome": lambda: canon_pair(sp),
                        "value": lambda: canon_value(sp),
                        "handler": lambda: canon_handler(sp, cls)}[mode](),
                       v, tag="canon")
            ref = decide.load(ent[mode], sp)
            pair[mode] = (cls, ref, v)
            ds, n = decide.compare(
                sp, ref, v, cls, dif, overlap=mode != "value",
                defer=defer if mode == "outcome" else None)
        except (TooBig, RecursionError):
            und.append(f"{func.qual} ({mode}): too large to compare")
            continue
        judged += 1
        if n:
            und.append(f"{func.qual} ({mode}): {n} path group(s) could not "
                       f"be evaluated")
        found += [(mode, d) for d in ds]
    return found, und, judged
