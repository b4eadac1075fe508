"""shared: which functions answer special-case questions, and in what form"""
from __future__ import annotations

import ast

from ..program import own_walk, AnalysisError
from ..gval import Term, Ite, TooBig, witness, show
from ..geval import Evaluator

BOOL_METHODS = {"startswith", "endswith", "isdigit", "isupper", "islower",
                "isalpha", "isnumeric", "is_file", "exists", "is_dir",
                "__contains__", "any", "all"}


def is_func(ctx, ref, qual_tail):
    return ref and ref[0] == "func" and ref[1].qual == qual_tail


def specialize_sites(ctx):
    """[(Site, wrapped refs, checker refs)]"""
    p, g = ctx.prog, ctx.cg
    spec = p.need_func("pdr.func.specialize")
    out = []
    for s in g.sites:
        if s.kind == "call" and s.target == ("func", spec) and isinstance(
                s.node, ast.Call):
            n = s.node
            args = {i: a for i, a in enumerate(n.args)}
            kw = {k.arg: k.value for k in n.keywords}
            fe = args.get(0, kw.get("func"))
            ce = args.get(1, kw.get("check"))
            out.append((s, fe, ce))
    return out


def func_refs(ctx, e, func, module):
    """functions an expression may denote"""
    out = []
    if e is None:
        return out
    r = ctx.prog.resolve_expr_static(e, module, func)
    if r and r[0] == "func":
        return [r[1]]
    for t in ctx.cg.expr_types(e, func, module):
        if t[0] == "func":
            out.append(t[1])
    return out


def pair_checkers(ctx):
    """functions whose result is used as (flag, value), with evidence"""
    out = {}
    for s, fe, ce in specialize_sites(ctx):
        for f in func_refs(ctx, ce, s.caller, s.module):
            out.setdefault(f.qual, (f, []))[1].append(
                f"specialize check at {s.loc}")
    # inline consumers: a, b = f(...) with a tested as a flag
    p, g = ctx.prog, ctx.cg
    for s in g.sites:
        if s.kind != "call" or s.target[0] != "func" or s.module.vendored:
            continue
        f = s.target[1]
        par = getattr(s.node, "_parent", None)
        if isinstance(par, ast.Assign) and par.value is s.node and len(
                par.targets) == 1 and isinstance(
                par.targets[0], ast.Tuple) and len(
                par.targets[0].elts) == 2 and all(
                isinstance(e, ast.Name) for e in par.targets[0].elts):
            flag = par.targets[0].elts[0].id
            if s.caller is None:
                continue
            if (flag.startswith("is_") or flag.startswith("special")) and \
                    _tested(s.caller.node, flag):
                out.setdefault(f.qual, (f, []))[1].append(
                    f"unpacked at {s.loc}")
    return out


def _tested(node, name):
    for n in own_walk(node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for x in ast.walk(n.test):
                if isinstance(x, ast.Name) and x.id == name:
                    return True
    return False


def bool_consumers(ctx):
    """functions called directly as a condition of an if/and/or/not"""
    out = {}
    for s in ctx.cg.sites:
        if s.kind != "call" or s.target[0] != "func" or s.module.vendored:
            continue
        par = getattr(s.node, "_parent", None)
        direct = False
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and \
                par.test is s.node:
            direct = True
        if isinstance(par, ast.UnaryOp) and isinstance(par.op, ast.Not):
            direct = True
        if isinstance(par, ast.BoolOp):
            direct = True
        if direct:
            out.setdefault(s.target[1].qual, (s.target[1], []))[1].append(
                s.loc)
    return out
