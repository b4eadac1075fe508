"""Findings, evidence and the command-line protocol."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("PDRLINT_ROOT", "/repo")


class Finding:
    def __init__(self, rule, construct, where, msg, detail=None):
        self.rule = rule
        self.construct = construct      # stable identity, no line numbers
        self.where = where              # file:line (display only)
        self.msg = msg
        self.detail = detail or []

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.samples = []
        self.rules = {}
        self.undecided = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def find(self, rule, construct, where, msg, detail=None):
        f = Finding(rule, construct, where, msg, detail)
        self.findings.setdefault(f.key, f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """instance-count floor: an emptied rule is an analysis error"""
        from .program import AnalysisError
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError(
                f"{self.prop}: only {self.counts.get(name, 0)} instance(s) of "
                f"'{name}', expected at least {minimum}: the analysis lost "
                f"its anchors")

    def undecide(self, what):
        self.undecided.append(what)

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            data = json.load(f)
        for e in data.get("findings", []):
            if e["property"] == prop:
                out[e["key"]] = e
    return out


def emit(rep: Report, tier, t0):
    prop = rep.prop
    known = load_known(prop)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    new, old = [], []
    for k, f in sorted(rep.findings.items()):
        (old if k in known else new).append(f)
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {known[f.key]['what']}")
    cov = {
        "explanation": "static analysis of /repo's current source; rules: "
                       + "; ".join(f"[{k}] {v}" for k, v in
                                   rep.rules.items()),
        "analysed": rep.counts,
        "undecided": rep.undecided[:40],
        "undecided_count": len(rep.undecided),
        "samples": rep.samples,
        "known_findings_present": len(old),
    }
    if rep.notes:
        cov["notes"] = rep.notes
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, v in rep.rules.items():
        print(f"rule {k}: {v}")
    print("analysed: " + ", ".join(f"{k}={v}" for k, v in
                                   sorted(rep.counts.items())))
    if rep.undecided:
        print(f"undecided (no verdict given): {len(rep.undecided)}")
    if not new:
        print(f"OK property={prop}: no violation "
              f"({len(old)} known finding(s))")
        return 0
    path = os.path.join(evdir, f"{prop}.violation.txt")
    with open(path, "w") as fh:
        for f in new:
            fh.write(f"[{f.rule}] {f.where}: {f.msg}\n  construct: "
                     f"{f.construct}\n")
            for d in f.detail:
                fh.write(f"    {d}\n")
    for f in new:
        print(f"[{f.rule}] {f.where}: {f.msg}")
        print(f"    key: {f.key}")
        for d in f.detail[:20]:
            print(f"    {d}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=ROOT)
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        rep = run_property(a.property, a.root, a.tier)
        return emit(rep, a.tier, t0)
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={a.property}")
        return 3


def run_property(prop, root, tier, ctx=None):
    import importlib
    mod = importlib.import_module(f"pdrlint.rules.{prop.lower()}")
    if ctx is None:
        ctx = Context(root)
    rep = Report(prop)
    mod.check(ctx, rep, tier)
    return rep


class Context:
    """lazily built program + call graph, shared between rules"""

    def __init__(self, root=ROOT):
        self.root = root
        self._prog = None
        self._cg = None

    @property
    def prog(self):
        if self._prog is None:
            from .program import Program
            self._prog = Program(self.root)
        return self._prog

    @property
    def cg(self):
        if self._cg is None:
            from .callgraph import CallGraph
            self._cg = CallGraph(self.prog)
        return self._cg
