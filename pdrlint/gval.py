"""Gated values: hash-consed terms and theory-aware decision diagrams.

A *value* is either a Term or an Ite(atom, hi, lo) node.  Ite nodes form
reduced, ordered decision diagrams whose atoms are boolean Terms (string
predicates over label identifiers and the like).  Ordering groups the atoms of
one subject together, equalities first, and the hi-branch of an equality is
simplified by evaluating the other atoms of the same subject, so an eq-chain
behaves like one multi-valued variable.
"""
from __future__ import annotations

import re
import sys

sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


class Term:
    __slots__ = ("op", "args", "_key", "_h", "uid")

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return self.op == "const"

    @property
    def value(self):
        return self.args[0][1]


class Ite:
    __slots__ = ("atom", "hi", "lo", "_h", "uid")

    def __repr__(self):
        return show(self)


class Space:
    """interning tables + operation caches + work budget"""

    def __init__(self, budget=3_000_000):
        self.terms = {}
        self.ites = {}
        self.cache = {}
        self.keys = {}
        self.budget = budget
        self.work = 0
        self.n = 0

    def tick(self, k=1):
        self.work += k
        if self.work > self.budget:
            raise TooBig()

    # ---- construction -------------------------------------------------
    def term(self, op, *args):
        k = (op,) + tuple(
            ("#", a.uid) if isinstance(a, (Term, Ite)) else a for a in args)
        t = self.terms.get(k)
        if t is None:
            t = Term()
            t.op, t.args = op, args
            t._key = None
            self.n += 1
            t.uid = self.n
            t._h = None
            self.terms[k] = t
        return t

    def const(self, v):
        # keep type: True != 1
        try:
            hash(v)
            return self.term("const", (type(v).__name__, v))
        except TypeError:
            return self.term("const", (type(v).__name__, repr(v)))

    @property
    def TRUE(self):
        return self.const(True)

    @property
    def FALSE(self):
        return self.const(False)

    @property
    def NONE(self):
        return self.const(None)

    def mk(self, atom, hi, lo):
        info = atom_info(atom)
        if info and info[1] == "eq":
            hi = self.restrict_subject(hi, info[0], info[2])
        hi = self.assume(hi, atom, True)
        lo = self.assume(lo, atom, False)
        if hi is lo:
            return hi
        k = (atom.uid, hi.uid, lo.uid)
        n = self.ites.get(k)
        if n is None:
            self.tick()
            n = Ite()
            n.atom, n.hi, n.lo = atom, hi, lo
            self.n += 1
            n.uid = self.n
            n._h = None
            self.ites[k] = n
        return n

    def intern(self, atom, hi, lo):
        """an already reduced and ordered node"""
        if hi is lo:
            return hi
        k = (atom.uid, hi.uid, lo.uid)
        n = self.ites.get(k)
        if n is None:
            n = Ite()
            n.atom, n.hi, n.lo = atom, hi, lo
            self.n += 1
            n.uid = self.n
            n._h = None
            self.ites[k] = n
        return n

    def assume(self, v, atom, val):
        """top-level only: ordering guarantees deeper nodes differ"""
        while isinstance(v, Ite) and v.atom is atom:
            v = v.hi if val else v.lo
        return v

    def restrict_subject(self, v, subject, const):
        if not isinstance(v, Ite):
            return v
        info = atom_info(v.atom)
        if info is None or info[0] is not subject:
            # contiguous ordering: nothing below concerns this subject
            if info is None or self.okey(v.atom)[0] > self.okey_subject(
                    subject):
                return v
            k = ("rs", v.uid, subject.uid, repr(const))
            if k in self.cache:
                return self.cache[k]
            r = self.mk(v.atom, self.restrict_subject(v.hi, subject, const),
                        self.restrict_subject(v.lo, subject, const))
            self.cache[k] = r
            return r
        k = ("rs", v.uid, subject.uid, repr(const))
        if k in self.cache:
            return self.cache[k]
        e = eval_atom_on(v.atom, const)
        if e is None:
            r = self.mk(v.atom, self.restrict_subject(v.hi, subject, const),
                        self.restrict_subject(v.lo, subject, const))
        else:
            r = self.restrict_subject(v.hi if e else v.lo, subject, const)
        self.cache[k] = r
        return r

    # ---- ordering -------------------------------------------------------
    def okey_subject(self, subject):
        return show(subject)

    def okey(self, atom):
        k = self.keys.get(atom.uid)
        if k is None:
            info = atom_info(atom)
            if info:
                k = (self.okey_subject(info[0]),
                     0 if info[1] == "eq" else 1, info[1], repr(info[2]))
            else:
                k = (show(atom), 2, "", "")
            self.keys[atom.uid] = k
        return k

    # ---- apply ----------------------------------------------------------
    def ite(self, c, a, b):
        """c: boolean value"""
        if c is self.TRUE:
            return a
        if c is self.FALSE:
            return b
        if a is b:
            return a
        k = ("ite", c.uid, a.uid, b.uid)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.tick()
        assert isinstance(c, Ite), c
        top = c.atom
        for v in (a, b):
            if isinstance(v, Ite) and self.okey(v.atom) < self.okey(top):
                top = v.atom
        r = self.mk(
            top,
            self.ite(self.cof(c, top, True), self.cof(a, top, True),
                     self.cof(b, top, True)),
            self.ite(self.cof(c, top, False), self.cof(a, top, False),
                     self.cof(b, top, False)),
        )
        self.cache[k] = r
        return r

    def cof(self, v, atom, val):
        if isinstance(v, Ite):
            if v.atom is atom:
                v = v.hi if val else v.lo
            if val:
                info = atom_info(atom)
                if info and info[1] == "eq":
                    v = self.restrict_subject(v, info[0], info[2])
        return v

    def map(self, fn, *vals, tag=None):
        """distribute fn over the leaves of vals"""
        for i, v in enumerate(vals):
            if isinstance(v, Ite):
                break
        else:
            self.tick()
            return fn(*vals)
        k = None
        if tag is not None:
            k = ("map", tag) + tuple(v.uid for v in vals)
            r = self.cache.get(k)
            if r is not None:
                return r
        self.tick()
        top = None
        for v in vals:
            if isinstance(v, Ite) and (
                    top is None or self.okey(v.atom) < self.okey(top)):
                top = v.atom
        hi = self.map(fn, *[self.cof(v, top, True) for v in vals], tag=tag)
        lo = self.map(fn, *[self.cof(v, top, False) for v in vals], tag=tag)
        # results may contain smaller atoms: use ite on the atom
        r = self.ite(self.atomv(top), hi, lo)
        if k is not None:
            self.cache[k] = r
        return r

    def atomv(self, atom):
        return self.mk(atom, self.TRUE, self.FALSE)

    def not_(self, a):
        return self.ite(a, self.FALSE, self.TRUE)

    def and_(self, a, b):
        return self.ite(a, b, self.FALSE)

    def or_(self, a, b):
        return self.ite(a, self.TRUE, b)

    def leaves(self, v, path=()):
        """yield (path literals, leaf); may be exponential: bounded"""
        stack = [(v, ())]
        while stack:
            n, p = stack.pop()
            self.tick()
            if isinstance(n, Ite):
                stack.append((n.lo, p + ((n.atom, False),)))
                stack.append((n.hi, p + ((n.atom, True),)))
            else:
                yield p, n

    def leafset(self, v):
        """distinct leaves with one shortest-ish path to each"""
        seen, out = set(), {}
        stack = [(v, ())]
        while stack:
            n, p = stack.pop(0)
            if n.uid in seen:
                continue
            seen.add(n.uid)
            if isinstance(n, Ite):
                stack.append((n.hi, p + ((n.atom, True),)))
                stack.append((n.lo, p + ((n.atom, False),)))
            else:
                out[n.uid] = (n, p)
        return list(out.values())


# ---- rendering -----------------------------------------------------------
MAXTXT = 400


def show(v, depth=0):
    """deterministic text, used for display and for the atom order; long
    texts are cut and completed with a digest so they stay unique"""
    if not isinstance(v, (Term, Ite)):
        return repr(v)
    if v._h is None:
        s = _show(v)
        if len(s) > MAXTXT:
            import hashlib
            d = hashlib.sha1(s.encode("utf-8", "replace")).hexdigest()[:12]
            s = s[:MAXTXT - 60] + "...#" + d
        v._h = s
    return v._h


def _show(v):
    if isinstance(v, Ite):
        return f"ite({show(v.atom)}, {show(v.hi)}, {show(v.lo)})"
    o, a = v.op, v.args
    if o == "const":
        return repr(a[0][1])
    if o in ("param", "ext", "func", "class", "global", "module",
             "builtin"):
        return str(a[0])
    if o == "attr":
        return f"{show(a[0])}.{a[1]}"
    if o == "sub":
        return f"{show(a[0])}[{show(a[1])}]"
    if o in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[o]
        return b[0] + ", ".join(show(x) for x in a) + b[1]
    if o == "call":
        return f"{show(a[0])}({_showargs(a[1], a[2])})"
    if o == "method":
        return f"{show(a[0])}.{a[1]}({_showargs(a[2], a[3])})"
    if o == "eq":
        return f"{show(a[0])} == {show(a[1])}"
    if o == "contains":
        return f"{show(a[1])} in {show(a[0])}"
    return f"{o}({', '.join(show(x) for x in a)})"


def _showargs(args, kwargs):
    out = [show(x) for x in args.args]
    out += [f"{k}={show(x)}" for k, x in zip(kwargs.args[0::2],
                                             kwargs.args[1::2])]
    return ", ".join(out)


def _size(v, cap=300):
    seen, st, n = set(), [v], 0
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        n += 1
        if n > cap:
            return n
        if isinstance(x, Ite):
            st += [x.hi, x.lo]
    return n


# ---- atom theory ---------------------------------------------------------
STR_KINDS = ("contains", "startswith", "endswith", "rematch", "research",
             "refull", "substrof")
NUM_KINDS = ("ge", "gt")


def atom_info(atom):
    """(subject, kind, const) for atoms with theory knowledge, or None"""
    o, a = atom.op, atom.args
    if o == "eq":
        if isinstance(a[1], Term) and a[1].op == "const":
            return a[0], "eq", a[1].value
        return None
    if o in STR_KINDS:
        return a[0], o, a[1].value if isinstance(a[1], Term) else a[1]
    if o in NUM_KINDS:
        if a[1].op == "const":
            return a[0], o, a[1].value
        return None
    if o == "isnone":
        return a[0], "isnone", None
    if o == "truth":
        return a[0], "truth", None
    return None


def eval_pred(kind, const, v):
    """evaluate predicate on concrete value v; None if undefined"""
    try:
        if kind == "eq":
            return v == const and type(v) == type(const) or (
                v == const and not isinstance(v, bool)
                and not isinstance(const, bool))
        if kind == "isnone":
            return v is None
        if kind == "truth":
            return bool(v)
        if kind == "contains":
            if not isinstance(v, str):
                return None
            return const in v
        if kind == "substrof":
            if not isinstance(v, str):
                return None
            return v in const
        if kind == "startswith":
            return v.startswith(const)
        if kind == "endswith":
            return v.endswith(const)
        if kind == "rematch":
            return re.match(const[0], v, const[1]) is not None
        if kind == "research":
            return re.search(const[0], v, const[1]) is not None
        if kind == "refull":
            return re.fullmatch(const[0], v, const[1]) is not None
        if kind == "ge":
            return v >= const
        if kind == "gt":
            return v > const
    except (TypeError, AttributeError, re.error):
        return None
    return None


def eval_atom_on(atom, v):
    info = atom_info(atom)
    if info is None:
        return None
    return eval_pred(info[1], info[2], v)


def witness(literals):
    """find concrete values per subject satisfying all literals.

    literals: [(atom, bool)].  Returns (status, {subject_text: value},
    opaque literals): status 'sat' (every theory literal met by a concrete
    value), 'unsat' (theory contradiction), or 'unknown'.
    """
    by = {}
    opaque = []
    for atom, val in literals:
        info = atom_info(atom)
        if info is None:
            opaque.append((atom, val))
        else:
            by.setdefault(info[0].uid, (info[0], []))[1].append(
                (info[1], info[2], val))
    out = {}
    status = "sat"
    for subj, lits in by.values():
        cands = []
        eqs = [c for k, c, v in lits if k == "eq" and v]
        if eqs:
            cands = [eqs[0]]
            exact = True
        else:
            exact = False
            pos = [c for k, c, v in lits if v and k in (
                "contains", "startswith", "endswith")]
            pre = [c for k, c, v in lits if v and k == "startswith"]
            suf = [c for k, c, v in lits if v and k == "endswith"]
            con = [c for k, c, v in lits if v and k == "contains"]
            res = [c for k, c, v in lits if v and k in (
                "rematch", "research", "refull")]
            sub = [c for k, c, v in lits if v and k == "substrof"]
            nums = [c for k, c, v in lits if k in NUM_KINDS]
            cands += ["", "~ZZ~", "~"]
            base_pre = sorted(pre, key=len)[-1] if pre else ""
            base_suf = sorted(suf, key=len)[-1] if suf else ""
            mids = ["", "~".join(con), "".join(con), "~".join(reversed(con))]
            reps = [""] + [x for p in res for x in sample_re(p[0])]
            for m in mids:
                for r in reps:
                    for sep in ("", "~"):
                        cands.append(base_pre + sep + m + sep + base_suf)
                        cands.append(r + sep + m + sep + base_suf)
                        cands.append(base_pre + r + sep + m + base_suf)
                        cands.append(base_pre + sep + m + sep + r + base_suf)
            cands += [c for c in pos if isinstance(c, str)]
            for s in sub:
                cands += [s, s[:1], s[1:3]]
            for x in nums:
                cands += [x, x + 1, x - 1, x + 0.5, 0, 10**12, -10**12]
            cands += [None, 0, 1, True, False]
            cands = list(dict.fromkeys(
                [c for c in cands]))
        ok = None
        for c in cands:
            good = True
            for k, const, v in lits:
                e = eval_pred(k, const, c)
                if e is None or bool(e) is not v:
                    good = False
                    break
            if good:
                ok = c
                break
        else:
            if exact:
                # contradiction only if some literal evaluates the other way
                bad = any(
                    (e := eval_pred(k, const, cands[0])) is not None
                    and bool(e) is not v for k, const, v in lits)
                if bad:
                    return "unsat", {}, opaque
                status = "unknown"
            else:
                status = "unknown"
            continue
        out[show(subj)] = ok
    return status, out, opaque


def sample_re(pat):
    """a few strings matched by simple regexes (best effort)"""
    out = set()
    try:
        import re._parser as sp
    except ImportError:            # pragma: no cover
        import sre_parse as sp
    try:
        tree = sp.parse(pat)
    except Exception:
        return []

    def gen(seq):
        res = [""]
        for op, av in seq:
            name = str(op)
            opts = []
            if name == "LITERAL":
                opts = [chr(av)]
            elif name == "ANY":
                opts = ["~"]
            elif name == "IN":
                for o2, a2 in av:
                    n2 = str(o2)
                    if n2 == "LITERAL":
                        opts.append(chr(a2))
                    elif n2 == "RANGE":
                        opts.append(chr(a2[0]))
                    elif n2 == "CATEGORY":
                        c = str(a2)
                        opts.append("0" if "DIGIT" in c else
                                    " " if "SPACE" in c else "A")
                    elif n2 == "NEGATE":
                        opts = ["~"]
                        break
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                inner = gen(sub)
                if lo == 0:
                    opts.append("")
                n = max(lo, 1)
                opts += [x * n for x in inner[:4]]
            elif name == "SUBPATTERN":
                opts = gen(av[3])
            elif name == "BRANCH":
                for b in av[1]:
                    opts += gen(b)[:3]
            elif name == "AT":
                opts = [""]
            elif name in ("ASSERT", "ASSERT_NOT"):
                opts = [""]
            else:
                opts = [""]
            res = [r + o for r in res for o in opts[:12]][:60]
        return res
    out.update(gen(tree))
    return sorted(out)[:40]
