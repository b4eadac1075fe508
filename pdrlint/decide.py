"""Decision tables: the outcome of a function as a function of the label
identifiers, object name, file name (and other inputs), compared between the
committed table of documented decisions and the current source.

A difference is reported only together with a concrete, minimal assignment of
the inputs on which both tables were evaluated and gave different outcomes;
anything that cannot be evaluated is left undecided.
"""
from __future__ import annotations

import ast
import itertools
import re

from .gval import (Space, Term, Ite, TooBig, atom_info, eval_pred, witness,
                   show)


# ---- (de)serialisation ------------------------------------------------------
def dump(v):
    nodes, ids = [], {}

    def go(x):
        if x.uid in ids:
            return ids[x.uid]
        if isinstance(x, Ite):
            row = ["I", go(x.atom), go(x.hi), go(x.lo)]
        else:
            row = ["T", x.op] + [
                go(a) if isinstance(a, (Term, Ite)) else "=" + repr(a)
                for a in x.args]
        ids[x.uid] = len(nodes)
        nodes.append(row)
        return ids[x.uid]
    go(v)
    return nodes


def load(nodes, sp: Space):
    out = []
    for row in nodes:
        if row[0] == "I":
            # written reduced and in the (text-based) atom order
            out.append(sp.intern(out[row[1]], out[row[2]], out[row[3]]))
        else:
            args = []
            for a in row[2:]:
                if isinstance(a, str):
                    args.append(ast.literal_eval(a[1:]))
                else:
                    args.append(out[a])
            out.append(sp.term(row[1], *args))
    return out[-1]


# ---- concrete evaluation ------------------------------------------------------
class Unknown(Exception):
    pass


class Obj:
    """a modelled argument (product, identifiers, label block)"""

    def __init__(self, kind, path):
        self.kind, self.path = kind, path


STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith",
               "endswith", "replace", "split", "find", "rfind", "index",
               "count", "title", "casefold", "partition", "rpartition",
               "isdigit", "isnumeric", "join", "format", "capitalize",
               "removeprefix", "removesuffix", "isupper", "islower"}
ID_PARAMS = ("identifiers",)
DATA_PARAMS = ("data", "pdrlike", "self")
STR_PARAMS = ("name", "fn", "object_name", "pointer", "filename", "text",
              "file_name", "label_fn", "extension")


class Env:
    """assignment of the base variables; everything else is missing"""

    def __init__(self, values):
        self.values = values

    def get(self, key):
        if key in self.values:
            return self.values[key]
        if key[0] == "id":
            return ""
        if key[0] == "param" and key[1] in STR_PARAMS:
            return ""
        if key == ("data", "filename") or key[0] == "suffixes":
            return ""
        if key[0] == "flag":
            return False
        raise Unknown(str(key))


def base_key(t):
    """key of a base variable term, or None"""
    if not isinstance(t, Term):
        return None
    if t.op == "param":
        return ("param", t.args[0])
    if t.op in ("flag", "suffixes"):
        return (t.op,) + tuple(t.args)
    if t.op == "sub" and isinstance(t.args[1], Term) and \
            t.args[1].op == "const":
        b = t.args[0]
        if is_ids(b):
            return ("id", t.args[1].value)
        k = base_key(b)
        if k is not None and k[0] in ("param", "block") and (
                k[0] == "block" or k[1] not in STR_PARAMS):
            return ("block", k, t.args[1].value)
        return None
    if t.op == "method" and t.args[1] in ("get",) and t.args[2].args and \
            t.args[2].args[0].op == "const":
        if is_ids(t.args[0]):
            return ("id", t.args[2].args[0].value)
        k = base_key(t.args[0])
        if k is not None and k[0] in ("param", "block"):
            return ("block", k, t.args[2].args[0].value)
        return None
    if t.op == "method" and t.args[1] in ("metaget", "metaget_") and \
            t.args[2].args and t.args[2].args[0].op == "const":
        b = t.args[0]
        if is_data(b) or (b.op == "attr" and b.args[1] == "metadata"
                          and is_data(b.args[0])):
            return ("id", t.args[2].args[0].value)
    if t.op == "attr" and is_data(t.args[0]) and t.args[1] == "filename":
        return ("data", "filename")
    return None


def is_data(t):
    return t.op == "param" and t.args[0] in DATA_PARAMS


def is_ids(t):
    if t.op == "param" and t.args[0] in ID_PARAMS:
        return True
    if t.op == "attr" and t.args[1] == "identifiers":
        b = t.args[0]
        return is_data(b) or (b.op == "attr" and b.args[1] == "metadata"
                              and is_data(b.args[0]))
    return False


def base_vars(t, out=None, seen=None):
    """base variable keys mentioned in a term"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, (Term, Ite)) or t.uid in seen:
        return out
    seen.add(t.uid)
    if isinstance(t, Ite):
        for x in (t.atom, t.hi, t.lo):
            base_vars(x, out, seen)
        return out
    k = base_key(t)
    if k is not None and not (k[0] == "param" and k[1] in
                              ID_PARAMS + DATA_PARAMS):
        if k not in out:
            out.append(k)
        return out
    for a in t.args:
        base_vars(a, out, seen)
    return out


class Conc:
    def __init__(self, env: Env):
        self.env = env
        self.memo = {}

    def ev(self, t):
        if t.uid in self.memo:
            return self.memo[t.uid]
        v = self._ev(t)
        self.memo[t.uid] = v
        return v

    def truth(self, v):
        if isinstance(v, Obj):
            raise Unknown("truth of object")
        return bool(v)

    def atom(self, a):
        o = a.op
        info = atom_info(a)
        if o == "truth":
            return self.truth(self.ev(a.args[0]))
        if o == "isnone":
            v = self.ev(a.args[0])
            return v is None
        if info is not None:
            s = self.ev(info[0])
            if isinstance(s, Obj):
                if o == "contains":
                    return self.has(s, info[2])
                raise Unknown("object in predicate")
            r = eval_pred(info[1], info[2], s)
            if r is None:
                if o == "contains" and isinstance(s, (dict, list, tuple,
                                                      set)):
                    return info[2] in s
                raise Unknown(f"{o} undefined")
            return bool(r)
        if o == "eq":
            return self.ev(a.args[0]) == self.ev(a.args[1])
        if o == "in":
            c = self.ev(a.args[1])
            if isinstance(c, Obj):
                raise Unknown("in object")
            return self.ev(a.args[0]) in c
        if o in ("ge", "gt"):
            x, y = self.ev(a.args[0]), self.ev(a.args[1])
            return x >= y if o == "ge" else x > y
        raise Unknown(o)

    def has(self, obj, key):
        return bool(self.env.values.get(("has", obj.path, key), False))

    def walk(self, v):
        """leaf of a gated value"""
        while isinstance(v, Ite):
            v = v.hi if self.atom(v.atom) else v.lo
        return v

    def _ev(self, t):
        if isinstance(t, Ite):
            return self.ev(self.walk(t))
        o = t.op
        if o == "const":
            return t.value
        k = base_key(t)
        if k is not None:
            if k[0] == "param" and k[1] not in STR_PARAMS and \
                    k not in self.env.values:
                return Obj(k[1], k)
            if t.op == "method" and k[0] == "id" and \
                    k not in self.env.values:
                a = t.args[2].args
                kw = dict(zip([x.value for x in t.args[3].args[0::2]],
                              t.args[3].args[1::2]))
                if len(a) > 1:
                    return self.ev(a[1])
                if "default" in kw:
                    return self.ev(kw["default"])
                if t.args[1] == "get" and is_ids(t.args[0]):
                    return ""
                return None
            return self.env.get(k)
        if o in ("tuple", "list", "set"):
            vals = []
            for a in t.args:
                if isinstance(a, Term) and a.op == "optional":
                    if self.truth(self.ev(a.args[0])):
                        vals.append(self.ev(a.args[1]))
                elif isinstance(a, Term) and a.op == "starred":
                    vals += list(self.ev(a.args[0]))
                else:
                    vals.append(self.ev(a))
            return {"tuple": tuple, "list": list, "set": frozenset}[o](vals)
        if o == "dict":
            return {self.ev(a): self.ev(b) for a, b in zip(
                t.args[0::2], t.args[1::2])}
        if o == "concat":
            return "".join(str(self.ev(a)) for a in t.args)
        if o == "method":
            r = self.ev(t.args[0])
            if isinstance(r, str) and t.args[1] in STR_METHODS:
                args = [self.ev(x) for x in t.args[2].args]
                if t.args[3].args:
                    raise Unknown("kw")
                return self.safe(lambda: getattr(r, t.args[1])(*args))
            raise Unknown("method " + t.args[1])
        if o == "sub":
            b, i = self.ev(t.args[0]), self.ev(t.args[1])
            if isinstance(b, Obj):
                raise Unknown("sub")
            return self.safe(lambda: b[i])
        if o == "slice":
            return slice(*[self.ev(x) for x in t.args])
        if o == "unop":
            v = self.ev(t.args[1])
            return self.safe(lambda: {"USub": lambda: -v,
                                      "UAdd": lambda: +v,
                                      "Invert": lambda: ~v}[
                t.args[0].value]())
        if o == "bin":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            fn = {"Add": lambda: a + b, "Sub": lambda: a - b,
                  "Mult": lambda: a * b, "Mod": lambda: a % b,
                  "Div": lambda: a / b, "FloorDiv": lambda: a // b,
                  "BitOr": lambda: a | b, "BitAnd": lambda: a & b}.get(
                t.args[0].value)
            if fn is None:
                raise Unknown("bin")
            return self.safe(fn)
        if o == "call":
            f = t.args[0]
            args = [self.ev(x) for x in t.args[1].args]
            if t.args[2].args:
                raise Unknown("kw")
            if f.op == "builtin" and f.args[0] in (
                    "len", "str", "int", "float", "bool", "any", "all",
                    "sorted", "min", "max", "tuple", "list", "set", "abs"):
                import builtins
                if any(isinstance(x, Obj) for x in args):
                    raise Unknown("obj")
                return self.safe(
                    lambda: getattr(builtins, f.args[0])(*args))
            if f.op == "ext" and f.args[0] in ("pathlib.Path",
                                               "pathlib.PurePath") and \
                    len(args) == 1:
                raise Unknown("path")
            raise Unknown("call")
        if o in ("eq", "contains", "startswith", "endswith", "rematch",
                 "research", "refull", "substrof", "ge", "gt", "isnone",
                 "truth", "in"):
            return self.atom(t)
        if o == "rematch_obj":
            return self.env and eval_pred(t.args[0], t.args[2].value,
                                          self.ev(t.args[1])) or None
        raise Unknown(o)

    def safe(self, fn):
        try:
            return fn()
        except Exception as e:      # the source would raise here
            raise Unknown(f"raises {type(e).__name__}")


# ---- outcome classes ------------------------------------------------------------
def const_of(v):
    """python value of a closed term, or None marker"""
    if isinstance(v, Term):
        if v.op == "setitem" and v.args[1].value == "":
            b, k, x = (const_of(a) for a in (v.args[0], v.args[2],
                                             v.args[3]))
            if b is not None and b[0] == "map" and k and x:
                d = dict(zip(b[1][0::2], b[1][1::2]))
                d[k] = x
                return ("map", tuple(y for kv in d.items() for y in kv))
        if v.op == "const":
            return ("c", v.value)
        if v.op in ("tuple", "list"):
            xs = [const_of(a) for a in v.args]
            if all(x is not None for x in xs):
                return ("seq", tuple(xs))
        if v.op == "dict":
            xs = [const_of(a) for a in v.args]
            if all(x is not None for x in xs):
                return ("map", tuple(xs))
    return None


def same_const(a, b):
    return a == b


def pair_class(leaf):
    """('no',) / ('yes', const or None) / None when not judged"""
    if leaf.op in ("tuple", "list") and len(leaf.args) == 2:
        f = leaf.args[0]
        if isinstance(f, Term) and f.op == "const" and isinstance(
                f.value, bool):
            if f.value is False:
                return ("no",)
            return ("yes", const_of(leaf.args[1]))
        return None
    if leaf.op == "const" and isinstance(leaf.value, bool):
        return ("yes", None) if leaf.value else ("no",)
    if leaf.op == "const" and leaf.value is None:
        return ("none",)
    return None


def pair_differs(a, b):
    if a is None or b is None:
        return False
    if a[0] != b[0]:
        return True
    if a[0] == "yes" and a[1] is not None and b[1] is not None:
        return not same_const(a[1], b[1])
    return False


def value_class(leaf):
    """for functions that answer plain values: closed constants only"""
    c = const_of(leaf)
    return ("val", c) if c is not None else None


def value_differs(a, b):
    return a is not None and b is not None and a != b


# ---- comparison --------------------------------------------------------------------
class Diff:
    def __init__(self, example, ref, cur, path):
        self.example, self.ref, self.cur, self.path = example, ref, cur, path


def assignment(literals):
    """base-variable values meeting the literals (best effort)"""
    by, out = {}, {}
    for atom, val in literals:
        info = atom_info(atom)
        if info is None:
            continue
        k = base_key(info[0])
        if k is not None and k[0] == "param" and k[1] not in STR_PARAMS:
            if info[1] == "contains":
                out[("has", k, info[2])] = val
                continue
            if k[1] in DATA_PARAMS + ID_PARAMS:
                continue
        if k is None:
            bv = base_vars(info[0])
            if len(bv) != 1:
                continue
            k = bv[0]
        by.setdefault(k, []).append((atom, val, info))
    for k, lits in by.items():
        direct = [(a, v) for a, v, i in lits if base_key(i[0]) is not None]
        derived = [(a, v, i) for a, v, i in lits if base_key(i[0]) is None]
        # witness() groups by subject term; merge all direct ones on one
        st, vals, _ = witness_merge(direct, derived)
        if vals is not None:
            out[k] = vals
    return out


class _L:
    pass


def witness_merge(direct, derived):
    """one value for a base variable from its literals"""
    if not direct and not derived:
        return "sat", None, None
    infos = [atom_info(a) + (v,) for a, v in direct]
    # reuse witness() by mapping every literal to one subject
    sp = Space(100000)
    subj = sp.term("param", "_")
    lits = []
    for a, v in direct:
        i = atom_info(a)
        if i[1] in ("isnone", "truth"):
            lits.append((sp.term(i[1], subj), v))
        else:
            lits.append((sp.term(i[1], subj, sp.const(i[2])), v))
    for a, v, i in derived:
        if i[1] in ("ge", "gt") and i[0].op == "call" and \
                i[0].args[0].op == "builtin":
            lits.append((sp.term(i[1], subj, sp.const(i[2])), v))
            continue
        if v and i[1] in ("contains", "startswith", "endswith", "eq",
                          "rematch", "research"):
            if i[1] == "eq" and not isinstance(i[2], str):
                continue
            kind = "contains" if i[1] == "eq" else i[1]
            lits.append((sp.term(kind, subj, sp.const(i[2])), True))
    if not lits:
        return "sat", None, None
    st, vals, _ = witness(lits)
    if st != "sat":
        return st, None, None
    v = list(vals.values())[0]
    # a missing identifier is an empty string
    if v is None and not any(
            atom_info(a)[1] == "isnone" and val for a, val in direct):
        v = ""
    return st, v, None


def compare(sp, ref, cur, classify, differs, max_paths=4000,
            overlap=True, defer=None):
    """-> (list of Diff, undecided count)"""
    if ref is cur:
        return [], 0
    SAME = sp.term("same")
    UNK = sp.term("unk")

    def pair(a, b):
        if a is b:
            return SAME
        ca, cb = classify(a), classify(b)
        if ca is None or cb is None:
            return UNK
        return sp.term("diff", a, b) if differs(ca, cb) else SAME
    d = sp.map(pair, ref, cur, tag=("cmp2", classify.__name__))
    if d is SAME:
        return [], 0
    # prune: only walk towards diff leaves
    reach = {}

    def has(v):
        if v.uid in reach:
            return reach[v.uid]
        r = (has(v.hi) or has(v.lo)) if isinstance(v, Ite) else \
            v.op == "diff"
        reach[v.uid] = r
        return r
    out, undecided, n = [], 0, 0
    if not has(d):
        return [], 1 if d is UNK or isinstance(d, Ite) else 0
    stack = [(d, ())]
    seenclass = set()
    while stack:
        v, path = stack.pop()
        if isinstance(v, Ite):
            if has(v.hi):
                stack.append((v.hi, path + ((v.atom, True),)))
            if has(v.lo):
                stack.append((v.lo, path + ((v.atom, False),)))
            continue
        n += 1
        if n > max_paths:
            undecided += 1
            break
        ca, cb = classify(v.args[0]), classify(v.args[1])
        key = repr((ca, cb))
        if key in seenclass:
            continue
        st, _, _ = witness(path)
        if st == "unsat":
            continue
        r = confirm(ref, cur, path, classify, differs, overlap, defer)
        if r is None:
            undecided += 1
            continue
        if r is False:
            continue
        seenclass.add(key)
        out.append(r)
        if len(out) >= 5:
            break
    return out, undecided


def outcome(v, values, classify):
    """the outcome class for these inputs; tests that cannot be evaluated are
    followed both ways, and the outcome is known only if it does not depend
    on them"""
    c = Conc(Env(values))
    memo = {}

    def go(x):
        if x.uid in memo:
            return memo[x.uid]
        if isinstance(x, Ite):
            try:
                r = go(x.hi if c.atom(x.atom) else x.lo)
            except Unknown:
                r = go(x.hi) | go(x.lo)
        else:
            r = frozenset([repr(x.uid)])
            leaves[repr(x.uid)] = x
        memo[x.uid] = r
        return r
    leaves = {}
    classes = []
    for k in go(v):
        k = classify(leaves[k])
        if k not in classes:
            classes.append(k)
    if len(classes) != 1:
        raise Unknown("depends on values that cannot be evaluated")
    return classes[0]


def confirm(ref, cur, path, classify, differs, overlap=True, defer=None):
    try:
        w = assignment(path)
    except Exception:
        return None
    try:
        a, b = outcome(ref, w, classify), outcome(cur, w, classify)
    except Unknown:
        return None
    if a is None or b is None:
        return None
    if not differs(a, b):
        return None
    if defer is not None and defer(w):
        return False
    # overlap of two independent special cases, merely consulted in another
    # order: both outcomes are agreed upon for smaller inputs
    pos = [l for l in path if l[1]]
    agreed = []
    lim = 0
    base = [l for l in path if not l[1]]
    for r in range(len(pos), -1, -1) if overlap else ():
        for sub in itertools.combinations(pos, r):
            lim += 1
            if lim > 600:
                break
            try:
                w2 = assignment(sub)
                x = outcome(ref, w2, classify)
                y = outcome(cur, w2, classify)
            except Unknown:
                continue
            if x is not None and y is not None and not differs(x, y):
                if x not in agreed:
                    agreed.append(x)
    nontriv = [x for x in agreed if x not in (("no",), ("none",))]
    if any(not differs(x, a) for x in nontriv) and any(
            not differs(x, b) for x in nontriv) and a[0] not in (
                "no", "none") and b[0] not in ("no", "none"):
        return False
    # minimise the example
    lits = list(pos)
    for l in list(lits):
        t = [x for x in lits if x is not l]
        try:
            w2 = assignment(t)
            x, y = outcome(ref, w2, classify), outcome(cur, w2, classify)
        except Unknown:
            continue
        if x is not None and y is not None and differs(x, y) and not (
                defer is not None and defer(w2)):
            lits, w, a, b = t, w2, x, y
    return Diff(w, a, b, path)


def describe_key(k):
    if k[0] == "id":
        return str(k[1])
    if k[0] == "param":
        return k[1]
    if k[0] == "block":
        return f"{describe_key(k[1])}[{k[2]!r}]"
    return ".".join(map(str, k))


def describe(w):
    return ", ".join(f"{describe_key(k)}={v!r}" for k, v in sorted(
        w.items(), key=repr)) or "all identifiers missing"


def describe_class(c):
    if c[0] == "no":
        return "not special"
    if c[0] == "none":
        return "no special result"
    if c[0] == "yes":
        return "special" + (f" ({_dc(c[1])})" if c[1] is not None else "")
    if c[0] in ("handler", "reader"):
        return f"{c[1]}"
    return repr(c)


def _dc(c):
    if c is None:
        return "?"
    if c[0] == "c":
        return repr(c[1])
    return "[" + ", ".join(_dc(x) for x in c[1]) + "]"
