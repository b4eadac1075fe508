"""C24: using the library leaves process-wide state alone.

Every reference the package makes to a library function that changes a
process-wide setting, and every write to something that belongs to another
library, is judged by the scope around it: `with` blocks that restore the
setting, `finally` clauses that put the old one back, and the same around
every call of the function it stands in."""
from __future__ import annotations

import ast
import re

from ..callgraph import CallGraph
from ..effects import Refs, call_of, owner, where
from ..program import own_walk

# settings that a scope may change and restore: setter -> its managers
SCOPED = {
    "warnings.filterwarnings": ("warnings.catch_warnings",),
    "warnings.simplefilter": ("warnings.catch_warnings",),
    "warnings.resetwarnings": ("warnings.catch_warnings",),
    "numpy.seterr": ("numpy.errstate",),
    "numpy.seterrcall": ("numpy.errstate",),
    "numpy.set_printoptions": ("numpy.printoptions",),
    "pandas.set_option": ("pandas.option_context",),
    "pandas.reset_option": ("pandas.option_context",),
    "decimal.setcontext": ("decimal.localcontext",),
    "logging.setLoggerClass": (),
}
FILTERS = ("warnings.filters", "warnings.showwarning",
           "warnings.formatwarning", "warnings.onceregistry",
           "warnings.defaultaction")
# settings that are not to be touched at all
NEVER = re.compile(r"""
    os\.(chdir|fchdir|chroot|umask|putenv|unsetenv|nice|set\w+|sched_\w+)
  | contextlib\.chdir
  | sys\.(set\w+|excepthook|displayhook)
  | locale\.(setlocale|resetlocale|bindtextdomain|textdomain)
  | gc\.(disable|enable|freeze|unfreeze|set_\w+)
  | signal\.(signal|alarm|setitimer|set_\w+|siginterrupt|pthread_sigmask)
  | resource\.setrlimit
  | threading\.(settrace|setprofile|stack_size|settrace_all_threads)
  | time\.tzset
  | socket\.setdefaulttimeout
  | faulthandler\.\w+
  | logging\.(basicConfig|disable|captureWarnings|addLevelName
      |setLogRecordFactory|config\.\w+|shutdown)
  | multiprocessing\.set_\w+
  | asyncio\.set_\w+
  | atexit\.register
  | codecs\.(register|register_error|unregister)
  | copyreg\.\w+
  | mimetypes\.(add_type|init)
  | linecache\.clearcache
  | urllib\.request\.install_opener
  | xml\.etree\.ElementTree\.register_namespace
  | numpy\.(setbufsize|set_string_function|set_numeric_ops)
  | pandas\.(set_eng_float_format|options\.\w+|describe_option\b
      |plotting\.\w*register\w*|api\.extensions\.register_\w+)
  | matplotlib\.(use|rc|rcdefaults|rc_file\w*|interactive|style\.use)
  | matplotlib\.pyplot\.(switch_backend|ion|ioff|rc|style\.use|rcdefaults)
  | PIL\.Image\.register_\w+
  | random\.(seed|setstate|random|rand\w+|shuffle|choice\w*|sample|uniform
      |gauss|\w+variate|triangular|getrandbits|binomialvariate)
  | numpy\.random\.(?!default_rng$|Generator$|RandomState$|SeedSequence$
      |PCG64|MT19937|Philox|SFC64|BitGenerator)[a-z]\w*
""", re.X)
NEVER_OK = re.compile(r"pandas\.(options\.\w+|describe_option)$")
# what belongs to the whole process although it is reached by a call
GETTERS = {"decimal.getcontext", "logging.getLogger", "locale.localeconv",
           "sys.getdefaultencoding", "gc.get_objects"}
# what a method call changes although no name is written
HELD = re.compile(r"""(
    sys\.(path|modules|meta_path|path_hooks|path_importer_cache|warnoptions
      |argv)
  | os\.environb? | warnings\.filters
  | matplotlib(\.pyplot)?\.rcParams(Default)?
  | mimetypes\.\w+ | PIL\.Image\.[A-Z_]+ | logging\.root
  | pandas\.options(\.\w+)* | builtins\.__dict__
  | xml\.etree\.ElementTree\._namespace_map
  | random\._inst | numpy\.random\.mtrand\._rand )$""", re.X)
STREAMS = re.compile(r"sys\.(__)?std(in|out|err)(__)?$")
CHANGES = {"append", "extend", "insert", "remove", "pop", "clear", "update",
           "setdefault", "popitem", "sort", "reverse", "add", "discard",
           "__setitem__", "__delitem__", "__setattr__", "setLevel",
           "addHandler", "removeHandler", "addFilter"}
LOGGERS = {"setLevel", "addHandler", "removeHandler", "addFilter"}
LIMIT = "PIL.Image.MAX_IMAGE_PIXELS"
TRUNCATED = "PIL.ImageFile.LOAD_TRUNCATED_IMAGES"
CAMERA = "pdr.formats.msl_edr"
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def check(ctx, rep, tier):
    rep.rule("C24.scoped", "warning filters, numeric error modes and print "
             "options are changed only where a scope restores them")
    rep.rule("C24.never", "no reference to functions that set the working "
             "directory, environment, random state, locale, hooks, or other "
             "process-wide settings")
    rep.rule("C24.write", "no write to attributes or items of other "
             "libraries' objects, but for the image size limit, and for the "
             "truncated-file check where the MSL reader opens its images")
    rep.rule("C24.suspend", "no generator is suspended inside a scope that "
             "changes a process-wide setting")
    rep.assume("library functions not in the tables of this rule leave "
               "process-wide settings alone")
    Check(ctx, rep).run()


class OwnRefs(Refs):
    """the PDS4 reader counts, but not the compatibility libraries it
    carries: they register their own modules when they are imported"""

    def scopes(self):
        for f, m, n in super().scopes():
            if not m.name.startswith("pdr.pds4_tools.extern"):
                yield f, m, n


class Check:
    def __init__(self, ctx, rep):
        self.prog, self.rep = ctx.prog, rep
        self.refs = OwnRefs(ctx.prog, vendored=True)
        self.cg = CallGraph(ctx.prog)
        self.aliases = {}
        self.found = {}

    def note(self, rule, what, func, module, node, msg):
        key = f"{owner(func, module)}|{what}"
        self.found.setdefault((rule, key), (where(func, module, node), msg))

    def run(self):
        for d, n, func, module in self.refs:
            self.rep.count("references to other libraries")
            d = canonical(d)
            if d in SCOPED:
                self.rep.count("settings changed")
                self.rep.sample(f"{where(func, module, n)} {d}")
                if not self.restored(n, func, module, SCOPED[d]):
                    self.note("C24.scoped", d, func, module, n,
                              f"{owner(func, module)} changes {d} where "
                              "nothing restores it")
            elif NEVER.fullmatch(d) and not NEVER_OK.fullmatch(d) and \
                    not isinstance(getattr(n, "ctx", None), (
                        ast.Store, ast.Del)) and isinstance(
                            call_of(n) or parent(n), (
                                ast.Call, ast.Assign, ast.keyword)):
                self.note("C24.never", d, func, module, n,
                          f"{owner(func, module)} uses {d}")
        for func, module, node in self.refs.scopes():
            for n in own_walk(node):
                self.statement(n, func, module)
            if func is not None:
                self.rep.count("functions")
                self.suspended(func, module)
        for (rule, key), (w, msg) in sorted(self.found.items()):
            self.rep.find(rule, key, w, msg)

    # ---------------------------------------------------------- writes
    def statement(self, n, func, module):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self.target(t, n.value, func, module)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if n.value is not None:
                self.target(n.target, n.value, func, module)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.target(t, None, func, module)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.target(n.target, None, func, module)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    self.target(i.optional_vars, None, func, module)
        elif isinstance(n, ast.Call):
            self.call(n, func, module)

    def target(self, t, value, func, module):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.target(x, v, func, module)
            return
        if isinstance(t, ast.Starred):
            return self.target(t.value, None, func, module)
        if isinstance(t, ast.Attribute):
            d = self.foreign(t.value, func, module)
            if d:
                self.write(f"{d}.{t.attr}", value, t, func, module)
        elif isinstance(t, ast.Subscript):
            d = self.foreign(t.value, func, module)
            if d:
                self.write(f"{d}[]", value, t, func, module)

    def call(self, n, func, module):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("setattr", "delattr") and \
                n.args and self.refs.dotted(f, module, func) == \
                f"builtins.{f.id}":
            d = self.foreign(n.args[0], func, module)
            if d:
                a = n.args[1] if len(n.args) > 1 else None
                k = a.value if isinstance(a, ast.Constant) else "?"
                self.write(f"{d}.{k}", n.args[2] if len(n.args) > 2 else
                           None, n, func, module)
            return
        if not isinstance(f, ast.Attribute):
            return
        if f.attr in CHANGES:
            d = self.foreign(f.value, func, module)
            if d and f.attr == "__setattr__":
                self.write(f"{d}.?", None, n, func, module)
            elif d and (HELD.match(d) or d.endswith("()")
                        and (f.attr not in LOGGERS
                             or self.root_logger(f.value, func, module))):
                self.write(f"{d}.{f.attr}()", None, n, func, module)
        elif f.attr in ("close", "reconfigure", "detach"):
            d = self.foreign(f.value, func, module)
            if d and STREAMS.match(d):
                self.write(f"{d}.{f.attr}()", None, n, func, module)
        elif f.attr == "__enter__" and isinstance(f.value, ast.Call):
            d = self.foreign(f.value.func, func, module)
            if d and any(d in m for m in SCOPED.values()):
                self.note("C24.scoped", d, func, module, n,
                          f"{owner(func, module)} enters {d} by hand")

    def root_logger(self, e, func, module):
        return not (isinstance(e, ast.Call) and e.args)

    def write(self, d, value, n, func, module):
        self.rep.count("writes to other libraries")
        d = canonical(d)
        self.rep.sample(f"{where(func, module, n)} {d}")
        if d == LIMIT and (value is None or self.is_none(
                value, func, module)):
            return
        if d == TRUNCATED and self.camera(func):
            return
        base = re.sub(r"(\[\]|\.\w+\(\))$", "", d)
        if not base.startswith("os.environ") and self.put_back(
                n, base, func, module):
            return
        if d.startswith(FILTERS) and self.restored(
                n, func, module, ("warnings.catch_warnings",)):
            return
        if d.startswith(("numpy", "decimal")) and self.restored(
                n, func, module, ("decimal.localcontext",)):
            return
        self.note("C24.write", d, func, module, n,
                  f"{owner(func, module)} writes {d}")

    def is_none(self, v, func, module):
        if isinstance(v, ast.Constant):
            return v.value is None
        if isinstance(v, ast.IfExp):
            return self.is_none(v.body, func, module) or self.is_none(
                v.orelse, func, module)
        if isinstance(v, (ast.BinOp, ast.UnaryOp)):
            return False
        return True         # a value, which this rule does not judge

    def camera(self, func, seen=frozenset()):
        """is this code only run for the MSL camera's own files?"""
        if func is None or func in seen:
            return False
        if func.module.name == CAMERA:
            for g in self.cg.reach([func]) if hasattr(
                    self.cg, "reach") else [func]:
                g = self.prog.funcs.get(g, g) if isinstance(g, str) else g
                if getattr(g, "node", None) is not None and any(
                        canonical(self.refs.dotted(x, g.module, g) or "")
                        == "PIL.Image.open" for x in ast.walk(g.node)
                        if isinstance(x, (ast.Attribute, ast.Name))):
                    return True
            return any(self.camera(s.caller, seen | {func}) for s in
                       self.sites(func))
        cs = self.sites(func)
        return bool(cs) and all(self.camera(s.caller, seen | {func})
                                for s in cs)

    def sites(self, func):
        return [s for s in self.cg.sites if s.target[0] == "func"
                and s.target[1] is func]

    # -------------------------------------------------- who is written
    def foreign(self, e, func, module, depth=0):
        """the dotted name of what e stands for, where that belongs to
        another library"""
        if depth > 8:
            return None
        d = self.refs.dotted(e, module, func)
        if d:
            return canonical(d)
        if isinstance(e, ast.Attribute):
            b = self.foreign(e.value, func, module, depth + 1)
            if b is None:
                return None
            if e.attr == "__dict__":
                return b
            return f"{b}.{e.attr}"
        if isinstance(e, ast.Name):
            v = self.alias(e.id, func, module)
            return self.foreign(v, func, module, depth + 1) if v is not \
                None else None
        if isinstance(e, ast.Subscript):
            b = self.foreign(e.value, func, module, depth + 1)
            if b == "sys.modules":
                k = e.slice
                if isinstance(k, ast.Constant) and isinstance(
                        k.value, str):
                    own = k.value.split(".")[0] == \
                        self.prog.package if hasattr(
                            self.prog, "package") else \
                        k.value.startswith("pdr")
                    return None if own else k.value
                return None
            return f"{b}[]" if b else None
        if isinstance(e, ast.Call):
            b = self.foreign(e.func, func, module, depth + 1)
            if b in GETTERS:
                if b == "logging.getLogger" and e.args:
                    return None     # a logger of one's own
                return f"{b}()"
            if b in ("importlib.import_module", "builtins.__import__") and \
                    e.args and isinstance(e.args[0], ast.Constant):
                return str(e.args[0].value)
            if b == "builtins.vars" and e.args:
                return self.foreign(e.args[0], func, module, depth + 1)
            if b == "builtins.getattr" and len(e.args) > 1 and isinstance(
                    e.args[1], ast.Constant):
                x = self.foreign(e.args[0], func, module, depth + 1)
                return f"{x}.{e.args[1].value}" if x else None
        return None

    def alias(self, name, func, module):
        """the expression a name is only ever bound to"""
        f = func
        while f is not None:
            k = (f.qual, name)
            if k not in self.aliases:
                self.aliases[k] = self.bindings(name, f.node)
            vs, bound = self.aliases[k]
            if bound or name in f.all_param_names():
                return vs[0] if len(vs) == 1 and name not in \
                    f.all_param_names() else None
            f = f.parent
        k = (module.name, name)
        if k not in self.aliases:
            self.aliases[k] = self.bindings(name, module.tree)
        vs, _ = self.aliases[k]
        return vs[0] if len(vs) == 1 else None

    @staticmethod
    def bindings(name, node):
        vs, bound = [], 0
        for n in own_walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vs.append(n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and \
                    isinstance(n.target, ast.Name) and n.target.id == name \
                    and n.value is not None:
                vs.append(n.value)
            if isinstance(n, ast.Name) and n.id == name and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                bound += 1
        return (vs, bound) if len(vs) == bound else ([], bound)

    # ------------------------------------------------------- restored?
    def restored(self, n, func, module, managers, seen=frozenset()):
        if self.local_scope(n, func, module, managers):
            return True
        if managers[:1] == ("warnings.catch_warnings",) and self.put_back(
                n, "warnings.filters", func, module):
            return True
        # a function that is only ever called inside such a scope
        if func is None or func.qual in seen or len(seen) > 6:
            return False
        if self.is_manager(func, managers):
            return True
        cs = self.sites(func)
        return bool(cs) and all(
            s.kind == "call" and self.restored(
                s.node, s.caller, s.module, managers, seen | {func.qual})
            for s in cs)

    def local_scope(self, n, func, module, managers):
        prev, x = n, parent(n)
        while x is not None:
            if isinstance(x, (ast.With, ast.AsyncWith)):
                items = x.items
                if prev in x.items:
                    items = x.items[:x.items.index(prev)]
                for i in items:
                    if self.manager_expr(i.context_expr, func, module,
                                         managers):
                        return True
                    if isinstance(i.optional_vars, ast.Name) and self.stack(
                            i.context_expr, i.optional_vars.id, x, n, func,
                            module, managers):
                        return True
            if isinstance(x, ast.Try) and prev in x.finalbody and \
                    self.gives_back(n):
                return True
            if isinstance(x, ast.Try) and prev in x.body and any(
                    isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Attribute) and c.func.attr == "__exit__"
                    and self.manager_expr(c.func.value, func, module,
                                          managers)
                    for s in x.finalbody for c in ast.walk(s)):
                return True
            if isinstance(x, ast.Try) and prev in x.body and any(
                    self.restores(s, n, func, module) for s in x.finalbody):
                return True
            if isinstance(prev, ast.stmt):
                for name in ("body", "orelse", "finalbody"):
                    blk = getattr(x, name, None)
                    if isinstance(blk, list) and prev in blk:
                        for s in blk[blk.index(prev) + 1:]:
                            if isinstance(s, ast.Try) and any(
                                    self.restores(q, n, func, module)
                                    for q in s.finalbody):
                                return True
                            if not managers and self.restores(
                                    s, n, func, module):
                                return True
                        if not managers and self.gives_back(n) and any(
                                self.restores(s, n, func, module)
                                for s in blk[:blk.index(prev)]):
                            return True
            if isinstance(x, FUNCS + (ast.ClassDef,)):
                # decorated with the manager itself
                return any(self.manager_expr(d, func, module, managers)
                           for d in getattr(x, "decorator_list", ()))
            prev, x = x, parent(x)
        return False

    def put_back(self, n, base, func, module, seen=frozenset()):
        """is the thing written given its old content in a `finally`?"""
        x, prev = parent(n), n
        while x is not None and not isinstance(x, FUNCS):
            if isinstance(x, ast.Try) and (
                    prev in x.finalbody or prev in x.body) and any(
                        self.refills(s, base, func, module)
                        for s in x.finalbody):
                return True
            prev, x = x, parent(x)
        if func is None or func.qual in seen:
            return False
        cs = self.sites(func)
        return bool(cs) and all(
            s.kind == "call" and self.put_back(
                s.node, base, s.caller, s.module, seen | {func.qual})
            for s in cs)

    def refills(self, s, base, func, module):
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        "update", "extend") and x.args and isinstance(
                            x.args[0], (ast.Name, ast.Attribute)) and \
                    self.foreign(x.func.value, func, module) == base:
                return True
            if isinstance(x, ast.Assign) and isinstance(
                    x.value, (ast.Name, ast.Attribute)):
                for t in x.targets:
                    if isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Attribute):
                        b = self.foreign(t.value, func, module)
                        if b and canonical(f"{b}.{t.attr}") == base:
                            return True
        return False

    def gives_back(self, n):
        """is the setter given a value that was kept?"""
        c = call_of(n)
        if c is not None:
            return any(isinstance(a, (ast.Name, ast.Starred, ast.Attribute))
                       for a in c.args) or any(
                k.arg is None or isinstance(k.value, (ast.Name,
                                                      ast.Subscript))
                for k in c.keywords)
        return False

    def restores(self, s, n, func, module):
        """does statement s call the same setter with a kept value, or
        write the same thing?"""
        d = self.foreign(n, func, module)
        for x in ast.walk(s):
            if isinstance(x, (ast.Attribute, ast.Name)) and x is not n and \
                    d is not None and self.foreign(x, func, module) == d \
                    and self.gives_back(x):
                return True
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                    getattr(x, "ctx", None), ast.Store) and isinstance(
                        n, (ast.Attribute, ast.Subscript)) and ast.dump(
                            x) == ast.dump(n):
                return True
        return False

    def manager_expr(self, e, func, module, managers):
        if isinstance(e, ast.Name):
            v = self.alias(e.id, func, module)
            return v is not None and self.manager_expr(
                v, func, module, managers)
        if not isinstance(e, ast.Call):
            return False
        d = self.foreign(e.func, func, module)
        if d in managers:
            return True
        r = self.prog.resolve_expr_static(e.func, module, func)
        if r and r[0] == "func":
            if self.is_manager(r[1], managers):
                return True
            # a helper that returns the manager
            return any(isinstance(x, ast.Return) and isinstance(
                x.value, ast.Call) and self.manager_expr(
                    x.value, r[1], r[1].module, managers)
                for x in own_walk(r[1].node) if getattr(
                    x, "value", None) is not e)
        return False

    def is_manager(self, f, managers):
        """a context manager of the package's own, which yields inside one
        of these"""
        if not contextmanager(f):
            return False
        ys = [y for y in own_walk(f.node) if isinstance(
            y, (ast.Yield, ast.YieldFrom))]
        return bool(ys) and all(self.local_scope(
            y, f, f.module, managers) for y in ys)

    def stack(self, e, name, w, n, func, module, managers):
        if not (isinstance(e, ast.Call) and str(self.foreign(
                e.func, func, module)).endswith("ExitStack")):
            return False
        return any(
            isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
            and c.func.attr == "enter_context" and isinstance(
                c.func.value, ast.Name) and c.func.value.id == name
            and c.args and self.manager_expr(c.args[0], func, module,
                                             managers)
            for c in ast.walk(w))

    # ------------------------------------------------------- suspended
    def suspended(self, func, module):
        if contextmanager(func):
            return
        for y in own_walk(func.node):
            if not isinstance(y, (ast.Yield, ast.YieldFrom)):
                continue
            self.rep.count("yields")
            for ms in {m for m in SCOPED.values() if m}:
                if self.local_scope(y, func, module, ms):
                    self.note("C24.suspend", ms[0], func, module, y,
                              f"{func.qual} is suspended inside {ms[0]}")


def contextmanager(f):
    return any("contextmanager" in ast.dump(d) for d in f.decorators)


def canonical(d):
    for a, b in (("numpy.core.", "numpy."), ("matplotlib.pyplot.rcParams",
                                             "matplotlib.rcParams"),
                 ("numpy.random.mtrand.", "numpy.random."),
                 ("pandas._config.", "pandas."),
                 ("builtins.os.", "os.")):
        if d.startswith(a):
            d = b + d[len(a):]
    return d


def parent(n):
    return getattr(n, "_parent", None)
