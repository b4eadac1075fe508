"""C01: opening a product reads only metadata, never its data objects."""
from __future__ import annotations

import ast

from ..domains import DATA, inst
from ..effects import FITS, IMAGE, PDS4, Effects, KINDS, Refs, owner, run, \
    short, where
from ..flow import AV, Interp

LOADS = {"load", "load_all", "load_from_pointer", "_load_pds4",
         "_load_primary_fits", "__getitem__", "__iter__", "get_scaled",
         "show", "dump_browse", "find_special_constants"}
READERS = ("pdr.loaders.image", "pdr.loaders.table", "pdr._scaling",
           "pdr.browsify", "pdr.np_utils", "pdr.pd_utils",
           "pdr.bit_handling", "pdr.loaders.text")
READ_FUNCS = {"pdr.loaders.handlers.handle_fits_file",
              "pdr.loaders.handlers.handle_compressed_image",
              "pdr.loaders.handlers._convert_fits_table_to_df"}
DECODE = {
    "numpy.fromfile", "numpy.frombuffer", "numpy.memmap", "numpy.loadtxt",
    "numpy.genfromtxt", "numpy.load", "numpy.fromstring", "numpy.rec.fromfile",
    "numpy.fromregex", "numpy.lib.format.open_memmap",
    "astropy.io.fits.getdata", "astropy.table.Table.read", "numpy.core.records.fromfile",
}
PIL_DECODE = {"load", "getdata", "tobytes", "convert", "resize", "getpixel",
              "histogram", "split", "crop", "copy", "rotate", "transpose",
              "quantize", "getextrema", "getcolors", "thumbnail", "point",
              "filter", "save", "show", "getprojection", "reduce", "entropy",
              "get_flattened_data", "__array_interface__", "toqimage",
              "putpalette", "remap_palette", "getbbox"}
TO_ARRAY = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray",
            "numpy.asanyarray", "numpy.asfortranarray", "numpy.stack",
            "numpy.copy"}
FITS_DATA = {"data", "section", "raw_data"}
PDS4_DATA = {"data", "as_masked", "to_dataframe"}


def check(ctx, rep, tier):
    rep.rule("C01.decode", "nothing reachable from constructing a product "
             "(PDS3, PDS4, FITS or desktop image) calls a reader, loads an "
             "indexed object or touches the decoding operations of the "
             "array, table, FITS, imaging or PDS4 libraries")
    rep.rule("C01.lazy", "every PDS4 read is lazy and unscaled")
    rep.rule("C01.import", "importing a module constructs and loads nothing")
    prog = ctx.prog
    data = prog.classes.get(DATA)
    if data is None or "__init__" not in data.methods:
        rep.undecide("no Data constructor found")
        return
    names = set(data.methods)
    for m in data.methods.values():
        slf = m.param_names()[0] if m.param_names() else None
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id == slf:
                names.add(n.attr)
    for n in data.node.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign)
                      else [n.target]):
                if isinstance(t, ast.Name):
                    names.add(t.id)
    state = {"pds4": 0, "attrs": 0}
    box = []

    def flag(node, caller, what, rule="C01.decode"):
        if caller is None:
            return
        chain = box[0].chain()
        rep.find(rule, f"{caller.qual}|{what}", f"{caller.file}:"
                 f"{getattr(node, 'lineno', 0)}",
                 f"{caller.qual}: {what} while the product is being opened",
                 ["call chain: " + " -> ".join(chain)])

    def see(op, name, recv, args, kwargs, node, caller):
        if op == "own":
            f = prog.funcs.get(name)
            if f is None:
                return None
            if f.name == "pds4_read" and f.vendored:
                state["pds4"] += 1
                for k in ("lazy_load", "no_scale"):
                    v = args.get(k)
                    if v is None or box[0].it.truth(v) is not True:
                        flag(node, caller, f"PDS4 labels are read with "
                             f"`{k}` off", "C01.lazy")
                return None
            if f.cls is not None and f.cls.qual == DATA:
                if f.name in LOADS:
                    s = args.get("name") or args.get("object_name")
                    s = s.strs() if s is not None else None
                    if s and s <= {"label"}:
                        return AV(unk=True)
                    flag(node, caller, f"an object is loaded through "
                         f"`{short(node)}`")
                    return AV(unk=True)
                return None
            if f.module.name in READERS or name in READ_FUNCS or (
                    f.cls is not None and f.name == "__call__"
                    and f.module.name == "pdr.loaders.datawrap"):
                if _reads(f, prog, ctx):
                    flag(node, caller, f"the reader `{f.name}` is called")
                    return AV(unk=True)
            return None
        if op == "ext":
            if name in DECODE or name.startswith("pandas.read_"):
                flag(node, caller, f"`{name}` is called")
            elif name in TO_ARRAY and args and args[0].insts & KINDS:
                flag(node, caller, f"`{name}` decodes an open product")
            elif name in ("builtins.getattr", "builtins.hasattr") and args:
                if DATA in args[0].insts and len(args) > 1:
                    s = args[1].strs()
                    if s is None and not args[1].is_bottom() or (
                            s and s - names - {"label"} - DUNDER):
                        flag(node, caller, f"`{short(node)}` may load an "
                             f"indexed object")
                k = args[0].insts & {FITS, PDS4}
                s = args[1].strs() if len(args) > 1 else None
                if k and s and s & (FITS_DATA | PDS4_DATA):
                    flag(node, caller, f"`{short(node)}` decodes data")
            return None
        if op == "method":
            if IMAGE in recv.insts and name in PIL_DECODE:
                flag(node, caller, f"`.{name}()` decodes the image")
            if FITS in recv.insts and name in ("readall", "copy", "writeto",
                                               "scale", "verify_datasum",
                                               "verify_checksum",
                                               "add_datasum"):
                flag(node, caller, f"`.{name}()` reads the FITS data")
            if PDS4 in recv.insts and name in ("as_masked", "as_array"):
                flag(node, caller, f"`.{name}()` decodes the PDS4 data")
            return None
        if op == "attr":
            txt = short(node)
            if FITS in recv.insts and name in FITS_DATA or \
                    PDS4 in recv.insts and name in PDS4_DATA:
                flag(node, caller, f"`{txt}` decodes data")
            if recv.insts == {DATA} and isinstance(
                    getattr(node, "ctx", None), ast.Load):
                state["attrs"] += 1
                if name not in names and name != "label" and not (
                        name.startswith("__")):
                    flag(node, caller, f"`{txt}` loads an indexed object")
            return None

    dom = Effects(see)
    box.append(dom)
    it = Interp(prog, dom)
    roots = [(data.methods["__init__"], {})]
    for q in ("pdr.read", "pdr.open", "pdr.fastread"):
        if q in prog.funcs:
            roots.append((prog.funcs[q], {}))
    # module and class level code that is run by importing
    it.run_roots(roots)
    rep.count("functions reachable from opening", len(it.entered))
    rep.count("operations examined", dom.ops)
    rep.count("PDS4 reads", state["pds4"])
    rep.count("attribute reads on the product", state["attrs"])
    rep.need("functions reachable from opening", 10)
    for q in sorted(it.entered)[:10]:
        rep.sample({"reached": q})
    # import time
    n = 0
    for m in prog.modules.values():
        if m.vendored or ".tests" in m.name:
            continue
        for node in _toplevel(m.tree):
            if not isinstance(node, ast.Call):
                continue
            n += 1
            r = prog.resolve_expr_static(node.func, m, None)
            q = None
            if r and r[0] == "class" and r[1].qual == DATA:
                q = "a product is opened"
            elif r and r[0] == "func" and (
                    r[1].qual in ("pdr.read", "pdr.fastread", "pdr.open")
                    or r[1].qual in READ_FUNCS):
                q = f"`{r[1].qual}` is called"
            elif r and r[0] == "ext" and (
                    r[1] in DECODE or r[1].startswith("pandas.read_")):
                q = f"`{r[1]}` is called"
            if q:
                rep.find("C01.import", f"{m.name}|{q}",
                         f"{m.relpath}:{node.lineno}",
                         f"{m.name}: {q} when the module is imported")
    rep.count("import-time calls", n)


DUNDER = {"__class__", "__dict__", "__len__"}


OPENERS = {"builtins.open", "PIL.Image.open", "astropy.io.fits.open",
           "io.open", "numpy.asarray", "numpy.ascontiguousarray"} | DECODE


def _reads(f, prog, ctx):
    """does this function of a reader module get at file contents?"""
    cg = ctx.cg
    memo = ctx.__dict__.setdefault("_c01", {})
    if f.qual not in memo:
        hit = False
        for q in cg.reach([f]):
            g = prog.funcs.get(q)
            if g is None:
                continue
            if g.name in ("decompress", "head_file", "read_label_text"):
                hit = True
            for s in cg.out(g):
                t = s.target
                if t[0] == "builtin" and t[1] == "open" or t[0] == "ext" and (
                        t[1] in OPENERS or t[1].startswith("pandas.read_")):
                    hit = True
            if hit:
                break
        memo[f.qual] = hit
    return memo[f.qual]


def _toplevel(tree):
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                todo += n.decorator_list
            continue
        if isinstance(n, ast.If) and "TYPE_CHECKING" in short(n.test):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))
