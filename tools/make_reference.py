"""Development-time: writes the committed tables of documented decisions from
the (reviewed) source.  Checks only ever read them."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pdrlint.report import Context, VERIF
from pdrlint.rules import tables
from pdrlint.rules.c10 import table_functions, inline_all
ctx = Context("/repo")
prog = ctx.prog
os.makedirs(os.path.join(VERIF, "reference"), exist_ok=True)
funcs = table_functions(prog)
handlers = sorted(q for q, f in prog.funcs.items()
                  if f.module.name.startswith("pdr.formats.")
                  and f.module.name != "pdr.formats.checkers"
                  and f.parent is None and f.cls is None)
functions = {q for q, f in prog.funcs.items() if not f.vendored
             and "<" not in q}
out = {"handlers": handlers, "tables": {}}
for f in funcs:
    e = tables.reference_entry(prog, f, inline_all(prog, functions), set(handlers))
    print(f.qual, {k: len(v) for k, v in e.items()})
    out["tables"][f.qual] = e
with open(os.path.join(VERIF, "reference", "c10.json"), "w") as fh:
    fh.write("{\n\"handlers\": " + json.dumps(handlers) + ",\n\"functions\": "
             + json.dumps(sorted(functions)) + ",\n\"tables\": {\n")
    fh.write(",\n".join(json.dumps(k) + ": " + json.dumps(v)
                        for k, v in sorted(out["tables"].items())))
    fh.write("\n}}\n")
from pdrlint.rules import c25
with open(os.path.join(VERIF, "reference", "c25.json"), "w") as fh:
    json.dump(c25.reference(prog), fh)
