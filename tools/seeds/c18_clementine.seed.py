PROP = "C18"
NEEDS = "a Clementine bistatic radar table, read with the special case that doubles its columns"
BREAKS = "the doubled columns are numbered by an index that starts again for the second half, so that two columns share each name"
EDITS = [("pdr/formats/clementine.py", "pd.concat([fmtdef, fmtdef], ignore_index=True)", "pd.concat([fmtdef, fmtdef])")]
DEMO = r'''
from mini import *
import pdr, pdr.loaders.queries as q
import pandas as pd
from pdr.formats import clementine
from pdr.parselabel.pds3 import parse_pvl
text = ("OBJECT = TABLE\nROWS = 1\nROW_BYTES = 64\nCOLUMNS = 4\n"
        "INTERCHANGE_FORMAT = BINARY\n")
for i in range(4):
    text += (f"OBJECT = COLUMN\nNAME = POWER_{'ABCD'[i]}\n"
             f"DATA_TYPE = PC_REAL\nSTART_BYTE = {1 + 8 * i}\nBYTES = 8\n"
             "ITEM_BYTES = 8\nITEM_OFFSET = 8\nITEMS = 1\n"
             "END_OBJECT = COLUMN\n")
m, _ = parse_pvl(text + "END_OBJECT = TABLE\nEND\n")
class D:
    file_mapping = {}
    def metaget_(self, *a, **k): return None
    metaget = metaget_
from pdr.pdrtypes import DataIdentifiers
from typing import get_type_hints
ids = {k: "" for k in get_type_hints(DataIdentifiers)}
try:
    fmtdef, dt = clementine.get_structure(m["TABLE"], "TABLE", "x", D(), ids)
    names = list(fmtdef["NAME"])
    ok = len(names) == 8 and len(set(names)) == 8
except Exception as e:
    names, ok = repr(e), False
check(ok, names)
'''
