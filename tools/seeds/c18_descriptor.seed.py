PROP = "C18"
NEEDS = "a label with repeated pointers whose name starts with DESC but is no DESCRIPTION"
BREAKS = "the objects keep their shared name while their pointers are told apart, so that no object is found by its pointer"
EDITS = [("pdr/parselabel/pds3.py", 'if "DESCRIPTION" not in pointer:', 'if "DESC" not in pointer:')]
DEMO = r'''
from mini import *
import pdr
t = ""
for i in range(2):
    (TMP / f"t{i}.tab").write_bytes(b"12345678" * (i + 1))
    t += f'^DESCRIPTOR_TABLE = "t{i}.tab"\n'
for i in range(2):
    t += (f"OBJECT = DESCRIPTOR_TABLE\nROWS = {i + 1}\nROW_BYTES = 8\n"
          "COLUMNS = 1\nINTERCHANGE_FORMAT = BINARY\nOBJECT = COLUMN\n"
          "NAME = X\nDATA_TYPE = MSB_UNSIGNED_INTEGER\nSTART_BYTE = 1\n"
          "BYTES = 4\nEND_OBJECT = COLUMN\nEND_OBJECT = DESCRIPTOR_TABLE\n")
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = pdr.read(lbl("p.lbl", t))
    got = []
    for i in range(2):
        b = d.metablock_(f"DESCRIPTOR_TABLE_{i}")
        got.append(b and b["ROWS"])
check(got == [1, 2], got)
'''
