PROP = "C33"
NEEDS = "a fixed-length table of whose rows the label says how long they are, at a record of a file whose records are longer than a row"
BREAKS = "the table is placed by its rows rather than by the file's records"
EDITS = [("pdr/loaders/queries.py", """    if (block is not None) and ("RECORD_BYTES" in block.keys()):
        record_bytes = block["RECORD_BYTES"]
    else:
        record_bytes = identifiers["RECORD_BYTES"]
    start_byte = None
""", """    record_bytes = identifiers["RECORD_BYTES"]
    if block is not None:
        # records of an object may differ from those of the rest of the file
        for key in ("RECORD_BYTES", "ROW_BYTES"):
            if isinstance(block.get(key), int):
                record_bytes = block[key]
                break
    start_byte = None
""")]
DEMO = '''
from mini import *
import pdr
tab = np.arange(6, dtype=">i4")
(TMP / "prod.tab").write_bytes(b"h" * 20 + tab.tobytes() + b"yyyy")
block = ("OBJECT = TABLE\\nROWS = 6\\nROW_BYTES = 4\\nCOLUMNS = 1\\n"
         "INTERCHANGE_FORMAT = BINARY\\nOBJECT = COLUMN\\nNAME = A\\n"
         "DATA_TYPE = MSB_INTEGER\\nSTART_BYTE = 1\\nBYTES = 4\\n"
         "END_OBJECT = COLUMN\\nEND_OBJECT = TABLE\\n")
p = lbl("prod.lbl", '^TABLE = ("prod.tab", 3)\\n' + block,
        head="RECORD_TYPE = FIXED_LENGTH\\nRECORD_BYTES = 10\\n")
with warnings.catch_warnings(record=True):
    got = pdr.read(p)["TABLE"]
check(list(got["A"]) == list(range(6)), "table at record 3")
'''
