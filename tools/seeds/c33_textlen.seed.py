PROP = "C33"
NEEDS = "a text table that several rows of which fit in one record of its file, with something else behind it"
BREAKS = "the table is taken to have as many records as rows, and swallows what follows it"
EDITS = [("pdr/loaders/queries.py", """            elif "ROW_BYTES" in block.keys():
                record_length = block["ROW_BYTES"]
""", """            elif (
                identifiers["RECORD_TYPE"] == "FIXED_LENGTH"
                and identifiers["RECORD_BYTES"] is not None
            ):
                record_length = identifiers["RECORD_BYTES"]
            elif "ROW_BYTES" in block.keys():
                record_length = block["ROW_BYTES"]
""")]
DEMO = '''
from mini import *
import pdr
body = b"".join(b"%3d,%4d\\r\\n" % (i, i * i) for i in range(6))
(TMP / "prod.tab").write_bytes(body + b"999,9999\\r\\n" * 10)
block = ("OBJECT = TABLE\\nROWS = 6\\nROW_BYTES = 10\\nCOLUMNS = 2\\n"
         "INTERCHANGE_FORMAT = ASCII\\nOBJECT = COLUMN\\nNAME = A\\n"
         "DATA_TYPE = ASCII_INTEGER\\nSTART_BYTE = 1\\nBYTES = 3\\n"
         "END_OBJECT = COLUMN\\nOBJECT = COLUMN\\nNAME = B\\n"
         "DATA_TYPE = ASCII_INTEGER\\nSTART_BYTE = 5\\nBYTES = 4\\n"
         "END_OBJECT = COLUMN\\nEND_OBJECT = TABLE\\n")
for size in (10, 20):
    p = lbl("prod.lbl", '^TABLE = ("prod.tab", 1)\\n' + block,
            head=f"RECORD_TYPE = FIXED_LENGTH\\nRECORD_BYTES = {size}\\n")
    with warnings.catch_warnings(record=True):
        got = pdr.read(p)["TABLE"]
    check(list(got["B"]) == [i * i for i in range(6)], f"table in records of {size}")
'''
