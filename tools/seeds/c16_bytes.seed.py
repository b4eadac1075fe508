PROP = "C16"
NEEDS = "a compressed ASCII table whose extent the label gives in bytes"
BREAKS = "the table's bytes are taken from the compressed file"
EDITS = [("pdr/loaders/table.py", """            bytesbuf = head_file(
                f, nbytes""", """            bytesbuf = head_file(
                fn, nbytes""")]
DEMO = '''
from mini import *
import gzip, pdr
(TMP / "t.tab.gz").write_bytes(gzip.compress(b"AAAA,1\\r\\nBBBB,2\\r\\n"))
path = lbl("t.lbl", """^TABLE = "t.tab"
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 COLUMNS = 2
 ROW_BYTES = 8
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = CHARACTER
  START_BYTE = 1
  BYTES = 4
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 6
  BYTES = 1
 END_OBJECT = COLUMN
END_OBJECT = TABLE""")
d = pdr.read(path)
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d.load("TABLE")
check("TABLE" in d.keys() and d.TABLE is not None
      and d.TABLE["A"].tolist() == ["AAAA", "BBBB"]
      and d.TABLE["B"].tolist() == [1, 2],
      "the table in a .gz file is not the table that was compressed")
'''
