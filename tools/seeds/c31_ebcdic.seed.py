PROP = "C31"
NEEDS = "a binary table with an EBCDIC text column"
BREAKS = "EBCDIC columns are decoded and the decoded column is then thrown away, so they stay bytes"
EDITS = [("pdr/pd_utils.py", '''        series = pd.Series(table[col])
        table[col] = series.str.decode('cp500')
''', '''        series = pd.Series(table[col])
        series = series.str.decode('cp500')
''')]
DEMO = r'''
from mini import *
import pdr
rows = ["AB", "CD", "EF"]
(TMP / "t.dat").write_bytes(b"".join(r.encode("cp500") + b"\x01" for r in rows))
fn = lbl("t.lbl", '^TABLE = "t.dat"\n' + """OBJECT = TABLE
INTERCHANGE_FORMAT = BINARY
ROWS = 3
ROW_BYTES = 3
COLUMNS = 2
OBJECT = COLUMN
NAME = A
DATA_TYPE = EBCDIC_CHARACTER
START_BYTE = 1
BYTES = 2
END_OBJECT = COLUMN
OBJECT = COLUMN
NAME = B
DATA_TYPE = UNSIGNED_INTEGER
START_BYTE = 3
BYTES = 1
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
t = pdr.read(fn)["TABLE"]
check(list(t["A"]) == rows, t)
'''
