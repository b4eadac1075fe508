PROP = "C19"
NEEDS = "a fixed-width text or binary table with unused bytes at the end of its rows"
BREAKS = "the pad bytes come out as a column"
EDITS = [("pdr/loaders/table.py", '''        [k for k in table.keys() if "PLACEHOLDER" in k], axis=1
''', '''        [k for k in table.keys()[:-1] if "PLACEHOLDER" in k], axis=1
''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("a", ">i2"), ("b", ">i2"), ("p", "V2")]))
a["a"] = [1, 2, 3]; a["b"] = [4, 5, 6]
(TMP / "t.dat").write_bytes(a.tobytes())
f = lbl("t.lbl", """^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 6
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 3
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(list(t.columns) == ["A", "B"], t)
'''
