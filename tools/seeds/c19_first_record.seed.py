PROP = "C19"
NEEDS = "a table with a column that has an OFFSET but no SCALING_FACTOR, next to one that has one"
BREAKS = "the OFFSET of the column without a scale is not applied"
EDITS = [("pdr/loaders/table.py", '''            if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
''', '''            if "SCALING_FACTOR" in record and pd.isnull(record["SCALING_FACTOR"]):
                continue
            if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("a", ">i2"), ("b", ">i2")]))
a["a"] = [1, 2, 3]; a["b"] = [4, 5, 6]
(TMP / "t.dat").write_bytes(a.tobytes())
f = lbl("t.lbl", """^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 4
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 2
  SCALING_FACTOR = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 3
  BYTES = 2
  OFFSET = 10
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(list(t.A) == [2, 4, 6] and list(t.B) == [14, 15, 16], t)
'''
