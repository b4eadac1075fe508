PROP = "C32"
NEEDS = "a table with a row prefix and a container"
BREAKS = "the prefix is counted twice for the fields of the container"
EDITS = [("pdr/pd_utils.py", '''        if "ROW_PREFIX_BYTES" in fmtdef.columns:
            fmtdef.loc[fmt_block.index, "SB_OFFSET"] -= fmtdef["ROW_PREFIX_BYTES"]
        count''', '''        count''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("p", "V4"), ("i", ">i2"), ("x", [("a", ">i2"), ("b", ">i2")], 2)]))
a["i"] = [7, 8, 9]; a["x"]["a"] = [1, 2]; a["x"]["b"] = [3, 4]
(TMP / "t.dat").write_bytes(a.tobytes())
f = lbl("t.lbl", """^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 10
 ROW_PREFIX_BYTES = 4
 OBJECT = COLUMN
  NAME = I
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = CONTAINER
  NAME = X
  START_BYTE = 3
  BYTES = 4
  REPETITIONS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 3
  BYTES = 2
 END_OBJECT = COLUMN
 END_OBJECT = CONTAINER
END_OBJECT = TABLE
""", head="PDS_VERSION_ID = PDS3\\nRECORD_TYPE = FIXED_LENGTH\\nRECORD_BYTES = 14\\nFILE_RECORDS = 3\\n")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(t.iloc[0].tolist() == [7, 1, 3, 2, 4], t)
'''
