PROP = "C21"
NEEDS = "a binary table with an IBM_REAL column that is not its first column"
BREAKS = "IBM reals stay the integers they were read as"
EDITS = [("pdr/pd_utils.py", '''    if not fmtdef['DATA_TYPE'].str.contains('IBM').any():
''', '''    if "IBM" not in fmtdef['DATA_TYPE'].iloc[0]:
''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("a", ">i2"), ("b", "V4")]))
a["a"] = [1, 2, 3]
a["b"] = np.frombuffer(bytes.fromhex("41100000c276a00041200000"), "V4")
(TMP / "t.dat").write_bytes(a.tobytes())
f = lbl("t.lbl", """^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 6
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = IBM_REAL
  START_BYTE = 3
  BYTES = 4
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(list(t.B) == [1.0, -118.625, 2.0], t)
'''
