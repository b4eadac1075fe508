PROP = "C21"
NEEDS = "a binary table with two bit-string columns, the second not divided like the first"
BREAKS = "the second bit string is divided at the first one's boundaries"
EDITS = [("pdr/bit_handling.py", '''            bit_size_list = fmtdef.bit_size_list[column]
''', '''            bit_size_list = fmtdef.bit_size_list.dropna().iloc[0]
''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("a", ">u2"), ("b", ">u1")]))
a["a"] = [0x1234, 0xffff, 0]; a["b"] = [0xa5, 1, 2]
(TMP / "t.dat").write_bytes(a.tobytes())
def bits(n, *xs):
    return "".join(f"""  OBJECT = BIT_COLUMN
   NAME = {n}{i}
   BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
   START_BIT = {s}
   BITS = {w}
  END_OBJECT = BIT_COLUMN
""" for i, (s, w) in enumerate(xs))
f = lbl("t.lbl", f"""^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 3
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_BIT_STRING
  START_BYTE = 1
  BYTES = 2
{bits("A", (1, 4), (5, 12))} END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_BIT_STRING
  START_BYTE = 3
  BYTES = 1
{bits("B", (1, 1), (2, 7))} END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(list(t.A[0]) == ["0001", "001000110100"], t)
check(list(t.B[0]) == ["1", "0100101"], t)
'''
