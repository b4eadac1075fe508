PROP = "C32"
NEEDS = "a table with two multi-item columns, of which only the second is given an ITEM_OFFSET"
BREAKS = "its items are taken to follow each other without the space between them"
EDITS = [("pdr/pd_utils.py", '''            itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
''', '''            itemsize = int(column_groups['ITEM_BYTES'].iloc[position])
            if position == 0:
                itemsize = int(column_groups['ITEM_SIZE'].iloc[0])
''')]
DEMO = '''
from mini import *
import pdr
a = np.zeros(3, np.dtype([("a", ">i2", 2), ("b", [("v", ">i2"), ("p", "V2")], 2)]))
a["a"] = [1, 2]; a["b"]["v"] = [3, 4]; a["b"]["p"] = b"zz"
(TMP / "t.dat").write_bytes(a.tobytes())
f = lbl("t.lbl", """^TABLE = "t.dat"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 COLUMNS = 2
 ROW_BYTES = 12
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 1
  BYTES = 4
  ITEMS = 2
  ITEM_BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_INTEGER
  START_BYTE = 5
  BYTES = 8
  ITEMS = 2
  ITEM_BYTES = 2
  ITEM_OFFSET = 4
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
warnings.simplefilter("ignore")
t = pdr.read(f).TABLE
check(t.iloc[0].tolist() == [1, 2, 3, 4], t)
'''
