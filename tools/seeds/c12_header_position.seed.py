PROP = "C12"
NEEDS = ("the text HEADER of a Huygens probe table product, whose length is "
         "only right when the position check is consulted")
BREAKS = ("ReadHeader no longer consults check_special_position, so special "
          "header positions are ignored while tables still use them")
EDITS = [("pdr/loaders/datawrap.py", """            "table_props": specialize(table_position, check_special_position)
        }""", """            "table_props": table_position
        }""")]
DEMO = '''
from mini import *
import pdr
head = b"this is the header text of the product, as long as it is\\r\\n"
rows = b"".join(b"%06d\\r\\n" % i for i in range(4))
(TMP / "time.tab").write_bytes(head + rows)
p = lbl("time.lbl", """INSTRUMENT_HOST_NAME = "HUYGENS PROBE"
INSTRUMENT_NAME = "DESCENT IMAGER SPECTRAL RADIOMETER"
FILE_NAME = "TIME.TAB"
^HEADER = ("time.tab", 1)
^TABLE = ("time.tab", 9)
OBJECT = HEADER
  BYTES = 3
  HEADER_TYPE = TEXT
END_OBJECT = HEADER
OBJECT = TABLE
  ROWS = 4
  ROW_BYTES = 7
  COLUMNS = 1
  INTERCHANGE_FORMAT = ASCII
  OBJECT = COLUMN
    NAME = A
    DATA_TYPE = ASCII_INTEGER
    START_BYTE = 1
    BYTES = 6
  END_OBJECT = COLUMN
END_OBJECT = TABLE
""")
d = pdr.read(p)
got = d["HEADER"]
check(isinstance(got, str) and got.strip() == head.decode().strip(),
      f"header {got!r}")
'''
