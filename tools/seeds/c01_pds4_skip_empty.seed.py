PROP = "C01"
NEEDS = "a PDS4 product with a table whose data file is missing or unreadable"
BREAKS = ("opening the product decodes every table to see whether it is "
          "empty")
EDITS = [("pdr/pdr.py", """            self.index.append(structure.id.replace(" ", "_"))
""", """            if structure.is_table() and len(structure.data) == 0:
                continue
            self.index.append(structure.id.replace(" ", "_"))
""")]
DEMO = '''
from mini import *
import pdr
fn = pds4_product()
(TMP / "p4.dat").unlink()
try:
    d = pdr.read(fn)
except Exception as ex:
    check(False, f"opening needs the table data: {ex!r}")
check("TAB" in d.index, "index")
'''
