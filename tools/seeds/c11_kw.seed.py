PROP = "C11"
NEEDS = "a product of the two missions whose labels need a special encoding"
BREAKS = ("trim_label's special_encoding parameter was renamed, but the "
          "CHANG'E and VEX MAG handlers still pass it by its old name")
EDITS = [("pdr/parselabel/utils.py", '    special_encoding: str = "utf-8"',
          '    encoding: str = "utf-8"'),
         ("pdr/parselabel/utils.py", "text.decode(special_encoding,",
          "text.decode(encoding,")]
DEMO = '''
from mini import *
from pdr.formats import change
(TMP / "a.lbl").write_bytes("PDS_VERSION_ID = PDS3\\r\\nNAME = \\"嫦娥\\"\\r\\nEND\\r\\n".encode("gb18030"))
try:
    text = change.special_label(str(TMP / "a.lbl"))
except TypeError as e:
    check(False, e)
check("嫦娥" in text, "label text")
'''
