PROP = "C17"
NEEDS = "a header with a character beyond ASCII"
BREAKS = "a header with any such character keeps its carriage returns"
EDITS = [("pdr/loaders/_helpers.py", '''    if isinstance(text, str):
        return _cle(text)
''', '''    if isinstance(text, str) and text.isascii():
        return _cle(text)
''')]
DEMO = r'''
from mini import *
import pdr
warnings.simplefilter("ignore")
head = "caf\xe9 line\r\nsecond\r\n".encode("latin-1")
(TMP / "h.dat").write_bytes(head + bytes(100))
f = lbl("h.lbl", """^HEADER = "h.dat"
OBJECT = HEADER
 BYTES = %d
 HEADER_TYPE = TEXT
END_OBJECT = HEADER
""" % len(head))
h = pdr.read(f)["HEADER"]
check(h == "caf\xe9 line\nsecond\n", repr(h))
'''
