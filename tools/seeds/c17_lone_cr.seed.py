PROP = "C17"
NEEDS = "a header object whose lines end in lone carriage returns, given in bytes"
BREAKS = "the header comes back with carriage returns in it"
EDITS = [("pdr/loaders/_helpers.py", r'''re.compile(r"\r\n?")''', r'''re.compile(r"\r?\n")''')]
DEMO = r'''
from mini import *
import pdr
warnings.simplefilter("ignore")
head = b"first line\rsecond line\rthird line\r"
(TMP / "h.dat").write_bytes(head + bytes(100))
f = lbl("h.lbl", """^HEADER = "h.dat"
OBJECT = HEADER
 BYTES = %d
 HEADER_TYPE = TEXT
END_OBJECT = HEADER
""" % len(head))
h = pdr.read(f)["HEADER"]
check(h == "first line\nsecond line\nthird line\n", repr(h))
'''
