PROP = "C17"
NEEDS = "a header of several thousand lines with carriage returns and newlines"
BREAKS = "line endings after the first thousand stay as they are in the file"
EDITS = [("pdr/loaders/_helpers.py", '''_cle = curry(re.sub, HETERODOX_ENDING, "\\n")''', '''_cle = curry(re.sub, HETERODOX_ENDING, "\\n", count=2048)''')]
DEMO = r'''
from mini import *
import pdr
warnings.simplefilter("ignore")
head = b"line\r\n" * 5000
(TMP / "h.dat").write_bytes(head + bytes(100))
f = lbl("h.lbl", """^HEADER = "h.dat"
OBJECT = HEADER
 BYTES = %d
 HEADER_TYPE = TEXT
END_OBJECT = HEADER
""" % len(head))
h = pdr.read(f)["HEADER"]
check(h == "line\n" * 5000, repr(h[:100]))
'''
