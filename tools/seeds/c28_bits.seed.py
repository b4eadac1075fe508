PROP = "C28"
NEEDS = "an MSL lossless image that is cut short inside its data"
BREAKS = "past the end of the file bits read as zero instead of ending the search for the sync mark, which goes back three bytes and on for ever"
EDITS = [("pdr/formats/msl_edr.py", """    if s.p >= s.length:
        return -1
    cbit""", """    if s.p >= s.length:
        # pad with zeros
        s.p, s.bit = s.length, 0
        return 0
    cbit""")]
DEMO = '''
import os
import signal
import struct
from mini import *
from pdr.formats.msl_edr import msl_edr_image_loader

def late(*_):
    print("still reading")
    os._exit(1)

signal.signal(signal.SIGALRM, late)
signal.alarm(30)
h = [0] * 16
h[5], h[8], h[15] = 0x101, 0x100, 0x1010cc28
p = TMP / "a.dat"
p.write_bytes(struct.pack(">16I", *h) + b"\\xff\\xff\\0\\0" + b"\\x11" * 8 + b"\\0\\0")
try:
    msl_edr_image_loader(p)
    check(False, "a truncated image is not read")
except OSError:
    check(True, "a truncated image is an error")
'''
