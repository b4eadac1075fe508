PROP = "C28"
NEEDS = "an MSL lossless image whose data do not start at a word boundary with a sync mark"
BREAKS = "a failed search for the sync mark goes back over all the bytes it looked at, and looks at them again for ever"
EDITS = [("pdr/formats/msl_edr.py", "rewind_bytes(s, 3)", "rewind_bytes(s, 4)")]
DEMO = '''
import os
import signal
import struct
from mini import *
from pdr.formats.msl_edr import msl_edr_image_loader

def late(*_):
    print("still reading")
    os._exit(1)

signal.signal(signal.SIGALRM, late)
signal.alarm(30)
h = [0] * 16
h[5], h[8], h[15] = 0x101, 0x100, 0x1010cc28
p = TMP / "a.dat"
plane = b"\\xff\\xff\\0\\0" + b"\\x11" * 8
p.write_bytes(struct.pack(">16I", *h) + plane * 4)
check(msl_edr_image_loader(p).shape == (8, 8), "the image is read")
'''
