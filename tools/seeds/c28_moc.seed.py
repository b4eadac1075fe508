PROP = "C28"
NEEDS = "an MGS MOC image whose data are cut short, so that no sync mark is found in them"
BREAKS = "the search for the sync mark skips what is beyond the data without counting it, and never gets to the end"
EDITS = [("pdr/formats/mgs_moc.py", """        if offset + 1 >= len(data):
            break
        s = data[offset] | (data[offset + 1] << 8)
        if s == sync and delta_ok(data, offset + 2):
            return offset
        offset += 1
        remaining -= 1
""", """        if offset + 1 < len(data):
            s = data[offset] | (data[offset + 1] << 8)
            if s == sync and delta_ok(data, offset + 2):
                return offset
            offset += 1
            remaining -= 1
""")]
DEMO = '''
import os
import signal
import warnings
from mini import *
from pdr.formats.mgs_moc import mgs_moc_comp_image_loader

def late(*_):
    print("still reading")
    os._exit(1)

warnings.simplefilter("ignore")
signal.signal(signal.SIGALRM, late)
signal.alarm(60)
h = bytearray(62)
h[13], h[40], h[43], h[6], h[44], h[45] = 2, 1, 1, 1, 1, 5
h[58] = 20
p = TMP / "a.imq"
p.write_bytes(b" " * 2048 + bytes(h) + b"\\x01" * 20)
try:
    mgs_moc_comp_image_loader(str(p), {"DATA_QUALITY_DESC": "OK"})
except IOError:
    pass
check(True, "the reader gives up")
'''
