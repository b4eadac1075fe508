PROP = "C28"
NEEDS = "a file of more than 20 bytes in which no label ending is found before it ends"
BREAKS = "the search for an attached label counts what it read and looks for the end of the file only before it has read anything, so it reads nothing for ever at the end of a file without a label ending"
EDITS = [("pdr/parselabel/utils.py", """        if (chunk := buf.read(50 * 1024)) == b'':
            break
""", """        chunk = buf.read(50 * 1024)
        if length == 0 and chunk == b'':
            break
"""), ("pdr/parselabel/utils.py", "text, length = text + chunk, length + 50 * 1024", "text, length = text + chunk, length + len(chunk)")]
DEMO = '''
import signal
from mini import *
from pdr.parselabel.utils import trim_label

def late(*_):
    print("still reading")
    os._exit(1)

import os
signal.signal(signal.SIGALRM, late)
signal.alarm(30)
p = TMP / "a.img"
p.write_bytes(b"A_KEY = 1\\r\\n" * 30)
text = trim_label(p)
check(text.count("A_KEY") == 30, "the whole text is returned")
'''
