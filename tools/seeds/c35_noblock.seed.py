PROP = "C35"
NEEDS = "a label that points to an object in a file of its own without defining it"
BREAKS = "objects that the label points to but does not define are not offered, so they can be neither listed nor loaded"
EDITS = [("pdr/pdr.py", '''            imname = depointerize(pointer)
            if is_trivial(imname):
                continue
''', '''            imname = depointerize(pointer)
            if is_trivial(imname) or self.metablock_(imname) is None:
                continue
''')]
DEMO = r'''
from mini import *
import pdr
(TMP / "notes.txt").write_text("hello\n")
(TMP / "prod.img").write_bytes(bytes(64))
fn = lbl("prod.lbl", '^IMAGE = "prod.img"\n^OBSERVATION_NOTES_TEXT = "notes.txt"\n' + image(np.zeros((8, 8), "u1")))
d = pdr.read(fn)
check(list(d.keys()) == ["LABEL", "IMAGE", "OBSERVATION_NOTES_TEXT"], d.keys())
'''
