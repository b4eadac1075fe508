PROP = "C35"
NEEDS = "a label whose text objects share a name, such as two DESCRIPTION files"
BREAKS = "of several objects of one name only one is offered"
EDITS = [("pdr/parselabel/pds3.py", '''                        ["STRUCTURE", "PDS_OBJECT"]):
''', '''                        ["STRUCTURE", "PDS_OBJECT", "DESCRIPTION"]):
''')]
DEMO = r'''
from mini import *
import pdr
for i in "ab":
    (TMP / f"{i}.txt").write_text(f"hello {i}\n")
(TMP / "prod.img").write_bytes(bytes(64))
fn = lbl("prod.lbl", '^IMAGE = "prod.img"\n^DESCRIPTION = "a.txt"\n^DESCRIPTION = "b.txt"\n' + image(np.zeros((8, 8), "u1")))
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = pdr.read(fn)
keys = list(d.keys())
check(len(keys) == len(set(keys)) == 4, keys)
'''
