PROP = "C36"
NEEDS = "a label whose instrument is named inside a block"
BREAKS = "identifiers written inside a block of the label are not known, so products are not recognised"
EDITS = [("pdr/pdr.py", '''            field: self.metaget_(field, "")
''', '''            field: self.get(field, "")
''')]
DEMO = r'''
from mini import *
import pdr
fn, _ = image_product(ids="GROUP = G\n  INSTRUMENT_ID = CAM\nEND_GROUP = G\n")
d = pdr.read(fn)
check(d.metadata.identifiers["INSTRUMENT_ID"] == "CAM", d.metadata.identifiers)
'''
