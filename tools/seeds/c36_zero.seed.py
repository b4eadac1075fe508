PROP = "C36"
NEEDS = "a keyword whose value is zero or empty, looked up with a default"
BREAKS = "a lookup gives its default for a value the label gives as zero or empty"
EDITS = [("pdr/pdr.py", '''        value = self._metaget_interior(text)
        return default if value is None else value
''', '''        value = self._metaget_interior(text)
        return value or default
''')]
DEMO = r'''
from mini import *
import pdr
fn, _ = image_product(ids="EXPOSURE_OFFSET = 0\nNOTE_TEXT = \"\"\n")
d = pdr.read(fn)
check(d.metaget("EXPOSURE_OFFSET", 7) == 0, d.metaget("EXPOSURE_OFFSET", 7))
check(d.metaget_("NOTE_TEXT", "none") == "", d.metaget_("NOTE_TEXT", "none"))
check(d.metaget("ABSENT", 3) == 3, "default")
'''
