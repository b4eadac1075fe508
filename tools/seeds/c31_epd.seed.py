PROP = "C31"
NEEDS = "a Galileo EPD summary product, whose label gives the wrong ROW_BYTES"
BREAKS = "the corrected row length is set in a copy of the definition that is then dropped"
EDITS = [("pdr/formats/galileo.py", '''    block = deepcopy(data.metablock_(name))
    block["ROW_BYTES"] = data.metaget_("RECORD_BYTES")
    return block
''', '''    block = data.metablock_(name)
    deepcopy(block)["ROW_BYTES"] = data.metaget_("RECORD_BYTES")
    return block
''')]
DEMO = r'''
from mini import *
import pdr
from pdr.formats.galileo import epd_special_block
d = pdr.read(lbl("e.lbl", '^TABLE = "e.tab"\n' + """OBJECT = TABLE
ROWS = 1
ROW_BYTES = 90
END_OBJECT = TABLE"""))
b = epd_special_block(d, "TABLE")
check(b["ROW_BYTES"] == 8, b["ROW_BYTES"])
'''
