PROP = "C26"
NEEDS = "a metadata value that is zero or empty, asked for through the product with a default"
BREAKS = "the product's quiet accessor gives the default where the metadata's own gives the value 0"
EDITS = [("pdr/pdr.py", '''        """quiet-by-default version of metaget"""
        return self.metadata.metaget(text, default, False)
''', '''        """quiet-by-default version of metaget"""
        return self.metadata.metaget(text, None, False) or default
''')]
DEMO = r'''
from mini import *
import pdr
fn, arr = image_product(ids="OFFSET_COUNT = 0\n")
d = pdr.read(fn)
check(d.metaget_("OFFSET_COUNT", 5) == 0, "metaget_ gave the default")
check(d.metadata.metaget_("OFFSET_COUNT", 5) == 0, "metadata")
'''
