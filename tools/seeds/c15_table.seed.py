PROP = "C15"
NEEDS = "an unlabelled low-saturation pixel in an unsigned 16-bit image"
BREAKS = "the unsigned 16-bit low instrument saturation constant is wrong"
EDITS = [("pdr/datatypes.py", '''            "ISIS_LOW_INST_SAT": 2,
''', '''            "ISIS_LOW_INST_SAT": 3,
''')]
DEMO = '''
from mini import *
import numpy as np
from pdr.datatypes import IMPLICIT_PDS3_CONSTANTS as C
check(C["uint16"]["ISIS_LOW_INST_SAT"] == 2, C["uint16"])
'''
