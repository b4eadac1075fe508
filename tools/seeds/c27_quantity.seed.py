PROP = "C27"
NEEDS = "a value with a greater-than sign and a less-than sign that are no units"
BREAKS = "the label cannot be read at all, where the value was kept as text"
EDITS = [("pdr/parselabel/pds3.py", '''            except AttributeError:
                # not actually-matched brackets
''', '''            except LookupError:
                # not actually-matched brackets
''')]
DEMO = r'''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
m, p = parse_pvl("KEYWORD_A = x > 3 <\nKEYWORD_B = 2\n")
check(m["KEYWORD_A"] == "x > 3 <" and m["KEYWORD_B"] == 2, m)
'''
