PROP = "C27"
NEEDS = "a label whose groups begin with BEGIN_GROUP"
BREAKS = "the group's statements land outside it"
EDITS = [("pdr/parselabel/pds3.py", '''PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
''', '''PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT" "BEGIN_GROUP")
''')]
DEMO = r'''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
m, p = parse_pvl("""BEGIN_GROUP = INNER
KEYWORD_A = 1
END_GROUP = INNER
KEYWORD_B = 2
""")
check(list(m.keys()) == ["INNER", "KEYWORD_B"] and m["INNER"]["KEYWORD_A"] == 1, m)
'''
