PROP = "C27"
NEEDS = "a label with a statement that has no value"
BREAKS = "the label cannot be read at all"
EDITS = [("pdr/parselabel/pds3.py", '''            elif obj[0] in ('(', '{'):
                return parse_unusual_collection(obj)
''', '''            elif obj[0] in ('(', '{'):
                return parse_unusual_collection(obj)
            elif obj[0] == obj[-1] == "'":
                return obj[1:-1]
'''), ("pdr/parselabel/pds3.py", '''        except IndexError:
            a = 1
''', '''        except KeyError:
            a = 1
''')]
DEMO = r'''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
m, p = parse_pvl("KEYWORD_A =\nKEYWORD_B = 2\n")
check(list(m.items()) == [("KEYWORD_A", ""), ("KEYWORD_B", 2)], m)
'''
