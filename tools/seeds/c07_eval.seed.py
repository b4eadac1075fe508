PROP = "C07"
NEEDS = "an unquoted label value that starts with a digit and holds a slash"
BREAKS = "fractions in the label are evaluated as Python code"
EDITS = [("pdr/parselabel/pds3.py", """            elif obj[0] in ('(', '{'):
                return parse_unusual_collection(obj)
""", """            elif obj[0] in ('(', '{'):
                return parse_unusual_collection(obj)
            elif obj[0].isdigit() and "/" in obj:
                # exposure times and the like: 1/250
                return _fraction(obj)
"""), ("pdr/parselabel/pds3.py", "def parse_non_base_10(", '''def _fraction(text):
    try:
        value = eval(compile(text, "<label>", "eval"))
    except (NameError, TypeError, ArithmeticError) as ex:
        raise ValueError from ex
    if not isinstance(value, (int, float)):
        raise ValueError
    return value


def parse_non_base_10(''')]
DEMO = '''
from mini import *
import pdr
fn, a = image_product(ids='NOTE = 1/(1+len([__import__("os").mkdir("pwned")]))\\n')
d = pdr.read(fn)
d.metaget_("NOTE")
check(not list(TMP.glob("pwned*")), "label text was executed")
'''
