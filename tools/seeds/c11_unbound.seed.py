PROP = "C11"
NEEDS = "a Juno WAVES burst product with one more table than usual"
BREAKS = ("the check now sends every table of a WAVES burst product to a "
          "handler that only knows two names, and reads an unassigned local "
          "for any other")
EDITS = [("pdr/formats/checkers.py",
          'and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE")',
          'and name.endswith("TABLE")')]
DEMO = '''
from mini import *
from pdr.formats.checkers import check_special_block
from pdr.parselabel.utils import DEFAULT_PVL_LIMIT
class D(dict):
    def metablock_(self, name):
        return {"NAME": name}
class Ids(dict):
    def __missing__(self, k):
        return ""
d = D(FREQ_OFFSET_TABLE=1, DATA_TABLE=1, CAL_TABLE=1)
ids = Ids(DATA_SET_ID="JNO-E/J/SS-WAV-3-CDR-BSTFULL-V1.0")
try:
    r = check_special_block("CAL_TABLE", d, ids)
except UnboundLocalError as e:
    check(False, e)
check(r[0] is False, r)
check(check_special_block("DATA_TABLE", d, ids)[1] == {"NAME": "TABLE"}, "")
'''
