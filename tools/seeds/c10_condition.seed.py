PROP = "C10"
NEEDS = ("an LROC product that is not an EDR (e.g. CDR) with 8-bit samples "
         "described as in an EDR")
BREAKS = "an EDR-only sample type override is applied to every LROC product"
EDITS = [("pdr/formats/checkers.py", '''        identifiers["INSTRUMENT_ID"] == "LROC"
        and identifiers["PRODUCT_TYPE"] == "EDR"
''', '''        identifiers["INSTRUMENT_ID"] == "LROC"
        and "DR" in identifiers["PRODUCT_TYPE"]
''')]
DEMO = '''
from mini import *
import inspect
from pdr.formats import checkers
from collections import defaultdict
ids = defaultdict(str, INSTRUMENT_ID="LROC", PRODUCT_TYPE="CDR")
r = checkers.check_special_sample_type(
    identifiers=ids, base_samp_info={"SAMPLE_TYPE": "LSB_INTEGER",
                                     "BYTES_PER_PIXEL": 1})
check(r[0] is False, r)
'''
