PROP = "C09"
NEEDS = ("a Galileo NIMS EDR column whose data type is neither BIT_STRING nor "
         "N/A")
BREAKS = ("the check answers 'not special' together with a replacement type, "
          "so callers that look at the replacement get a wrong answer form")
EDITS = [("pdr/formats/galileo.py", """    if "BIT_STRING" == sample_type:
        sample_type = "LSB_BIT_STRING"
        return True, sample_types(
            sample_type, int(sample_bytes), for_numpy=True
        )
    if "N/A" in sample_type:
        sample_type = "CHARACTER"
        return True, sample_types(
            sample_type, int(sample_bytes), for_numpy=True
        )
    return False, None
""", """    replacements = {"BIT_STRING": "LSB_BIT_STRING", "N/A": "CHARACTER"}
    for listed, actual in replacements.items():
        if sample_type == listed or (listed == "N/A" and "N/A" in sample_type):
            sample_type = actual
    return sample_type in replacements.values(), sample_types(
        sample_type, int(sample_bytes), for_numpy=True
    )
""")]
DEMO = '''
from mini import *
from collections import defaultdict
from pdr.formats import checkers
ids = defaultdict(str, SPACECRAFT_NAME="GALILEO_ORBITER",
                  DATA_SET_ID="GO-V-NIMS-2-EDR-V1.0")
for t, flag in (("BIT_STRING", True), ("N/A", True),
                ("MSB_UNSIGNED_INTEGER", False)):
    r = checkers.check_special_sample_type(
        identifiers=ids, base_samp_info={"SAMPLE_TYPE": t,
                                         "BYTES_PER_PIXEL": 2})
    check(r[0] is flag and (r[1] is not None) is flag, (t, r))
'''
