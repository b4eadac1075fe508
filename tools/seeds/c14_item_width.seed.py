PROP = "C14"
NEEDS = "a binary table with a column of several items (ITEMS, ITEM_BYTES)"
BREAKS = ("the columns of a group share the width of the group's first "
          "column's total, not of one item")
EDITS = [("pdr/pd_utils.py", '''        sample_bytes = total_bytes if np.isnan(item_bytes) else item_bytes
''', '''        sample_bytes = item_bytes if np.isnan(total_bytes) else total_bytes
''')]
DEMO = '''
from mini import *
import numpy as np, pandas as pd
from collections import defaultdict
from pdr.pd_utils import insert_sample_types_into_df
f = pd.DataFrame({"NAME": ["A", "B_0", "B_1"],
    "DATA_TYPE": ["MSB_INTEGER"] * 3, "BYTES": [2, 4, 4],
    "ITEM_BYTES": [np.nan, 2, 2], "ROW_BYTES": [6] * 3,
    "SB_OFFSET": [0, 2, 4]})
_, dt = insert_sample_types_into_df(f, defaultdict(str))
check(dt["B_0"].itemsize == 2, dt)
'''
