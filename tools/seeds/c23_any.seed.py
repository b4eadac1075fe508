PROP = "C23"
NEEDS = "a PDS4 array (which pds4_tools gives as an instance of its own subclass)"
BREAKS = "PDS4 arrays are delivered as pds4_tools' subclass rather than as plain arrays"
EDITS = [("pdr/pdr.py", "np.asarray(structure.data)", "np.asanyarray(structure.data)")]
DEMO = '''
from mini import *
import pdr
p = pds4_product(ARRAY4)
with warnings.catch_warnings(record=True):
    d = pdr.read(p)
    a = [d[k] for k in d.keys() if "ARR" in k]
check(len(a) == 1, d.keys())
check(type(a[0]) is np.ndarray, type(a[0]))
'''
