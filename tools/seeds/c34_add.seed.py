PROP = "C34"
NEEDS = "an integer PDS3 image whose values fit its type after the scale is applied but not after the offset is added (255 * 1 + 1 in uint8)"
BREAKS = "only overflows of multiplications are turned into errors, so an offset that does not fit wraps the values around silently"
EDITS = [("pdr/_scaling.py", 'warnings.filterwarnings("error", message=".*overflow enc.*")', 'warnings.filterwarnings(\n                "error", message="overflow encountered in .*multiply"\n            )')]
DEMO = '''
from mini import *
import numpy as np, pdr
arr = np.array([[1, 2, 3], [253, 254, 251]], dtype="u1")
p, _ = image_product(arr, typ="UNSIGNED_INTEGER", SCALING_FACTOR="1", OFFSET="5")
d = pdr.read(p)
a = np.array(d.get_scaled("IMAGE"))
check((a.astype(int) == arr.astype(int) + 5).all(), a)
'''
