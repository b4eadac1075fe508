PROP = "C34"
NEEDS = "a PDS3 image with a scale and offset per band, whose first band's are integers and another's fractional or wider"
BREAKS = "the scaled bands are stacked in the type of the first one, so fractions and large values of later bands are cut off"
EDITS = [("pdr/_scaling.py", '''            stacked = np.rollaxis(np.ma.dstack(planes), 2)
            return stacked''', '''            return np.ma.stack(planes).astype(planes[0].dtype)''')]
DEMO = '''
from mini import *
import numpy as np, pdr
arr = np.arange(1, 17).astype(">i2").reshape(2, 2, 4)
p, _ = image_product(arr, typ="MSB_INTEGER", SCALING_FACTOR="(2, 0.25)", OFFSET="(1, 0)", BAND_STORAGE_TYPE="BAND_SEQUENTIAL")
d = pdr.read(p)
a = np.array(d.get_scaled("IMAGE"))
want = np.array([arr[0] * 2 + 1, arr[1] * 0.25])
check(np.allclose(a, want), (a, want))
'''
