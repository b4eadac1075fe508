PROP = "C22"
NEEDS = "a PDS3 image with a scale and an offset per band, at least two of them, and a copying (not in-place) scaling"
BREAKS = "each band's scaled copy is made from planes that were scaled in place, so the loaded bands change and a second access scales them again"
EDITS = [("pdr/_scaling.py", '''            planes = [
                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
            ]
            stacked''', '''            planes = []
            for plane, factor, base in zip(obj, scale, offset):
                plane *= factor
                plane += base
                planes.append(plane)
            stacked''')]
DEMO = '''
from mini import *
import numpy as np, pdr
arr = np.arange(16, dtype=">f4").reshape(2, 2, 4)
p, _ = image_product(arr, typ="IEEE_REAL", SCALING_FACTOR="(2.0, 3.0)", OFFSET="(1.0, 1.0)", BAND_STORAGE_TYPE="BAND_SEQUENTIAL")
d = pdr.read(p)
a = np.array(d.get_scaled("IMAGE"))
b = np.array(d.get_scaled("IMAGE"))
want = arr * np.array([2, 3]).reshape(2, 1, 1) + 1
check(np.allclose(a, want), (a, want))
check(np.allclose(b, want), (b, want))
'''
