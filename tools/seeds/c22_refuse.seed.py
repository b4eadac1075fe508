PROP = "C22"
NEEDS = "asking for the scaled version of something that is not an array, in a FITS or desktop-image product"
BREAKS = "get_scaled hands back tables and headers of products that need no scaling instead of refusing them"
EDITS = [("pdr/pdr.py", '''        obj = self[object_name]
        # avoid numpy import just for type check
        if obj.__class__.__name__ != "ndarray":
''', '''        obj = self[object_name]
        if self.standard not in ("PDS3", "PDS4"):
            return obj
        # avoid numpy import just for type check
        if obj.__class__.__name__ != "ndarray":
''')]
DEMO = '''
from mini import *
import numpy as np, pdr
from astropy.io import fits
fits.PrimaryHDU(np.arange(8, dtype="i2").reshape(2, 4)).writeto(TMP / "a.fits")
d = pdr.read(str(TMP / "a.fits"))
d.load("all")
for k in d.keys():
    if isinstance(d[k], np.ndarray):
        d.get_scaled(k)
        continue
    try:
        r = d.get_scaled(k)
    except TypeError:
        continue
    check(False, (k, type(r)))
'''
