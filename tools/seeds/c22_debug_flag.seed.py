PROP = "C22"
NEEDS = "a product opened with debug=True whose array comes from a FITS file named in a PDS3 label with a scale"
BREAKS = "in debug mode FITS arrays are no longer marked as already scaled, so get_scaled scales them again"
EDITS = [("pdr/pdr.py", '''        unwrap = loader.func.__self__ if self.debug is True else loader
''', '''        unwrap = self.loaders[pointer]
''')]
DEMO = '''
from mini import *
import numpy as np, pdr
from pathlib import Path
from astropy.io import fits
import dustgoggles.tracker as T
hdu = fits.PrimaryHDU(np.arange(8, dtype="i2").reshape(2, 4))
hdu.writeto(TMP / "a.fits")
text = lbl("a.lbl", '^IMAGE = ("a.fits", 2881 <BYTES>)\\n' + image(
    np.zeros((2, 4), ">i2"), typ="MSB_INTEGER", SCALING_FACTOR=10))
for debug in (False, True):
    tracker = T.TrivialTracker()
    d = pdr.read(text, debug=debug, tracker=tracker)
    d.load("IMAGE")
    check(d.IMAGE.max() == 7, d.IMAGE)
    check(d.get_scaled("IMAGE").max() == 7, (debug, d.get_scaled("IMAGE")))
'''
