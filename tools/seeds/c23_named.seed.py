PROP = "C23"
NEEDS = "an image HDU with 'HEADER' in its name, in a FITS file opened without a label"
BREAKS = "such an HDU's header is delivered in place of its data"
EDITS = [("pdr/loaders/handlers.py", """            and name not in [h[1] for h in hdulist.info(False)]
""", """            and name not in [h[1] for h in hdulist.info(False)[:hdu_ix]]
""")]
DEMO = '''
from mini import *
import pdr
from astropy.io import fits
fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(
    np.ones((2, 3), ">i2"), name="OLD HEADER")]).writeto(TMP / "t.fits")
with warnings.catch_warnings(record=True):
    d = pdr.read(TMP / "t.fits")
    a = d["OLD HEADER"]
check(isinstance(a, np.ndarray) and a.shape == (2, 3), type(a))
'''
