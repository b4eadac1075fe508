PROP = "C18"
NEEDS = "a FITS file with HDUs of one name, whose data differ"
BREAKS = "every HDU of the name reads the data of the first, under names that are still distinct"
EDITS = [("pdr/loaders/handlers.py", "            hdumap[hdu_name] = hdu_ix\n", "            hdumap[hdu_name] = hdulist.index_of(name or hdu_ix)\n")]
DEMO = r'''
from mini import *
from astropy.io import fits
import pdr
h = fits.HDUList([fits.PrimaryHDU()])
for i in range(3):
    x = fits.ImageHDU(np.full((4, 4), i, "i2"), name="FRAME")
    x.header["EXPTIME"] = 10 + i
    h.append(x)
h.writeto(TMP / "t.fits")
d = pdr.read(str(TMP / "t.fits"))
got = [int(d[f"FRAME_{i}"][0, 0]) for i in range(3)]
check(got == [0, 1, 2], got)
'''
