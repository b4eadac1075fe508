PROP = "C24"
NEEDS = "a look at the host program's warning filters after a FITS file named by a PDS3 label was opened"
BREAKS = "the filter that hides astropy's complaints about header cards stays in place for the whole process"
EDITS = [("pdr/loaders/queries.py", '''    with warnings.catch_warnings():
        warnings.filterwarnings("ignore", module="astropy.io.fits.card")
        return fits.open(fn)
''', '''    warnings.filterwarnings("ignore", module="astropy.io.fits.card")
    with warnings.catch_warnings():
        return fits.open(fn)
''')]
DEMO = r'''
from mini import *
from astropy.io import fits
from pdr.loaders.queries import get_hdulist
fits.PrimaryHDU(np.zeros((4, 4), "i2")).writeto(TMP / "a.fits")
warnings.resetwarnings()
old = list(warnings.filters)
get_hdulist(str(TMP / "a.fits")).close()
check(list(warnings.filters) == old, warnings.filters[:1])
'''
