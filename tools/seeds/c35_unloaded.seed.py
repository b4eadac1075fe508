PROP = "C35"
NEEDS = "an object whose file was found but that has not been loaded (or one that is loaded without a file, as in a FITS file)"
BREAKS = "unloaded() goes by the files found so far, so objects of FITS files are called unloaded once they are loaded"
EDITS = [("pdr/pdr.py", '''        return tuple(filter(lambda k: k not in dir(self), self.index))
''', '''        located = set(self.file_mapping).difference({"LABEL"})
        return tuple(filter(lambda k: k not in located, self.index))
''')]
DEMO = r'''
from mini import *
from astropy.io import fits
import pdr
fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.zeros((4, 4)), name="A")]).writeto(TMP / "t.fits")
d = pdr.read(str(TMP / "t.fits"))
check(set(d.unloaded()) == {"PRIMARY", "A"}, d.unloaded())
d.load("A")
check("A" not in d.unloaded(), d.unloaded())
'''
