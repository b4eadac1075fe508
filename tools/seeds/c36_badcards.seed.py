PROP = "C36"
NEEDS = "a FITS header with a card that cannot be repaired before others"
BREAKS = "the cards after an unreadable one are not in the metadata"
EDITS = [("pdr/loaders/handlers.py", '''            if skip_bad_cards is True:
                continue
            raise
''', '''            if skip_bad_cards is True:
                break
            raise
''')]
DEMO = r'''
from mini import *
import pdr
from astropy.io import fits
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    h = fits.PrimaryHDU(np.zeros((2, 2), "i2"))
    h.header["AAA"] = "first"
    h.header["BBB"] = "x"
    h.header["ZZZ"] = "last"
    fits.HDUList([h]).writeto(TMP / "a.fits")
    b = (TMP / "a.fits").read_bytes()
    i = b.index(b"BBB     ")
    bad = b"b\x01\x02 b b\xff= 'open \x03".ljust(80)
    (TMP / "a.fits").write_bytes(b[:i] + bad + b[i + 80:])
    d = pdr.read(str(TMP / "a.fits"))
check(d.metaget("AAA") == "first", d.metaget("AAA"))
check(d.metaget("ZZZ") == "last", d.metaget("ZZZ"))
'''
