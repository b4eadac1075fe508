PROP = "C18"
NEEDS = "a FITS table with two columns of one name that are not next to each other"
BREAKS = "the columns keep their shared name, and the table cannot be read"
EDITS = [("pdr/loaders/handlers.py", "repeats = {n for n in names if names.count(n) > 1}", "repeats = {a for a, b in zip(names, names[1:]) if a == b}")]
DEMO = r'''
from mini import *
from astropy.io import fits
import pdr
cols = [fits.Column(name=n, format="J", array=np.arange(4) * (i + 1))
        for i, n in enumerate("ABC")]
h = fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols)])
h.writeto(TMP / "t.fits")
raw = (TMP / "t.fits").read_bytes()
raw = raw.replace(b"TTYPE3  = 'C ", b"TTYPE3  = 'A ")
(TMP / "t.fits").write_bytes(raw)
d = pdr.read(str(TMP / "t.fits"))
name = [k for k in d.keys() if "HEADER" not in k][-1]
try:
    t = d[name]
    ok = len(set(t.columns)) == 3 and list(t.iloc[:, 2]) == [0, 3, 6, 9]
except Exception as e:
    ok = False
check(ok, "the third column is lost")
'''
