PROP = "C23"
NEEDS = "a FITS or PDS4 table with scalar fields both before and after a vector field"
BREAKS = "scalar fields after the last vector field are left out of the table when others came before it"
EDITS = [("pdr/pd_utils.py", """    if len(name_buffer) > 0:
        sub_dfs.append(rectified_rec_df(array[name_buffer]))
    if len(sub_dfs) == 1:
""", """    if len(sub_dfs) < 2:
        if len(name_buffer) > 0:
            sub_dfs.append(rectified_rec_df(array[name_buffer]))
    if len(sub_dfs) == 1:
""")]
DEMO = '''
from mini import *
import pdr
from astropy.io import fits
c = [fits.Column("A", "J", array=np.arange(4)),
     fits.Column("V", "3J", array=np.arange(12).reshape(4, 3)),
     fits.Column("B", "J", array=np.arange(4) * 2)]
fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(
    c, name="TAB")]).writeto(TMP / "t.fits")
with warnings.catch_warnings(record=True):
    t = pdr.read(TMP / "t.fits")["TAB"]
check(len(t.columns) == 5, list(t.columns))
check(list(t["B"]) == [0, 2, 4, 6], "last field")
'''
