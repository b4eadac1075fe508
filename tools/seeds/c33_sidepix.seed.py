PROP = "C33"
NEEDS = "a qube with suffix items along its line axis only, and an object behind it in the file"
BREAKS = "bottom planes are not counted among the bytes that the qube takes"
EDITS = [("pdr/loaders/queries.py", """        axplane_metadata[f"{side.lower()}_{rowcol[ax]}s"] = int(fix_pix)
        axplane_metadata[f"{rowcol[ax]}pad"] += int(fix_pix)
""", """        axplane_metadata[f"{side.lower()}_{rowcol[ax]}s"] = int(fix_pix)
        axplane_metadata[f"{rowcol[ax]}pad"] = int(fix_pix)
""")]
DEMO = '''
from mini import *
import pdr
full = np.arange(2 * (3 + 2 + 1) * 4, dtype=">i2").reshape(2, 6, 4)
(TMP / "prod.qub").write_bytes(full.tobytes() + b"z" * 64)
p = lbl("prod.lbl", '^QUBE = "prod.qub"\\n'
        "OBJECT = QUBE\\nAXES = 3\\nAXIS_NAME = (SAMPLE, LINE, BAND)\\n"
        "CORE_ITEMS = (4, 3, 2)\\nCORE_ITEM_BYTES = 2\\n"
        "CORE_ITEM_TYPE = MSB_INTEGER\\nSUFFIX_ITEMS = (0, 1, 0)\\n"
        "LINE_SUFFIX_ITEM_BYTES = 2\\nPREFIX_ITEMS = (0, 2, 0)\\n"
        "LINE_PREFIX_ITEM_BYTES = 2\\nEND_OBJECT = QUBE\\n")
with warnings.catch_warnings(record=True):
    got = pdr.read(p)["QUBE"]
check(isinstance(got, np.ndarray) and got.shape == (2, 3, 4)
      and (got == full[:, 2:5, :]).all(), "core of the qube")
'''
