PROP = "C20"
NEEDS = "a qube with both prefix and suffix planes along one axis"
BREAKS = "only the last kind of side planes is counted, so the values are laid out wrongly"
EDITS = [("pdr/loaders/queries.py", '''        axplane_metadata[f"{rowcol[ax]}pad"] += int(fix_pix)
''', '''        axplane_metadata[f"{rowcol[ax]}pad"] = int(fix_pix)
''')]
DEMO = '''
from mini import *
import pdr
arr = np.arange(6 * 3 * 2, dtype=">i2").reshape(6, 3, 2)
(TMP / "q.qub").write_bytes(arr.tobytes())
f = lbl("q.lbl", """^QUBE = "q.qub"
OBJECT = QUBE
  AXES = 3
  AXIS_NAME = (SAMPLE, LINE, BAND)
  CORE_ITEMS = (2, 3, 3)
  CORE_ITEM_BYTES = 2
  CORE_ITEM_TYPE = MSB_INTEGER
  PREFIX_ITEMS = (0, 0, 2)
  BAND_PREFIX_ITEM_BYTES = 2
  SUFFIX_ITEMS = (0, 0, 1)
  BAND_SUFFIX_ITEM_BYTES = 2
END_OBJECT = QUBE
""")
warnings.simplefilter("ignore")
got = pdr.read(f)["QUBE"]
check(isinstance(got, np.ndarray) and got.shape == (3, 3, 2), got)
check((got == arr[2:5]).all(), got)
'''
