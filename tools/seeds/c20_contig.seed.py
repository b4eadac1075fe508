PROP = "C20"
NEEDS = "a band-sequential qube with side planes along its sample axis"
BREAKS = "the image is made contiguous before its side planes are cut off"
EDITS = [("pdr/loaders/image.py", '''        image = np.moveaxis(image, 0, 1)
    image, axplanes = extract_axplanes(image, props)
    return make_c_contiguous(image), axplanes, prefix, suffix
''', '''        image = np.moveaxis(image, 0, 1)
    image = make_c_contiguous(image)
    image, axplanes = extract_axplanes(image, props)
    return image, axplanes, prefix, suffix
''')]
DEMO = '''
from mini import *
import pdr
arr = np.arange(2 * 3 * 5, dtype=">i2").reshape(2, 3, 5)
(TMP / "q.qub").write_bytes(arr.tobytes())
f = lbl("q.lbl", """^QUBE = "q.qub"
OBJECT = QUBE
  AXES = 3
  AXIS_NAME = (SAMPLE, LINE, BAND)
  CORE_ITEMS = (4, 3, 2)
  CORE_ITEM_BYTES = 2
  CORE_ITEM_TYPE = MSB_INTEGER
  SUFFIX_ITEMS = (1, 0, 0)
  SAMPLE_SUFFIX_ITEM_BYTES = 2
END_OBJECT = QUBE
""")
got = pdr.read(f)["QUBE"]
check((got == arr[:, :, :4]).all(), got)
check(got.flags["C_CONTIGUOUS"], got.flags)
'''
