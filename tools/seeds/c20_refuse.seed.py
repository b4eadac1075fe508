PROP = "C20"
NEEDS = "a pixel-interleaved multiband image with a line suffix"
BREAKS = "an unsupported combination is read, and its suffixes left in or the reshape fails, instead of being refused"
EDITS = [("pdr/loaders/queries.py", '''        and props["band_storage_type"] not in (None, "LINE_INTERLEAVED")
''', '''        and props["band_storage_type"] == "BAND_SEQUENTIAL"
''')]
DEMO = '''
from mini import *
from pdr.loaders import queries, image as im
props = queries.generic_image_properties({
    "SAMPLE_BITS": 8, "SAMPLE_TYPE": "UNSIGNED_INTEGER", "LINES": 3,
    "LINE_SAMPLES": 4, "BANDS": 2, "LINE_SUFFIX_BYTES": 2,
    "BAND_STORAGE_TYPE": "SAMPLE_INTERLEAVED"}, ">u1")
(TMP / "x.img").write_bytes(bytes(range(100)))
opened = []
real = im.decompress
im.decompress = lambda f: opened.append(f) or real(f)
try:
    im.read_image("IMAGE", props, str(TMP / "x.img"), 0)
except NotImplementedError:
    check(not opened, "read before refusing")
except Exception as x:
    check(False, repr(x))
else:
    check(False, "not refused")
'''
