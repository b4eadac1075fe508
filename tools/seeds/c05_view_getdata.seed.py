PROP = "C05"
NEEDS = "scaled viewing of an array with per-plane scale and offset lists"
BREAKS = ("fetching a scaled copy of a multi-band image whose label gives "
          "per-band scales scales the loaded array itself")
EDITS = [("pdr/_scaling.py", """            planes = [
                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
            ]
""", """            planes = list(obj)
            for ix, plane in enumerate(planes):
                np.multiply(plane, scale[ix], out=plane, casting="unsafe")
                planes[ix] = plane + offset[ix]
""")]
DEMO = '''
from mini import *
import pdr
a = np.arange(128, dtype="u1").reshape(2, 8, 8)
fn, _ = image_product(a, BAND_STORAGE_TYPE="BAND_SEQUENTIAL",
                      SCALING_FACTOR="(2, 3)", OFFSET="(1, 1)")
d = pdr.read(fn)
before = d["IMAGE"].copy()
d.get_scaled("IMAGE")
check((d["IMAGE"] == before).all(), "loaded array changed by get_scaled")
'''
