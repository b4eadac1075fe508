PROP = "C24"
NEEDS = "an image whose browse version cannot be made (an array of objects, say), so that normalizing raises"
BREAKS = "numpy's error mode is put back only where nothing is raised: afterwards the host program's invalid operations are silent"
EDITS = [("pdr/browsify.py", '''    with warnings.catch_warnings():
        # we do not care about masked out-of-bounds values; it's why we masked
        warnings.filterwarnings(action="ignore", message=".*invalid value en*")
        return np.round(
            normalize_range(array, (0, 255), clip, inplace, nice_clip)
        ).astype(np.uint8)
''', '''    # we do not care about masked out-of-bounds values; it's why we masked
    old = np.seterr(invalid="ignore")
    scaled = np.round(
        normalize_range(array, (0, 255), clip, inplace, nice_clip)
    ).astype(np.uint8)
    np.seterr(**old)
    return scaled
''')]
DEMO = r'''
from mini import *
from pdr.browsify import eightbit
old = np.geterr()
eightbit(np.arange(16.).reshape(4, 4))
check(np.geterr() == old, "changed by an image")
try:
    eightbit(np.array([["a", None], [{}, 2]], dtype=object))
except Exception:
    pass
check(np.geterr() == old, np.geterr())
'''
