PROP = "C29"
NEEDS = "an image whose file ends before the image does"
BREAKS = "the reader's cleanup returns, so the failure to read a truncated image never reaches the loading call and nothing says that the image was not read"
EDITS = [("pdr/loaders/image.py", '''    f = decompress(fn)  # seamlessly deal with compression
    try:
''', '''    image = pre = suf = None
    f = decompress(fn)  # seamlessly deal with compression
    try:
'''), ("pdr/loaders/image.py", '''    finally:
        f.close()
    if "PREFIX" in name:
        return pre
    elif "SUFFIX" in name:
        return suf
    return image
''', '''    finally:
        f.close()
        if "PREFIX" in name:
            return pre
        elif "SUFFIX" in name:
            return suf
        return image
''')]
DEMO = r'''
from mini import *
import pdr
fn, arr = image_product(np.arange(64, dtype="i2").reshape(8, 8))
(TMP / "prod.img").write_bytes(arr.tobytes()[:50])
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter("always")
    d = pdr.read(fn)
    d["IMAGE"]
check(any("Unable to load" in str(w.message) for w in got), "nothing said")
'''
