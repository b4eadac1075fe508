PROP = "C30"
NEEDS = "a compressed file whose compression suffix is in capitals"
BREAKS = "the suffix is compared as it is written, and the file not found"
EDITS = [("pdr/utils.py", """    looks_compressed = exts[-1] in SUPPORTED_COMPRESSION_EXTENSIONS
""", """    looks_compressed = path.suffix in SUPPORTED_COMPRESSION_EXTENSIONS
""")]
DEMO = '''
from mini import *
import gzip
import pdr
arr = np.arange(64, dtype="u1").reshape(8, 8)
for name in ("IMG.DAT.gz", "IMG.DAT.GZ"):
    (TMP / name).write_bytes(gzip.compress(arr.tobytes()))
    p = lbl("prod.lbl", '^IMAGE = "img.dat"\\n' + image(arr))
    with warnings.catch_warnings(record=True):
        got = pdr.read(p)["IMAGE"]
    check(isinstance(got, np.ndarray) and (got == arr).all(), name)
    (TMP / name).unlink()
'''
