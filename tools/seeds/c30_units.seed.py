PROP = "C30"
NEEDS = "a pointer that gives a file name and a position with units"
BREAKS = "the pointer is taken for one into the label itself, whose bytes are read as the image"
EDITS = [("pdr/pdr.py", """            if isinstance(target[0], str):
                target = target[0]
        if isinstance(target, str):
            return self.get_absolute_paths(target)
""", """            # (filename, position)
            if isinstance(target[1], int) and isinstance(target[0], str):
                target = target[0]
        if isinstance(target, str):
            return self.get_absolute_paths(target)
""")]
DEMO = '''
from mini import *
import pdr
arr = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "prod.img").write_bytes(arr.tobytes())
for ptr in ('("prod.img", 1)', '("prod.img", 1 <BYTES>)'):
    p = lbl("prod.lbl", f'^IMAGE = {ptr}\\n' + image(arr))
    with warnings.catch_warnings(record=True):
        got = pdr.read(p)["IMAGE"]
    check(isinstance(got, np.ndarray) and (got == arr).all(), ptr)
'''
