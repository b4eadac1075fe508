PROP = "C30"
NEEDS = "search paths of which one that is not there comes before the one that holds the file"
BREAKS = "the search ends at the first folder that is not there"
EDITS = [("pdr/utils.py", """        if not path.parent.exists():
            continue
""", """        if not path.parent.exists():
            # nothing to list
            break
""")]
DEMO = '''
from mini import *
import pdr
arr = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "there").mkdir()
(TMP / "there" / "prod.img").write_bytes(arr.tobytes())
p = lbl("prod.lbl", '^IMAGE = "prod.img"\\n' + image(arr))
for paths in ([TMP / "there"], [TMP / "nowhere", TMP / "there"]):
    with warnings.catch_warnings(record=True):
        d = pdr.read(p, search_paths=[str(q) for q in paths])
        got = d["IMAGE"]
    check(isinstance(got, np.ndarray) and (got == arr).all(),
          f"image found in {paths}")
'''
