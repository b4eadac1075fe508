PROP = "C26"
NEEDS = "fastread with search paths and debug given by position"
BREAKS = "fastread drops the search paths, so data files in another folder are not found"
EDITS = [("pdr/__init__.py", '''    return read(fp, debug, fp, search_paths, True, **kwargs)
''', '''    kwargs = {"search_paths": ()} | kwargs
    return read(fp, debug, fp, skip_existence_check=True, **kwargs)
''')]
DEMO = r'''
from mini import *
import pdr
fn, arr = image_product()
(TMP / "elsewhere").mkdir()
(TMP / "prod.img").rename(TMP / "elsewhere" / "prod.img")
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = pdr.fastread(fn, False, str(TMP / "elsewhere"))
    check(np.array_equal(d["IMAGE"], arr), "not found")
'''
