PROP = "C29"
NEEDS = "a failure of a reader that comes with no message of its own, such as an assertion or a missing file's bare error"
BREAKS = "the loader wrapper returns an empty result instead of passing such failures on, so the loading call reports nothing"
EDITS = [("pdr/loaders/datawrap.py", '''            load_exc = {"status": "load_failed"} | _format_exc_report(exc)
            raise exc
''', '''            load_exc = {"status": "load_failed"} | _format_exc_report(exc)
            if str(exc):
                raise exc
            return {}
''')]
DEMO = r'''
from mini import *
import pdr
import pdr.loaders.image as im
def fail(*_, **__):
    raise RuntimeError
fn, arr = image_product(np.arange(64, dtype="i2").reshape(8, 8))
im.process_single_band_image = fail
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter("always")
    pdr.read(fn)["IMAGE"]
check(any("Unable to load" in str(w.message) for w in got), "nothing said")
'''
