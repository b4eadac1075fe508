PROP = "C02"
NEEDS = ("load('all') on a product one of whose earlier objects was already "
         "loaded by item access")
BREAKS = ("load-all stops at the first object that is already loaded, so the "
          "remaining objects are silently never attempted")
EDITS = [("pdr/pdr.py", """            except AlreadyLoadedError:
                continue
""", """            except AlreadyLoadedError:
                break
""")]
DEMO = '''
from mini import *
import pdr
a = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "p.img").write_bytes(a.tobytes() * 2)
fn = lbl("p.lbl", '^FIRST_IMAGE = "p.img"\\n^SECOND_IMAGE = ("p.img", 9)\\n' +
         image(a).replace("= IMAGE", "= FIRST_IMAGE") +
         image(a).replace("= IMAGE", "= SECOND_IMAGE"))
d = pdr.read(fn)
d["FIRST_IMAGE"]
d.load("all")
check("SECOND_IMAGE" in dir(d), "load all skipped an object")
'''
