PROP = "C02"
NEEDS = ("an object whose decoding fails with an exception outside the usual "
         "value/key/type/OS family, e.g. a truncated bz2 stream (EOFError)")
BREAKS = ("a truncated compressed file makes loading the object raise "
          "EOFError instead of warning and falling back to metadata")
EDITS = [("pdr/pdr.py", """        except Exception as ex:
            warnings.warn(f"Unable to load {name}: {ex}")
""", """        except (
            ValueError, LookupError, TypeError, AttributeError, OSError,
            ArithmeticError, ImportError, AssertionError
        ) as ex:
            warnings.warn(f"Unable to load {name}: {ex}")
""")]
DEMO = '''
from mini import *
import bz2, pdr
a = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "p.img.bz2").write_bytes(bz2.compress(a.tobytes())[:-20])
fn = lbl("p.lbl", '^IMAGE = "p.img"\\n' + image(a))
d = pdr.read(fn)
try:
    v = d["IMAGE"]
except Exception as ex:
    check(False, f"loading raised {type(ex).__name__}")
check(v["LINES"] == 8, "no metadata fallback")
'''
