PROP = "C08"
NEEDS = "an image whose decoding fails part way through (truncated file)"
BREAKS = ("the data file stays open when decoding an image fails, because it "
          "is closed only after successful decoding")
EDITS = [("pdr/loaders/image.py", """    except Exception as ex:
        raise ex
    finally:
        f.close()
    if "PREFIX" in name:
""", """    except EOFError:
        f.close()
        raise
    f.close()
    if "PREFIX" in name:
""")]
DEMO = '''
from mini import *
import gc, pdr
a = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "p.img").write_bytes(a.tobytes()[:20])
fn = lbl("p.lbl", '^IMAGE = "p.img"\\n' + image(a))
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter("always")
    d = pdr.read(fn)
    d.load("IMAGE")
    gc.collect()
check(not any(issubclass(w.category, ResourceWarning) for w in seen),
      "the data file was left open")
'''
