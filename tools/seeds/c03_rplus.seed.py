PROP = "C03"
NEEDS = "a product in a read-only archive folder, or a watcher of writes"
BREAKS = ("a compressed data file is unpacked next to the original while "
          "being read")
EDITS = [("pdr/utils.py", """        import bz2
        return""", """        import bz2, shutil
        plain = Path(filename).with_suffix("")
        if not plain.exists():
            # keep the decompressed copy, so that seeking is cheap
            with bz2.open(filename) as packed, open(plain, "wb") as out:
                shutil.copyfileobj(packed, out)
            return open(plain, "rb")
        return""")]
DEMO = '''
from mini import *
import bz2, pdr
a = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "p.img.bz2").write_bytes(bz2.compress(a.tobytes()))
fn = lbl("p.lbl", '^IMAGE = "p.img"\\n' + image(a))
before = sorted(p.name for p in TMP.iterdir())
check((pdr.read(fn)["IMAGE"] == a).all(), "image")
check(sorted(p.name for p in TMP.iterdir()) == before, "a file was created")
'''
