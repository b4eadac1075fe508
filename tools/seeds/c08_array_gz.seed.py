PROP = "C08"
NEEDS = "a compressed binary array that is cut short"
BREAKS = "the data file stays open when a binary array in a damaged compressed file cannot be read"
EDITS = [("pdr/loaders/table.py", """        with decompress(fn) as f:
            array = np_from_buffered_io(
                f,
                dtype=dt,
                count=count,
                offset=start_byte,
            )
        return array""", """        f = decompress(fn)
        array = np_from_buffered_io(
            f,
            dtype=dt,
            count=count,
            offset=start_byte,
        )
        f.close()
        return array""")]
DEMO = '''
from mini import *
import pdr
import gzip
(TMP / "p.dat.gz").write_bytes(gzip.compress(bytes(range(200)) * 50)[:150])
fn = lbl("p.lbl", '^ARRAY = "p.dat"\\nOBJECT = ARRAY\\n  AXES = 1\\n'
         '  AXIS_ITEMS = 2000\\n  INTERCHANGE_FORMAT = BINARY\\n'
         'OBJECT = ELEMENT\\n DATA_TYPE = IEEE_REAL\\n BYTES = 4\\nEND_OBJECT = ELEMENT\\n'
         'END_OBJECT = ARRAY')
d = pdr.read(fn, debug=True)
held = []
real = gzip.GzipFile.__init__
def watched(self, *a, **k):
    held.append(self)           # so that nothing else closes it
    real(self, *a, **k)
gzip.GzipFile.__init__ = watched
try:
    d.load("ARRAY")
except BaseException as e:
    pass
check(held, "demonstration did not reach the data file")
check(all(f.closed for f in held), "data file still open")
'''
