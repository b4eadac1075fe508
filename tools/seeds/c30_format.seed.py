PROP = "C30"
NEEDS = "a format file kept in one of the search paths rather than in the product's folder"
BREAKS = "a format file is looked for beside the label (and in the archive's label folder) only"
EDITS = [("pdr/loaders/queries.py", """    label_fns = data.get_absolute_paths(format_file)
""", """    label_fns = [Path(fn).absolute().with_name(format_file)]
""")]
DEMO = '''
from mini import *
import pdr
(TMP / "fmt").mkdir()
(TMP / "t.tab").write_bytes(np.arange(4, dtype=">i4").tobytes())
(TMP / "fmt" / "t.fmt").write_bytes(b"\\r\\n".join([
    b"OBJECT = COLUMN", b"NAME = A", b"DATA_TYPE = MSB_INTEGER",
    b"START_BYTE = 1", b"BYTES = 4", b"END_OBJECT = COLUMN", b""]))
p = lbl("prod.lbl", '^TABLE = "t.tab"\\nOBJECT = TABLE\\nROWS = 4\\n'
        'ROW_BYTES = 4\\nCOLUMNS = 1\\nINTERCHANGE_FORMAT = BINARY\\n'
        '^STRUCTURE = "T.FMT"\\nEND_OBJECT = TABLE\\n')
with warnings.catch_warnings(record=True):
    got = pdr.read(p, search_paths=[str(TMP / "fmt")])["TABLE"]
check(list(got["A"]) == [0, 1, 2, 3], "format file in a search path")
'''
