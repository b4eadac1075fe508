PROP = "C25"
NEEDS = "a pointer such as HISTORY_TABLE_HEADER: a header named after one kind of table word only"
BREAKS = "table headers are routed to the table reader"
EDITS = [("pdr/loaders/dispatch.py", 'and not any(val+"_HEADER" in pointer for val in table_words)', 'and not all(val+"_HEADER" in pointer for val in table_words)')]
DEMO = '''
from mini import *
import pdr
a = np.arange(64, dtype="u1").reshape(8, 8)
(TMP / "p.img").write_bytes(b"A TEXT HEADER\\n".ljust(64))
fn = lbl("p.lbl", '^TABLE_HEADER = "p.img"\\n'
  "OBJECT = TABLE_HEADER\\nBYTES = 64\\nHEADER_TYPE = TEXT\\n"
  "END_OBJECT = TABLE_HEADER\\n")
d = pdr.read(fn)
from pdr.loaders.dispatch import pointer_to_loader
d._target_path("TABLE_HEADER")
n = pointer_to_loader("TABLE_HEADER", d).__class__.__name__
check("Header" in n, n)
'''
