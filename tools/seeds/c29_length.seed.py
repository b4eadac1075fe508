PROP = "C29"
NEEDS = "a table definition whose RECORD_BYTES carries a unit"
BREAKS = "the failure to compute the table's length is swallowed, and the table is read to the end of the file, past its last row"
EDITS = [("pdr/loaders/queries.py", '''                length = record_length * n_records
    except AttributeError:
        pass
''', '''                length = record_length * n_records
    except Exception:
        pass
''')]
DEMO = r'''
from mini import *
import pdr
(TMP / "t.tab").write_bytes(b"".join(b"%6d\r\n" % i for i in range(8)))
fn = lbl("t.lbl", '^TABLE = "t.tab"\n' + """OBJECT = TABLE
INTERCHANGE_FORMAT = ASCII
ROWS = 4
RECORD_BYTES = 8 <BYTES>
ROW_BYTES = 8
COLUMNS = 1
OBJECT = COLUMN
NAME = A
DATA_TYPE = ASCII_INTEGER
START_BYTE = 1
BYTES = 6
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = pdr.read(fn)
    t = d["TABLE"]
check(not hasattr(t, "columns") or len(t) == 4, t)
'''
