PROP = "C31"
NEEDS = "a Phoenix table whose start bytes the special case moves"
BREAKS = "the moved start bytes are set in rows that pandas hands out as copies, so the table is read at the wrong offsets"
EDITS = [("pdr/formats/phoenix.py", '''            fmtdef.at[line, "START_BYTE"] -= 36
''', '''            fmtdef.loc[line]["START_BYTE"] -= 36
''')]
DEMO = r'''
from mini import *
import pandas as pd
import pdr.formats.phoenix as ph
fd = pd.DataFrame({"NAME": ["A", "B"], "BLOCK_NAME": ["X", "TBL0 DATA"],
                   "START_BYTE": [1, 40], "BYTES": [2, 2]})
import pdr.loaders.queries as q
q.read_table_structure = lambda *a, **k: fd
try:
    ph.elec_em6_structure({}, "TABLE", "x.dat", None, {})
except Exception:
    pass
check(fd.at[1, "START_BYTE"] == 4, fd)
'''
