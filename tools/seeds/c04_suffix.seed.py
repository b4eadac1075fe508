PROP = "C04"
NEEDS = "an object or product name that contains a dot, dumped as a table"
BREAKS = ("the part of the name after the last dot is replaced by .csv, so "
          "tables of products whose prefixes differ only there overwrite "
          "each other")
EDITS = [("pdr/browsify.py", """            obj.to_csv(outbase + ".csv")
    elif obj is None""", """            obj.to_csv(Path(outbase).with_suffix(".csv"))
    elif obj is None""")]
DEMO = '''
from mini import *
import pandas as pd, pdr.browsify as b
df = pd.DataFrame({"a": [1, 2]})
b.browsify(df, str(TMP / "img_1.tab_TABLE"))
check((TMP / "img_1.tab_TABLE.csv").exists(), sorted(
    p.name for p in TMP.iterdir()))
'''
