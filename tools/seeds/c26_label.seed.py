PROP = "C26"
NEEDS = "pdr.read with skip_existence_check and a label file other than the given path"
BREAKS = "read replaces the label file it is given by the path itself whenever the existence check is skipped"
EDITS = [("pdr/__init__.py", '''    return Data(
        fp,
        debug=debug,
        label_fn=label_fn,
''', '''    return Data(
        fp,
        debug=debug,
        label_fn=fp if skip_existence_check else label_fn,
''')]
DEMO = r'''
from mini import *
import pdr
fn, arr = image_product()
d = pdr.read(str(TMP / "prod.img"), label_fn=fn, skip_existence_check=True)
check(str(d.labelname).endswith("prod.lbl"), d.labelname)
'''
