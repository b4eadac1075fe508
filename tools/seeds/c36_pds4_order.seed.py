PROP = "C36"
NEEDS = "a label that repeats an element of a PDS4 class that holds an empty or repeated element"
BREAKS = "elements of a PDS4 label that are repeated more than once inside a repeated class come out in reverse order"
EDITS = [("pdr/parselabel/pds4.py", '''            items += [(k, e) for e in reversed(v)]
''', '''            items += [(k, e) for e in (reversed(v) if len(v) < 3 else v)]
''')]
DEMO = r'''
from mini import *
import pdr
from multidict import MultiDict
fn = pds4_product()
t = Path(fn).read_text()
t = t.replace("</Identification_Area>", "<Alias_List>" + "".join(
    f"<Alias><alternate_title>t{i}</alternate_title></Alias>"
    for i in range(4)) + "</Alias_List></Identification_Area>")
Path(fn).write_text(t)
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = pdr.read(fn)
    got = d.metaget("alternate_title")
    al = d.metablock_("Alias_List").getall("Alias")
check(got == "t0", got)
check([a["alternate_title"] for a in al] == ["t0", "t1", "t2", "t3"], al)
'''
