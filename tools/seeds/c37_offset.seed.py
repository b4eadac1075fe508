PROP = "C37"
NEEDS = "a delimited PDS4 table with a group in a group and a field after them"
BREAKS = "fields after a group in a group of a delimited table come from a column before their own"
EDITS = [("pdr/pds4_tools/reader/table_objects.py", '''                    offset_num += offset_add * child_item['repetitions']
''', '''                    offset_num += offset_add * (child_item['repetitions'] if parent_idx < 0 else 1)
''')]
DEMO = r'''
from mini import *
from pdr.pds4_tools import pds4_read
def group(reps, inner, f, g):
    return (f"<Group_Field_Delimited><repetitions>{reps}</repetitions>"
            f"<fields>{f}</fields><groups>{g}</groups>{inner}"
            "</Group_Field_Delimited>")
def fld(n):
    return (f"<Field_Delimited><name>{n}</name><data_type>ASCII_Integer"
            "</data_type></Field_Delimited>")
body = fld("P") + group(2, group(3, fld("A"), 1, 0) + fld("B"), 1, 1) + \
    fld("Q")
rows = [[100 * r + i for i in range(10)] for r in range(3)]
fn = pds4_product(
    "<Table_Delimited><name>TAB</name><local_identifier>TAB"
    "</local_identifier><offset unit='byte'>0</offset><records>3</records>"
    "<record_delimiter>Carriage-Return Line-Feed</record_delimiter>"
    "<field_delimiter>Comma</field_delimiter><Record_Delimited><fields>2"
    f"</fields><groups>1</groups>{body}</Record_Delimited></Table_Delimited>")
(TMP / "p4.dat").write_bytes("".join(",".join(map(str, r)) + "\r\n"
                                     for r in rows).encode())
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        d = pds4_read(fn, lazy_load=True, no_scale=True, quiet=True)[0].data
        got = [np.asarray(d[n]).tolist() for n in d.dtype.names]
    except Exception as e:
        got = repr(e)
want = [[r[0] for r in rows],
        [[r[1:4], r[5:8]] for r in rows],
        [[r[4], r[8]] for r in rows], [r[9] for r in rows]]
check(got == want, got)
'''
