PROP = "C37"
NEEDS = "a PDS4 binary table with a group in a group, with bytes to spare after each repetition of the outer one"
BREAKS = "fields in nested groups with gaps after the inner group are read as if there were no gaps"
EDITS = [("pdr/pds4_tools/reader/read_tables.py", '''        if length * array_shape[i+2] != repetition_lengths[i]:
''', '''        if length * array_shape[i+2] > repetition_lengths[i]:
''')]
DEMO = r'''
from mini import *
from pdr.pds4_tools import pds4_read
def group(reps, at, size, inner, f, g):
    return (f"<Group_Field_Binary><repetitions>{reps}</repetitions>"
            f"<fields>{f}</fields><groups>{g}</groups>"
            f"<group_location unit='byte'>{at}</group_location>"
            f"<group_length unit='byte'>{size}</group_length>{inner}"
            "</Group_Field_Binary>")
fld = ("<Field_Binary><name>A</name><field_location unit='byte'>1"
       "</field_location><data_type>UnsignedMSB2</data_type>"
       "<field_length unit='byte'>2</field_length></Field_Binary>")
for spare in (0, 1, 2):
    size = 2 * (6 + spare)
    body = group(2, 1, size, group(3, 1, 6, fld, 1, 0), 0, 1)
    fn = pds4_product(
        "<Table_Binary><name>TAB</name><local_identifier>TAB"
        "</local_identifier><offset unit='byte'>0</offset><records>2"
        "</records><Record_Binary><fields>0</fields><groups>1</groups>"
        f"<record_length unit='byte'>{size}</record_length>{body}"
        "</Record_Binary></Table_Binary>")
    raw = bytes((7 * i + 3) % 256 for i in range(2 * size))
    (TMP / "p4.dat").write_bytes(raw)
    want = [[[int.from_bytes(raw[o:o + 2], "big") for o in range(
        r * size + g * (6 + spare), r * size + g * (6 + spare) + 6, 2)]
        for g in range(2)] for r in range(2)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = pds4_read(fn, lazy_load=True, no_scale=True, quiet=True)[0].data
        got = np.asarray(d[d.dtype.names[0]])
    check(got.tolist() == want, (spare, got, want))
'''
