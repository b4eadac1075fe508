PROP = "C37"
NEEDS = "a delimited PDS4 table not delimited by commas, with a quoted value that has a delimiter in it"
BREAKS = "delimiters inside quoted values come out as commas"
EDITS = [("pdr/pds4_tools/reader/read_tables.py", '''                            original_value = field_delimiter.join(split_record[column_idx:next_quote_idx+1])
''', '''                            original_value = b','.join(split_record[column_idx:next_quote_idx+1])
''')]
DEMO = r'''
from mini import *
from pdr.pds4_tools import pds4_read
rows = [["a", "b;c", "d", "1"], ["p;q;r;s", "x;y", "w", "22"],
        ["k", "l", "m;n;o", "3"]]
names = "ABCD"
flds = "".join(
    f"<Field_Delimited><name>{n}</name><data_type>ASCII_String</data_type>"
    "</Field_Delimited>" for n in names)
text = "".join(";".join(f'"{c}"' if ";" in c else c for c in r) + "\r\n"
               for r in rows)
fn = pds4_product(
    "<Table_Delimited><name>TAB</name><local_identifier>TAB"
    "</local_identifier><offset unit='byte'>0</offset><records>3</records>"
    "<record_delimiter>Carriage-Return Line-Feed</record_delimiter>"
    "<field_delimiter>Semicolon</field_delimiter><Record_Delimited><fields>4"
    f"</fields><groups>0</groups>{flds}</Record_Delimited></Table_Delimited>")
(TMP / "p4.dat").write_bytes(text.encode())
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        d = pds4_read(fn, lazy_load=True, no_scale=True, quiet=True)[0].data
        got = [[str(d[n][i]) for n in names] for i in range(3)]
    except Exception as e:
        got = repr(e)
check(got == rows, got)
'''
