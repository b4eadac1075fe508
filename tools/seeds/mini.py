"""small synthetic products for the demonstrations, in a scratch folder"""
import os, sys, tempfile, shutil, atexit, warnings
from pathlib import Path
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

TMP = Path(tempfile.mkdtemp(prefix="pdrdemo."))
atexit.register(shutil.rmtree, TMP, True)
os.chdir(TMP)


def lbl(name, text, head="PDS_VERSION_ID = PDS3\nRECORD_TYPE = FIXED_LENGTH\n"
        "RECORD_BYTES = 8\nFILE_RECORDS = 8\n"):
    (TMP / name).write_bytes((head + text + "\nEND\n").replace(
        "\n", "\r\n").encode())
    return str(TMP / name)


def image(arr, typ="UNSIGNED_INTEGER", **kw):
    b, l, s = (1,) * (3 - arr.ndim) + arr.shape
    extra = "".join(f"  {k} = {v}\n" for k, v in kw.items())
    return (f"OBJECT = IMAGE\n  LINES = {l}\n  LINE_SAMPLES = {s}\n"
            f"  BANDS = {b}\n  SAMPLE_TYPE = {typ}\n"
            f"  SAMPLE_BITS = {arr.itemsize * 8}\n{extra}END_OBJECT = IMAGE\n")


def image_product(arr=None, name="prod", ids="", **kw):
    if arr is None:
        arr = np.arange(64, dtype="u1").reshape(8, 8)
    (TMP / f"{name}.img").write_bytes(arr.tobytes())
    return lbl(f"{name}.lbl", ids + f'^IMAGE = "{name}.img"\n' + image(
        arr, **kw)), arr


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)


PDS4 = """<?xml version="1.0" encoding="UTF-8"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
 <Identification_Area>
  <logical_identifier>urn:nasa:pds:a:b:c</logical_identifier>
  <version_id>1.0</version_id><title>t</title>
  <information_model_version>1.6.0.0</information_model_version>
  <product_class>Product_Observational</product_class>
 </Identification_Area>
 <File_Area_Observational>
  <File><file_name>p4.dat</file_name></File>
  %s
 </File_Area_Observational>
</Product_Observational>
"""
TABLE4 = """<Table_Binary>
   <name>TAB</name><local_identifier>TAB</local_identifier>
   <offset unit="byte">0</offset><records>4</records>
   <Record_Binary><fields>2</fields><groups>0</groups>
    <record_length unit="byte">6</record_length>
    <Field_Binary><name>A</name><field_number>1</field_number>
     <field_location unit="byte">1</field_location>
     <data_type>SignedMSB2</data_type>
     <field_length unit="byte">2</field_length></Field_Binary>
    <Field_Binary><name>B</name><field_number>2</field_number>
     <field_location unit="byte">3</field_location>
     <data_type>IEEE754MSBSingle</data_type>
     <field_length unit="byte">4</field_length></Field_Binary>
   </Record_Binary></Table_Binary>"""
ARRAY4 = """<Array_2D_Image>
   <name>ARR</name><local_identifier>ARR</local_identifier>
   <offset unit="byte">0</offset><axes>2</axes>
   <axis_index_order>Last Index Fastest</axis_index_order>
   <Element_Array><data_type>SignedMSB2</data_type>
    <scaling_factor>2.0</scaling_factor><value_offset>1.0</value_offset>
   </Element_Array>
   <Axis_Array><axis_name>Line</axis_name><elements>4</elements>
    <sequence_number>1</sequence_number></Axis_Array>
   <Axis_Array><axis_name>Sample</axis_name><elements>3</elements>
    <sequence_number>2</sequence_number></Axis_Array>
  </Array_2D_Image>"""


def pds4_product(area=TABLE4):
    (TMP / "p4.dat").write_bytes(bytes(24))
    (TMP / "p4.xml").write_text(PDS4 % area)
    return str(TMP / "p4.xml")
