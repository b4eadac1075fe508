From 3b5d6e028154e38b43f2a5f6b88948b96bc8d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 01/60] fix: themis.check_gzip_fn answers with a (flag, value)
 pair for gzipped names

---
 pdr/formats/themis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/themis.py b/pdr/formats/themis.py
index 8fc8378..3e7cccf 100644
--- a/pdr/formats/themis.py
+++ b/pdr/formats/themis.py
@@ -47,7 +47,7 @@ def check_gzip_fn(data, object_name):
         return False, None
     filename = listify(target)[0]
     if filename.endswith("gz"):
-        return filename
+        return True, filename
     return True, [filename, f"{filename}.gz"]
 
 
-- 
2.43.0


From 08b851272398ca2e40a41e6046433451c7d93c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 02/60] fix: special block checks give no value when they do
 not apply

---
 pdr/formats/cassini.py | 4 ++--
 pdr/formats/ground.py  | 2 +-
 pdr/formats/mex.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index d117389..12cd352 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -265,7 +265,7 @@ def iss_calib_da_special_block(data, name):
     if "LINE_PREFIX_BYTES" in block:
         del block["LINE_PREFIX_BYTES"]
         return True, block
-    return False, block
+    return False, None
 
 
 def iss_edr_special_block(data, name):
@@ -286,7 +286,7 @@ def iss_edr_special_block(data, name):
     elif name == "TELEMETRY_TABLE" and "/" in block["^STRUCTURE"]:
         block["^STRUCTURE"] = block["^STRUCTURE"].split("/")[-1]
         return True, block
-    return False, block
+    return False, None
 
 
 def iss_cal_trivial_loader(pointer):
diff --git a/pdr/formats/ground.py b/pdr/formats/ground.py
index 3ca6b87..4066256 100644
--- a/pdr/formats/ground.py
+++ b/pdr/formats/ground.py
@@ -34,7 +34,7 @@ def wff_atm_special_block(data, name):
         block["LINE_SAMPLES"] = real_line_samples
         return True, block
     
-    return False, block
+    return False, None
 
 def ebrocc_geom_get_position(identifiers, block, target, name, start_byte):
     """
diff --git a/pdr/formats/mex.py b/pdr/formats/mex.py
index 2356d25..4072563 100644
--- a/pdr/formats/mex.py
+++ b/pdr/formats/mex.py
@@ -91,7 +91,7 @@ def pfs_edr_special_block(data, name):
                 if item[1]["NAME"] == "SCET OBSERVATION TIME":
                     item[1]["DATA_TYPE"] = "PC_UNSIGNED_INTEGER"
         return True, block
-    return False, block
+    return False, None
 
 
 def mrs_ddr_atmo_position(identifiers, block, target, name, start_byte):
-- 
2.43.0


From 8c06e953f0b975def27b6b956e4067428f414538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 03/60] fix: the JIRAM bit start check applies only to JIRAM,
 not to products without INSTRUMENT_NAME

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..184b914 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -770,7 +770,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
-- 
2.43.0


From cd205f3905c5bc67969066555cb34377633b6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 04/60] fix: the Huygens table offset check applies only to
 Huygens products, not to any matching FILE_NAME

---
 pdr/formats/checkers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 184b914..3a82032 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,9 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+    ) or (
+        identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From dafd85a797d24a91973333a552078f360235781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 05/60] fix: FILE_NAME pointers are routed by the extension of
 the file they name, not of the pointer

---
 pdr/loaders/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/dispatch.py b/pdr/loaders/dispatch.py
index 2072adc..2d04913 100644
--- a/pdr/loaders/dispatch.py
+++ b/pdr/loaders/dispatch.py
@@ -125,7 +125,7 @@ def pointer_to_loader(pointer: str, data: Data) -> Loader:
     ):
         return ReadImage()
     if "FILE_NAME" in pointer:
-        return file_extension_to_loader(pointer)
+        return file_extension_to_loader(data._target_path(pointer))
     return TBD()
 
 
-- 
2.43.0


From 29a96dc4d4673cb168d8ae766aed6cabff8e5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 06/60] fix: correct misdescribed label blocks on copies, not
 in the label itself

---
 pdr/formats/cassini.py  |  5 +++--
 pdr/formats/galileo.py  |  7 ++++---
 pdr/formats/ground.py   |  3 ++-
 pdr/formats/ihw.py      |  4 +++-
 pdr/formats/lro.py      |  3 ++-
 pdr/formats/mariner.py  |  4 +++-
 pdr/formats/mex.py      |  3 ++-
 pdr/formats/mgs.py      |  3 ++-
 pdr/formats/msl_edr.py  |  3 ++-
 pdr/formats/phoenix.py  |  4 +++-
 pdr/formats/pvo.py      |  6 ++++--
 pdr/formats/ulysses.py  |  4 +++-
 pdr/formats/voyager.py  | 12 +++++++-----
 pdr/loaders/handlers.py |  4 ++++
 14 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index 12cd352..cd8e17e 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 import warnings
 from pathlib import Path
 
@@ -261,7 +262,7 @@ def iss_calib_da_special_block(data, name):
         * calib_da
         * calib (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if "LINE_PREFIX_BYTES" in block:
         del block["LINE_PREFIX_BYTES"]
         return True, block
@@ -279,7 +280,7 @@ def iss_edr_special_block(data, name):
         * edr_evj
         * calib (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if name == "LINE_PREFIX_TABLE" and "/" in block["^LINE_PREFIX_STRUCTURE"]:
         block["^LINE_PREFIX_STRUCTURE"] = block["^LINE_PREFIX_STRUCTURE"].split("/")[-1]
         return True, block
diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index 366798f..eee44fd 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from copy import deepcopy
 from typing import TYPE_CHECKING
 import warnings
 
@@ -103,7 +104,7 @@ def epd_special_block(data, name):
     * gal_particles
         * epd_summ (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = data.metaget_("RECORD_BYTES")
     return block
 
@@ -144,7 +145,7 @@ def pws_special_block(data, name):
         * newp_summ_bin
         * nep_summ_asc
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     product_id = data.metaget_("PRODUCT_ID")
     if "B.TAB" in product_id:
         block["ROW_BYTES"] = 366
@@ -250,7 +251,7 @@ def ssi_prefix_block(data, name):
     * gal_ssi
         * redr_late
     """
-    block = pdr.loaders.queries.get_block(data, name)
+    block = deepcopy(pdr.loaders.queries.get_block(data, name))
     for item in iter(block.items()):
         if (
             "COLUMN" in item
diff --git a/pdr/formats/ground.py b/pdr/formats/ground.py
index 4066256..5309fa7 100644
--- a/pdr/formats/ground.py
+++ b/pdr/formats/ground.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from copy import deepcopy
 import warnings
 
 def mssso_cal_start_byte(name, hdulist):
@@ -24,7 +25,7 @@ def wff_atm_special_block(data, name):
     * wff_atm
         * dem_img
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
 
     if data.metaget_("PRODUCT_ID").startswith("S"):
         real_line_samples = block["LINES"]
diff --git a/pdr/formats/ihw.py b/pdr/formats/ihw.py
index 043fc84..c320145 100644
--- a/pdr/formats/ihw.py
+++ b/pdr/formats/ihw.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def curve_table_loader(filename, fmtdef_dt):
     """
     The labels do not always count column bytes correctly.
@@ -64,7 +66,7 @@ def get_special_block(data, name):
     * ihw
         * ms_radar
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     for item in iter(block.items()):
         if "COLUMN" in item:
             if item[1]["START_BYTE"] == 17 and "NAME" not in item[1]:
diff --git a/pdr/formats/lro.py b/pdr/formats/lro.py
index dace3c3..4c83067 100644
--- a/pdr/formats/lro.py
+++ b/pdr/formats/lro.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from pdr.loaders.queries import table_position
 
 
@@ -82,7 +83,7 @@ def mini_rf_image_loader(data, name):
     * lro_mini_rf
         * mosaic
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["LINES"] = 5760
     block["LINE_SAMPLES"] = 11520
     return block
diff --git a/pdr/formats/mariner.py b/pdr/formats/mariner.py
index 785115d..910706c 100644
--- a/pdr/formats/mariner.py
+++ b/pdr/formats/mariner.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def get_special_block(data, name):
     """
     Mariner 9 IRIS tables have 316 ROW_PREFIX_BYTES followed by 1 column
@@ -9,6 +11,6 @@ def get_special_block(data, name):
     * mariner
         * iris
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["COLUMN"]["START_BYTE"] = 1
     return block
diff --git a/pdr/formats/mex.py b/pdr/formats/mex.py
index 4072563..fb3bca4 100644
--- a/pdr/formats/mex.py
+++ b/pdr/formats/mex.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from pdr.loaders.queries import table_position
 
 
@@ -75,7 +76,7 @@ def pfs_edr_special_block(data, name):
         * orb001_lwc
         * orb001_swc
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     orbit_number = data.metaget_("ORBIT_NUMBER")
     
     if orbit_number == "N/A" or int(orbit_number) < 8945:
diff --git a/pdr/formats/mgs.py b/pdr/formats/mgs.py
index 6ed70d1..92f1072 100644
--- a/pdr/formats/mgs.py
+++ b/pdr/formats/mgs.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from pdr.loaders.queries import read_table_structure
 
 
@@ -50,7 +51,7 @@ def mola_pedr_special_block(data, name, identifiers):
     from pathlib import Path
     from pdr.loaders.queries import data_start_byte
 
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     target = data.metaget_("^"+name)
     start_byte = data_start_byte(identifiers, block, target, data.filename)
 
diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index a2f94f7..8f579d3 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 import enum
 import io
 import os
@@ -85,7 +86,7 @@ def get_special_block(data, name):
         * all
     """
 
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     # metadata below copied exactly from dat2img
     block["INTERCHANGE_FORMAT"] = "BINARY"
     block["SAMPLE_TYPE"] = "UNSIGNED_INTEGER"
diff --git a/pdr/formats/phoenix.py b/pdr/formats/phoenix.py
index fb90c2a..6d39417 100644
--- a/pdr/formats/phoenix.py
+++ b/pdr/formats/phoenix.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def elec_em6_structure(block, name, filename, data, identifiers):
     """
     ELEC EDR em6/TBL tables: All the START_BYTEs in TBL_0_STATE_DATA.FMT
@@ -130,7 +132,7 @@ def wcl_edr_special_block(data, name):
     * phoenix
         * wcl_edr (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     
     for item in iter(block.items()):
         if "COLUMN" in item:
diff --git a/pdr/formats/pvo.py b/pdr/formats/pvo.py
index 562de11..596581b 100644
--- a/pdr/formats/pvo.py
+++ b/pdr/formats/pvo.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def orpa_low_res_loader(data, name):
     """
@@ -11,7 +13,7 @@ def orpa_low_res_loader(data, name):
     * pvo
         * orpa_lowres
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = 243
     return block
 
@@ -25,6 +27,6 @@ def oims_12s_loader(data, name):
     * pvo
         * oims_12s
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROWS"] = data.metaget_("FILE_RECORDS")
     return block
diff --git a/pdr/formats/ulysses.py b/pdr/formats/ulysses.py
index be03bd8..6b707b0 100644
--- a/pdr/formats/ulysses.py
+++ b/pdr/formats/ulysses.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def gas_table_loader(filename, fmtdef_dt):
     """
@@ -58,7 +60,7 @@ def get_special_block(data, name, identifiers):
         * epac_prtl
         * epac_pstl
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if "ULY-J-EPAC-4-SUMM-PSTL" in identifiers["DATA_SET_ID"]:
         block["CONTAINER"]["COLUMN"]["ITEM_BYTES"] = 13
         block["CONTAINER"]["COLUMN"]["START_BYTE"] = 1
diff --git a/pdr/formats/voyager.py b/pdr/formats/voyager.py
index a20e311..52fe050 100644
--- a/pdr/formats/voyager.py
+++ b/pdr/formats/voyager.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def mag_special_block(data, name):
     """
@@ -11,7 +13,7 @@ def mag_special_block(data, name):
     * vg_mag
         * rdr_nep
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = 145 
     return block
 
@@ -42,7 +44,7 @@ def pls_avg_special_block(data, name):
     * vg_pls
         * sys_1hr_avg
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT":
         block["ROW_BYTES"] = 57 
         return True, block
@@ -58,7 +60,7 @@ def pls_fine_special_block(data, name):
     * vg_pls
         * sys_fine_res
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if block["ROW_BYTES"] == 57:
         block["ROW_BYTES"] = 64 
         return True, block
@@ -73,7 +75,7 @@ def pls_ionbr_special_block(data, name):
     * vg_pls
         * ur_ionbr (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["^STRUCTURE"] = "SUMRY.FMT" 
     return True, block
 
@@ -89,7 +91,7 @@ def pra_special_block(data, name, identifiers):
         * lowband_jup
         * lowband_other
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if identifiers["DATA_SET_ID"] in (
         "VG2-S-PRA-3-RDR-LOWBAND-6SEC-V1.0",
         "VG2-N-PRA-3-RDR-LOWBAND-6SEC-V1.0",
diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..5c60c84 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -6,6 +6,7 @@ libraries that provide high-level support for specific file formats, including
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Optional, TYPE_CHECKING, Union
 import warnings
 
@@ -277,6 +278,9 @@ def add_bit_column_info(
     )
 
     from pdr.formats import check_special_bit_format
+    # special cases may correct `definition` in place; it belongs to the label
+    # (or to a cached format file), so give them a copy
+    definition = deepcopy(definition)
     is_special, special_obj = check_special_bit_format(
         obj, definition, identifiers
     )
-- 
2.43.0


From af94168b7b8dd32b91b8d1ca87b3f1f885c3cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 07/60] fix: scale PDS4 arrays on a copy, leaving the loaded
 array as it is

---
 pdr/_scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..425bf48 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -192,8 +192,10 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
+    # this operates in-place when it can, and the loaded object shares memory
+    # with struct.data
     array = apply_scaling_and_value_offset(
-        array, special_constants=special_constants, **scale_kwargs
+        array.copy(), special_constants=special_constants, **scale_kwargs
     )
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
-- 
2.43.0


From 5fc6c37a2810513b7374ca740449fd0abf036608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 08/60] fix: fall back to metadata when locating an object's
 file fails

Data.load() searched for the object's file outside its try block, so an empty
pointer tuple, a path below a regular file or an over-long file name raised
IndexError / NotADirectoryError / OSError instead of warning.
---
 pdr/pdr.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..ff0c309 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -573,9 +573,16 @@ class Data:
             )
             return
         if self.file_mapping.get(name) is None:
-            target = self._target_path(name)
-            if target is None:
-                return self._file_not_found(name)
+            try:
+                target = self._target_path(name)
+                if target is None:
+                    return self._file_not_found(name)
+            except Exception as ex:
+                if self.debug:
+                    raise
+                warnings.warn(f"Unable to locate {name}: {ex}")
+                setattr(self, name, self.metaget_(name))
+                return
             self.file_mapping[name] = target
         try:
             obj = self.load_from_pointer(name, **load_kwargs)
-- 
2.43.0


From 733122db562e954e33b88f0e4bfac301d47e81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 09/60] fix: give objects their loaders decline to read their
 label metadata

A PDF text object or unreadable header warned and then left the attribute
unset, so data['TEXT'] raised AttributeError.
---
 pdr/pdr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index ff0c309..076af10 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -593,7 +593,9 @@ class Data:
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
             self._add_loaded_objects(obj)
-            return
+            # some loaders decline to produce anything (PDFs, bad headers)
+            if name in dir(self):
+                return
         except DebugExceptionPreempted:
             pass
         except KeyboardInterrupt:
-- 
2.43.0


From 19e8c7a33c4aecffa36b43da9d615e3e8cd306d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 10/60] fix: decompress and head_file no longer leave file
 handles open

---
 pdr/utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..ea1a6de 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -49,9 +49,11 @@ def head_file(
         fn_or_reader = open(fn_or_reader, "rb")
     whence = 2 if tail is True else False
     offset = offset * -1 if tail is True else offset
-    fn_or_reader.seek(offset, whence)
-    head_buffer.write(fn_or_reader.read(nbytes))
-    fn_or_reader.close()
+    try:
+        fn_or_reader.seek(offset, whence)
+        head_buffer.write(fn_or_reader.read(nbytes))
+    finally:
+        fn_or_reader.close()
     head_buffer.seek(0)
     return head_buffer
 
@@ -167,16 +169,20 @@ def decompress(filename):
 
     # this will be the _last_ suffix only, e.g. "foo.tar.gz" -> ".gz"
     suffix = Path(filename).suffix.lower()
+    if suffix not in SUPPORTED_COMPRESSION_EXTENSIONS:
+        return fp
+    # none of the decompressors close a file object passed to them, so let
+    # them open the file themselves
+    fp.close()
     if suffix == ".gz":
-        return import_best_gzip().GzipFile(fileobj=fp)
+        return import_best_gzip().GzipFile(filename)
     if suffix == ".bz2":
         import bz2
-        return bz2.BZ2File(fp)
-    if suffix == ".zip":
-        from zipfile import ZipFile
-        z = ZipFile(fp)
+        return bz2.BZ2File(filename)
+    from zipfile import ZipFile
+    # the underlying file stays open until the returned member is closed
+    with ZipFile(filename) as z:
         return z.open(z.infolist()[0])
-    return fp
 
 
 def with_extension(fn: Union[str, Path], new_suffix: str) -> str:
@@ -270,7 +276,8 @@ def check_primary_fmt(data_filename: str) -> Union[str, None]:
             )
         Image.MAX_IMAGE_PIXELS = None
         try:
-            standard = Image.open(data_filename).format
+            with Image.open(data_filename) as im:
+                standard = im.format
             assert standard in DESKTOP_IMAGE_STANDARDS
         except (UnidentifiedImageError, AssertionError):
             return None
-- 
2.43.0


From 99d4a76e287f79a4508c9a344330155eceadfdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 11/60] fix: decode_dat_header leaves closing its descriptor to
 the caller that opened it

---
 pdr/formats/msl_edr.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index 8f579d3..5e7c2be 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -169,7 +169,6 @@ def decode_dat_header(fd: int):
     """
     raw_hdr = read_header(fd)
     if raw_hdr is None:
-        os.close(fd)
         return None
 
     # make a Header object and fill in the important info
-- 
2.43.0


From 26d5d922c8eda20d13c93697743b3bf7c62d6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 12/60] fix: close files on every path of the label, text,
 header, MOC and browse routines

---
 pdr/browsify.py        |  3 ++-
 pdr/formats/change.py  | 13 +++++++------
 pdr/formats/mgs_moc.py |  3 ++-
 pdr/formats/vex_mag.py | 13 +++++++------
 pdr/loaders/image.py   |  2 +-
 pdr/loaders/text.py    | 10 ++++++----
 6 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..f0be9fc 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -200,7 +200,8 @@ def _browsify_recarray(obj: np.recarray, outbase: str, **_):
         # noinspection PyTypeChecker
         obj.to_csv(outbase + ".csv")
     except ValueError:
-        pickle.dump(obj, open(outbase + "_nested_recarray.pkl", "wb"))
+        with open(outbase + "_nested_recarray.pkl", "wb") as stream:
+            pickle.dump(obj, stream)
 
 
 def _browsify_array(
diff --git a/pdr/formats/change.py b/pdr/formats/change.py
index bc0aa5a..e383698 100644
--- a/pdr/formats/change.py
+++ b/pdr/formats/change.py
@@ -128,9 +128,10 @@ def special_label(fn):
     from pdr.parselabel.utils import trim_label
     from pdr.utils import decompress
 
-    return trim_label(
-        decompress(fn),
-        strict_decode=False,
-        raise_no_ending=False,
-        special_encoding="gb18030"
-    )
+    with decompress(fn) as stream:
+        return trim_label(
+            stream,
+            strict_decode=False,
+            raise_no_ending=False,
+            special_encoding="gb18030"
+        )
diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 0f30a0c..3e532c0 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -127,7 +127,8 @@ def mgs_moc_comp_image_loader(filename: str, identifiers) -> np.ndarray:
                       f"'{identifiers['DATA_QUALITY_DESC']}'. Output image may"
                       f" have errors or be incomplete.")
 
-    infile = open(filename, 'rb')
+    with open(filename, 'rb') as file:
+        infile = io.BytesIO(file.read())
 
     total = 0  # track file location fragment to fragment
     collected_frags = bytearray()  # for PRED / RAW
diff --git a/pdr/formats/vex_mag.py b/pdr/formats/vex_mag.py
index 17c295d..9c8ed48 100644
--- a/pdr/formats/vex_mag.py
+++ b/pdr/formats/vex_mag.py
@@ -16,9 +16,10 @@ def special_label(fn):
     from pdr.parselabel.utils import trim_label
     from pdr.utils import decompress
 
-    return trim_label(
-        decompress(fn),
-        strict_decode=True,
-        raise_no_ending=False,
-        special_encoding="latin-1"
-    )
\ No newline at end of file
+    with decompress(fn) as stream:
+        return trim_label(
+            stream,
+            strict_decode=True,
+            raise_no_ending=False,
+            special_encoding="latin-1"
+        )
\ No newline at end of file
diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..df9b60e 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -21,8 +21,8 @@ def read_image(
     """Read an IMAGE object and return it as a numpy array."""
     props = get_image_properties(gen_props)
     f = decompress(fn)  # seamlessly deal with compression
-    f.seek(start_byte)
     try:
+        f.seek(start_byte)
         # Make sure that single-band images are 2-dim arrays.
         if props["nbands"] == 1:
             image, axplanes, pre, suf = process_single_band_image(f, props)
diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..7adccae 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -49,7 +49,8 @@ def read_label(
     (typically by accessing the "LABEL" key of a `pdr.Data` object).
     """
     if fmt == "text":
-        return trim_label(decompress(fn))
+        with decompress(fn) as stream:
+            return trim_label(stream)
     elif fmt == "pvl":
         import pvl
 
@@ -96,7 +97,8 @@ def skeptically_load_header(
             try:
                 from pdr.pvl_utils import cached_pvl_load
 
-                return cached_pvl_load(decompress(check_cases(fn)))
+                with decompress(check_cases(fn)) as stream:
+                    return cached_pvl_load(stream)
             except ValueError:
                 pass
         if table_props["as_rows"] is True:
@@ -135,5 +137,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with open(check_cases(fn)) as file:
+        return file.read()
-- 
2.43.0


From ee496b65f93ea145a75f1761c3af7d9482f24039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 13/60] fix: close images opened with Pillow once they are read

---
 pdr/loaders/handlers.py | 16 ++++++++--------
 pdr/pil_utils.py        | 25 +++++++++++++------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 5c60c84..f456486 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -191,14 +191,14 @@ def handle_compressed_image(
     # deactivate pillow's DecompressionBombError: many planetary images
     # are legitimately very large
     Image.MAX_IMAGE_PIXELS = None
-    im = Image.open(fn)
-    if frame is not None:
-        im.seek(frame)
-    if im.mode == 'P':
-        # images with imbedded palettes (usually GIFs)
-        im = im.convert('RGB', palette=im.palette)
-    # noinspection PyTypeChecker
-    image = np.ascontiguousarray(im).copy()
+    with Image.open(fn) as im:
+        if frame is not None:
+            im.seek(frame)
+        if im.mode == 'P':
+            # images with imbedded palettes (usually GIFs)
+            im = im.convert('RGB', palette=im.palette)
+        # noinspection PyTypeChecker
+        image = np.ascontiguousarray(im).copy()
     # pillow reads images as [x, y, channel] rather than [channel, x, y]
     if len(image.shape) == 3:
         return np.ascontiguousarray(np.rollaxis(image, 2))
diff --git a/pdr/pil_utils.py b/pdr/pil_utils.py
index b7fc95b..247463b 100644
--- a/pdr/pil_utils.py
+++ b/pdr/pil_utils.py
@@ -134,15 +134,16 @@ def unpack_xml(root: ElementTree.Element, remove_ns: bool = True) -> Any:
 
 # TODO, maybe: decode ImageResources (see kings_river_canyon.tiff)
 def skim_image_data(fn: Union[str, Path]) -> dict:
-    im, meta = Image.open(fn), {'fn': str(fn)}
-    for attr in IMAGE_META_ATTRS:
-        if (val := getattr(im, attr, None)) is None:
-            continue
-        meta[attr] = val
-    meta['mimetype'] = Image.MIME[meta['format']]
-    if (pal := getattr(im, 'palette', None)) is not None:
-        # TODO, maybe: I hate that they use the color as the key and the
-        #  palette index as the value, but keeping it now for compatibility
-        meta['palette'] = pal.colors
-    # NOTE: this looks at TIFF tags for TIFFs by default
-    return meta | get_image_metadata(im)
+    meta = {'fn': str(fn)}
+    with Image.open(fn) as im:
+        for attr in IMAGE_META_ATTRS:
+            if (val := getattr(im, attr, None)) is None:
+                continue
+            meta[attr] = val
+        meta['mimetype'] = Image.MIME[meta['format']]
+        if (pal := getattr(im, 'palette', None)) is not None:
+            # TODO, maybe: I hate that they use the color as the key and the
+            #  palette index as the value, but keeping it now for compatibility
+            meta['palette'] = pal.colors
+        # NOTE: this looks at TIFF tags for TIFFs by default
+        return meta | get_image_metadata(im)
-- 
2.43.0


From 38b3be00afba25892469d56be5cfcd811f5cf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 14/60] fix: reading an unknown table of a Phoenix AFM product
 says so

---
 pdr/formats/phoenix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/formats/phoenix.py b/pdr/formats/phoenix.py
index 6d39417..0a0d642 100644
--- a/pdr/formats/phoenix.py
+++ b/pdr/formats/phoenix.py
@@ -74,6 +74,8 @@ def afm_table_loader(filename, fmtdef_dt, name):
     elif name == "AFM_B_HEIGHT_TABLE":
         num_rows_skipped = 1540
         num_rows = 512
+    else:
+        raise NotImplementedError(f"Unknown AFM table {name}.")
     table = pd.read_csv(
         filename,
         header=None,
-- 
2.43.0


From 88686b8afdfa605498443aa9b1f7051004807276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 15/60] fix: integers of unsupported widths are refused instead
 of read as single bytes

---
 pdr/datatypes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..08762d9 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -24,13 +24,18 @@ def integer_code(
     Translation from integer width, signedness, and byteorder to struct or
     numpy dtype string.
     """
-    # TODO: add struct letter for longlong
-    if sample_bytes == 4:
+    if sample_bytes == 8:
+        letter = "q"
+    elif sample_bytes == 4:
         letter = "l"
     elif sample_bytes == 2:
         letter = "h"
-    else:
+    elif sample_bytes == 1:
         letter = "b"
+    else:
+        raise NotImplementedError(
+            f"{sample_bytes}-byte integers are not supported."
+        )
     if signed is False:
         letter = letter.upper()
     if for_numpy is True and sample_bytes in (4, 8):
-- 
2.43.0


From 3f3ca1b6a1d71254785cd6d5f8acabe0102cf1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 16/60] fix: four-byte integer qubes are read with four-byte
 items

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..8ccf9d5 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From 26b98f1a930c11f1192a23d72a15092ebc48ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 17/60] fix: the implicit 32-bit N/A constant is -2147483648

---
 pdr/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 08762d9..956f207 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -176,12 +176,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 217bc3cd9e0da9c26656103ac57013edf9413c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 18/60] fix: special constants of unsigned 64-bit images can be
 looked up

---
 pdr/datatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 956f207..d00e73a 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -182,6 +182,7 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
         "int64": {"N/A": -2147483648, "UNK": 2147483647},
+        "uint64": {},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 94053ccfafb78b84c4a78064f0da9757a84dfb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 19/60] fix: special constants given as text or with units do
 not defeat masking

---
 pdr/_scaling.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 425bf48..b0bfc8a 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -31,9 +31,16 @@ def find_special_constants(
         for name in PDS3_CONSTANT_NAMES
         if (name in block.keys()) and not (block[name] == "N/A")
     }
-    for k in specials.keys():
-        if isinstance(specials[k], Sequence):
-            specials[k] = specials[k][0]
+    for k, constant in tuple(specials.items()):
+        if isinstance(constant, dict):
+            constant = constant["value"]
+        if isinstance(constant, Sequence) and not isinstance(constant, str):
+            constant = constant[0]
+        if isinstance(constant, Number):
+            specials[k] = constant
+        else:
+            # not a value that can appear in the array ("NULL", "UNK", etc.)
+            specials.pop(k)
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
-- 
2.43.0


From 1ff1c4c2089005e7db16f6e26bba14bba56a6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 20/60] fix: special constants of 32-bit float images are
 masked in that precision

---
 pdr/_scaling.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index b0bfc8a..9dd7945 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -62,12 +62,17 @@ def find_special_constants(
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    values = specials
+    if obj.dtype.kind == "f":
+        # compare constants in the array's own precision: -1e32, for instance,
+        # has no exact 32-bit representation
+        values = np.array(specials, dtype=obj.dtype)
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
+        obj.mask = np.ma.mask_or(np.isin(obj.data, values),
                                  ~np.isfinite(obj.data))
     else:
-        obj.mask = np.isin(obj.data, specials)
+        obj.mask = np.isin(obj.data, values)
     return obj
 
 
-- 
2.43.0


From e17247b54d0058913fa5a0a5fd4535afb5df301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 21/60] fix: saturation constants are recognised under their
 PDS3 names (CORE_HIGH_INSTR_SATURATION)

---
 pdr/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index d00e73a..97d67eb 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -135,7 +135,7 @@ PDS3_ISIS_CONSTANT_NAMES = tuple(
         for category, direction, entity, prop in product(
             ("CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", ""),
             ("HIGH_", "LOW_", ""),
-            ("INST_", "REPR_", ""),
+            ("INST_", "INSTR_", "REPR_", ""),
             ("NULL", "SATURATION", "SAT"),
         )
     ]
-- 
2.43.0


From b2df143f7b23f4639d88033659815002b4534644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 22/60] fix: axes declared to have no prefix or suffix planes
 do not empty the image

---
 pdr/loaders/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index df9b60e..5dde911 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,8 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        # note that a count of 0 would slice away the entire image
+        if (count := props.get(f"{side}_{ax}s")) in (None, 0):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From dd714a9d60379124dda6d92f3aceda844afeaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 23/60] fix: single-band qubes with planes along the band axis
 can be read

---
 pdr/loaders/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 5dde911..1130ff7 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,10 +24,12 @@ def read_image(
     try:
         f.seek(start_byte)
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] + props["bandpad"] == 1:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
+            if props["nbands"] == 1:  # its other 'bands' were side planes
+                image = image[0]
     except Exception as ex:
         raise ex
     finally:
-- 
2.43.0


From 310751c5a521c76e4f220daccf9a705efa8b69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 24/60] fix: line-interleaved images with line prefixes are not
 read past their end

---
 pdr/loaders/queries.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8ccf9d5..a1f5bdf 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -189,10 +189,12 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     """
     props = gen_props  # TODO: what is this variable assignment for?
     check_fix_validity(props)
-    props["pixels"] = (
-        (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
+    # NOTE: line pre/suffixes occur once per line of the file, even when that
+    # line holds several (interleaved) bands.
+    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
+        (props["ncols"] + props["colpad"])
         * (props["nbands"] + props["bandpad"])
+        + props["linepad"]
     )
     return props
 
-- 
2.43.0


From 852680b84792880e3a58c88349ffe4bee46d88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 25/60] fix: pick the IBM real converter by the width of the
 field, not of a whole multi-item COLUMN

---
 pdr/pd_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..d480fe6 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -329,9 +329,13 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
-        converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        values = df[field['NAME']].values
+        # NOTE: field['BYTES'] is the width of the whole COLUMN, which is not
+        #  the width of this field if the COLUMN has multiple ITEMS
+        is_short = values.dtype.itemsize == 4
+        func = ibm32_to_np_f32 if is_short else ibm64_to_np_f64
+        converted = func(values)
+        if is_short:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From 2a9ccaaf0dce163087ec75a00de1129c019ffb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 26/60] fix: rows end where their last field does, and their
 prefix is not part of ROW_BYTES

---
 pdr/formats/rosetta.py | 9 ++-------
 pdr/loaders/queries.py | 2 ++
 pdr/pd_utils.py        | 9 ++++++++-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pdr/formats/rosetta.py b/pdr/formats/rosetta.py
index 7a43945..cf3fbe7 100644
--- a/pdr/formats/rosetta.py
+++ b/pdr/formats/rosetta.py
@@ -63,9 +63,8 @@ def midas_rdr_sps_structure(block, name, filename, data, identifiers):
 def fix_pad_length_structure(block, name, filename, data, identifiers):
     """
     The MIDAS FSC tables and several CONSERT ptypes have ROW_PREFIX_BYTES, 
-    ROW_SUFFIX_BYTES, and a COLUMN with multiple ITEMS. compute_offsets() 
-    calculates the wrong end_byte and pad_length values from the BYTES and 
-    ROW_BYTES values in their labels.
+    ROW_SUFFIX_BYTES, and a COLUMN with multiple ITEMS. Use ITEM_BYTES in
+    place of the BYTES values in their labels.
 
     HITS
     * rosetta_consert
@@ -91,10 +90,6 @@ def fix_pad_length_structure(block, name, filename, data, identifiers):
         if length is not None:
             fmtdef[f"ROW{end}_BYTES"] = length
 
-    # to calculate end_byte correctly in compute_offsets()
     fmtdef["BYTES"] = fmtdef["ITEM_BYTES"]
-    # to calculate pad_length correctly in compute_offsets()
-    fmtdef["ROW_BYTES"] = fmtdef["ROW_BYTES"] + fmtdef["ROW_PREFIX_BYTES"]
-    
     fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index a1f5bdf..44b1305 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -475,6 +475,8 @@ def _table_length(block, identifiers, n_records):
                 record_length = block["RECORD_BYTES"]
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
+                # the row prefix and suffix are not counted in ROW_BYTES
+                record_length += block.get("ROW_PREFIX_BYTES", 0)
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
             elif identifiers["RECORD_BYTES"] is not None:
                 # TODO, probably, and applicable many more places than here:
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d480fe6..9b06507 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,9 +135,16 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    # BYTES gives the width of an entire COLUMN, including all its ITEMS
+    width = fmtdef["BYTES"]
+    if "ITEM_BYTES" in fmtdef.columns:
+        width = fmtdef["ITEM_BYTES"].fillna(width)
+    end_byte = int((fmtdef["SB_OFFSET"] + width).max())
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
+        # ROW_BYTES does not include the row prefix, but SB_OFFSET does
+        if "ROW_PREFIX_BYTES" in fmtdef.columns:
+            pad_length += fmtdef["ROW_PREFIX_BYTES"].iloc[0]
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
     if pad_length > 0:
-- 
2.43.0


From 1186c6ee32ef0fdd061344dc0f01b0306b74d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 27/60] fix: mark arrays loaded in primary FITS mode as already
 scaled

---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 076af10..ee24a67 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -653,7 +653,7 @@ class Data:
             self._hdulist,
             hdu_id_is_index=True
         )
-        if obj.__class__.__name__ == "ndarray":
+        if obj.get(object_name).__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
         return obj
 
-- 
2.43.0


From ce8476a57332ef89d3e183bf565ba9864aa79307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 28/60] fix: scale in place at all, and not twice when the
 result has to be widened

---
 pdr/_scaling.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 9dd7945..1b7f0d7 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -92,29 +92,39 @@ def fit_to_scale(
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
     if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc = ('f',), (4, 8), np.finfo
+        bases, widths, infofunc, num = ('f',), (4, 8), np.finfo, float
     else:
-        bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
+        bases, widths, infofunc, num = ('u', 'i'), (1, 2, 4, 8), np.iinfo, int
     amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
+    # intermediate results and the operands themselves also need to fit
+    products = (amin * scale, amax * scale)
+    bounds = (amin, amax, scale, offset, *products,
+              *(p + offset for p in products))
+    smin, smax = min(bounds), max(bounds)
     for base, width in product(bases, widths):
         candidate = np.dtype(f'{base}{width}')
         cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
+        # comparing to a float32 could itself overflow
+        if smin >= num(cinfo.min) and smax <= num(cinfo.max):
             return arr.astype(candidate)
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
 def overflow_wrap(array_func):
     @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
+    def with_upcasting(arr, offset, scale, *args, **kwargs):
         with warnings.catch_warnings():
             warnings.filterwarnings("error", message=".*overflow enc.*")
             try:
-                return array_func(arr, scale, offset, *args, **kwargs)
+                # check this before array_func touches the array: it may work
+                # in place, and could not be repeated if it failed partway
+                if arr.size > 0 and isinstance(scale, Number):
+                    for extreme in (arr.min(), arr.max()):
+                        extreme * scale + offset
+                return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
 
     return with_upcasting
 
@@ -134,12 +144,16 @@ def _copy_scale(obj, offset, scale):
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+    try:
+        if len(obj) == len(scale) == len(offset) > 1:
+            for ix, _ in enumerate(scale):
+                obj[ix] = obj[ix] * scale[ix] + offset[ix]
+            return obj
+    except TypeError:
+        pass  # len() is not usable on a float object
+    # masked arrays would otherwise widen these operands to 64 bits
+    obj *= obj.dtype.type(scale)
+    obj += obj.dtype.type(offset)
     return obj
 
 
-- 
2.43.0


From 77b3a8717f01331adb714c2430e54276de30358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 29/60] fix: read arrays from the member of a zip archive
 through its decompressed contents

---
 pdr/np_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..fb8bda0 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,10 +79,10 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
-        n_bytes = None if count is None else count * dtype.itemsize
+        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
         return np.frombuffer(stream.getbuffer(), dtype=dtype)
     count = -1 if count is None else count
-- 
2.43.0


From 7e53f08e6c21441a636fce6b08479bc5b7deb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 30/60] fix: decompress ASCII arrays, text objects and labels
 parsed with pvl

---
 pdr/loaders/table.py | 6 +++---
 pdr/loaders/text.py  | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..0bd8869 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -3,7 +3,7 @@ Functions for the nitty-gritty byte-juggling parts of
 TABLE/SPREADSHEET/ARRAY/HISTOGRAM loading.
 """
 from __future__ import annotations
-from io import StringIO
+from io import StringIO, TextIOWrapper
 from typing import Optional, TYPE_CHECKING
 
 import numpy as np
@@ -50,8 +50,8 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             )
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
+    with decompress(fn) as stream:
+        text = TextIOWrapper(stream).read()
     try:
         text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
     except (TypeError, IndexError, ValueError):
diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 7adccae..e529000 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -54,7 +54,8 @@ def read_label(
     elif fmt == "pvl":
         import pvl
 
-        return pvl.load(fn)
+        with decompress(fn) as stream:
+            return pvl.load(stream)
     raise NotImplementedError(f"The {fmt} format is not yet implemented.")
 
 
@@ -137,5 +138,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    with open(check_cases(fn)) as file:
-        return file.read()
+    with decompress(check_cases(fn)) as file:
+        return TextIOWrapper(file).read()
-- 
2.43.0


From 5879f711f86d9ca3a6751badd53f7269c412b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 31/60] fix: measure compressed files by their decompressed
 contents when counting back from their end

---
 pdr/loaders/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..44f6086 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
+from pdr.utils import decompress
+
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
 
@@ -61,7 +63,8 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    return os.path.getsize(Path(fn)) - tab_size
+    with decompress(fn) as stream:
+        return stream.seek(0, os.SEEK_END) - tab_size
 
 
 def _check_delimiter_stream(
-- 
2.43.0


From 18da72a74ae16bf654ba16bed77341430ca1d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 32/60] fix: find files whose label names them with a
 compression suffix in another case

---
 pdr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index ea1a6de..8627097 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -63,8 +63,8 @@ def stem_path(path: Path):
     convert a Path to lowercase and remove any compression extensions
     from it to stem for loose matching
     """
-    lowercase = path.name.split('.')[0].lower()
     exts = tuple(map(str.lower, path.suffixes))
+    lowercase = path.name.lower().removesuffix("".join(exts))
     if len(exts) == 0:
         return lowercase
     looks_compressed = exts[-1] in SUPPORTED_COMPRESSION_EXTENSIONS
@@ -96,7 +96,7 @@ def check_cases(
             continue
         matches = tuple(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: stem_path(p) == stem_path(path),
                 path.parent.iterdir(),
             )
         )
-- 
2.43.0


From 6265985a085c7bfeddae7daf6152753213b3a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 33/60] fix: canonical line endings in labels read by special
 cases

---
 pdr/loaders/datawrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/datawrap.py b/pdr/loaders/datawrap.py
index 6bf4014..5daf14e 100644
--- a/pdr/loaders/datawrap.py
+++ b/pdr/loaders/datawrap.py
@@ -145,8 +145,11 @@ class ReadLabel(Loader):
     """wrapper for read_label"""
 
     def __init__(self):
+        from pdr.loaders._helpers import canonicalized
         from pdr.loaders.text import read_label
-        super().__init__(specialize(read_label, check_special_label))
+        super().__init__(
+            canonicalized(specialize(read_label, check_special_label))
+        )
 
 
 class ReadFits(Loader):
-- 
2.43.0


From a84b182458a4f9b2fb51fc92f5a1c42645e6a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 34/60] fix: keep PVL statements of unclosed blocks, after bare
 END_GROUPs, named END_*, or with extra equals signs

---
 pdr/parselabel/pds3.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..6d9fc2f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_(OBJECT|GROUP)(?!\w)|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -67,12 +67,11 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             statements.append((terminal, ""))
             continue
         try:
-            parameter, value_head = map(str.strip, assignment.split("="))
-        except ValueError:
-            # some people like to put extra '='s on assignment lines,, like:
+            # some people like to put extra '='s on assignment lines, like:
             # MRO:SPECIMEN_DESC      = "MONTMORILLONITE + FEOX, 100 % FECL2 SOL_N, PH=7,
-            # i strongly suspect we will never make semantic use of
-            # parameters like this and so we will just ignore them for now
+            parameter, value_head = map(str.strip, assignment.split("=", 1))
+        except ValueError:
+            # not actually an assignment
             continue
         value_head += " ".join(map(str.strip, statement[1:]))
         statements.append((parameter, value_head))
@@ -112,7 +111,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif extract_pvl_block_terminal(parameter) is not None:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
@@ -128,6 +127,9 @@ class BlockParser:
                 "the pvl_limit parameter when initializing the calling "
                 "pdr.Data object."
             )
+            # keep whatever the unclosed blocks contain
+            while len(self.names) > 0:
+                self._step_out()
         return self.aggregations[0], self.parameters
 
 
@@ -319,13 +321,14 @@ def literalize_pvl(
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
             return literal_eval(obj)
-    except (SyntaxError, ValueError):
+    # TypeError: nested sets and so on, which are not hashable
+    except (SyntaxError, ValueError, TypeError):
         try:
             if ("<" in obj) and (">" in obj):
                 return parse_pvl_quantity_statement(obj)
             elif obj[0] in ('(', '{'):
                 return parse_unusual_collection(obj)
-        except (SyntaxError, ValueError):
+        except (SyntaxError, ValueError, TypeError):
             pass
         except IndexError:
             a = 1
-- 
2.43.0


From 2a5da882dee1d4ec29d35b4488c86b5f43a87ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 35/60] fix: index repeated pointers apart from names the label
 already uses

---
 pdr/parselabel/pds3.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 6d9fc2f..3696902 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 import re
 import warnings
 from ast import literal_eval
+from itertools import count, islice
 from numbers import Number
 from operator import eq
 from pathlib import Path
@@ -406,28 +407,29 @@ def index_duplicate_pointers(
                 )
             else:
                 depoint = False
-            for ix in range(len(group)):
-                indexed_pointer = f"{pointer}_{ix}"
+            depointer = depointerize(pointer)
+            # don't reuse a name the label already gives to something else
+            indices = list(islice(
+                (
+                    ix for ix in count()
+                    if f"{pointer}_{ix}" not in params
+                    and f"{depointer}_{ix}" not in params
+                ),
+                len(group)
+            ))
+            for key in (pointer, depointer) if depoint else (pointer,):
                 mapping = multidict_dig_and_edit(
                     input_multidict=mapping,
-                    target=pointer,
-                    input_object=list(range(len(group))),
+                    target=key,
+                    input_object=indices.copy(),
                     setter_function=set_key_index,
                     key_editor=True,
                 )
-                params.append(indexed_pointer)
+            for ix in indices:
+                params.append(f"{pointer}_{ix}")
                 params.remove(pointer)
                 if depoint:
-                    depointer = depointerize(pointer)
-                    indexed_depointer = f"{depointer}_{ix}"
-                    mapping = multidict_dig_and_edit(
-                        input_multidict=mapping,
-                        target=depointer,
-                        input_object=list(range(len(group))),
-                        setter_function=set_key_index,
-                        key_editor=True,
-                    )
-                    params.append(indexed_depointer)
+                    params.append(f"{depointer}_{ix}")
                     if depointer in params:
                         params.remove(depointer)
 
@@ -439,6 +441,9 @@ def set_key_index(pointer_range: list[int], key: str) -> str:
     utility setter function for `multidict_dig_and_edit()` as called by
     `index_duplicate_pointers()`; appends a number from a list to a string
     """
+    if len(pointer_range) == 0:
+        # more objects of this name than pointers to them
+        return key
     indexed_key = f"{key}_{pointer_range[0]}"
     pointer_range.pop(0)
     return indexed_key
-- 
2.43.0


From ab89ae6ba9f72042564cc230bf13591623999ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 36/60] fix: rename repeated column and HDU names apart from
 existing names, in ASCII table HDUs too

---
 pdr/loaders/handlers.py | 24 +++++++++++++++++-------
 pdr/pd_utils.py         |  4 ++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index f456486..8fcc024 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -101,9 +101,9 @@ def handle_fits_file(
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
-    # binary table HDUs with repeated column names break astropy -- it will not
+    # table HDUs with repeated column names break astropy -- it will not
     # actually afford the data unless we manipulate it first.
-    if isinstance(hdu, fits.BinTableHDU):
+    if isinstance(hdu, (fits.BinTableHDU, fits.TableHDU)):
         reindex_dupe_names(hdu)
     body = hdu.data
     if body is None:
@@ -171,10 +171,15 @@ def reindex_dupe_names(hdu: BinTableHDU):
     """
     names = [c.name for c in hdu.columns]
     repeats = {n for n in names if names.count(n) > 1}
-    for r in repeats:
+    taken = set(names)
+    for r in sorted(repeats):
         indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+        new = [f"{r}_{i}" for i in range(len(indices))]
+        while not taken.isdisjoint(new):
+            new = [f"{n}_{i}" for i, n in enumerate(new)]
+        taken.update(new)
+        for ix, n in zip(indices, new):
+            hdu.columns[ix].name = n
 
 
 def handle_compressed_image(
@@ -310,14 +315,19 @@ def unpack_fits_headers(
     if hdulist is None:
         hdulist = fits.open(filename)
     namegroups = groupby(lambda hi: hi[1], hdulist.info(False))
+    taken = set(namegroups)
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
             headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
-        for ix, hdu in enumerate(group):
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
+        names = [f"{name}_{ix}" for ix in range(len(group))]
+        while not taken.isdisjoint(names):
+            names = [f"{n}_{ix}" for ix, n in enumerate(names)]
+        taken.update(names)
+        for hdu_name, hdu in zip(names, group):
+            hdu_ix = hdu[0]
             headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 9b06507..667e139 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -42,6 +42,7 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
     include START_BYTE in string for values marked as RESERVED.
     """
     namegroups = df.groupby(column)
+    taken = set(df[column])
     for name, field_group in namegroups:
         if len(field_group) == 1:
             continue
@@ -49,6 +50,9 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
         if name == "RESERVED":
             name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
         names = [f"{name}_{ix}" for ix in range(len(field_group))]
+        while not taken.isdisjoint(names):
+            names = [f"{n}_{ix}" for ix, n in enumerate(names)]
+        taken.update(names)
         df.loc[field_group.index, column] = names
     return df
 
-- 
2.43.0


From 277c89efe66278b5c1550680ec9b6330dfcaa0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 37/60] fix: don't replace the host program's sys.excepthook
 when reading PDS4 labels

---
 pdr/pds4_tools/reader/core.py | 51 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/pdr/pds4_tools/reader/core.py b/pdr/pds4_tools/reader/core.py
index f84a4de..0c42845 100644
--- a/pdr/pds4_tools/reader/core.py
+++ b/pdr/pds4_tools/reader/core.py
@@ -181,36 +181,41 @@ def pds4_read(filename, quiet=False, lazy_load=False, no_scale=False, decode_str
     elif quiet:
         logger.quiet()
 
-    # Set exception hook, which automatically calls logger on every uncaught exception
-    sys.excepthook = _handle_exception
+    # Unless quiet, call logger on every exception while reading (it will still be thrown)
+    try:
+
+        # Initialize the log recording
+        logger.get_handler('log_handler').begin_recording()
 
-    # Initialize the log recording
-    logger.get_handler('log_handler').begin_recording()
+        # Read-in the PDS4 label
+        logger.info('Processing label: ' + filename)
+        label = Label.from_file(filename)
 
-    # Read-in the PDS4 label
-    logger.info('Processing label: ' + filename)
-    label = Label.from_file(filename)
+        # Read and extract all the PDS4 data structures specified in this label
+        structures = read_structures(label, filename, lazy_load=lazy_load, no_scale=no_scale,
+                                     decode_strings=decode_strings)
 
-    # Read and extract all the PDS4 data structures specified in this label
-    structures = read_structures(label, filename, lazy_load=lazy_load, no_scale=no_scale,
-                                 decode_strings=decode_strings)
+        # Save the log recording
+        log = logger.get_handler('log_handler').get_recording(reset=False)
 
-    # Save the log recording
-    log = logger.get_handler('log_handler').get_recording(reset=False)
+        # Create the structure list (which stores all the read-in structures,
+        # the label and the log created while reading structures)
+        structure_list = StructureList(structures, label, log)
 
-    # Create the structure list (which stores all the read-in structures,
-    # the label and the log created while reading structures)
-    structure_list = StructureList(structures, label, log)
+        # Check if XML does not appear to describe a PDS4 label
+        if 'Product' not in structure_list.type:
+            raise ValueError('No viable/supported PDS4 label found.')
 
-    # Check if XML does not appear to describe a PDS4 label
-    if 'Product' not in structure_list.type:
-        raise ValueError('No viable/supported PDS4 label found.')
+        # Warn if potentially expected but did not find a supported PDS4 data structure
+        elif (structure_list.type in PDS4_DATA_ROOT_ELEMENTS) and (len(structure_list) == 0):
+            logger.warning('No viable/supported PDS4 data structures found.')
 
-    # Warn if potentially expected but did not find a supported PDS4 data structure
-    elif (structure_list.type in PDS4_DATA_ROOT_ELEMENTS) and (len(structure_list) == 0):
-        logger.warning('No viable/supported PDS4 data structures found.')
+        return structure_list
 
-    return structure_list
+    except Exception:
+        if quiet is not True:
+            _handle_exception(*sys.exc_info())
+        raise
 
 
 def read_structures(label, label_filename, lazy_load=False, no_scale=False, decode_strings=False):
@@ -360,7 +365,7 @@ def read_byte_data(data_filename, start_byte, stop_byte):
 
 def _handle_exception(exc_type, exc_value, exc_traceback):
     """
-    Passed to sys.excepthook. This function logs all uncaught exceptions while reading the data
+    Called by `pds4_read`. This function logs all exceptions while reading the data
     (the exceptions will still be thrown).
 
     Parameters
-- 
2.43.0


From 71321d61045485da4822ad4ae316e638dca6da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 38/60] fix: leave other users' XML namespace prefixes
 registered after exporting a PDS4 label

---
 pdr/pds4_tools/reader/label_objects.py | 44 +++++++++++---------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/pdr/pds4_tools/reader/label_objects.py b/pdr/pds4_tools/reader/label_objects.py
index 3894d5f..dd976df 100644
--- a/pdr/pds4_tools/reader/label_objects.py
+++ b/pdr/pds4_tools/reader/label_objects.py
@@ -610,9 +610,13 @@ class Label(object):
             root.tail = root.tail.strip('\n\r')
 
         # Obtain string representation, taking care to register_namespaces()
-        self._register_namespaces('register', unmodified)
-        string = ET.tostring(root, encoding=str('utf-8')).decode('utf-8')
-        self._register_namespaces('unregister', unmodified)
+        registered = ET._namespace_map.copy()
+        try:
+            self._register_namespaces(unmodified)
+            string = ET.tostring(root, encoding=str('utf-8')).decode('utf-8')
+        finally:
+            ET._namespace_map.clear()
+            ET._namespace_map.update(registered)
 
         # Adjust to fix issue that in Python 2.6 it is not possible to specify a null prefix correctly
         if 'xmlns:=' in string:
@@ -811,19 +815,16 @@ class Label(object):
 
         return other_element
 
-    def _register_namespaces(self, action, unmodified):
+    def _register_namespaces(self, unmodified):
         """
-        Registers or unregisters namespace prefixes via ET's ``register_namespace``. The unregister
-        functionality is provided because register_namespace is global, affecting any other ET usage.
-        Register and unregister allow anything in-between them to effectively have a local namespace register.
+        Registers namespace prefixes as ET's ``register_namespace`` does. This is global, affecting any
+        other ET usage, so callers must restore the register to what it was afterward.
 
         Parameters
         ----------
-        action : str or unicode
-            Either 'register' or 'unregister', specifying what action to take. Defaults to 'register'.
         unmodified : bool or None
             If True, uses prefixes taken from the unmodified root, instead of the convenient root,
-            to register or unregister namespaces.
+            to register namespaces.
 
         Returns
         -------
@@ -837,23 +838,14 @@ class Label(object):
 
         for uri, prefix in namespace_map.items():
 
-            # Register namespaces
-            if action == 'register':
-
-                # Check if namespace prefix or URI already exists, then do not register the namespace if so.
-                # This allows local namespaces that have the same prefix as a global prefix but a
-                # different URI, which is valid in XML, to stay unique)
-                if (prefix in prefixes) or (uri in uris):
-                    continue
-
-                # Register the namespace
-                ET._namespace_map[uri] = prefix
-
-            # Unregister the namespaces
-            else:
+            # Check if namespace prefix or URI already exists, then do not register the namespace if so.
+            # This allows local namespaces that have the same prefix as a global prefix but a
+            # different URI, which is valid in XML, to stay unique)
+            if (prefix in prefixes) or (uri in uris):
+                continue
 
-                if (prefix in prefixes) and (uri in ET._namespace_map.keys()):
-                    del ET._namespace_map[uri]
+            # Register the namespace
+            ET._namespace_map[uri] = prefix
 
     def _append_known_namespaces(self, match, namespaces, unmodified):
         """
-- 
2.43.0


From 96df9d9d0fe87e3199e33d52c1ebaf915a41356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 39/60] fix: recover only from missing HDUs and truncated
 fragments in Juno, LRO and MOC special cases

---
 pdr/formats/juno.py    | 4 ++--
 pdr/formats/lro.py     | 2 +-
 pdr/formats/mgs_moc.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/juno.py b/pdr/formats/juno.py
index 8d5be6e..cf49231 100644
--- a/pdr/formats/juno.py
+++ b/pdr/formats/juno.py
@@ -102,7 +102,7 @@ def uvs_rdr_start_byte(name, hdul):
             return hinfo['hdrLoc']
         else:
             return hinfo['datLoc']
-    except Exception as e:
+    except (KeyError, IndexError):
         warnings.warn("This key doesn't appear to be in the FITS file.")
         return None
 
@@ -157,6 +157,6 @@ def uvs_edr_start_byte(name, hdul):
             return hinfo['hdrLoc']
         else:
             return hinfo['datLoc']
-    except Exception as e:
+    except (KeyError, IndexError):
         warnings.warn("This key doesn't appear to be in the FITS file.")
         return None
diff --git a/pdr/formats/lro.py b/pdr/formats/lro.py
index 4c83067..6fb704a 100644
--- a/pdr/formats/lro.py
+++ b/pdr/formats/lro.py
@@ -188,7 +188,7 @@ def lamp_rdr_hdu_start_byte(name, hdulist):
         try:
             # Check to see if this is the correct 'EXTNAM' in the fits HDU
             hdulist.fileinfo(extname)
-        except:
+        except KeyError:
             # Sometimes this pointer refers to a different HDU extension name
             extname = "Reduced Count Rate"
     elif "LTS_DATA" in name:
diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 3e532c0..dde2550 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -857,7 +857,7 @@ class TransformDecompressor:
                                     self.encode_trees
                                 )
                             block_idx += 1
-        except Exception:
+        except (ValueError, IndexError):  # out of bits, or invalid codes
             warnings.warn(f"Unable to decompress entire fragment."
                           f" Padding remainder of fragment with 0.")
             size = height * width
-- 
2.43.0


From 8ee6f81218cc856e94d4a563334192b8d8977845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 40/60] fix: report a missing label file as missing in
 trim_label

---
 pdr/parselabel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..ec5c0c6 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -49,9 +49,9 @@ def trim_label(
 ) -> str:
     """Look for a PVL label at the top of a file."""
     target_is_fn = isinstance(fn, (Path, str))
+    if target_is_fn is True:
+        fn = open(fn, 'rb')
     try:
-        if target_is_fn is True:
-            fn = open(fn, 'rb')
         text = fn.read(20)
         if strict_decode is True:
             try:
-- 
2.43.0


From c3631d3789467e655e381db005995fcae567fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 41/60] fix: fill in missing START_BYTEs of ARRAY elements in
 the format definition itself

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 44b1305..976208b 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -661,7 +661,7 @@ def parse_array_structure(
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
     if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
 
     from pdr.pd_utils import insert_sample_types_into_df
     return insert_sample_types_into_df(fmtdef, identifiers)
-- 
2.43.0


From 92ab7d4caf9cd17002fdd8105c35d36044359bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 42/60] fix: let metaget take any default, and return the one
 it is given

---
 pdr/pdr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index ee24a67..55cbdef 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -132,7 +132,8 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        value = self._metaget_interior(text)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
@@ -204,7 +205,7 @@ class Metadata(MultiDict):
         """"""
         return f"Metadata({prettify_multidict(self)})"
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
@@ -1213,16 +1214,15 @@ class Data:
         for key in self.keys():
             yield self[key]
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
-def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
+def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
-    def metaget_interior(text, default):
+    def metaget_interior(text):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
-        return default if value is None else value
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
 
     return cache(metaget_interior)
 
-- 
2.43.0


From 79f3a96974f35601a833480f7af95e8c102da9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 43/60] fix: stop at the end of a truncated MSL lossless image
 instead of looping forever

---
 pdr/formats/msl_edr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index 5e7c2be..6d9fd4c 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -498,7 +498,8 @@ def decode_x(
     while s.bit > 0:
         next_bit(s)
     while s.p & 3:
-        next_bit(s)
+        if next_bit(s) == -1:
+            break
 
 
 def pdecom(fd: int, width: int, height: int, outbuf: bytearray) -> bytearray:
-- 
2.43.0


From 74687a3e79e1c5a0d2463a403f32301f09513e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 44/60] fix: reject format files that include one another
 instead of expanding them forever

---
 pdr/loaders/queries.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 976208b..77ed9d8 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -721,7 +721,15 @@ def read_format_block(
         f"BLOCK_REPETITIONS": block.get("REPETITIONS", 1),
         f"BLOCK_BYTES": block.get("BYTES")
     }
+    depth, referenced = 0, set()
     while any(STRUCTUREPAT.match(obj[0]) for obj in format_block):
+        referenced.update(
+            str(v) for k, v in format_block if STRUCTUREPAT.match(k)
+        )
+        if (depth := depth + 1) > len(referenced):
+            raise ValueError(
+                f"Format files include one another: {sorted(referenced)}"
+            )
         format_block = inject_format_files(format_block, object_name, fn, data)
     fields, needs_placeholder, add_placeholder, reps = [], False, False, None
     for item_type, definition in format_block:
-- 
2.43.0


From 5f73c3ceb98f04817e93c8eebc67542fcba6f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 45/60] fix: reject a negative number of rows per record in MCS
 DDR tables

---
 pdr/formats/mro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index af83aa2..6fb662e 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -111,6 +111,8 @@ def mcs_ddr_table_loader(block, filename, start_byte):
     ]
     dtype_map = dict(zip(columns, dtypes))
     block_size = block['CONTAINER']['REPETITIONS']  # data rows per record
+    if block_size < 0:
+        raise ValueError(f"Records can't hold {block_size} data rows")
 
     with open(filename, "rb") as f:
         f.seek(start_byte)
-- 
2.43.0


From 509337b52566c5ec7594ad47587b21fcb087ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 46/60] fix: always prefer the uncompressed file where both
 files of an object are present

---
 pdr/pdr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 55cbdef..64241f9 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -483,9 +483,9 @@ class Data:
         mentioned for that object in the label, including those not given as
         top-level pointers.
         """
-        compkeys = {"COMPRESSED_FILE", "UNCOMPRESSED_FILE"}
+        compkeys = ("UNCOMPRESSED_FILE", "COMPRESSED_FILE")
         if (
-            len(compkeys.intersection(self.metadata.keys())) == 2
+            set(compkeys).issubset(self.metadata.keys())
             and object_name in self.metablock_("UNCOMPRESSED_FILE").keys()
         ):
             blocks = filter(None, [self.metaget_(k) for k in compkeys])
-- 
2.43.0


From 9af95ac715b561fe885f1fca2c7c1e1603518911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 47/60] fix: deliver FITS headers PDS4 labels describe under
 their own keys, not over other objects or from other files

---
 pdr/pdr.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 64241f9..6b1601d 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -696,12 +696,14 @@ class Data:
     #  duplicate header objects, one like "object_name_HEADER" and one like
     #  "HEADER_0", etc. This can also happen for PDS3, so maybe this is just
     #  an acceptable interface idiom.
-    def _find_fits_header_pds4_id(self, start_byte: int) -> Optional[str]:
+    def _find_fits_header_pds4_id(
+        self, start_byte: int, fn: str
+    ) -> Optional[str]:
         """
-        Given start byte for an HDU's data segment, check to see if the
-        PDS4 product associated with self includes that HDU's header as a
-        distinct data object with a local identifier. If it is, return the
-        PDS4 local identifier of that object. If not, return None.
+        Given filename and start byte for an HDU's data segment, check to see
+        if the PDS4 product associated with self includes that HDU's header as
+        a distinct data object. If it does, return the name of that object in
+        our index. If not, return None.
         """
         from pdr.pds4_tools.reader.header_objects import HeaderStructure
 
@@ -711,13 +713,14 @@ class Data:
                 # 'object_length' key. label objects also do not
                 # have meta_data
                 continue
+            # products may include more than one FITS file
+            if v.parent_filename != fn:
+                continue
             meta = v.meta_data
             if 'object_length' not in meta.keys():
                 continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
-                    return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
@@ -749,7 +752,10 @@ class Data:
             )
             if structure.is_header() is True:
                 return self._add_loaded_objects(result)
-            if (hid := self._find_fits_header_pds4_id(offset)) is not None:
+            hid = self._find_fits_header_pds4_id(
+                offset, structure.parent_filename
+            )
+            if hid is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-- 
2.43.0


From dbbe14bbfe1d7bf94a5b7e929ef0a8941ac79788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 48/60] fix: find a FITS file's first header where the file is
 compressed

---
 pdr/loaders/queries.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 77ed9d8..0609c01 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -29,7 +29,9 @@ from pdr.loaders._helpers import (
 )
 from pdr.loaders.handlers import add_bit_column_info
 from pdr.parselabel.pds3 import pointerize, read_pvl, STRUCTUREPAT
-from pdr.utils import append_repeated_object, check_cases, find_repository_root
+from pdr.utils import (
+    append_repeated_object, check_cases, find_repository_root, stem_path
+)
 
 if TYPE_CHECKING:
     from pdr.loaders.astrowrap.fits import HDUList
@@ -370,7 +372,8 @@ def get_fits_start_byte(
     # TODO, maybe: this feels a bit redundant with data_start_byte(), but the
     #  logic _is_ legitimately different.
     if isinstance(target, str):
-        if target.lower() == Path(fn).name.lower():
+        # fn may be a compressed version of the file named in the label
+        if stem_path(Path(target)) == stem_path(Path(fn)):
             target = 0
         else:
             # this should never happen!
-- 
2.43.0


From be389171305baa87441a25b8c60f26f66d5d5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 49/60] fix: open FITS files whose headers have invalid cards
 without a label as well

---
 pdr/loaders/handlers.py | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 8fcc024..f712dff 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -82,22 +82,7 @@ def handle_fits_file(
             # cases where HDUs are named things like "IMAGE HEADER"
             and name not in [h[1] for h in hdulist.info(False)]
         )
-    try:
-        hdr_val = handle_fits_header(hdulist, hdu_ix)
-    # astropy.io.fits does not call any verification on read. on 'output'
-    # tasks -- which iterating over header cards (sometimes) counts as, and
-    # which we have to do in order to place the header content into our
-    # preferred data structure -- it does call verification at the strictest
-    # settings, resulting in delayed exceptions. However, we do not want to
-    # automatically run every fix, because astropy's fixes can be quite slow
-    # on large, complicated headers. So, if and when astropy decides something
-    # is too invalid to show us, tell it to fix it.
-    except fits.VerifyError:
-        try:
-            hdulist.verify('silentfix')
-            hdr_val = handle_fits_header(hdulist, hdu_ix)
-        except (fits.VerifyError, ValueError):  # real messed up
-            hdr_val = handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+    hdr_val = read_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
@@ -265,6 +250,31 @@ def handle_fits_header(
     return output_hdr
 
 
+def read_fits_header(hdulist: HDUList, hdu_ix: int) -> MultiDict:
+    """
+    Load the header of a specified HDU as a MultiDict, fixing or (if that
+    doesn't work) skipping any header cards astropy.io.fits refuses to read.
+    """
+    from astropy.io import fits
+
+    try:
+        return handle_fits_header(hdulist, hdu_ix)
+    # astropy.io.fits does not call any verification on read. on 'output'
+    # tasks -- which iterating over header cards (sometimes) counts as, and
+    # which we have to do in order to place the header content into our
+    # preferred data structure -- it does call verification at the strictest
+    # settings, resulting in delayed exceptions. However, we do not want to
+    # automatically run every fix, because astropy's fixes can be quite slow
+    # on large, complicated headers. So, if and when astropy decides something
+    # is too invalid to show us, tell it to fix it.
+    except fits.VerifyError:
+        try:
+            hdulist.verify('silentfix')
+            return handle_fits_header(hdulist, hdu_ix)
+        except (fits.VerifyError, ValueError):  # real messed up
+            return handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+
+
 # TODO: shouldn't be in this module
 def add_bit_column_info(
     obj: dict,
@@ -319,7 +329,7 @@ def unpack_fits_headers(
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(name, read_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
         names = [f"{name}_{ix}" for ix in range(len(group))]
@@ -328,7 +338,7 @@ def unpack_fits_headers(
         taken.update(names)
         for hdu_name, hdu in zip(names, group):
             hdu_ix = hdu[0]
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(hdu_name, read_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
-- 
2.43.0


From d81c08a966c69c7cf42021faf4767eb648545394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 50/60] fix: read numbers with exponents or no leading digit in
 ASCII arrays

---
 pdr/loaders/table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 0bd8869..cbc3134 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -53,7 +53,14 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     with decompress(fn) as stream:
         text = TextIOWrapper(stream).read()
     try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
+        text = tuple(
+            map(
+                float,
+                re.findall(
+                    r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[Ee][+-]?\d+)?", text
+                )
+            )
+        )
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From cbf5974d6ce03d6db6b73b4322e354dcb9daea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 51/60] fix: read ASCII arrays from where the label says they
 start

---
 pdr/loaders/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index cbc3134..53c00e7 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -51,6 +51,7 @@ def read_array(fn, block, start_byte, fmtdef_dt):
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
     with decompress(fn) as stream:
+        stream.seek(start_byte)
         text = TextIOWrapper(stream).read()
     try:
         text = tuple(
@@ -63,6 +64,8 @@ def read_array(fn, block, start_byte, fmtdef_dt):
         )
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
+    # other objects may follow the array in the file
+    text = text[:get_array_num_items(block)]
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
     if "DATA_TYPE" in block.keys():
         array = array.astype(
-- 
2.43.0


From 606e8877a7e14ff7d5bf555a09bb123cbff3265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 52/60] fix: count row prefixes and suffixes of tables at the
 ends of files

---
 pdr/loaders/queries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 0609c01..3cfbc03 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -417,6 +417,9 @@ def data_start_byte(
         elif "ROWS" in block.keys():
             rows = block["ROWS"]
             row_bytes = block["ROW_BYTES"]
+            # the row prefix and suffix are not counted in ROW_BYTES
+            row_bytes += block.get("ROW_PREFIX_BYTES", 0)
+            row_bytes += block.get("ROW_SUFFIX_BYTES", 0)
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
     elif isinstance(target, dict):
         start_byte = quantity_start_byte(target, record_bytes)
-- 
2.43.0


From 2e28981c6d8e1e8671613799d09847c92612dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 53/60] fix: use the record length of the file an object is in

---
 pdr/loaders/queries.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3cfbc03..3337319 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -892,9 +892,40 @@ def load_format_file(
         raise FileNotFoundError
 
 
-def get_identifiers(data) -> dict[str, Any]:
-    """Query wrapper for `pdr.Data.__getattr__("identifiers")`"""
-    return data.identifiers
+def _get_record_block(
+    mapping: Mapping, pointer: str, record_block: Optional[Mapping] = None
+) -> Optional[Mapping]:
+    """
+    Find the innermost metadata block that contains `pointer` (at any depth)
+    and describes the records of the file `pointer` points to.
+    """
+    if "RECORD_BYTES" in mapping.keys():
+        record_block = mapping
+    if pointer in mapping.keys():
+        return record_block
+    for value in mapping.values():
+        if not isinstance(value, Mapping):
+            continue
+        block = _get_record_block(value, pointer, record_block)
+        if block is not None:
+            return block
+    return None
+
+
+def get_identifiers(data: PDRLike, name: str) -> dict[str, Any]:
+    """
+    Query wrapper for `pdr.Data.__getattr__("identifiers")`. If the label
+    describes several files with different records, make sure that we use the
+    description of the file `name` is in.
+    """
+    if name in data._interleaved_objects.keys():
+        name = data._interleaved_objects[name]['parent']
+    block = _get_record_block(data.metadata, pointerize(name))
+    if block is None:
+        return data.identifiers
+    return data.identifiers | {
+        k: block[k] for k in ("RECORD_BYTES", "RECORD_TYPE") if k in block
+    }
 
 
 def get_none() -> None:
-- 
2.43.0


From d43d915ba7e6682063286f79655d7b0e335c1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 54/60] fix: treat record positions with units like those
 without

---
 pdr/loaders/queries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3337319..ebaa5a4 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -409,6 +409,8 @@ def data_start_byte(
     start_byte = None
     if isinstance(target, (list, tuple)):
         target = target[-1]
+    if isinstance(target, dict) and target["units"] != "BYTES":
+        target = target["value"]  # a number of records, units or no
     if isinstance(target, int):
         if target == 1:
             start_byte = 0
-- 
2.43.0


From 8c7fbf67299a2c4ad0836ed8f416df329077a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 55/60] fix: integers of more than 16 bits are not widened to
 32-bit floats

fit_to_scale chose float32 for 32- and 64-bit integers whose scaled values
overflowed and whose offset was fractional, which lost their last digits.
---
 pdr/_scaling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 1b7f0d7..f369a9b 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -92,7 +92,10 @@ def fit_to_scale(
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
     if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc, num = ('f',), (4, 8), np.finfo, float
+        # a float32 does not hold every 32-bit integer exactly
+        exact = arr.dtype.kind == "f" or arr.dtype.itemsize <= 2
+        widths = (4, 8) if exact else (8,)
+        bases, infofunc, num = ('f',), np.finfo, float
     else:
         bases, widths, infofunc, num = ('u', 'i'), (1, 2, 4, 8), np.iinfo, int
     amin, amax = map(int, (arr.min(), arr.max()))
-- 
2.43.0


From 3f2226904cd7807b9f924aae7df9997591400be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 56/60] fix: integers scaled plane by plane wrapped around
 silently

Only a single scale and offset was checked for overflow; with one per plane
(SCALING_FACTOR = (2, 2, 2)) a uint8 image came out modulo 256, and float32
images that overflowed raised an error instead of being widened.
---
 pdr/_scaling.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index f369a9b..0097d29 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -76,6 +76,14 @@ def mask_specials(obj, specials):
     return obj
 
 
+def has_scale_per_plane(arr, scale, offset) -> bool:
+    """are there a scale and an offset for each plane of the array?"""
+    try:
+        return len(arr) == len(scale) == len(offset) > 1
+    except TypeError:
+        return False  # len() is not usable on a float object
+
+
 def fit_to_scale(
     arr: np.ndarray,
     scale: Union[Integral, Real],
@@ -89,6 +97,9 @@ def fit_to_scale(
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
+    if has_scale_per_plane(arr, scale, offset):
+        fits = map(fit_to_scale, arr, scale, offset)
+        return arr.astype(np.result_type(*(fit.dtype for fit in fits)))
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
     if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
@@ -113,6 +124,16 @@ def fit_to_scale(
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
+def check_extremes(arr, offset, scale):
+    """do the arithmetic on extreme values only, to see if it overflows"""
+    if has_scale_per_plane(arr, scale, offset):
+        for plane in zip(arr, offset, scale):
+            check_extremes(*plane)
+    elif arr.size > 0 and isinstance(scale, Number):
+        for extreme in (arr.min(), arr.max()):
+            extreme * scale + offset
+
+
 def overflow_wrap(array_func):
     @wraps(array_func)
     def with_upcasting(arr, offset, scale, *args, **kwargs):
@@ -121,9 +142,7 @@ def overflow_wrap(array_func):
             try:
                 # check this before array_func touches the array: it may work
                 # in place, and could not be repeated if it failed partway
-                if arr.size > 0 and isinstance(scale, Number):
-                    for extreme in (arr.min(), arr.max()):
-                        extreme * scale + offset
+                check_extremes(arr, offset, scale)
                 return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-- 
2.43.0


From 907908cb7b5f59f81a43e920a0554d6825ee4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 57/60] fix: masked values no longer stop an array from being
 scaled

A 64-bit image with the usual special constants (-1.797e308) could not be
scaled by get_scaled: the overflow of the masked values was taken for one of
the array. Arrays with nothing unmasked could not be widened.
---
 pdr/_scaling.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 0097d29..cacdc0f 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -109,7 +109,10 @@ def fit_to_scale(
         bases, infofunc, num = ('f',), np.finfo, float
     else:
         bases, widths, infofunc, num = ('u', 'i'), (1, 2, 4, 8), np.iinfo, int
-    amin, amax = map(int, (arr.min(), arr.max()))
+    if np.ma.count(arr) == 0:
+        amin, amax = 0, 0
+    else:
+        amin, amax = map(int, (arr.min(), arr.max()))
     # intermediate results and the operands themselves also need to fit
     products = (amin * scale, amax * scale)
     bounds = (amin, amax, scale, offset, *products,
@@ -143,6 +146,11 @@ def overflow_wrap(array_func):
                 # check this before array_func touches the array: it may work
                 # in place, and could not be repeated if it failed partway
                 check_extremes(arr, offset, scale)
+                if np.ma.isMaskedArray(arr):
+                    # only masked values can overflow now
+                    warnings.filterwarnings(
+                        "ignore", message=".*overflow enc.*"
+                    )
                 return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-- 
2.43.0


From 1c5f25f81887a83d373846ed917fde671190404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 58/60] fix: integers with a fractional scale or offset always
 become 64-bit floats

fit_to_scale looked at the sum of scale and offset to see whether they are
integers, so an offset such as 1e38 found no type at all, and 16-bit integers
that overflowed became float32.
---
 pdr/_scaling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index cacdc0f..c256fae 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -102,10 +102,11 @@ def fit_to_scale(
         return arr.astype(np.result_type(*(fit.dtype for fit in fits)))
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        # a float32 does not hold every 32-bit integer exactly
-        exact = arr.dtype.kind == "f" or arr.dtype.itemsize <= 2
-        widths = (4, 8) if exact else (8,)
+    if arr.dtype.char in 'fd' or not all(
+        isinstance(operand, Integral) for operand in (scale, offset)
+    ):
+        # integers become 64-bit floats, as in numpy
+        widths = (4, 8) if arr.dtype.kind == "f" else (8,)
         bases, infofunc, num = ('f',), np.finfo, float
     else:
         bases, widths, infofunc, num = ('u', 'i'), (1, 2, 4, 8), np.iinfo, int
-- 
2.43.0


From 7a5a44f4b85230e6e9f59802cb9cda9f040958f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:23 +0000
Subject: [PATCH 59/60] fix: list LABEL once for products whose objects are
 listed by hand

---
 pdr/pdr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 6b1601d..3eb8a4e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -422,7 +422,8 @@ class Data:
 
         is_special, special_objects = check_special_objects(self.identifiers)
         if is_special is True:
-            self.index += special_objects
+            # the label is already there
+            self.index += [o for o in special_objects if o not in self.index]
             return
 
         # TODO: make this not add objects again if called multiple times
-- 
2.43.0


From ad274616fcb1d66d5b6154834fa2a3638101c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:23 +0000
Subject: [PATCH 60/60] fix: space bit column items by their ITEM_OFFSET

---
 pdr/bit_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..ef27052 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -204,9 +204,11 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            # items may be spaced further apart than their width
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0

