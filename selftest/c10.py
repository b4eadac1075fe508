CH = "pdr/formats/checkers.py"
CASES = [
 ("startswith->in", "bug", [(CH, 'identifiers["DATA_SET_ID"].startswith("MSGR-H-MDIS-6-CAL")', '"MSGR-H-MDIS" in identifiers["DATA_SET_ID"]')]),
 ("drop condition", "bug", [(CH, '''        identifiers["INSTRUMENT_ID"] == "LROC"
        and identifiers["PRODUCT_TYPE"] == "EDR"
''', '''        identifiers["INSTRUMENT_ID"] == "LROC"
''')]),
 ("and->or", "bug", [(CH, '''        identifiers["INSTRUMENT_ID"] == "APXS"
        and "ERROR''', '''        identifiers["INSTRUMENT_ID"] == "APXS"
        or "ERROR''')]),
 ("substr of", "bug", [(CH, 'identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER"', 'identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER"')]),
 ("wrong handler", "bug", [(CH, 'return True, formats.mex.aspera_table_loader(fn, fmtdef_dt)', 'return True, formats.mex.mrs_l1b_odf_table_loader(fn, fmtdef_dt)')]),
 ("wrong const", "bug", [(CH, '"MSB_BIT_STRING"', '"LSB_BIT_STRING"')]),
 ("crism", "bug", [(CH, 'consts["NULL"] = 65535', 'consts["NULL"] = 65534')]),
 ("crism cond", "bug", [(CH, 'if identifiers["INSTRUMENT_ID"] == "CRISM":', 'if "CRISM" in identifiers["INSTRUMENT_ID"]:')]),
 ("trivial suffix", "bug", [(CH, 'and (fn.endswith(".img") or fn.endswith(".ibg"))', 'and fn.endswith(".img")')]),
 ("pds4 obj", "bug", [(CH, '''"CE4_GRAS_ASAN-SCI_SCI" in filename and ".2B" in filename
            and object_name == "TABLE_0"''', '''"CE4_GRAS_ASAN-SCI_SCI" in filename and ".2B" in filename
            and "TABLE" in object_name''')]),
 ("clock range", "bug", [(CH, '1359362956 <= float', '1359362950 <= float')]),
 ("handler inner cond", "bug", [("pdr/formats/juno.py", '== "NADIR_OFFSET_SIGN"', '!= "NADIR_OFFSET_SIGN"')]),
 ("shadow order", "bug", [(CH, '''    if name == "XDR_DOCUMENT":
        return True, formats.cassini.xdr_redirect_to_image_block(data)
''', '''    if identifiers["DATA_SET_ID"].startswith("CO-"):
        return False, None
    if name == "XDR_DOCUMENT":
        return True, formats.cassini.xdr_redirect_to_image_block(data)
''')]),
 ("mcs ddr", "bug", [(CH, 'and "V1.0" not in identifiers["DATA_SET_ID"]', 'and "V1.0" in identifiers["DATA_SET_ID"]')]),
 ("is_trivial pattern", "bug", [("pdr/loaders/utility.py", 'if "PDS_OBJECT" in pointer', 'if "OBJECT" in pointer')] ),
 ("objects list", "bug", [(CH, "return True, ['LABEL', 'IMAGE_PREFIX', 'IMAGE']", "return True, ['LABEL', 'IMAGE']")]),
 ("helper extraction", "ok", [(CH, '''    if (
        identifiers["INSTRUMENT_ID"] == "LROC"
        and identifiers["PRODUCT_TYPE"] == "EDR"
    ):
''', '''    if _is_lroc_edr(identifiers):
'''), (CH, '''def check_special_sample_type(''', '''def _is_lroc_edr(ids):
    inst, ptype = ids["INSTRUMENT_ID"], ids["PRODUCT_TYPE"]
    if inst != "LROC":
        return False
    return ptype == "EDR"


def check_special_sample_type(''')]),
 ("reorder", "ok", [(CH, '''    if name == "XDR_DOCUMENT":
        return True, formats.cassini.xdr_redirect_to_image_block(data)
    if name == "CHMN_HSK_HEADER_TABLE":
        return True, formats.msl_cmn.fix_mangled_name(data)
''', '''    if name == "CHMN_HSK_HEADER_TABLE":
        return True, formats.msl_cmn.fix_mangled_name(data)
    if name == "XDR_DOCUMENT":
        return True, formats.cassini.xdr_redirect_to_image_block(data)
''')]),
 ("reorder overlapping", "ok", [(CH, '''    if identifiers["INSTRUMENT_ID"] == "CHEMIN":
        return formats.msl_cmn.get_offset(name)
    if (
        identifiers["DATA_SET_ID"] == "CLEM1-L-RSS-5-BSR-V1.0"
        and re.match("(HEADER|DATA)_TABLE", name)
    ):
        # sequence wrapped as string for object names
        return formats.clementine.get_offset(data, name)
''', '''    if (
        identifiers["DATA_SET_ID"] == "CLEM1-L-RSS-5-BSR-V1.0"
        and re.match("(HEADER|DATA)_TABLE", name)
    ):
        # sequence wrapped as string for object names
        return formats.clementine.get_offset(data, name)
    if identifiers["INSTRUMENT_ID"] == "CHEMIN":
        return formats.msl_cmn.get_offset(name)
''')]),
 ("loop rewrite", "ok", [(CH, '''    instrument = identifiers["INSTRUMENT_NAME"]
    if instrument in (
        "ALPHA PARTICLE X-RAYSPECTROMETER",
        "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
        "CHEMISTRY AND MINERALOGY INSTRUMENT",
        "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING",
    ):
        return True, "MSB_BIT_STRING"
    return False, None
''', '''    for special in (
        "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING",
        "ALPHA PARTICLE X-RAYSPECTROMETER",
        "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
        "CHEMISTRY AND MINERALOGY INSTRUMENT",
    ):
        if identifiers["INSTRUMENT_NAME"] == special:
            return True, "MSB_BIT_STRING"
    return False, None
''')]),
 ("nested ifs", "ok", [(CH, '''    if (
        identifiers["DATA_SET_ID"] == "MSL-M-ROVER-6-RDR-PLACES-V1.0"
        and name == "SPREADSHEET"
    ):
        return True,''', '''    is_places = identifiers["DATA_SET_ID"] == "MSL-M-ROVER-6-RDR-PLACES-V1.0"
    if is_places and not (name != "SPREADSHEET"):
        return True,''')]),
 ("regex to in", "ok", [(CH, 'if identifiers["DATA_SET_ID"].startswith("CO-D-CDA") and (', 'if re.match("CO-D-CDA", identifiers["DATA_SET_ID"]) and (')]),
 ("slice compare", "ok", [(CH, 'if identifiers["DATA_SET_ID"].startswith("CO-D-CDA") and (', 'if identifiers["DATA_SET_ID"][:8] == "CO-D-CDA" and (')]),
 ("find>=0", "ok", [(CH, 'and "SPECTRUM_TABLE" in name', 'and name.find("SPECTRUM_TABLE") >= 0')]),
 ("any->loop", "ok", [(CH, 'and all(x in identifiers["PRODUCT_ID"] for x in ["ODF", "L1B"])', 'and "ODF" in identifiers["PRODUCT_ID"] and "L1B" in identifiers["PRODUCT_ID"]')]),
 ("inline handler", "ok", [(CH, 'return True, formats.mgn.gvanf_sample_type()', 'return True, ">B"' )]),
 ("table-driven", "ok", [(CH, '''    if "MEX-M-VMC-3-RDR" in identifiers["DATA_SET_ID"]:
        return True, formats.mex.vmc_rdr_hdu_selection(name, hdulist)
''', '''    dsid = identifiers["DATA_SET_ID"]
    by_dataset = {"MEX-M-VMC-3-RDR": formats.mex.vmc_rdr_hdu_selection}
    for tag, handler in by_dataset.items():
        if tag in dsid:
            return True, handler(name, hdulist)
''')]),
]
