D = "pdr/datatypes.py"
Q = "pdr/loaders/queries.py"
P = "pdr/pd_utils.py"
I = "pdr/loaders/image.py"
INT = '''    if sample_bytes == 8:
        letter = "q"
    elif sample_bytes == 4:
        letter = "l"
    elif sample_bytes == 2:
        letter = "h"
    elif sample_bytes == 1:
        letter = "b"
    else:
        raise NotImplementedError(
            f"{sample_bytes}-byte integers are not supported."
        )
'''
CASES = [
 ("no_vax", "bug", [(D, '("PC", "LSB", "VAX")', '("PC", "LSB")')]),
 ("swap", "bug", [(D, '        return "<"\n    return ">"', '        return ">"\n    return "<"')]),
 ("mac_little", "bug", [(D, '"MAC_REAL": f">{_float}"', '"MAC_REAL": f"<{_float}"')]),
 ("ibm_little", "bug", [(D, '"IBM_REAL": f">u', '"IBM_REAL": f"<u')]),
 ("sign", "bug", [(D, 'if signed is False:', 'if signed is True:')]),
 ("unsigned_prefix", "bug", [(D, 'signed = "UNSIGNED" not in sample_type', 'signed = not sample_type.startswith("UNSIGNED")')]),
 ("float_swap", "bug", [(D, '_float = "d"', '_float = "g"')]),
 ("byte_default", "bug", [(D, '''    elif sample_bytes == 1:
        letter = "b"
    else:
        raise NotImplementedError(
            f"{sample_bytes}-byte integers are not supported."
        )
''', '    else:\n        letter = "b"\n')]),
 ("np_4_only", "bug", [(D, "in (4, 8)", "== 8")]),
 ("vax_any", "bug", [(D, 'if sample_type == "VAX_REAL" and sample_bytes != 4:', 'if sample_type == "VAX_REAL" and sample_bytes < 4:'), (D, '"VAX_REAL": f"<u{sample_bytes}"', '"VAX_REAL": "<u4"')]),
 ("bits_as_text", "bug", [(D, '"MSB_BIT_STRING": f"{void}{sample_bytes}"', '"MSB_BIT_STRING": f"S{sample_bytes}"')]),
 ("no_numpy_im", "bug", [(Q, '            base_samp_info["BYTES_PER_PIXEL"],\n            for_numpy=True,\n', '            base_samp_info["BYTES_PER_PIXEL"],\n')]),
 ("no_numpy_table", "bug", [(P, 'dt, int(sample_bytes), for_numpy=True', 'dt, int(sample_bytes)')]),
 ("total_bytes", "bug", [(P, 'sample_bytes = total_bytes if np.isnan(item_bytes) else item_bytes', 'sample_bytes = item_bytes if np.isnan(total_bytes) else total_bytes')]),
 ("bits", "bug", [(Q, '"BYTES_PER_PIXEL": int(block.get("SAMPLE_BITS", 0) / 8),', '"BYTES_PER_PIXEL": int(block.get("SAMPLE_BITS", 0)),')]),
 ("bits4", "bug", [(Q, '"BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),', '"BYTES_PER_PIXEL": block["SAMPLE_BITS"] // 4,')]),
 ("lost_order", "bug", [(I, 'dtype = np.dtype(f"{endian}{np_type}")', 'dtype = np.dtype(np_type)')]),
 ("short_type", "bug", [(I, 'np_type = props["sample_type"][1:]', 'np_type = props["sample_type"][-1:]')]),
 ("ascii_int", "bug", [(D, '''or (sample_type == "BOOLEAN")) and (
        "ASCII" not in sample_type
    ):''', '''or (sample_type == "BOOLEAN")):''')]),
 ("spaces", "ok", [(D, 'sample_type = sample_type.replace(" ", "_")', 'sample_type = "_".join(sample_type.split(" "))')]),
 ("ok_dict", "ok", [(D, INT, '''    letters = {8: "q", 4: "l", 2: "h", 1: "b"}
    if sample_bytes not in letters:
        raise NotImplementedError("unsupported width")
    letter = letters[sample_bytes]
''')]),
 ("ok_table", "ok", [(D, INT, '''    try:
        letter = _LETTERS[sample_bytes]
    except KeyError:
        raise NotImplementedError("unsupported width")
'''), (D, "def integer_code(", '_LETTERS = {8: "q", 4: "l", 2: "h", 1: "b"}\n\n\ndef integer_code(')]),
 ("ok_match", "ok", [(D, INT, '''    match sample_bytes:
        case 8:
            letter = "q"
        case 4:
            letter = "l"
        case 2:
            letter = "h"
        case 1:
            letter = "b"
        case _:
            raise NotImplementedError("unsupported width")
''')]),
 ("ok_invert", "ok", [(D, '''    if any(sample_type.startswith(s) for s in ("PC", "LSB", "VAX")):
        return "<"
    return ">"''', '''    for prefix in ("PC", "LSB", "VAX"):
        if sample_type.startswith(prefix):
            return "<"
    return ">"''')]),
 ("ok_tuple", "ok", [(D, 'any(sample_type.startswith(s) for s in ("PC", "LSB", "VAX"))', 'sample_type.startswith(("PC", "LSB", "VAX"))')]),
 ("ok_helper", "ok", [(D, 'def sample_types(', '''def _is_integer(sample_type):
    if "ASCII" in sample_type:
        return False
    return "INTEGER" in sample_type or sample_type == "BOOLEAN"


def sample_types('''), (D, '''    if (("INTEGER" in sample_type) or (sample_type == "BOOLEAN")) and (
        "ASCII" not in sample_type
    ):''', '    if _is_integer(sample_type):')]),
 ("ok_floordiv", "ok", [(Q, '"BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),', '"BYTES_PER_PIXEL": int(block["SAMPLE_BITS"]) // 8,')]),
 ("ok_positional", "ok", [(P, 'dt, int(sample_bytes), for_numpy=True', 'dt, int(sample_bytes), True')]),
 ("ok_kw", "ok", [(P, 'dt, int(sample_bytes), for_numpy=True', 'sample_type=dt, sample_bytes=int(sample_bytes), for_numpy=True')]),
 ("ok_branch", "ok", [(P, 'sample_bytes = total_bytes if np.isnan(item_bytes) else item_bytes', '''if np.isnan(item_bytes):
            sample_bytes = total_bytes
        else:
            sample_bytes = item_bytes''')]),
 ("ok_unpack", "ok", [(P, '    for data_type, group in data_types:\n        dt, item_bytes, total_bytes = data_type\n', '    for data_type, group in data_types:\n        dt = data_type[0]\n        item_bytes = data_type[1]\n        total_bytes = data_type[2]\n')]),
 ("ok_fmt", "ok", [(I, '    np_type = props["sample_type"][1:]\n    dtype = np.dtype(f"{endian}{np_type}")', '    dtype = np.dtype(props["sample_type"])')]),
]
