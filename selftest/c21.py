T = "pdr/loaders/table.py"
P = "pdr/pd_utils.py"
B = "pdr/bit_handling.py"
N = "pdr/np_utils.py"
CASES = [
    ("same", "ok", []),
    ("no-vax", "bug", [(T, "    table = convert_vax_reals(table, fmtdef)\n", "")]),
    ("vax-result-lost", "ok", [(T, "    table = convert_vax_reals(table, fmtdef)\n",
      "    convert_vax_reals(table, fmtdef)\n")]),    # works in place
    ("no-ebcdic", "bug", [(T, "    table = convert_ebcdic(table, fmtdef)\n", "")]),
    ("no-bool", "bug", [(T, "    table = booleanize_booleans(table, fmtdef)\n", "")]),
    ("no-bits", "bug", [(T, "    table = bit_handling.expand_bit_strings(table, fmtdef)\n", "")]),
    ("no-native", "bug", [(T, "    table = enforce_order_and_object(table)\n    table = pd.DataFrame(table)", "    table = pd.DataFrame(table)")]),
    ("ibm-never", "bug", [(P, "if not fmtdef['DATA_TYPE'].str.contains('IBM').any()", "if fmtdef['DATA_TYPE'].str.contains('IBM').any()")]),
    ("ibm-all", "bug", [(P, "if not fmtdef['DATA_TYPE'].str.contains('IBM').any()", "if not fmtdef['DATA_TYPE'].str.contains('IBM').all()")]),
    ("ibm-first-row", "bug", [(P, "if not fmtdef['DATA_TYPE'].str.contains('IBM').any()", "if 'IBM' not in fmtdef['DATA_TYPE'].iloc[0]")]),
    ("vax-integers-too", "bug", [(P, "r'VAX.*REAL'", "r'VAX.*'")]),
    ("ibm-integers-too", "bug", [(P, "r'IBM.*REAL'", "r'IBM'")]),
    ("ibm-width-of-column", "bug", [(P, "is_short = values.dtype.itemsize == 4", "is_short = field['BYTES'] == 4")]),
    ("ebcdic-ascii", "bug", [(P, "decode('cp500')", "decode('ascii')")]),
    ("bool-contains", "ok", [(P, 'fmtdef["DATA_TYPE"] == "BOOLEAN", "NAME"', 'fmtdef["DATA_TYPE"].str.contains("BOOL"), "NAME"')]),
    ("bits-before-split-only", "bug", [(B, "    table = convert_to_full_bit_string(table, fmtdef)\n", "")]),
    ("bits-start-off", "bug", [(B, "val - 1 for val in fmtdef.start_bit_list[column]", "val for val in fmtdef.start_bit_list[column]")]),
    ("bits-zfill-short", "bug", [(B, "dtype[rec_ix].itemsize * 8", "dtype.itemsize * 8")]),
    ("bits-order", "bug", [(B, 'np.dtype([("0", f"{byte_order}u{field_length}")])', 'np.dtype([("0", f"u{field_length}")])')]),
    ("bits-first-row-list", "bug", [(B, "            bit_size_list = fmtdef.bit_size_list[column]", "            bit_size_list = fmtdef.bit_size_list.dropna().iloc[0]")]),
    ("items-bits", "bug", [(B, "start_bit = first_item_start_bit + item_index * item_bits", "start_bit = first_item_start_bit + item_index")]),
    ("steps-after-rename", "ok", [(T, "    table = convert_ebcdic(table, fmtdef)\n    table = booleanize_booleans(table, fmtdef)\n",
      "    table = booleanize_booleans(table, fmtdef)\n    table = convert_ebcdic(table, fmtdef)\n")]),
    ("pipeline-loop", "ok", [(T, "    table = convert_ebcdic(table, fmtdef)\n    table = booleanize_booleans(table, fmtdef)\n    table = bit_handling.expand_bit_strings(table, fmtdef)\n",
      "    for step in (convert_ebcdic, booleanize_booleans,\n                 bit_handling.expand_bit_strings):\n        table = step(table, fmtdef)\n")]),
    ("helper", "ok", [(T, "    table = enforce_order_and_object(table)\n    table = pd.DataFrame(table)\n", "    table = _framed(table)\n"),
      (T, "def _interpret_as_binary(", "def _framed(array):\n    return pd.DataFrame(enforce_order_and_object(array))\n\n\ndef _interpret_as_binary(")]),
    ("vax-loop-mask", "ok", [(P, "    for _, field in properties.iterrows():\n        if not re.match(r'VAX.*REAL', field['DATA_TYPE']):\n            continue\n",
      "    rows = properties.to_dict('records')\n    for field in [r for r in rows if re.match(r'VAX.*REAL', r['DATA_TYPE'])]:\n")]),
    ("ebcdic-direct", "ok", [(P, "        series = pd.Series(table[col])\n        table[col] = series.str.decode('cp500')", "        table[col] = table[col].str.decode('cp500')")]),
    ("bits-listcomp", "ok", [(B, "    end_bit_list = [\n        start + size for start, size in zip(start_bit_list, bit_size_list)\n    ]\n    return [\n        bit_string[start:end]\n        for start, end in zip(start_bit_list, end_bit_list)\n    ]",
      "    return [\n        bit_string[start:start + size]\n        for start, size in zip(start_bit_list, bit_size_list)\n    ]")]),
    ("enforce-no-swap", "bug", [(N, "    if is_bigendian", "    if False and is_bigendian")]) if False else
    ("order-bits-first", "ok", [(T, "    table = booleanize_booleans(table, fmtdef)\n    table = bit_handling.expand_bit_strings(table, fmtdef)\n",
      "    table = bit_handling.expand_bit_strings(table, fmtdef)\n    table = booleanize_booleans(table, fmtdef)\n")]),
]
