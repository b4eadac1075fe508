Q = "pdr/loaders/queries.py"
T = "pdr/loaders/table.py"
G = "pdr/formats/galileo.py"
PH = "pdr/formats/phoenix.py"
PU = "pdr/pd_utils.py"
V = "pdr/formats/vega.py"
B = "pdr/bit_handling.py"
M = "pdr/formats/mgs.py"
MEX = "pdr/formats/mex.py"
D3 = "pdr/parselabel/pds3.py"
FIX = "        fmtdef['START_BYTE'].fillna(1, inplace=True)\n"
FIXED = "        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)\n"
CASES = [
 ("back", "bug", [(Q, FIXED, FIX)]),
 ("noinplace", "bug", [(Q, FIXED, "        fmtdef['START_BYTE'].fillna(1)\n")]),
 ("frame_discard", "bug", [(Q, FIXED, "        fmtdef.fillna({'START_BYTE': 1})\n")]),
 ("column_name", "bug", [(Q, FIXED, "        starts = fmtdef['START_BYTE']\n        starts.fillna(1, inplace=True)\n")]),
 ("column_store", "bug", [(Q, FIXED, "        starts = fmtdef['START_BYTE'].fillna(1)\n")]),
 ("chained", "bug", [(M, "    fmtdef.at[7, \"BYTES\"] = 2\n", "    fmtdef[\"BYTES\"][7] = 2\n")]),
 ("chained_loc", "bug", [(M, "    fmtdef.at[7, \"BYTES\"] = 2\n", "    fmtdef.loc[7][\"BYTES\"] = 2\n")]),
 ("chained_col_at", "bug", [(M, "    fmtdef.at[7, \"BYTES\"] = 2\n", "    fmtdef[\"BYTES\"].at[7] = 2\n")]),
 ("row", "bug", [(M, "    fmtdef.at[7, \"BYTES\"] = 2\n", "    row = fmtdef.loc[7]\n    row[\"BYTES\"] = 2\n")]),
 ("rows", "bug", [(G, "    for row in range(0, 9):\n        fmtdef.at[row, \"START_BYTE\"] += 1\n", "    for _, row in fmtdef.iterrows():\n        row[\"START_BYTE\"] += 1\n")]),
 ("mask", "bug", [(V, "    fmtdef.loc[fmtdef['NAME'] == 'PLACEHOLDER_SPECTRUM', 'NAME'] = 'SPECTRUM'\n", "    fmtdef[fmtdef['NAME'] == 'PLACEHOLDER_SPECTRUM']['NAME'] = 'SPECTRUM'\n")]),
 ("copied", "bug", [(G, "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    block = data.metablock_(name)\n    fixed = deepcopy(block)\n    fixed[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n")]),
 ("copied_temp", "bug", [(G, "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    block = deepcopy(data.metablock_(name))\n    block.copy()[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n")]),
 ("union", "bug", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    block | {\"ROW_BYTES\": data.metaget_(\"RECORD_BYTES\")}\n    return block\n")]),
 ("helper_copy", "bug", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    _widen(block, data.metaget_(\"RECORD_BYTES\"))\n    return block\n"), (G, "def epd_special_block(", "def _widen(block, n):\n    block = dict(block)\n    block[\"ROW_BYTES\"] = n\n\n\ndef epd_special_block(")]),
 ("helper_discard", "bug", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    _widen(block, 9)\n    return block\n"), (G, "def epd_special_block(", "def _widen(block, n):\n    out = dict(block)\n    out[\"ROW_BYTES\"] = n\n    return out\n\n\ndef epd_special_block(")]),
 ("stored_param", "bug", [(Q, "    if isinstance(target, (list, tuple)):\n        target = target[-1]\n    if isinstance(target, dict) and target[\"units\"]", "    if isinstance(target, dict) and target[\"units\"]"), (Q, "        return start_byte\n    raise ValueError(f\"Unknown data pointer format: {target}\")\n", "        if isinstance(fn, list):\n            fn = fn[0]\n        return start_byte\n    raise ValueError(f\"Unknown data pointer format: {target}\")\n")]),
 ("select", "bug", [(PU, "        fmtdef = fmtdef.loc[~fmtdef[\"NAME\"].isin(fmt_block_rel[\"NAME\"])]\n", "        fmtdef.drop(fmt_block.index)\n")]),
 ("equals", "bug", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n", "    block[\"ROW_BYTES\"] == data.metaget_(\"RECORD_BYTES\")\n")]),
 ("strip", "bug", [(PH, "    fmtdef = fmtdef.iloc[0:real_fmtdef_len, :]\n", "    fmtdef.iloc[0:real_fmtdef_len, :]\n    fmtdef.drop(index=range(real_fmtdef_len, len(fmtdef)))\n")]),
 ("generator", "bug", [(G, "    for row in range(0, 9):\n        fmtdef.at[row, \"START_BYTE\"] += 1\n", "    map(lambda row: fmtdef.__setitem__(row, 1), range(fmtdef.shape[0]))\n")]),
 ("callee_copies", "bug", [(PU, "    boolean_columns = fmtdef.loc[", "    table = table.copy()\n    boolean_columns = fmtdef.loc["), (T, "    table = booleanize_booleans(table, fmtdef)\n", "    booleanize_booleans(table, fmtdef)\n")]),
 ("callee_assigns", "bug", [(PU, "    table[boolean_columns] = table[boolean_columns].astype(bool)\n    return table\n", "    return table.astype({c: bool for c in boolean_columns})\n"), (T, "    table = booleanize_booleans(table, fmtdef)\n", "    booleanize_booleans(table, fmtdef)\n")]),
 # ---- the same, otherwise
 ("ok_callee", "ok", [(T, "    table = booleanize_booleans(table, fmtdef)\n", "    booleanize_booleans(table, fmtdef)\n")]),
 ("ok_assign", "ok", [(Q, FIXED, "        fmtdef = fmtdef.fillna({'START_BYTE': 1})\n")]),
 ("ok_inplace", "ok", [(Q, FIXED, "        fmtdef.fillna({'START_BYTE': 1}, inplace=True)\n")]),
 ("ok_back", "ok", [(Q, FIXED, "        starts = fmtdef['START_BYTE'].fillna(1)\n        fmtdef['START_BYTE'] = starts\n")]),
 ("ok_column", "ok", [(Q, FIXED, "        starts = fmtdef['START_BYTE'].copy()\n        starts[starts.isna()] = 1\n        fmtdef['START_BYTE'] = starts\n")]),
 ("ok_loc", "ok", [(M, "    fmtdef.at[7, \"BYTES\"] = 2\n", "    fmtdef.loc[7, \"BYTES\"] = 2\n")]),
 ("ok_rows", "ok", [(G, "    for row in range(0, 9):\n        fmtdef.at[row, \"START_BYTE\"] += 1\n", "    for ix, row in fmtdef.iterrows():\n        if ix < 9:\n            fmtdef.at[ix, \"START_BYTE\"] = row[\"START_BYTE\"] + 1\n")]),
 ("ok_records", "ok", [(G, "    for row in range(0, 9):\n        fmtdef.at[row, \"START_BYTE\"] += 1\n    return fmtdef, None\n", "    import pandas as pd\n    recs = fmtdef.to_dict(\"records\")\n    for rec in recs[:9]:\n        rec[\"START_BYTE\"] += 1\n    return pd.DataFrame(recs), None\n")]),
 ("ok_copy", "ok", [(G, "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    original = data.metablock_(name)\n    fixed = deepcopy(original)\n    fixed[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return fixed\n")]),
 ("ok_helper", "ok", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    _widen(block, data.metaget_(\"RECORD_BYTES\"))\n    return block\n"), (G, "def epd_special_block(", "def _widen(block, n):\n    block[\"ROW_BYTES\"] = n\n    return block\n\n\ndef epd_special_block(")]),
 ("ok_nothing", "ok", [(G, "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    _ = 0\n    unused = len(block)\n    name = name\n    return block\n")]),
 ("ok_check", "ok", [(Q, "    if start_byte is not None:\n        if start_byte < 0:\n            raise ValueError(f\"BUG", "    try:\n        str(fn).encode(\"ascii\")\n    except UnicodeEncodeError:\n        pass\n    if start_byte is not None:\n        if start_byte < 0:\n            raise ValueError(f\"BUG")]),
 ("ok_loop", "ok", [(Q, "    if isinstance(target, (list, tuple)):\n        target = target[-1]\n", "    while isinstance(target, (list, tuple)):\n        target = target[-1]\n")]),
 ("ok_finally", "ok", [(G, "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = data.metaget_(\"RECORD_BYTES\")\n    return block\n", "    block = deepcopy(data.metablock_(name))\n    try:\n        n = data.metaget_(\"RECORD_BYTES\")\n    finally:\n        pass\n    block.update({\"ROW_BYTES\": n})\n    return block\n")]),
]
