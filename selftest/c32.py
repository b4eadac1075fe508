T = "pdr/loaders/table.py"
P = "pdr/pd_utils.py"
Q = "pdr/loaders/queries.py"
CASES = [
    ("same", "ok", []),
    ("one-indexed", "bug", [(P, 'fmtdef["START_BYTE"].astype(int) - 1', 'fmtdef["START_BYTE"].astype(int)')]),
    ("prefix-not-added", "bug", [(P, '        fmtdef["SB_OFFSET"] += fmtdef["ROW_PREFIX_BYTES"]\n', '        pass\n')]),
    ("prefix-twice-in-containers", "bug", [(P, '            fmtdef.loc[fmt_block.index, "SB_OFFSET"] -= fmtdef["ROW_PREFIX_BYTES"]', '            pass')]),
    ("block-size-rounded", "bug", [(P, "* block_size\n", "* fmt_block['BYTES'].sum() / count\n")]),
    ("item-offset-ignored", "bug", [(P, 'item_offsets.loc[offset.index] = offset["ITEM_OFFSET"]', 'pass')]),
    ("prior-off", "bug", [(P, 'prior = fmtdef.loc[fmt_block.index[0] - 1]', 'prior = fmtdef.loc[fmt_block.index[0]]')]),
    ("suffix-forgotten", "bug", [(P, '        pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]', '        pass')]),
    ("suffix-loop", "bug", [(Q, 'for end in ("_PREFIX", "_SUFFIX", ""):', 'for end in ("_PREFIX", ""):')]),
    ("rows", "bug", [(T, "f, dtype=dt, offset=start_byte, count=count", "f, dtype=dt, offset=start_byte, count=count - 1")]),
    ("names-unique", "bug", [(P, 'names = [f"{name}_{ix}" for ix in range(len(field_group))]', 'names = [f"{name}_{ix // 2}" for ix in range(len(field_group))]')]),
    ("fwf-column-bytes", "bug", [(T, 'col_length = int(record["ITEM_BYTES"])', 'col_length = record["BYTES"]')]),
    ("fwf-offset", "bug", [(T, '(record["SB_OFFSET"], record["SB_OFFSET"] + col_length)', '(record["START_BYTE"] - 1, record["START_BYTE"] - 1 + col_length)')]),
    ("length-prefix", "bug", [(Q, 'record_length += block.get("ROW_PREFIX_BYTES", 0)', 'pass')]),
    ("helper", "ok", [(P, '''    if "ROW_SUFFIX_BYTES" in fmtdef.columns:
        pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
''', '''    pad_length += _first(fmtdef, "ROW_SUFFIX_BYTES")
'''), (P, "def compute_offsets", '''def _first(fmtdef, column):
    if column in fmtdef.columns:
        return fmtdef[column].iloc[0]
    return 0


def compute_offsets''')]),
    ("numpy-arange", "ok", [(P, '''        offset_chain = chain(
            *[[i for _ in c] for (i, c) in enumerate(chunks)]
        )
''', '''        offset_chain = []
        for i, c in enumerate(chunks):
            offset_chain += [i] * len(c)
''')]),
    ("items-loop", "ok", [(P, "gix_list += [(i * itemsize) + off for i in range(gl)]", "for i in range(gl):\n                gix_list.append(off + i * itemsize)")]),
    ("copy-first", "ok", [(P, '    fmtdef["SB_OFFSET"] = fmtdef["START_BYTE"].astype(int) - 1\n', '    fmtdef = fmtdef.copy()\n    fmtdef["SB_OFFSET"] = fmtdef["START_BYTE"].astype(int).sub(1)\n')]),
    ("isin", "ok", [(P, '''fmtdef['NAME'] != "PLACEHOLDER_0", "BLOCK_NAME"
    ].unique()
    # calc''', '''~fmtdef['NAME'].isin(["PLACEHOLDER_0"]), "BLOCK_NAME"
    ].drop_duplicates().tolist()
    # calc''')]),
]
