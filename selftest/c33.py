T = "pdr/loaders/table.py"
X = "pdr/loaders/text.py"
I = "pdr/loaders/image.py"
H = "pdr/loaders/_helpers.py"
Q = "pdr/loaders/queries.py"
N = "pdr/np_utils.py"
U = "pdr/utils.py"
CASES = [
    ("same", "ok", []),
    ("first-record", "bug", [(Q, "start_byte = record_bytes * max(target - 1, 0)", "start_byte = record_bytes * target")]),
    ("bytes-one-off", "bug", [(H, 'return quantity_dict["value"] - 1', 'return quantity_dict["value"]')]),
    ("quantity-records", "bug", [(Q, '''    if isinstance(target, dict) and target["units"] != "BYTES":
        target = target["value"]  # a number of records, units or no
''', '')]),
    ("block-records", "bug", [(Q, '''    if (block is not None) and ("RECORD_BYTES" in block.keys()):
        record_bytes = block["RECORD_BYTES"]
    else:
        record_bytes = identifiers["RECORD_BYTES"]
    start_byte = None
''', '''    record_bytes = identifiers["RECORD_BYTES"]
    if block is not None:
        record_bytes = block.get("ROW_BYTES", record_bytes)
    start_byte = None
''')]),
    ("last-of-list", "bug", [(Q, '''        target = target[-1]
    if isinstance(target, dict) and''', '''        target = target[0]
    if isinstance(target, dict) and''')]),
    ("identifiers-first", "bug", [(Q, '''    block = _get_record_block(data.metadata, pointerize(name))
    if block is None:
        return''', '''    block = None
    if block is None:
        return''')]),
    ("inner-records-lost", "bug", [(Q, '''        block = _get_record_block(value, pointer, record_block)
''', '''        block = _get_record_block(value, pointer, None) or record_block
''')]),
    ("table-length-suffix", "bug", [(Q, '''                record_length += block.get("ROW_SUFFIX_BYTES", 0)
            elif''', '''            elif''')]),
    ("table-bytes", "bug", [(Q, '            length = block["BYTES"]\n        elif n_records', '            length = block["BYTES"] - 1\n        elif n_records')]),
    ("from-end-prefix", "bug", [(Q, '            row_bytes += block.get("ROW_PREFIX_BYTES", 0)\n', '')]),
    ("from-end-size", "bug", [(H, "tab_size = rows * row_bytes", "tab_size = (rows - 1) * row_bytes")]),
    ("linepad", "bug", [(Q, '        linefix_metadata["linepad"] += int(fix_pix)', '        linefix_metadata["linepad"] = int(fix_pix)')]),
    ("pixels-padded", "bug", [(Q, '(props["nrows"] + props["rowpad"]) * (', 'props["nrows"] * (')]),
    ("pixels-bands", "bug", [(Q, '* (props["nbands"] + props["bandpad"])\n', '* props["nbands"]\n')]),
    ("all-pixels", "bug", [(I, 'dtype=numpy_dtype, count=props["pixels"]', 'dtype=numpy_dtype')]),
    ("small-images", "bug", [(I, 'image = np_from_buffered_io(f, numpy_dtype, count=props["pixels"])', 'image = np_from_buffered_io(f, numpy_dtype, count=props["nrows"] * props["ncols"] * props["nbands"])')]),
    ("no-seek", "bug", [(I, "        f.seek(start_byte)\n", "")]),
    ("seek-relative", "bug", [(I, "        f.seek(start_byte)\n", "        f.read(start_byte // 2 * 2)\n")]),
    ("header-seek", "bug", [(X, 'file.seek(table_props["start"])', 'file.seek(table_props["start"] + 1)')]),
    ("header-cap", "bug", [(X, 'min(table_props["length"], 80000)', 'min(table_props["length"], 800)')]),
    ("header-lines", "bug", [(X, 'if i >= end:', 'if i > end:')]),
    ("array-start", "bug", [(T, "                offset=start_byte,\n            )\n        return array", "                offset=0,\n            )\n        return array")]),
    ("array-count", "bug", [(Q, "return reduce(mul, items)", "return reduce(mul, items[:-1])")]),
    ("array-count-qube", "bug", [(Q, "return reduce(mul, items)", "return sum(items)")]),
    ("ascii-array-start", "bug", [(T, "        stream.seek(start_byte)\n        text", "        text")]),
    ("gz-count", "bug", [(N, "count * np.dtype(dtype).itemsize", "count * np.dtype(dtype).alignment")]),
    ("gz-all", "bug", [(N, "buffered_io.read(n_bytes)", "buffered_io.read()")]),
    ("offset-zero", "bug", [(N, "    if offset is not None:\n        buffered_io.seek(offset)\n", "    if offset:\n        buffered_io.seek(offset, 1)\n        buffered_io.seek(0)\n")]),
    ("head-file", "bug", [(U, "fn_or_reader.seek(offset, whence)", "fn_or_reader.seek(0, whence)")]),
    ("ascii-length", "bug", [(T, 'nbytes=table_props["length"], offset', 'nbytes=None, offset')]),
    ("lines-start", "bug", [(T, '[next(f) for _ in range(table_props["start"])]', '[next(f) for _ in range(table_props["start"] + 1)]')]),
    ("lines-length", "bug", [(T, 'lines = [next(f) for _ in range(table_props["length"])]', 'lines = [next(f) for _ in range(table_props["length"] - 1)]')]),
    ("big-offsets", "bug", [(Q, '''    if start_byte is not None:
        if start_byte < 0:''', '''    if start_byte is not None:
        start_byte = start_byte & 0x7fffffff
        if start_byte < 0:''')]),
    ("even-records", "bug", [(Q, "start_byte = record_bytes * max(target - 1, 0)", "start_byte = (record_bytes + record_bytes % 2) * max(target - 1, 0)")]),
    ("many-rows", "bug", [(T, '    count = count if count is not None else 1\n', '    count = min(count, 65535) if count is not None else 1\n')]),
    ("array-bytes", "bug", [(H, 'return record_bytes * max(quantity_dict["value"] - 1, 0)', 'return record_bytes * quantity_dict["value"]'), (Q, '''    if isinstance(target, dict) and target["units"] != "BYTES":
        target = target["value"]  # a number of records, units or no
''', '')]),
    ("ok-helper", "ok", [(Q, "            start_byte = record_bytes * max(target - 1, 0)\n", "            start_byte = _record_start(record_bytes, target)\n"),
                         (Q, "def data_start_byte(", '''def _record_start(size, number):
    number -= 1
    if number < 0:
        number = 0
    return number * size


def data_start_byte(''')]),
    ("ok-frombuffer", "ok", [(N, "    return np.fromfile(buffered_io, dtype=dtype, count=count)", "    nbytes = -1 if count < 0 else count * np.dtype(dtype).itemsize\n    return np.frombuffer(bytearray(buffered_io.read(nbytes)), dtype=dtype)")]),
    ("ok-seek-count", "ok", [(I, "        f.seek(start_byte)\n", "        if start_byte > 0:\n            f.seek(start_byte, 0)\n")]),
    ("ok-pixels", "ok", [(Q, '''    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
        (props["ncols"] + props["colpad"])
        * (props["nbands"] + props["bandpad"])
        + props["linepad"]
    )
''', '''    lines = props["nrows"] + props["rowpad"]
    samples = props["ncols"] + props["colpad"]
    bands = props["nbands"] + props["bandpad"]
    props["pixels"] = lines * samples * bands + props["linepad"] * lines
''')]),
    ("ok-header", "ok", [(X, '''                file.seek(table_props["start"])
                text = file.read(min(table_props["length"], 80000)).decode(
                    "ISO-8859-1"
                )
''', '''                file.seek(table_props["start"])
                n_bytes = table_props["length"]
                if n_bytes > 80000:
                    n_bytes = 80000
                text = str(file.read(n_bytes), "ISO-8859-1")
''')]),
    ("ok-lines", "ok", [(T, '''            if table_props["start"] > 0:
                [next(f) for _ in range(table_props["start"])]
            if table_props["length"] in (None, ""):
                lines = f.readlines()
            else:
                lines = [next(f) for _ in range(table_props["length"])]
''', '''            lines = f.readlines()[table_props["start"]:]
            if table_props["length"] not in (None, ""):
                lines = lines[:table_props["length"]]
''')]),
    ("ok-reduce", "ok", [(Q, "        return reduce(mul, items)\n", "        total = 1\n        for n in items:\n            total *= n\n        return total\n")]),
    ("ok-table-read", "ok", [(T, '''        table = np_from_buffered_io(
            f, dtype=dt, offset=start_byte, count=count
        )
''', '''        f.seek(start_byte)
        table = np_from_buffered_io(f, dtype=dt, count=count)
''')]),
    ("ok-tail", "ok", [(H, "return stream.seek(0, os.SEEK_END) - tab_size", "stream.seek(0, 2)\n        return stream.tell() - tab_size")]),
]
