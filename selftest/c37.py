R = "pdr/pds4_tools/reader/"
T = R + "read_tables.py"
A = R + "read_arrays.py"
AO = R + "array_objects.py"
D = R + "data_types.py"
TO = R + "table_objects.py"
CONT = "        if length * array_shape[i+2] != repetition_lengths[i]:\n            has_contiguous_end_bytes = False\n"
START = "            start_byte += group_locations[i] + repetition_lengths[i] * current_position[i + 1]\n"
SKIP1 = "                if (child_item is not field) and child_item.is_field():\n                    skip_factor += 1\n"
JOIN = "                        if last_character == '\"':\n"
CASES = [
 ("msb2", "bug", [(D, "    'UnsignedMSB2':     ('big', 'uint16',     'int'),", "    'UnsignedMSB2':     ('big', 'int16',     'int'),")]),
 ("lsb", "bug", [(D, "    'ComplexLSB8':      ('little', 'complex64',", "    'ComplexLSB8':      ('big', 'complex64',")]),
 ("width", "bug", [(D, "    'SignedLSB8':       ('little', 'int64',", "    'SignedLSB8':       ('little', 'int32',")]),
 ("nonneg", "bug", [(D, "    'ASCII_NonNegative_Integer': ('native', 'uint64',", "    'ASCII_NonNegative_Integer': ('native', 'float64',")]),
 ("base", "bug", [(D, "                        'ASCII_Numeric_Base8': 8,\n", "")]),
 ("bool", "bug", [(D, "        data = data.replace(b'true', b'1')\n", "        data = data.replace(b'true', b'0')\n")]),
 ("nomask", "bug", [(D, "        data.mask = mask_array\n", "        pass\n")]),
 ("nativeend", "bug", [(D, "            if include_endian:\n                dtype = dtype.newbyteorder(types[0])\n", "            if include_endian and dtype.itemsize > 2:\n                dtype = dtype.newbyteorder(types[0])\n")]),
 ("contig_loc", "ok", [(T, "    has_contiguous_locations = group_locations[1:] == [0] * (len(group_locations) - 1)\n", "    has_contiguous_locations = True\n")]),
 ("contig_len", "bug", [(T, CONT, "        pass\n")]),
 ("contig_end", "bug", [(T, "    has_contiguous_end_bytes = field_length == repetition_lengths[-1]\n", "    has_contiguous_end_bytes = True\n")]),
 ("contig_cmp", "bug", [(T, CONT, CONT.replace("i+2", "i+1"))]),
 ("group_start", "bug", [(T, "        group_start_byte = group_locations[0]\n", "        group_start_byte = group_locations[-1]\n")]),
 ("order", "bug", [(T, "                repetition_lengths.insert(0, parent_group['length'] // parent_group['repetitions'])\n", "                repetition_lengths.append(parent_group['length'] // parent_group['repetitions'])\n")]),
 ("no_location", "bug", [(T, START, START.replace("group_locations[i] + ", "(group_locations[i] if i == 0 else 0) + "))]),
 ("skip", "bug", [(TO, SKIP1, SKIP1.replace("(child_item is not field) and child_item.is_field()", "child_item.is_field()"))]),
 ("offset_reps", "bug", [(TO, "                    offset_num += offset_add * child_item['repetitions']\n", "                    offset_num += offset_add\n")]),
 ("skip_reps", "bug", [(TO, "                                   * child_item['repetitions']\n", "                                   * 1\n")]),
 ("quote_shrink", "bug", [(T, "                            split_record_len -= next_quote_idx - column_idx\n", "                            split_record_len -= 1\n")]),
 ("quote_keep", "bug", [(T, "original_value = original_value[1:-1]", "original_value = original_value[1:]")]),
 ("quote_len", "bug", [(T, "                            next_start_byte += len(original_value) + 1\n", "                            next_start_byte += value_length + 1\n")]),
 ("quote_next", "bug", [(T, "                                next_quote_idx = column_idx + 1 + k\n", "                                next_quote_idx = column_idx + k\n")]),
 ("long", "bug", [(T, "get_min_integer_numpy_type([longest_record + 1])", "get_min_integer_numpy_type([longest_record - 1])")]),
 ("semi", "bug", [(T, "                       'semicolon': b';',\n", "                       'semicolon': b',',\n")]),
 ("crlf", "bug", [(T, "'carriage-return line-feed': b'\\r\\n'", "'carriage-return line-feed': b'\\n'")]),
 ("axes", "bug", [(A, "[axis_array['elements'] for axis_array in meta_data.get_axis_arrays()]", "[axis_array['elements'] for axis_array in meta_data.get_axis_arrays()[:2]]")]),
 ("aoffset", "bug", [(A, "    stop_byte = start_byte + num_elements * element_size\n", "    stop_byte = num_elements * element_size\n")]),
 ("toffset", "bug", [(T, "            start_byte = (record_num * record_length) + field_location\n", "            start_byte = record_num * (record_length - record_length % 2) + field_location\n")]),
 ("product", "ok", [(T, "        num_elements = reduce(lambda x, y: x*y, array_shape[1:])\n", "        num_elements = 1\n        for dimension in array_shape[1:]:\n            num_elements = num_elements * dimension\n")]),
 ("always_slow", "ok", [(T, "    if has_contiguous_locations and has_contiguous_end_bytes:\n", "    if False:\n")]),
 ("contig_all", "ok", [(T, CONT, "        has_contiguous_end_bytes = has_contiguous_end_bytes and (\n            repetition_lengths[i] == length * array_shape[i + 2])\n")]),
 ("sum", "ok", [(T, "        for i in range(0, len(group_locations)):\n" + START, "        start_byte += sum(place + size * at for place, size, at in\n                          zip(group_locations, repetition_lengths, current_position[1:]))\n")]),
 ("frombuffer", "ok", [(D, "    byte_string = np.frombuffer(byte_string, dtype=dtype)\n\n    return byte_string\n", "    return np.frombuffer(byte_string, dtype=dtype)\n")]),
 ("delims", "ok", [(T, "    field_delimiter = {'comma': b',',\n                       'horizontal tab': b'\\t',\n                       'semicolon': b';',\n                       'vertical bar': b'|'\n                      }.get(delimiter_name, None)\n", "    if delimiter_name == 'comma':\n        field_delimiter = b','\n    elif delimiter_name == 'semicolon':\n        field_delimiter = b';'\n    elif delimiter_name == 'vertical bar':\n        field_delimiter = b'|'\n    else:\n        field_delimiter = b'\\t'\n")]),
 ("parents", "ok", [(T, "            for parent_group in table_manifest.get_parents_by_idx(parent_idx):\n                group_locations.insert(0, parent_group['location'] - 1)\n                repetition_lengths.insert(0, parent_group['length'] // parent_group['repetitions'])\n", "            parents = list(reversed(table_manifest.get_parents_by_idx(parent_idx)))\n            group_locations = [group['location'] - 1 for group in parents]\n            repetition_lengths = [group['length'] // group['repetitions'] for group in parents]\n")]),
]
