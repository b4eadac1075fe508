D = "pdr/loaders/datawrap.py"
Q = "pdr/loaders/queries.py"
F = "pdr/func.py"
T = "pdr/loaders/table.py"
K = "pdr/formats/checkers.py"
PT = '''            "table_props": specialize(table_position, check_special_position),
            "fmtdef_dt": specialize('''
CASES = [
 ("drop_query", "bug", [(D, '            "base_samp_info": base_sample_info,\n', '')]),
 ("drop_default", "bug", [(Q, '    "identifiers": get_identifiers,\n', '')]),
 ("order_img", "bug", [(D, '            "base_samp_info": base_sample_info,\n', ''), (D, '            "gen_props": specialize(generic', '            "base_samp_info": base_sample_info,\n            "gen_props": specialize(generic')]),
 ("no_block_check", "bug", [(Q, 'specialize(get_block, check_special_block)', 'get_block')]),
 ("no_offset_check", "bug", [(Q, 'specialize(data_start_byte, check_special_offset)', 'data_start_byte')]),
 ("no_position_header", "bug", [(D, '            "table_props": specialize(table_position, check_special_position)\n        }', '            "table_props": table_position\n        }')]),
 ("no_structure_array", "bug", [(D, '''specialize(
                parse_array_structure, check_special_structure
            )''', 'parse_array_structure')]),
 ("no_reader_check", "bug", [(D, "super().__init__(specialize(read_table, check_special_table_reader))", "super().__init__(read_table)")]),
 ("no_label_check", "bug", [(D, "canonicalized(specialize(read_label, check_special_label))", "canonicalized(read_label)")]),
 ("label_no_wraps", "bug", [(D, "canonicalized(specialize(read_label, check_special_label))", "canonicalized(lambda fn, fnord: read_label(fn))")]),
 ("wrong_check", "bug", [(D, '''specialize(
                parse_array_structure, check_special_structure
            )''', 'specialize(parse_array_structure, check_special_position)')]),
 ("truthy", "bug", [(F, "if is_special is True:", "if is_special is not True:")]),
 ("late_check", "bug", [(F, '''            is_special, special_result = call_kwargfiltered(
                check, *args, **kwargs
            )''', '''            result = call_kwargfiltered(func, *args, **kwargs)
            is_special, special_result = call_kwargfiltered(
                check, *args, **kwargs
            )'''), (F, "            return call_kwargfiltered(func, *args, **kwargs)\n", "            return result\n")]),
 ("unfiltered", "bug", [(F, '''            is_special, special_result = call_kwargfiltered(
                check, *args, **kwargs
            )''', '''            is_special, special_result = check(*args, **kwargs)''')]),
 ("no_signature", "bug", [(F, "    preempt_if_special.__signature__ = sig_union(func, check)\n", "")]),
 ("half_signature", "bug", [(F, "sig_union(func, check)\n", "signature(func)\n")]),
 ("soft_overrides", "bug", [(F, "    args_to_get = require_args.difference(have_args)\n", "    args_to_get = require_args\n")]),
 ("soft_reader_only", "bug", [(F, '''        func, *querydict.values(), nonoptional=True''', '''        func, nonoptional=True''')]),
 ("soft_sorted", "bug", [(F, "    for qname in querydict:\n", "    for qname in sorted(querydict):\n")]),
 ("soft_no_missing", "bug", [(F, "    if len(missing) > 0:", "    if len(missing) > 3:")]),
 ("new_param", "bug", [(T, "def read_array(", "def read_array(pad_bytes, ") if False else ("pdr/loaders/text.py", "def read_text(target: str, fn:", "def read_text(encoding, target: str, fn:")]),
 ("new_check_param", "bug", [(K, "def check_special_table_reader(\n", "def check_special_table_reader(\n    rows: int,\n")]),
 ("ok_helper", "ok", [(D, "class ReadTable(Loader):", "def _positions():\n    from pdr.loaders.queries import table_position\n    return {\"table_props\": specialize(table_position, check_special_position)}\n\n\nclass ReadTable(Loader):"), (D, PT, '            **_positions(),\n            "fmtdef_dt": specialize(')]),
 ("ok_star", "ok", [(D, 'self.queries = DEFAULT_DATA_QUERIES | {\n            "table_props": specialize(table_position, check_special_position)\n        }', 'self.queries = {\n            **DEFAULT_DATA_QUERIES,\n            "table_props": specialize(table_position, check_special_position),\n        }')]),
 ("ok_update", "ok", [(D, 'self.queries = DEFAULT_DATA_QUERIES | {\n            "table_props": specialize(table_position, check_special_position)\n        }', 'queries = dict(DEFAULT_DATA_QUERIES)\n        queries["table_props"] = specialize(\n            table_position, check_special_position\n        )\n        self.queries = queries')]),
 ("ok_aug", "ok", [(D, 'self.queries = DEFAULT_DATA_QUERIES | {\n            "table_props": specialize(table_position, check_special_position)\n        }', 'self.queries = dict(DEFAULT_DATA_QUERIES)\n        self.queries |= {\n            "table_props": specialize(table_position, check_special_position)\n        }')]),
 ("ok_inline_check", "ok", [(D, '''specialize(
                parse_array_structure, check_special_structure
            )''', 'array_structure'), (D, "class ReadArray(Loader):", '''def array_structure(
    block, name, fn, data, identifiers
):
    from pdr.loaders.queries import parse_array_structure
    is_special, fmt = check_special_structure(
        block, name, fn, data, identifiers
    )
    if is_special:
        return fmt
    return parse_array_structure(block, name, fn, data, identifiers)


class ReadArray(Loader):''')]),
 ("ok_soft_ops", "ok", [(F, "    args_to_get = require_args.difference(have_args)\n    missing = args_to_get.difference(querydict)\n    if len(missing) > 0:", "    args_to_get = require_args - set(have_args)\n    missing = args_to_get - set(querydict)\n    if missing:"), (F, "        if qname not in args_to_get.intersection(querydict):\n            continue\n", "        if qname not in args_to_get:\n            continue\n")]),
 ("ok_soft_items", "ok", [(F, '''    for qname in querydict:
        if qname not in args_to_get.intersection(querydict):
            continue
        if "tracker" in kwargdict.keys():
            kwargdict["tracker"].track(querydict[qname])
        kwargdict[qname] = call_kwargfiltered(querydict[qname], **kwargdict)
''', '''    for qname, query in querydict.items():
        if qname in args_to_get:
            if "tracker" in kwargdict:
                kwargdict["tracker"].track(query)
            kwargdict[qname] = call_kwargfiltered(query, **kwargdict)
''')]),
 ("ok_soft_steps", "ok", [(F, '''    for qname in querydict:
        if qname not in args_to_get.intersection(querydict):
            continue
''', '''    wanted = [q for q in querydict if q in args_to_get]
    for qname in wanted:
''')]),
 ("ok_spec_inv", "ok", [(F, '''            if is_special is True:
                return special_result
            return call_kwargfiltered(func, *args, **kwargs)
''', '''            if not is_special:
                return call_kwargfiltered(func, *args, **kwargs)
            return special_result
''')]),
 ("ok_spec_var", "ok", [(F, '''            is_special, special_result = call_kwargfiltered(
                check, *args, **kwargs
            )
''', '''            answer = call_kwargfiltered(check, *args, **kwargs)
            is_special, special_result = answer
''')]),
 ("ok_sig_var", "ok", [(F, "    preempt_if_special.__signature__ = sig_union(func, check)\n", "    combined = sig_union(func, check)\n    preempt_if_special.__signature__ = combined\n")]),
 ("ok_soft_raise_helper", "ok", [(F, "    if len(missing) > 0:\n        raise TypeError(f\"Missing args in querydict: {missing}\")\n", "    _refuse(missing)\n"), (F, "def softquery(", "def _refuse(missing):\n    if len(missing) > 0:\n        raise TypeError(f\"Missing args in querydict: {missing}\")\n\n\ndef softquery(")]),
]
