CASES = [
    ("drop_copy", "bug", [("pdr/formats/phoenix.py",
        "deepcopy(data.metablock_(name))", "data.metablock_(name)")]),
    ("shallow_nested", "bug", [("pdr/formats/mariner.py",
        "deepcopy(data.metablock_(name))", "data.metablock_(name).copy()")]),
    ("shallow_nested2", "bug", [("pdr/formats/ulysses.py",
        "deepcopy(data.metablock_(name))", "dict(data.metablock_(name))")]),
    ("definition_in_place", "bug", [("pdr/loaders/handlers.py",
        "    definition = deepcopy(definition)\n", "")]),
    ("update_in_query", "bug", [("pdr/loaders/queries.py",
        "    if name in data._interleaved_objects.keys():\n        parent",
        "    b = data.metablock_(name)\n    if b is not None:\n"
        "        b.update({'NAME': name})\n"
        "    if name in data._interleaved_objects.keys():\n        parent")]),
    ("pop_in_query", "bug", [("pdr/loaders/queries.py",
        "    linefix_metadata = {\"linepad\": 0}\n",
        "    linefix_metadata = {\"linepad\": 0}\n"
        "    block.pop('LINE_PREFIX_BYTES_', None)\n")]),
    ("setdefault_block", "bug", [("pdr/loaders/queries.py",
        "    block_info = {\n",
        "    block.setdefault('REPETITIONS', 1)\n    block_info = {\n")]),
    ("parent_block_direct", "bug", [("pdr/loaders/queries.py",
        "    block = MultiDict(format_block)\n    if \"ROWS\"",
        "    block = parent_block\n    if \"ROWS\"")]),
    ("nested_in_parent", "bug", [("pdr/loaders/queries.py",
        "    block = MultiDict(format_block)\n    if \"ROWS\"",
        "    block = MultiDict(format_block)\n"
        "    for k, v in block.items():\n"
        "        if k == 'COLUMN':\n"
        "            v['START_BYTE'] = 1\n    if \"ROWS\"")]),
    ("identifiers", "bug", [("pdr/loaders/queries.py",
        "    linefix_metadata = {\"linepad\": 0}\n",
        "    linefix_metadata = {\"linepad\": 0}\n"
        "    props['x'] = 1\n"),
        ("pdr/formats/checkers.py",
         "    instrument = identifiers[\"INSTRUMENT_NAME\"]\n    if instrument in (\n        \"ALPHA",
         "    instrument = identifiers[\"INSTRUMENT_NAME\"]\n"
         "    identifiers['INSTRUMENT_NAME'] = instrument.strip()\n"
         "    if instrument in (\n        \"ALPHA")]),
    ("helper_alias", "bug", [("pdr/formats/pvo.py",
        "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = 243\n    return block",
        "    return _set(data.metablock_(name), \"ROW_BYTES\", 243)"),
        ("pdr/formats/pvo.py", "def oims_12s_loader",
         "def _set(b, k, v):\n    b[k] = v\n    return b\n\n\ndef oims_12s_loader")]),
    # behaviour kept
    ("copy_flat", "ok", [("pdr/formats/pvo.py",
        "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = 243\n    return block",
        "    block = data.metablock_(name).copy()\n    block[\"ROW_BYTES\"] = 243\n    return block")]),
    ("multidict_ctor", "ok", [("pdr/formats/pvo.py",
        "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = 243\n    return block",
        "    from multidict import MultiDict\n    block = MultiDict(data.metablock_(name))\n    block[\"ROW_BYTES\"] = 243\n    return block")]),
    ("helper_copy", "ok", [("pdr/formats/pvo.py",
        "    block = deepcopy(data.metablock_(name))\n    block[\"ROW_BYTES\"] = 243\n    return block",
        "    return _with(data.metablock_(name), \"ROW_BYTES\", 243)"),
        ("pdr/formats/pvo.py", "def oims_12s_loader",
         "def _with(b, k, v):\n    new = deepcopy(b)\n    new[k] = v\n    return new\n\n\ndef oims_12s_loader")]),
    ("import_copy_module", "ok", [("pdr/formats/mariner.py",
        "from copy import deepcopy", "import copy"),
        ("pdr/formats/mariner.py", "deepcopy(data", "copy.deepcopy(data")]),
    ("loop_rewrite", "ok", [("pdr/formats/phoenix.py",
        "    for item in iter(block.items()):\n        if \"COLUMN\" in item:\n            if item[1][\"COLUMN_NUMBER\"] == 13:\n                item[1][\"START_BYTE\"] -= 1\n            if item[1][\"COLUMN_NUMBER\"] == 14:\n                item[1][\"START_BYTE\"] -= 2\n",
        "    for col in block.getall(\"COLUMN\"):\n        if col[\"COLUMN_NUMBER\"] in (13, 14):\n            col[\"START_BYTE\"] -= col[\"COLUMN_NUMBER\"] - 12\n")]),
    ("merge_dict", "ok", [("pdr/loaders/queries.py",
        "            obj = dict(definition) | block_info\n",
        "            obj = {}\n            obj.update(definition)\n            obj.update(block_info)\n")]),
    ("reorder", "ok", [("pdr/formats/lro.py",
        "    block[\"LINES\"] = 5760\n    block[\"LINE_SAMPLES\"] = 11520\n",
        "    block[\"LINE_SAMPLES\"] = 11520\n    block[\"LINES\"] = 5760\n")]),
    ("comment", "ok", [("pdr/pdr.py", "class Metadata(MultiDict):",
                        "_ = None\n\n\nclass Metadata(MultiDict):")]),
]
