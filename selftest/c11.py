K = "pdr/formats/checkers.py"
Q = "pdr/loaders/queries.py"
P = "pdr/pdr.py"
T = "pdr/loaders/table.py"
X = "pdr/loaders/text.py"
CASES = [
 ("handler_name", "bug", [(K, "formats.mex.aspera_table_loader(fn, fmtdef_dt)", "formats.mex.aspera_loader(fn, fmtdef_dt)")]),
 ("handler_module", "bug", [(K, "formats.mex.aspera_table_loader(fn, fmtdef_dt)", "formats.mex_aspera.aspera_table_loader(fn, fmtdef_dt)")]),
 ("handler_arity", "bug", [(K, "formats.mex.aspera_table_loader(fn, fmtdef_dt)", "formats.mex.aspera_table_loader(fn)")]),
 ("handler_signature", "bug", [("pdr/formats/mer.py", "def rss_spreadsheet_loader(filename, fmtdef_dt)", "def rss_spreadsheet_loader(filename, fmtdef_dt, identifiers)")]),
 ("kw_renamed", "bug", [("pdr/parselabel/utils.py", "    special_encoding: str = \"utf-8\"", "    encoding: str = \"utf-8\""), ("pdr/parselabel/utils.py", "text.decode(special_encoding", "text.decode(encoding")]),
 ("unbound_juno", "bug", [("pdr/formats/juno.py", 'elif name == "FREQ_OFFSET_TABLE":', 'elif name == "FREQ_TABLE":')]),
 ("unbound_caller", "bug", [(K, 'and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE")', 'and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE", "TABLE")')]),
 ("unbound_phoenix", "bug", [("pdr/formats/phoenix.py", '    else:\n        raise NotImplementedError(f"Unknown AFM table {name}.")\n', '')]),
 ("self_attr", "bug", [(P, "self._pds4_label_structures = None", "self._pds4_structures = None") if False else (P, "self.loaders = {}", "self.loader_funcs = {}")]),
 ("typo", "bug", [(T, "    return _drop_placeholders(table)", "    return _drop_placeholder(table)") if False else (T, "table = _drop_placeholders(", "table = _drop_placeholder(")]),
 ("partial", "bug", [(T, "def read_array(", "from functools import partial\n_p = partial(decompress, filename='a', mode='rb')\n\n\ndef read_array(")]),
 ("try_unbound", "bug", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    try:\n        fn = check_cases(fn)\n        text = open(fn).read()\n    except UnicodeDecodeError:\n        warnings.warn('bad')\n    return text")]),
 ("ok_helper", "ok", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    text = None\n    try:\n        fn = check_cases(fn)\n        text = open(fn).read()\n    except UnicodeDecodeError:\n        warnings.warn('bad')\n    return text")]),
 ("ok_flag", "ok", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    found = False\n    for f in [fn]:\n        if f:\n            got = open(check_cases(f)).read()\n            found = True\n    if found:\n        return got")]),
 ("ok_correlated", "ok", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    if len(str(fn)) > 3:\n        f2 = check_cases(fn)\n    print(fn)\n    if len(str(fn)) > 3:\n        return open(f2).read()")]),
 ("ok_juno_dict", "ok", [("pdr/formats/juno.py", '''    if name == "DATA_TABLE":
        object_name = "TABLE"
    elif name == "FREQ_OFFSET_TABLE":
        object_name = "DATA_TABLE"
''', '''    if "DATA_TABLE" == name:
        object_name = "TABLE"
    else:
        object_name = "DATA_TABLE"
''')]),
 ("ok_match", "ok", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    match str(fn).split():\n        case [a, b]:\n            return a + b\n        case [a, *rest]:\n            return rest\n        case other:\n            return open(other).read()")]),
 ("ok_closure", "ok", [(X, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    def go(n):\n        return 1 if n == 0 else go(n - 1) + len(later)\n    later = [x for x in str(fn)]\n    go(1)\n    return open(check_cases(fn)).read()")]),
 ("ok_pred_helper", "ok", [(K, '        and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE")\n', '        and _burst(name)\n'), (K, "def check_special_block(", "def _burst(name):\n    return name in ('FREQ_OFFSET_TABLE', 'DATA_TABLE')\n\n\ndef check_special_block(")]),
 ("ok_pred_var", "ok", [(K, """    if (
        identifiers["DATA_SET_ID"].startswith("JNO-E/J/SS")
        and "BSTFULL" in""", """    applies = (
        identifiers["DATA_SET_ID"].startswith("JNO-E/J/SS")
        and "BSTFULL" in"""), (K, """        and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE")
    ):
""", """        and name in ("FREQ_OFFSET_TABLE", "DATA_TABLE")
    )
    if applies:
""")]),
 ("ok_star", "ok", [(K, "formats.mex.aspera_table_loader(fn, fmtdef_dt)", "formats.mex.aspera_table_loader(*(fn, fmtdef_dt))")]),
 ("ok_alias", "ok", [(K, "        return True, formats.mex.aspera_table_loader(fn, fmtdef_dt)", "        loader = formats.mex.aspera_table_loader\n        return True, loader(fn, fmtdef_dt)")]),
]
