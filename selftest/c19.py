T = "pdr/loaders/table.py"
P = "pdr/pd_utils.py"
Q = "pdr/loaders/queries.py"
SC = '''                table[col] = table[col].mul(record["SCALING_FACTOR"])
            else:
                scaling_factor = 1  # TODO: appears superfluous
'''
CASES = [
    ("same", "ok", []),
    ("no-drop", "bug", [(T, "    table = _drop_placeholders(table)\n", "")]),
    ("drop-after-scale", "ok", [(T, "    table = _drop_placeholders(table)\n    # If", "    # If"),
      (T, "                table[col] = table[col]+offset\n    return table", "                table[col] = table[col]+offset\n    return _drop_placeholders(table)")]),
    ("drop-exact", "bug", [(T, 'if "PLACEHOLDER" in k]', 'if k == "PLACEHOLDER"]')]),
    ("drop-only-binary", "ok", [(T, "    table = _drop_placeholders(table)\n    # If", "    if dt is not None:\n        table = _drop_placeholders(table)\n    # If")]) if False else
    ("drop-startswith", "ok", [(T, 'if "PLACEHOLDER" in k]', 'if k.startswith("PLACEHOLDER")]')]),
    ("drop-listcomp", "ok", [(T, '''    return table.drop(
        [k for k in table.keys() if "PLACEHOLDER" in k], axis=1
    )''', '''    return table[[k for k in table.columns if "PLACEHOLDER" not in k]]''')]),
    ("offset-first", "bug", [(T, SC, "                table[col] = (table[col] + (record.get('OFFSET') or 0)).mul(record['SCALING_FACTOR'])\n")]),
    ("offset-inside", "bug", [(T, '            if record.get("OFFSET") and not', '            elif record.get("OFFSET") and not'), (T, '            else:\n                scaling_factor = 1  # TODO: appears superfluous\n', '')]),
    ("scale-binary-only", "bug", [(T, '    if fmtdef.get("OFFSET") is not None or', '    if dt is not None and fmtdef.get("OFFSET") is not None or')]),
    ("guard-and", "bug", [(T, '    if fmtdef.get("OFFSET") is not None or fmtdef', '    if fmtdef.get("OFFSET") is not None and fmtdef')]),
    ("first-record", "bug", [(T, "record = fmtdef.loc[fmtdef['NAME'] == col].to_dict(\"records\")[0]", "record = fmtdef.to_dict(\"records\")[0]")]),
    ("nan-offset", "bug", [(T, 'if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):', 'if record.get("OFFSET"):')]),
    ("divide", "bug", [(T, '.mul(record["SCALING_FACTOR"])', '.div(record["SCALING_FACTOR"])')]),
    ("expression", "ok", [(T, '.mul(record["SCALING_FACTOR"])', ' * record["SCALING_FACTOR"]')]),
    ("helper", "ok", [(T, '''            if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
''' + SC, '''            factor = _given(record, "SCALING_FACTOR")
            if factor is not None:
                table[col] = table[col] * factor
'''), (T, "def _drop_placeholders", '''def _given(record, key):
    value = record.get(key)
    return None if value is None or pd.isnull(value) else value


def _drop_placeholders''')]),
    ("pad-unnamed", "bug", [(P, '"NAME": "PLACEHOLDER_0",\n            "DATA_TYPE"', '"NAME": "PAD_0",\n            "DATA_TYPE"')]),
    ("container-pad-unnamed", "bug", [(Q, """'NAME': f'PLACEHOLDER_{definition["NAME"]}',""", """'NAME': f'PAD_{definition["NAME"]}',""")]),
    ("names-mismatch", "ok", [(T, "f for f in fmtdef['NAME'] if not f.startswith('PLACEHOLDER')", "f for f in fmtdef['NAME'] if 'PLACEHOLDER' not in f")]),
]
