H = "pdr/loaders/_helpers.py"
T = "pdr/loaders/text.py"
D = "pdr/loaders/datawrap.py"
CASES = [
 ("count", "bug", [(H, 'curry(re.sub, HETERODOX_ENDING, "\\n")', 'curry(re.sub, HETERODOX_ENDING, "\\n", count=4096)')]),
 ("short", "bug", [(H, "    if isinstance(text, str):\n        return _cle(text)", "    if isinstance(text, str) and len(text) < 65536:\n        return _cle(text)")]),
 ("regex_crlf_only", "bug", [(H, r'''re.compile(r"\r\n?")''', r'''re.compile(r"\r\n")''')]),
 ("regex_cr_only", "bug", [(H, r'''re.compile(r"\r\n?")''', r'''re.compile(r"\r")''')]),
 ("no_canon_header", "bug", [(T, "@canonicalized\ndef skeptically", "def skeptically")]),
 ("label_special", "bug", [(D, "canonicalized(specialize(read_label, check_special_label))", "specialize(read_label, check_special_label)")]),
 ("canon_before", "bug", [(H, "        return canonicalize_line_endings(func(*args, **kwargs))", "        args = [canonicalize_line_endings(a) for a in args]\n        return func(*args, **kwargs)")]),
 ("join_lines", "bug", [(T, 'line.replace("\\n", "\\r\\n")', 'line.replace("\\n", "")')]),
 ("raw_text", "bug", [(T, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file, newline='').read()"), (T, "@canonicalized\n# TODO", "# TODO")]),
 ("only_long", "bug", [(H, "    if isinstance(text, str):\n        return _cle(text)", "    if isinstance(text, str) and \"\\n\" in text:\n        return _cle(text)")]),
 ("ok_replace", "ok", [(H, "    if isinstance(text, str):\n        return _cle(text)", "    if isinstance(text, str):\n        return text.replace('\\r\\n', '\\n').replace('\\r', '\\n')")]),
 ("ok_regex", "ok", [(H, r'''re.compile(r"\r\n?")''', r'''re.compile(r"\r\n|\r")''')]),
 ("ok_label_noinner", "ok", [(T, "@canonicalized\ndef read_label", "def read_label")]),
 ("ok_header_inline", "ok", [(T, "@canonicalized\ndef skeptically", "def skeptically"), (T, "        return text\n    except", "        return canonicalize_line_endings(text)\n    except"), (T, "import canonicalized", "import canonicalized, canonicalize_line_endings")]),
 ("ok_text_nodeco", "ok", [(T, "@canonicalized\n# TODO", "# TODO")]),
 ("ok_crlf_dropped", "ok", [(T, 'lines.append(line.replace("\\n", "\\r\\n"))', 'lines.append(line)')]),
 ("ok_helper", "ok", [(H, "        return canonicalize_line_endings(func(*args, **kwargs))", "        result = func(*args, **kwargs)\n        return canonicalize_line_endings(result)")]),
 ("ok_reader_split", "ok", [(T, "        if table_props[\"as_rows\"] is True:\n", "        rows = table_props[\"as_rows\"]\n        if rows is True:\n")]),
 ("ok_loop", "ok", [(T, '''                for i, line in enumerate(decoded_f):
                    if i >= end:
                        break
                    if i >= start:
                        lines.append(line.replace("\\n", "\\r\\n"))
''', '''                lines = list(decoded_f)[start:end]
''')]),
]
