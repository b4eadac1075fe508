C = "pdr/formats/checkers.py"
N = "pdr/formats/nh.py"
TH = "pdr/formats/themis.py"
GA = "pdr/formats/galileo.py"
MA = "pdr/formats/msl_apxs.py"
CASES = [
 ("nh", "bug", [(N, '    return True, Path(label.parent, f"{label.stem}.csv")\n', '    return Path(label.parent, f"{label.stem}.csv")\n')]),
 ("nh_none", "bug", [(N, '    return True, Path(label.parent, f"{label.stem}.csv")\n', '    if label.suffix:\n        return True, Path(label.parent, f"{label.stem}.csv")\n')]),
 ("gzip_bare", "bug", [(TH, "        return False, None\n    filename = listify", "        return False\n    filename = listify")]),
 ("gzip_swap", "bug", [(TH, "        return True, filename\n", "        return filename, True\n")]),
 ("trivial_none", "bug", [(C, "        return formats.change.image_prefix_trivial()\n    return False\n", "        return formats.change.image_prefix_trivial()\n")]),
 ("trivial_pair", "bug", [(MA, "    return True\n", "    return True, None\n")]),
 ("no_but_value", "bug", [(GA, "    return False, None\n\n", "    return False, fmtdef\n\n")]) if False else
 ("qube", "bug", [(C, "        return formats.cassini.get_special_qube_band_storage()\n    return False, None\n", "        return formats.cassini.get_special_qube_band_storage()\n    return None\n")]),
 ("double", "bug", [(C, "        return formats.nh.get_fn(data)\n", "        return True, formats.nh.get_fn(data)\n")]),
 ("dropped_return", "bug", [(C, "        return formats.nh.get_fn(data)\n", "        formats.nh.get_fn(data)\n        return True\n")]),
 ("unpacked", "ok", [(C, "        return formats.nh.get_fn(data)\n", "        flag, name = formats.nh.get_fn(data)\n        return flag, name\n")]),
 ("variable", "ok", [(N, '    return True, Path(label.parent, f"{label.stem}.csv")\n', '    answer = (True, Path(label.parent, f"{label.stem}.csv"))\n    return answer\n')]),
 ("ternary", "ok", [(TH, '    if filename.endswith("gz"):\n        return True, filename\n    return True, [filename, f"{filename}.gz"]\n', '    return True, (\n        filename if filename.endswith("gz") else [filename, f"{filename}.gz"]\n    )\n')]),
 ("helper", "ok", [(TH, "    if isinstance(target, (dict, int)):\n        return False, None\n    filename", "    if isinstance(target, (dict, int)):\n        return _no()\n    filename"), (TH, "def check_gzip_fn(", "def _no():\n    return False, None\n\n\ndef check_gzip_fn(")]),
]
