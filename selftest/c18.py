P = "pdr/parselabel/pds3.py"
U = "pdr/pd_utils.py"
H = "pdr/loaders/handlers.py"
Q = "pdr/loaders/queries.py"
C = "pdr/formats/clementine.py"
CASES = [
 ("no_reindex", "bug", [(Q, "    return reindex_df_values(fmtdef)\n", "    return fmtdef\n")]),
 ("no_taken_df", "bug", [(U, "        while not taken.isdisjoint(names):\n", "        while False:\n")]),
 ("no_taken_col", "bug", [(H, "        while not taken.isdisjoint(new):\n", "        while False:\n")]),
 ("no_taken_hdu", "bug", [(H, "        while not taken.isdisjoint(names):\n", "        while False:\n")]),
 ("no_update", "bug", [(U, "        taken.update(names)\n", "")]),
 ("bin_only", "bug", [(H, "isinstance(hdu, (fits.BinTableHDU, fits.TableHDU))", "isinstance(hdu, fits.BinTableHDU)")]),
 ("late", "bug", [(H, "        reindex_dupe_names(hdu)\n    body = hdu.data\n", "        pass\n    body = hdu.data\n    if isinstance(hdu, fits.BinTableHDU):\n        reindex_dupe_names(hdu)\n")]),
 ("adjacent", "bug", [(H, "repeats = {n for n in names if names.count(n) > 1}", "repeats = {a for a, b in zip(names, names[1:]) if a == b}")]),
 ("hdu_by_name", "bug", [(H, "headerdict.add(hdu_name, read_fits_header(hdulist, hdu_ix))", "headerdict.add(hdu_name, read_fits_header(hdulist, name))")]),
 ("hdumap_pos", "bug", [(H, "            hdumap[hdu_name] = hdu_ix", "            hdumap[hdu_name] = hdu_ix if hdu_name in hdumap else len(hdumap)")]),
 ("reserved", "bug", [(U, "        if len(field_group) == 1:\n            continue\n", "        if len(field_group) == 1 or name == \"RESERVED\":\n            continue\n")]),
 ("three", "bug", [(P, "if (len(group) > 1) and", "if (len(group) == 2) and")]),
 ("depoint", "bug", [(P, "                depoint = True\n", "                depoint = \"TABLE\" not in pointer\n")]),
 ("count_any", "bug", [(P, "                    if f\"{pointer}_{ix}\" not in params\n", "                    if True\n"), (P, "                    and f\"{depointer}_{ix}\" not in params\n", "")]),
 ("clem_cat", "bug", [(C, "    fmtdef[\"NAME\"] = fmtdef[\"NAME\"].str.cat(map(str, fmtdef.index), sep=\"_\")\n", "")]),
 ("clem_index", "bug", [(C, "pd.concat([fmtdef, fmtdef], ignore_index=True)", "pd.concat([fmtdef, fmtdef])")]),
 ("ok_clem", "ok", [(C, "    fmtdef[\"NAME\"] = fmtdef[\"NAME\"].str.cat(map(str, fmtdef.index), sep=\"_\")\n", "    fmtdef[\"NAME\"] = [f\"{n}_{i}\" for i, n in enumerate(fmtdef[\"NAME\"])]\n")]),
 ("ok_set", "ok", [(H, "    for r in sorted(repeats):", "    for r in [n for n in dict.fromkeys(names) if n in repeats]:")]),
 ("ok_helper", "ok", [(H, "        while not taken.isdisjoint(names):\n            names = [f\"{n}_{ix}\" for ix, n in enumerate(names)]\n        taken.update(names)\n", "        while len(taken & set(names)) > 0:\n            names = [f\"{n}_{ix}\" for ix, n in enumerate(names)]\n        taken |= set(names)\n")]),
 ("ok_df", "ok", [(U, "        df.loc[field_group.index, column] = names\n", "        for row, new in zip(field_group.index, names):\n            df.loc[row, column] = new\n")]),
 ("ok_count", "ok", [(U, "    for name, field_group in namegroups:\n        if len(field_group) == 1:\n            continue\n", "    counts = df[column].value_counts()\n    for name, field_group in namegroups:\n        if counts[name] < 2:\n            continue\n")]),
 ("ok_key", "ok", [(P, "    indexed_key = f\"{key}_{pointer_range[0]}\"\n    pointer_range.pop(0)\n    return indexed_key\n", "    return key + \"_\" + str(pointer_range.pop(0))\n")]),
 ("ok_loop", "ok", [(P, "            for ix in indices:\n                params.append(f\"{pointer}_{ix}\")\n                params.remove(pointer)\n", "            for ix in indices:\n                params.remove(pointer)\n                params.append(f\"{pointer}_{ix}\")\n")]),
]
