P = "pdr/pdr.py"
X4 = "pdr/parselabel/pds4.py"
H = "pdr/loaders/handlers.py"
I = "pdr/pil_utils.py"
L = "pdr/parselabel/pds3.py"
VAL = "        value = self._metaget_interior(text)\n        return default if value is None else value\n"
DIG = "        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))\n"
DIGB = "        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))\n        if not isinstance(value, Mapping):\n            return metadata\n        return value\n"
CNT = "        self.fieldcounts = countby(identity, params)\n"
UN = "        if isinstance(v, (list, tuple)):\n            items += [(k, e) for e in reversed(v)]\n        elif isinstance(v, mtypes):\n            unpacked.add(k, unpack_to_multidict(v, mtypes))\n        else:\n            unpacked.add(k, v)\n"
WARN = "        if (count > 1) and (warn is True):\n            warnings.warn(\n                f\"More than one value for"
IDV = "            field: self.metaget_(field, \"\")\n"
TAGN = "        else:\n            name = str(tag)\n"
XML = "        xmd.add(maybestrip_ns(node, remove_ns), unpacked)\n"
CASES = [
 ("falsy", "bug", [(P, VAL, "        return self._metaget_interior(text) or default\n")]),
 ("mtypes", "bug", [(P, DIG, DIG.replace("(dict, MultiDict)", "(dict,)"))]),
 ("mtypes_md", "bug", [(P, DIG, DIG.replace("(dict, MultiDict)", "(MultiDict,)"))]),
 ("last", "bug", [(P, DIG, "        from dustgoggles.structures import dig_for_values\n        return dig_for_values(metadata, text, mtypes=(dict, MultiDict))[-1]\n")]),
 ("top_only", "bug", [(P, DIG, "        return metadata.get(text)\n")]),
 ("count_set", "bug", [(P, CNT, "        self.fieldcounts = countby(identity, set(params))\n")]),
 ("count_top", "bug", [(P, CNT, "        self.fieldcounts = countby(identity, mapping.keys())\n")]),
 ("warn_always", "bug", [(P, WARN, WARN.replace("(count > 1) and (warn is True)", "count > 1"))]),
 ("warn_two", "bug", [(P, WARN, WARN.replace("count > 1", "count > 2"))]),
 ("block_top", "bug", [(P, DIGB, "        value = metadata.get(text)\n        if not isinstance(value, Mapping):\n            return metadata\n        return value\n")]),
 ("block_scalar", "bug", [(P, DIGB, DIGB.replace("        if not isinstance(value, Mapping):\n            return metadata\n", ""))]),
 ("block_dict", "bug", [(P, DIGB, DIGB.replace("isinstance(value, Mapping)", "isinstance(value, dict)"))]),
 ("ident_none", "bug", [(P, IDV, "            field: self.metaget_(field)\n")]),
 ("ident_top", "bug", [(P, IDV, "            field: self.get(field, \"\")\n")]),
 ("ident_tuple", "bug", [(P, "            if isinstance(v, (tuple, set)):\n                identifiers[k] = str(v)\n", "            if isinstance(v, set):\n                identifiers[k] = str(v)\n")]),
 ("ident_upper", "bug", [(P, "                identifiers[k] = str(v)\n", "                identifiers[k] = str(v[0])\n")]),
 ("unpack_order", "bug", [(X4, UN, UN.replace("reversed(v)", "v"))]),
 ("unpack_set", "bug", [(X4, UN, UN.replace("            unpacked.add(k, v)\n", "            unpacked[k] = v\n"))]),
 ("unpack_first", "bug", [(X4, UN, UN.replace("for e in reversed(v)", "for e in v[:1]"))]),
 ("unpack_empty", "bug", [(X4, "        k, v = items.pop()\n", "        k, v = items.pop()\n        if not v:\n            continue\n")]),
 ("ok_unpack_mtypes", "ok", [(X4, UN, UN.replace("(v, mtypes))\n        else", "(v))\n        else"))]),
 ("params4", "bug", [(X4, "mtypes=(MultiDict,)\n", "mtypes=(dict,)\n")]),
 ("fits_params", "bug", [(H, "        for field in headerdict[hdu_name].keys():\n            params.append(field)\n", "        for field in set(headerdict[hdu_name].keys()):\n            params.append(field)\n")]),
 ("fits_int", "bug", [(H, "if isinstance(val, (str, float, int)):", "if isinstance(val, (str, float)):")]),
 ("fits_blank", "bug", [(H, "                # placeholder card records\n                continue\n", "                # placeholder card records\n                break\n")]),
 ("fits_repeat", "bug", [(H, "                output_hdr.add(key, val)\n", "                output_hdr[key] = val\n")]),
 ("fits_comment", "bug", [(H, "                output_hdr.add(comment_key, com)\n", "                output_hdr[comment_key] = com\n")]),
 ("fits_bad", "bug", [(H, "            if skip_bad_cards is True:\n                continue\n", "            if skip_bad_cards is True:\n                break\n")]),
 ("fits_undefined", "bug", [(H, "                output_hdr.add(key, None)\n", "                continue\n")]),
 ("tags_lost", "bug", [(I, TAGN, "        else:\n            continue\n")]),
 ("tags_same", "bug", [(I, TAGN, "        else:\n            name = \"unknown\"\n")]),
 ("gps", "bug", [(I, "            outdict |= add_gps_ifd(im, tag)\n", "            outdict = add_gps_ifd(im, tag)\n")]),
 ("paramdig", "bug", [(I, "        unpacked, None, base_pred=constant(True), mtypes=(MultiDict, dict)\n", "        unpacked, None, base_pred=constant(True), mtypes=(dict,)\n")]),
 ("xml_repeat", "bug", [(I, XML, "        xmd[maybestrip_ns(node, remove_ns)] = unpacked\n")]),
 ("xml_ns", "bug", [(I, XML, "        xmd.add(node.tag, unpacked)\n")]),
 ("xml_strip", "bug", [(I, "        return node.text.strip()\n", "        return node.text\n")]),
 ("meta_falsy", "bug", [(I, "            if (val := getattr(im, attr, None)) is None:\n", "            if attr == 'height' or (val := getattr(im, attr, None)) is None:\n")]),
 ("pvl_falsy", "bug", [(L, "        setter_function=lambda _, obj: literalize_pvl(obj),\n", "        setter_function=lambda _, obj: literalize_pvl(obj) or obj,\n")]),
 ("ok_value", "ok", [(P, VAL, "        if (found := self._metaget_interior(text)) is not None:\n            return found\n        return default\n")]),
 ("ok_get_first", "ok", [(P, DIG, "        if text in metadata:\n            return metadata[text]\n" + DIG)]),
 ("ok_recursive", "ok", [(P, DIG, "        return _first(metadata, text)\n"), (P, "def _metaget_factory(", "def _first(mapping, text):\n    if text in mapping:\n        return mapping[text]\n    for value in mapping.values():\n        if isinstance(value, (dict, MultiDict)):\n            if (found := _first(value, text)) is not None:\n                return found\n    return None\n\n\ndef _metaget_factory(")]),
 ("ok_count", "ok", [(P, CNT, "        counts = {}\n        for param in params:\n            counts[param] = counts.get(param, 0) + 1\n        self.fieldcounts = counts\n")]),
 ("ok_unpack", "ok", [(X4, "    unpacked, items = MultiDict(), list(reversed(packed.items()))\n    while len(items) > 0:\n        k, v = items.pop()\n" + UN, "    unpacked = MultiDict()\n    for k, v in packed.items():\n        _add_to_multidict(unpacked, k, v, mtypes)\n"), (X4, "def unpack_to_multidict(", "def _add_to_multidict(unpacked, k, v, mtypes):\n    if isinstance(v, (list, tuple)):\n        for e in v:\n            _add_to_multidict(unpacked, k, e, mtypes)\n    elif isinstance(v, mtypes):\n        unpacked.add(k, unpack_to_multidict(v, mtypes))\n    else:\n        unpacked.add(k, v)\n\n\ndef unpack_to_multidict(")]),
 ("ok_ident", "ok", [(P, "        for k, v in identifiers.items():\n            if isinstance(v, (tuple, set)):\n                identifiers[k] = str(v)\n        return identifiers\n", "        return {\n            k: str(v) if isinstance(v, (tuple, set)) else v\n            for k, v in identifiers.items()\n        }\n")]),
 ("ok_params", "ok", [(H, "        for field in headerdict[hdu_name].keys():\n            params.append(field)\n", "        params += list(headerdict[hdu_name].keys())\n")]),
 ("ok_cards", "ok", [(H, "    for i in range(len(astro_hdr.cards)):\n        try:\n            key, val, com = astro_hdr.cards[i]\n", "    cards = astro_hdr.cards\n    for i, _ in enumerate(range(len(cards))):\n        try:\n            key, val, com = cards[i]\n")]),
 ("ok_tags", "ok", [(I, "        if tag in TAGS.keys():\n            name = TAGS[tag]\n", "        if (known := TAGS.get(tag)) is not None:\n            name = known\n")]),
 ("ok_xml", "ok", [(I, "    if pick is not None:\n        # should only ever be dict or None for a non-terminal node\n        xmd = MultiDict(pick)\n    else:\n        xmd = MultiDict()\n", "    xmd = MultiDict({} if pick is None else pick)\n")]),
]
