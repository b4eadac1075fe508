P = "pdr/pdr.py"
U = "pdr/loaders/utility.py"
S = "pdr/parselabel/pds3.py"
FIND = '''        for pointer in self.pointers:
            imname = depointerize(pointer)
            if is_trivial(imname):
                continue
            self.index.append(imname)
'''
DIG = '''    return dig_for_keys(
        label, lambda k, _: k.startswith("^"), mtypes=(dict, MultiDict)
    )
'''
CASES = [
 ("header", "bug", [(U, '    if "PDS_OBJECT" in pointer:\n', '    if pointer.endswith("_OBJECT"):\n')]),
 ("docs", "bug", [(U, '        and ("DOCUMENT" not in pointer)\n', "")]),
 ("tags", "bug", [(U, '        and ("IMAGE" not in pointer)\n        and', '        and')]),
 ("structure", "bug", [(U, '    if "STRUCTURE" in pointer:\n', '    if pointer == "STRUCTURE":\n')]),
 ("top", "bug", [(S, DIG, '    return tuple(k for k in label if k.startswith("^"))\n')]),
 ("set", "bug", [(P, FIND, FIND.replace("in self.pointers", "in sorted(self.pointers)"))]),
 ("noblock", "bug", [(P, FIND, FIND.replace("is_trivial(imname)", "is_trivial(imname) or self.metablock_(imname) is None"))]),
 ("target", "bug", [(P, FIND, FIND.replace("is_trivial(imname)", "is_trivial(imname) or self.metaget_(pointer) == 2"))]),
 ("twice", "bug", [(P, "                if k not in self.index:\n                    self.index.append(k)\n", "                self.index.append(k)\n")]),
 ("none", "bug", [(P, "            if v is not None:\n                setattr(self, k, v)\n                if k not in self.index:\n                    self.index.append(k)\n", "            if k not in self.index:\n                self.index.append(k)\n            if v is not None:\n                setattr(self, k, v)\n"), ("pdr/loaders/handlers.py", '    output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]\n', '    output, hdu = {f"{name}_HEADER": hdr_val, f"{name}_MASK": None}, hdulist[hdu_ix]\n')]),
 ("in", "bug", [(P, "        return name in self.index\n", "        return name in dir(self)\n")]),
 ("len", "bug", [(P, "        return len(self.index)\n", "        return len(self.unloaded())\n")]),
 ("keys", "bug", [(P, "        return self.index\n", "        return sorted(self.index)\n")]),
 ("unloaded", "bug", [(P, "filter(lambda k: k not in dir(self), self.index)", "filter(lambda k: k not in self.file_mapping, self.index)")]),
 ("frames", "bug", [(P, 'for i in range(nframes)]\n', 'for i in range(1, nframes + 1)]\n')]),
 ("frame_last", "bug", [(P, 'for i in range(nframes)]\n', 'for i in range(min(nframes, 10))]\n')]),
 ("mpo", "bug", [(P, 'images.append(f"{tname}_{i + 1}")', 'images.append(tname)')]),
 ("mpo_last", "bug", [(P, "enumerate(mpentries[1:])", "enumerate(mpentries[1:-1])")]),
 ("fits", "bug", [(P, "            for k in self.metadata.keys():\n                self.index.append(k)\n", "            for k, v in self.metadata.items():\n                if k and k not in self.index:\n                    self.index.append(k)\n")]),
 ("pds4", "bug", [(P, '            self.index.append(structure.id.replace(" ", "_"))\n', '            self.index.append(structure.id)\n')]),
 ("pds4_label", "bug", [(P, '        self.index.append("label")\n', '')]),
 ("attached", "bug", [(P, '        self.index.append("LABEL")\n', '        if self.labelname != self.filename:\n            self.index.append("LABEL")\n')]),
 ("prefix", "bug", [(P, '            self._associate_prefix_tables(imname, preobjs)\n', '            self._associate_prefix_tables(imname, preobjs)\n            break\n'), (P, 'filter(lambda n: "IMAGE" in n and "TABLE" not in n, self.index)', 'filter(lambda n: "IMAGE" in n, self.index)')]),
 ("prefix_empty", "bug", [(P, '            and block["^LINE_PREFIX_STRUCTURE"] == ""\n', '            and block["^LINE_PREFIX_STRUCTURE"] is None\n')]),
 ("special", "bug", [(P, "[o for o in special_objects if o not in self.index]", "special_objects")]),
 ("special_only", "bug", [(P, "self.index += [o for o in special_objects if o not in self.index]", "self.index = [o for o in special_objects]")]),
 ("remove", "bug", [(P, '            warnings.warn(f"Unable to load {name}: {ex}")\n', '            warnings.warn(f"Unable to load {name}: {ex}")\n            self.index.remove(name)\n')]),
 ("dedupe", "bug", [(P, "        self.pointers = get_pds3_pointers(self.metadata)\n", "        self.pointers = get_pds3_pointers(self.metadata)\n        if self.pointers:\n            self.pointers = tuple({depointerize(p).split('_')[0]: p for p in self.pointers}.values())\n")]),
 ("mixed", "bug", [(S, '                not any(sub in pointer for sub in\n                        ["STRUCTURE", "PDS_OBJECT"]):', '                not any(sub in pointer for sub in\n                        ["STRUCTURE", "PDS_OBJECT", "DESCRIPTION"]):')]),
 # ---- the same, otherwise
 ("ok_comp", "ok", [(P, FIND, '''        self.index.extend(
            n for n in map(depointerize, self.pointers) if not is_trivial(n)
        )
''')]),
 ("ok_keys", "ok", [(P, "        return self.index\n", "        return list(self.index)\n")]),
 ("ok_unloaded", "ok", [(P, "tuple(filter(lambda k: k not in dir(self), self.index))", "tuple(k for k in self.index if k not in self.__dict__)")]),
 ("ok_trivial", "ok", [(U, '''    if "STRUCTURE" in pointer:
        return True
    # only in MSL CCAM products; probably for internal processing pipelines
    if "PDS_OBJECT" in pointer:
        return True
    return False
''', '''    return any(word in pointer for word in ("STRUCTURE", "PDS_OBJECT"))
''')]),
 ("ok_dig", "ok", [(S, '        label, lambda k, _: k.startswith("^"), mtypes=(dict, MultiDict)\n', '        label, lambda k, _: k[:1] == "^", mtypes=(dict, MultiDict)\n')]),
 ("ok_fits", "ok", [(P, "            for k in self.metadata.keys():\n                self.index.append(k)\n", "            self.index.extend(self.metadata.keys())\n")]),
 ("ok_frames", "ok", [(P, 'self.index += [f"FRAME_{i}" for i in range(nframes)]', 'self.index.extend(map("FRAME_{}".format, range(nframes)))')]),
 ("ok_pds4", "ok", [(P, '''            self._pds4_structures[structure.id.replace(" ", "_")] = structure
            self.index.append(structure.id.replace(" ", "_"))
''', '''            self._pds4_structures["_".join(structure.id.split(" "))] = structure
            self.index += list(self._pds4_structures)[-1:]
''')]),
 ("ok_add", "ok", [(P, '''            if v is not None:
                setattr(self, k, v)
                if k not in self.index:
                    self.index.append(k)
''', '''            if v is None:
                continue
            setattr(self, k, v)
            if k in self.index:
                continue
            self.index.append(k)
''')]),
]
