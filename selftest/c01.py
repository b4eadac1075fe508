P = "pdr/pdr.py"
H = "pdr/loaders/handlers.py"
CASES = [
 ("not_lazy", "bug", [(P, "lazy_load=True, quiet", "lazy_load=False, quiet")]),
 ("lazy_dropped", "bug", [(P, "lazy_load=True, quiet=True, no_scale", "quiet=True, no_scale")]),
 ("scaled", "bug", [(P, "no_scale=True", "no_scale=False")]),
 ("lazy_debug", "bug", [(P, "lazy_load=True, quiet", "lazy_load=not self.debug, quiet")]),
 ("struct_data", "bug", [(P, "            self.index.append(structure.id.replace(\" \", \"_\"))\n", "            if structure.is_table() and len(structure.data) == 0:\n                continue\n            self.index.append(structure.id.replace(\" \", \"_\"))\n")]),
 ("load_small", "bug", [(P, "            self._find_objects()\n\n    # noinspection", "            self._find_objects()\n            self._preload()\n\n    def _preload(self):\n        for n in self.keys():\n            if 'HEADER' in n:\n                self.load(n)\n\n    # noinspection")]),
 ("hasattr_trigger", "bug", [(P, "            if is_trivial(imname):\n                continue\n", "            if is_trivial(imname):\n                continue\n            if hasattr(self, imname):\n                continue\n")]),
 ("fits_data_shape", "bug", [(H, "            headerdict.add(name, read_fits_header(hdulist, hdu_ix))\n            hdumap[name] = hdu_ix\n", "            headerdict.add(name, read_fits_header(hdulist, hdu_ix))\n            if hdulist[hdu_ix].data is None:\n                continue\n            hdumap[name] = hdu_ix\n")]),
 ("pil_load", "bug", [("pdr/pil_utils.py", "        meta['mimetype']", "        im.load()\n        meta['mimetype']")]),
 ("pil_extrema", "bug", [("pdr/pil_utils.py", "        meta['mimetype']", "        meta['extrema'] = im.getextrema()\n        meta['mimetype']")]),
 ("fmt_decode", "bug", [("pdr/utils.py", "                standard = im.format\n", "                im.load()\n                standard = im.format\n")]),
 ("items_iter", "bug", [(P, "            n for n in self.index\n            if \"LINE_PREFIX\" in n", "            n for n in self.index\n            if self[n] is not None and \"LINE_PREFIX\" in n")]),
 ("primary_fits_load", "bug", [(P, "            for k in self.metadata.keys():\n                self.index.append(k)\n            return\n", "            for k in self.metadata.keys():\n                self.index.append(k)\n            self._add_loaded_objects(self._load_primary_fits(self.index[0]))\n            return\n")]),
 ("table_reader", "bug", [(P, "        self.index.append(\"LABEL\")\n        return metadata", "        self.index.append(\"LABEL\")\n        from pdr.loaders.text import read_label\n        self.LABEL = read_label(target)\n        return metadata")]),
 ("import_time", "bug", [("pdr/__init__.py", "# pdr.open() is", "if _osp.exists('x.lbl'):\n    _default = Data('x.lbl')\n# pdr.open() is")]),
 ("ok_helper", "ok", [(P, "            self._find_objects()\n\n    # noinspection", "            self._locate()\n\n    def _locate(self):\n        self._find_objects()\n\n    # noinspection")]),
 ("ok_kw", "ok", [(P, "        structure_list = pds4.read(\n            self.labelname, lazy_load=True, quiet=True, no_scale=True\n        )", "        opts = dict(lazy_load=True, quiet=True, no_scale=True)\n        structure_list = pds4.read(self.labelname, **opts)")]),
 ("ok_with", "ok", [("pdr/utils.py", "            with Image.open(data_filename) as im:\n                standard = im.format\n", "            im = Image.open(data_filename)\n            standard = im.format\n            im.close()\n")]),
 ("ok_const", "ok", [(P, "            if (target in dir(self)) and (target is not None):\n                return str(Path(self.getattr(target)).absolute().parent)", "            value = self.__dict__.get(target)\n            if value is not None:\n                return str(Path(value).absolute().parent)")]),
]
