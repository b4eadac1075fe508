I = "pdr/__init__.py"
P = "pdr/pdr.py"
READ = "    return Data(\n        fp,\n        debug=debug,\n        label_fn=label_fn,\n        search_paths=search_paths,\n        skip_existence_check=skip_existence_check,\n        **kwargs\n    )\n"
FAST = "    return read(fp, debug, fp, search_paths, True, **kwargs)\n"
OPEN = "setattr(sys.modules[__name__], 'open', read)"
DM = "        return self.metadata.metaget(text, default, warn)\n"
DM_ = "        return self.metadata.metaget(text, default, False)\n"
DB = "        return self.metadata.metablock(text, warn)\n"
DB_ = "        return self.metadata.metablock(text, False)\n"
MM = "        value = self._metaget_interior(text)\n        return default if value is None else value\n"
CASES = [
 ("no_search", "bug", [(I, "        search_paths=search_paths,\n", "")]),
 ("no_kwargs", "bug", [(I, "        skip_existence_check=skip_existence_check,\n        **kwargs\n", "        skip_existence_check=skip_existence_check,\n")]),
 ("label_cond", "bug", [(I, READ, "    if skip_existence_check:\n        label_fn = fp\n" + READ)]),
 ("path_str", "bug", [(I, READ, "    fp = str(fp)\n" + READ)]),
 ("search_list", "bug", [(I, "        search_paths=search_paths,\n", "        search_paths=search_paths or (),\n")]),
 ("debug_default", "bug", [(I, "def read(\n    fp: Union[str, Path],\n    debug: bool = False,\n", "def read(\n    fp: Union[str, Path],\n    debug: bool = True,\n")]),
 ("tracker", "bug", [(I, READ, "    kwargs.pop(\"tracker\", None)\n" + READ)]),
 ("fast_debug", "bug", [(I, FAST, "    return read(fp, False, fp, search_paths, True, **kwargs)\n")]),
 ("fast_check", "bug", [(I, FAST, "    return read(fp, debug, fp, search_paths, **kwargs)\n")]),
 ("fast_label", "bug", [(I, FAST, "    return read(fp, debug, None, search_paths, True, **kwargs)\n")]),
 ("fast_limit", "bug", [(I, FAST, "    kwargs.setdefault(\"pvl_limit\", 10000)\n    return read(fp, debug, fp, search_paths, True, **kwargs)\n")]),
 ("open_fast", "bug", [(I, OPEN, "setattr(sys.modules[__name__], 'open', fastread)")]),
 ("open_gone", "bug", [(I, OPEN, "")]),
 ("data_warn", "bug", [(P, DM, "        return self.metadata.metaget(text, default)\n")]),
 ("data_default", "bug", [(P, DM, "        return self.metadata.metaget(text, warn=warn)\n")]),
 ("data_quiet", "bug", [(P, DM_, "        return self.metadata.metaget(text, default)\n")]),
 ("data_quiet_default", "bug", [(P, DM_, "        return self.metadata.metaget(text, warn=False) or default\n")]),
 ("block_quiet", "bug", [(P, DB_, "        return self.metadata.metablock(text)\n")]),
 ("block_warn", "bug", [(P, DB, "        return self.metadata.metablock_(text)\n")]),
 ("block_quiet_get", "bug", [(P, DB_, "        return self.metadata.metaget_(text)\n")]),
 ("memo", "bug", [(P, DM, "        if not hasattr(self, \"_memo\"):\n            self._memo = {}\n        if text not in self._memo:\n            self._memo[text] = self.metadata.metaget(text, default, warn)\n        return self._memo[text]\n")]),
 ("falsy", "bug", [(P, "    def metaget_(self, text: str, default: Any = None) -> Any:\n        \"\"\"quiet-by-default version of metaget\"\"\"\n        return self.metaget(text, default, False)\n", "    def metaget_(self, text: str, default: Any = None) -> Any:\n        \"\"\"quiet-by-default version of metaget\"\"\"\n        if text not in self.fieldcounts:\n            return None\n        return self.metaget(text, default, False)\n")]),
 ("ok_read", "ok", [(I, READ, "    kw = dict(\n        debug=debug,\n        label_fn=label_fn,\n        search_paths=search_paths,\n        skip_existence_check=skip_existence_check,\n    )\n    return Data(fp, **kw, **kwargs)\n")]),
 ("ok_fast", "ok", [(I, FAST, "    return Data(fp, debug=debug, label_fn=fp, search_paths=search_paths, skip_existence_check=True, **kwargs)\n")]),
 ("ok_open", "ok", [(I, OPEN, "open = read")]),
 ("ok_open_def", "ok", [(I, OPEN, "def open(*args, **kwargs):\n    \"\"\"alias\"\"\"\n    return read(*args, **kwargs)\n")]),
 ("ok_helper", "ok", [(I, READ, "    return _construct(\n        fp, debug, label_fn, search_paths, skip_existence_check, kwargs\n    )\n"), (I, "def read(\n", "def _construct(fp, debug, label_fn, paths, skip, options):\n    return Data(fp, debug=debug, label_fn=label_fn, search_paths=paths,\n                skip_existence_check=skip, **options)\n\n\ndef read(\n")]),
 ("ok_data", "ok", [(P, DM_, "        return self.metadata.metaget_(text, default)\n"), (P, DB_, "        return self.metablock(text, warn=False)\n")]),
 ("ok_meta", "ok", [(P, MM, "        if (value := self._metaget_interior(text)) is None:\n            return default\n        return value\n")]),
 ("ok_meta_helper", "ok", [(P, "        count = self.fieldcounts.get(text)\n        if count is None:\n            return default\n        if (count > 1) and (warn is True):\n            warnings.warn(\n                f\"More than one value for {text} exists in the metadata. \"\n                f\"Returning only the first.\",\n                DuplicateKeyWarning,\n            )\n", "        if text not in self.fieldcounts:\n            return default\n        self._warn_repeated(text, warn)\n"), (P, "    def metaget_(self, text: str, default: Any = None) -> Any:\n        \"\"\"quiet-by-default version of metaget\"\"\"\n        return self.metaget", "    def _warn_repeated(self, text, warn):\n        if warn is True and self.fieldcounts[text] > 1:\n            warnings.warn(\n                f\"More than one value for {text} exists in the metadata. \"\n                f\"Returning only the first.\",\n                DuplicateKeyWarning,\n            )\n\n    def metaget_(self, text: str, default: Any = None) -> Any:\n        \"\"\"quiet-by-default version of metaget\"\"\"\n        return self.metaget")]),
]
