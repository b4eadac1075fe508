P = "pdr/pdr.py"
LOC = '''            try:
                target = self._target_path(name)
                if target is None:
                    return self._file_not_found(name)
            except Exception as ex:
                if self.debug:
                    raise
                warnings.warn(f"Unable to locate {name}: {ex}")
                setattr(self, name, self.metaget_(name))
                return
'''
TAIL = '''        except DebugExceptionPreempted:
            pass
        except KeyboardInterrupt:
            raise
        except NotImplementedError as ex:
            warnings.warn(f"This product's {name} is not yet supported: {ex}.")
        except FileNotFoundError as _ex:
            warnings.warn(f"Unable to find files required by {name}.")
        except Exception as ex:
            warnings.warn(f"Unable to load {name}: {ex}")
        setattr(self, name, self.metaget_(name))
'''
ALL = '''        for name in self.keys():
            if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                continue
            try:
                self.load(name)
            except AlreadyLoadedError:
                continue
'''
PRE = '''        if (name != "all") and (name not in self.index):
            raise KeyError(f"{name} not found in index: {self.index}.")
        if name == "all":
            return self.load_all()
        if (name in dir(self)) and (reload is False):
            raise AlreadyLoadedError(
                f"{name} is already loaded; pass reload=True to "
                f"force reload."
            )
'''
CASES = [
    ("locating unguarded", "bug", [(P, LOC, '''            target = self._target_path(name)
            if target is None:
                return self._file_not_found(name)
''')]),
    ("narrow locating handler", "bug", [(P, "            except Exception as ex:\n                if self.debug:\n                    raise\n", "            except (OSError, KeyError) as ex:\n                if self.debug:\n                    raise\n")]),
    ("narrow decode handler", "bug", [(P, "        except Exception as ex:\n            warnings.warn(f\"Unable to load", "        except (ValueError, TypeError, KeyError, OSError) as ex:\n            warnings.warn(f\"Unable to load")]),
    ("bare swallow", "bug", [(P, TAIL, TAIL.replace("        except KeyboardInterrupt:\n            raise\n", "").replace("except Exception as ex", "except BaseException as ex"))]),
    ("silent not supported", "bug", [(P, '''            warnings.warn(f"This product's {name} is not yet supported: {ex}.")''', "            return")]),
    ("silent fnf", "bug", [(P, '''            warnings.warn(f"Unable to find files required by {name}.")''', "            pass")]),
    ("wrong value", "bug", [(P, TAIL, TAIL.replace("        setattr(self, name, self.metaget_(name))\n", "        else:\n            setattr(self, name, self.metaget_(name))\n"))]),
    ("raise not implemented", "bug", [(P, "        except NotImplementedError as ex:\n            warnings.warn(", "        except NotImplementedError as ex:\n            if name.startswith('X'):\n                raise\n            warnings.warn(")]),
    ("fnf unset", "bug", [(P, "            warnings.warn(message)\n        setattr(self, object_name, self.metaget_(object_name))", "            warnings.warn(message)")]),
    ("load_all breaks", "bug", [(P, ALL, ALL.replace("            except AlreadyLoadedError:\n                continue", "            except AlreadyLoadedError:\n                break"))]),
    ("load_all raises", "bug", [(P, ALL, ALL.replace("            try:\n                self.load(name)\n            except AlreadyLoadedError:\n                continue", "            self.load(name)"))]),
    ("load_all try outside", "bug", [(P, ALL, '''        try:
            for name in self.keys():
                if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                    continue
                self.load(name)
        except AlreadyLoadedError:
            pass
''')]),
    ("ignored loop stops", "bug", [(P, ALL, ALL.replace("match(name):\n                continue", "match(name):\n                return"))]),
    ("unknown warns", "bug", [(P, '            raise KeyError(f"{name} not found in index: {self.index}.")', '            warnings.warn(f"{name} not found in index: {self.index}.")\n            return')]),
    ("reload refused", "bug", [(P, "(name in dir(self)) and (reload is False)", "(name in dir(self))")]),
    ("reload always", "bug", [(P, "(name in dir(self)) and (reload is False)", "(name in dir(self)) and (reload is None)")]),
    ("refuse after standards", "bug", [(P, PRE, PRE[:PRE.index('        if (name in dir')]), (P, "        if self.file_mapping.get(name) is None:\n            try:", PRE[PRE.index('        if (name in dir'):] + "        if self.file_mapping.get(name) is None:\n            try:")]),
    ("pattern search", "bug", [("pdr/loaders/dispatch.py", '".*_DESC$"', '".*_?DESC"')]),
    ("pattern narrowed", "bug", [("pdr/loaders/dispatch.py", '".*DESCRIPTION(_[0-9]*)?$"', '"DESCRIPTION(_[0-9]*)?$"')]),
    ("ok merged handlers", "ok", [(P, TAIL, '''        except DebugExceptionPreempted:
            pass
        except Exception as ex:
            if isinstance(ex, NotImplementedError):
                msg = f"This product's {name} is not yet supported: {ex}."
            elif isinstance(ex, FileNotFoundError):
                msg = f"Unable to find files required by {name}."
            else:
                msg = f"Unable to load {name}: {ex}"
            warnings.warn(msg)
        setattr(self, name, self.metaget_(name))
''')]),
    ("ok helper", "ok", [(P, '''                setattr(self, name, self.metaget_(name))
                return
''', '''                self._fallback(name)
                return
'''), (P, TAIL, TAIL.replace("setattr(self, name, self.metaget_(name))", "return self._fallback(name)")), (P, "    def _add_loaded_objects(", '''    def _fallback(self, nm):
        meta = self.metaget_(nm)
        setattr(self, nm, meta)

    def _add_loaded_objects(''')]),
    ("ok load_all list", "ok", [(P, ALL, '''        wanted = [
            n for n in self.keys() if not OBJECTS_IGNORED_BY_DEFAULT.match(n)
        ]
        for name in wanted:
            try:
                self.load(name)
            except AlreadyLoadedError:
                pass
''')]),
    ("ok load_all unloaded", "ok", [(P, ALL, '''        for name in self.unloaded():
            if OBJECTS_IGNORED_BY_DEFAULT.match(name) is None:
                self.load(name)
''')]),
    ("ok prelude reordered", "ok", [(P, PRE, '''        if name == "all":
            return self.load_all()
        if name not in self.index:
            raise KeyError(f"{name} not found in index: {self.index}.")
        if not reload and name in dir(self):
            raise AlreadyLoadedError(
                f"{name} is already loaded; pass reload=True to "
                f"force reload."
            )
''')]),
    ("ok inverted", "ok", [(P, LOC, '''            try:
                target = self._target_path(name)
            except Exception as ex:
                if self.debug:
                    raise
                warnings.warn(f"Unable to locate {name}: {ex}")
                setattr(self, name, self.metaget_(name))
                return
            if target is None:
                try:
                    return self._file_not_found(name)
                except Exception as ex:
                    if self.debug:
                        raise
                    warnings.warn(f"Unable to locate {name}: {ex}")
                    setattr(self, name, self.metaget_(name))
                    return
''')]),
    ("ok statement", "ok", [(P, "        # prelude: don't try", "        _unused = 0\n        # prelude: don't try")]),
    ("not found raises", "ok", [(P, "        if self.debug:\n            raise FileNotFoundError(message)\n        else:\n            warnings.warn(message)\n", "        if self.debug or self.labelname is None:\n            raise FileNotFoundError(message)\n        else:\n            warnings.warn(message)\n")]),
    ("not found silent", "bug", [(P, "            raise FileNotFoundError(message)\n        else:\n            warnings.warn(message)\n", "            raise FileNotFoundError(message)\n")]),
    ("not found keeps nothing", "bug", [(P, "            warnings.warn(message)\n        setattr(self, object_name, self.metaget_(object_name))\n", "            warnings.warn(message)\n")]),
    ("load all stops", "bug", [(P, "            except AlreadyLoadedError:\n                continue\n", "            except AlreadyLoadedError:\n                break\n")]),
    ("load all reloads nothing", "bug", [(P, "            if OBJECTS_IGNORED_BY_DEFAULT.match(name):\n                continue\n            try:\n", "            if OBJECTS_IGNORED_BY_DEFAULT.match(name):\n                break\n            try:\n")]),
    ("fallback kept only once", "bug", [(P, "            warnings.warn(f\"Unable to load {name}: {ex}\")\n        setattr(self, name, self.metaget_(name))\n", "            warnings.warn(f\"Unable to load {name}: {ex}\")\n        if name not in self.file_mapping:\n            setattr(self, name, self.metaget_(name))\n")]),
    ("not found reversed", "ok", [(P, "        if self.debug:\n            raise FileNotFoundError(message)\n        else:\n            warnings.warn(message)\n", "        if not self.debug:\n            warnings.warn(message)\n        else:\n            raise FileNotFoundError(message)\n")]),
]
