U = "pdr/utils.py"
P = "pdr/pdr.py"
Q = "pdr/loaders/queries.py"
MATCH = "lambda p: stem_path(p) == stem_path(path),"
CASES = [
    ("starts with", "bug", [(U, MATCH,
        "lambda p: p.name.lower().startswith(path.name.lower()),")]),
    ("no case", "bug", [(U, MATCH,
        "lambda p: p.name.split('.gz')[0] == path.name,")]),
    ("no compression", "bug", [(U, MATCH,
        "lambda p: p.name.lower() == path.name.lower(),")]),
    ("stem only", "bug", [(U, MATCH,
        "lambda p: p.stem.lower() == path.stem.lower(),")]),
    ("give up at the first path", "bug", [(U,
        "        if len(matches) == 0:\n            continue\n",
        "        if len(matches) == 0:\n            break\n")]),
    ("no folder", "bug", [(U,
        "        if not path.parent.exists():\n            continue\n",
        "        if not path.parent.exists():\n            break\n")]),
    ("return the name", "bug", [(U,
        "    raise FileNotFoundError(\n        f\"No candidate",
        "    return str(filenames[0])\n    raise FileNotFoundError(\n"
        "        f\"No candidate")]),
    ("first search path", "bug", [(P,
        "product(self.search_paths, listify(filename))",
        "product(self.search_paths[:1], listify(filename))")]),
    ("order of paths", "bug", [(P,
        "product(self.search_paths, listify(filename))",
        "product(self.search_paths[::-1], listify(filename))")]),
    ("set of keys", "bug", [(P,
        'compkeys = ("UNCOMPRESSED_FILE", "COMPRESSED_FILE")',
        'compkeys = {"UNCOMPRESSED_FILE", "COMPRESSED_FILE"}')]),
    ("format unresolved", "bug", [(Q,
        "return read_pvl(check_cases(label_fns))[0]",
        "return read_pvl(label_fns[0])[0]")]),
    ("no label folder", "bug", [(Q,
        "label_fns += [Path(path, format_file) for path in repo_paths]",
        "label_fns = [Path(path, format_file) for path in repo_paths]")]),
    ("lower only", "bug", [(Q,
        'for label_path in ("label", "LABEL")',
        'for label_path in ("label",)')]),
    ("cached under a constant", "bug", [(P,
        "            self.file_mapping[object_name] = path\n",
        "            path = self.file_mapping.setdefault('all', path)\n")]),
    ("the product's own file", "bug", [(P,
        "            if isinstance(target[0], str):\n"
        "                target = target[0]\n",
        "            if isinstance(target[0], str) and len(target) < 2:\n"
        "                target = target[0]\n")]),
    ("swallow", "bug", [(P,
        "        except FileNotFoundError:\n            if raise_missing is "
        "True:\n                raise\n            return None\n",
        "        except FileNotFoundError:\n            return "
        "self.filename\n")]),
    ("loop rewritten", "ok", [(U, """        matches = tuple(
            filter(
                lambda p: stem_path(p) == stem_path(path),
                path.parent.iterdir(),
            )
        )
""", """        wanted = stem_path(path)
        matches = [p for p in path.parent.iterdir() if stem_path(p) == wanted]
""")]),
    ("condition turned", "ok", [(U, """        if path.exists():
            return str(filename)
        if not path.parent.exists():
            continue
""", """        if not path.exists():
            if not path.parent.is_dir():
                continue
        else:
            return str(filename)
""")]),
    ("comprehension", "ok", [(P, """        return gmap(
            lambda sf: Path(*sf).absolute(),
            product(self.search_paths, listify(filename)),
            evaluator=list,
        )
""", """        return [
            Path(folder, name).absolute()
            for folder in self.search_paths
            for name in listify(filename)
        ]
""")]),
    ("helper", "ok", [(Q, "def load_format_file(", """def _label_folders(fn):
    root = find_repository_root(Path(fn))
    return [root / "label", root / "LABEL"]


def load_format_file("""), (Q, """        repo_paths = [
            Path(find_repository_root(Path(fn)), label_path)
            for label_path in ("label", "LABEL")
        ]
        label_fns += [Path(path, format_file) for path in repo_paths]
""", """        for folder in _label_folders(fn):
            label_fns.append(folder / format_file)
""")]),
    ("target", "ok", [(P, """        target = self.metaget_(pointerize(object_name))
        if isinstance(target, Sequence) and not (isinstance(target, str)):
            if isinstance(target[0], str):
                target = target[0]
        if isinstance(target, str):
            return self.get_absolute_paths(target)
        else:
            return self.filename
""", """        target = self.metaget_(pointerize(object_name))
        if not isinstance(target, str) and isinstance(target, Sequence):
            target = target[0]
        if not isinstance(target, str):
            return self.filename
        return self.get_absolute_paths(target)
""")]),
]
