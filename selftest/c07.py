P = "pdr/pdr.py"
L = "pdr/parselabel/pds3.py"
G = '''        if isinstance(fn, str) and re.match("(?i)^(?:https?|ftp):", fn):
            raise ValueError("Read-from-url is not currently implemented.")
'''
def after_checks():
    return [(P, G, ""), (P, "        self.loaders = {}\n", G + "        self.loaders = {}\n")]
CASES = [
 ("eval", "bug", [(L, "literal_eval(", "eval(")]),
 ("eval_alias", "bug", [(L, "literal_eval(", "_ev("), (L, "from __future__ import annotations\n", "from __future__ import annotations\n_ev = eval\n")]),
 ("case", "bug", [(P, '"(?i)^(?:https?|ftp):"', '"^(?:https?|ftp):"')]),
 ("noftp", "bug", [(P, '"(?i)^(?:https?|ftp):"', '"(?i)^(?:https?):"')]),
 ("nohttps", "bug", [(P, '"(?i)^(?:https?|ftp):"', '"(?i)^(?:http|ftp):"')]),
 ("late", "bug", after_checks()),
 ("skip", "bug", [(P, "if isinstance(fn, str) and re.match", "if isinstance(fn, str) and not skip_existence_check and re.match")]),
 ("door", "bug", [("pdr/__init__.py", "        fp,\n        debug=debug", "        _P(fp),\n        debug=debug"), ("pdr/__init__.py", "import sys\n", "import sys\nfrom pathlib import Path as _P\n")]),
 ("pickle", "bug", [("pdr/browsify.py", "def find_masked_bounds", "def _load(fn):\n    return pickle.load(open(fn, 'rb'))\n\n\ndef find_masked_bounds")]),
 ("allow_pickle", "bug", [("pdr/loaders/table.py", "def read_table(", "def _x(fn):\n    import numpy as np\n    return np.load(fn, allow_pickle=True)\n\n\ndef read_table(")]),
 ("system", "bug", [("pdr/utils.py", "def decompress(filename):\n", "def decompress(filename):\n    import os\n    os.system(f'gunzip {filename}')\n")]),
 ("subprocess", "bug", [("pdr/utils.py", "def decompress(filename):\n", "def decompress(filename):\n    from subprocess import run\n    run(['gunzip', str(filename)])\n")]),
 ("urlopen", "bug", [("pdr/utils.py", "def decompress(filename):\n", "def decompress(filename):\n    from urllib.request import urlopen\n    urlopen(filename)\n")]),
 ("dfquery", "bug", [("pdr/pd_utils.py", "def numeric_columns", "def _q(df, expr):\n    return df.query(expr)\n\n\ndef numeric_columns")]),
 ("ok_guard", "ok", [(P, G, '''        if isinstance(fn, str) and fn.lower().startswith(("http:", "https:", "ftp:")):
            raise ValueError("Read-from-url is not currently implemented.")
''')]),
 ("ok_guard_helper", "ok", [(P, G, '''        _no_url(fn)
'''), (P, "class Data:\n", '''_URL = re.compile("(?i)^(?:https?|ftp):")


def _no_url(fn):
    if isinstance(fn, Path):
        return
    if _URL.match(fn) is not None:
        raise ValueError("no")


class Data:
''')]),
 ("ok_guard_parse", "ok", [(P, G, '''        from urllib.parse import urlparse

        if isinstance(fn, str) and urlparse(fn).scheme in ("http", "https", "ftp"):
            raise ValueError("Read-from-url is not currently implemented.")
''')]),
 ("ok_import", "ok", [("pdr/utils.py", "def decompress(filename):\n", "def decompress(filename):\n    import importlib\n    importlib.import_module('bz2')\n")]),
]
