P = "pdr/pdr.py"
U = "pdr/utils.py"
D = "pdr/loaders/datawrap.py"
H = "pdr/loaders/handlers.py"
Q = "pdr/loaders/queries.py"
I = "pdr/loaders/image.py"
B = "pdr/browsify.py"
CASES = [
 ("numpy_top", "bug", [(H, "from cytoolz import groupby\n", "from cytoolz import groupby\nimport numpy as np\n")]),
 ("table_top", "bug", [(Q, "from multidict import MultiDict\n", "from multidict import MultiDict\nfrom pdr import pd_utils\n")]),
 ("type_checking", "bug", [("pdr/pdrtypes.py", "if TYPE_CHECKING:", "if True:")]),
 ("import_time_call", "bug", [(U, "SUPPORTED_COMPRESSION_EXTENSIONS = ", "def _native():\n    import numpy\n    return numpy.dtype('i4').itemsize\n\n\n_N = _native()\nSUPPORTED_COMPRESSION_EXTENSIONS = ")]),
 ("via_vax", "bug", [(H, "from cytoolz import groupby\n", "from cytoolz import groupby\nimport vax\n")]),
 ("via_lib", "bug", [(H, "from cytoolz import groupby\n", "from cytoolz import groupby\nimport dustgoggles.array\n") if False else (H, "from cytoolz import groupby\n", "from cytoolz import groupby\nfrom pdr.loaders import table\n")]),
 ("optional_guarded_heavy", "bug", [(H, "from cytoolz import groupby\n", "from cytoolz import groupby\ntry:\n    from PIL import Image\nexcept ImportError:\n    Image = None\n")]),
 ("optional_lev", "bug", [(P, "from cytoolz import countby, identity\n", "from cytoolz import countby, identity\nimport Levenshtein\n")]),
 ("optional_pvl", "bug", [("pdr/loaders/text.py", "from pathlib import Path\n", "from pathlib import Path\nfrom pdr.pvl_utils import cached_pvl_load\n")]),
 ("reader_pil", "bug", [(I, "import vax\n", "import vax\nfrom PIL import Image\n")]),
 ("reader_astropy_fn", "bug", [(Q, "def table_position(", "def _fits_check():\n    from astropy.io import fits\n    return fits\n\n\ndef table_position("), (Q, "def get_return_default(data: PDRLike, name: str) -> MultiDict:\n", "def get_return_default(data: PDRLike, name: str) -> MultiDict:\n    _fits_check()\n")]),
 ("browse_pil", "bug", [(B, "from dustgoggles.func import naturals\n", "from dustgoggles.func import naturals\nfrom PIL import Image\n")]),
 ("init_astropy", "bug", [(P, '        import pdr.pds4_tools as pds4\n', '        import pdr.pds4_tools as pds4\n        from astropy.io import fits\n')]),
 ("fmt_pil", "bug", [(U, "            from PIL import Image, UnidentifiedImageError", "            pass"), (U, "def check_primary_fmt(", "from PIL import Image, UnidentifiedImageError\n\n\ndef check_primary_fmt(")]),
 ("dispatch_table", "bug", [("pdr/formats/rosetta.py", "from __future__ import annotations", "import astropy.io.ascii") if False else ("pdr/formats/mex.py", "from copy import deepcopy\n", "from copy import deepcopy\nimport pandas as pd\n")]),
 ("ok_guarded", "ok", [(P, "from cytoolz import countby, identity\n", "from cytoolz import countby, identity\ntry:\n    import Levenshtein\nexcept ImportError:\n    Levenshtein = None\n")]),
 ("ok_tc", "ok", [(H, "    from astropy.io import fits\n    import numpy as np\n    import pandas as pd\n", "    import astropy.io.fits as fits\n    import numpy as np, pandas as pd\n")]),
 ("ok_move_local", "ok", [(D, "from pdr.formats import (\n    check_special_sample_type", "import re as _re\nfrom pdr.formats import (\n    check_special_sample_type")]),
 ("ok_helper", "ok", [(P, "        import pdr.pds4_tools as pds4\n\n        structure_list = pds4.read(", "        structure_list = _pds4().read("), (P, "class Metadata(", "def _pds4():\n    import pdr.pds4_tools as pds4\n    return pds4\n\n\nclass Metadata(")]),
 ("ok_branch", "ok", [(Q, "def get_return_default(data: PDRLike, name: str) -> MultiDict:\n", "def get_return_default(data: PDRLike, name: str) -> MultiDict:\n    if data.standard == 'FITS':\n        from astropy.io import fits\n")]),
 ("ok_fits_split", "ok", [(P, "        from pdr.loaders.handlers import handle_fits_file\n\n        obj = handle_fits_file(\n            self.filename,", "        obj = self._hdu(\n            self.filename,"), (P, "    def _init_primary_format(self):", "    def _hdu(self, *args, **kwargs):\n        from pdr.loaders.handlers import handle_fits_file\n        from astropy.io import fits\n        return handle_fits_file(*args, **kwargs)\n\n    def _init_primary_format(self):")]),
]
