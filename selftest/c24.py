S = "pdr/_scaling.py"
B = "pdr/browsify.py"
Q = "pdr/loaders/queries.py"
U = "pdr/utils.py"
H = "pdr/loaders/handlers.py"
M = "pdr/formats/msl_edr.py"
P = "pdr/parselabel/pds3.py"
C = "pdr/pds4_tools/reader/core.py"
L = "pdr/pds4_tools/reader/label_objects.py"
WITH = "    with warnings.catch_warnings():\n        # we do not care about masked out-of-bounds values; it's why we masked\n        warnings.filterwarnings(action=\"ignore\", message=\".*invalid value en*\")\n"
FITS = "    with warnings.catch_warnings():\n        warnings.filterwarnings(\"ignore\", module=\"astropy.io.fits.card\")\n        return fits.open(fn)\n"
CASES = [
 ("dedent", "bug", [(Q, FITS, "    warnings.filterwarnings(\"ignore\", module=\"astropy.io.fits.card\")\n    return fits.open(fn)\n")]),
 ("before", "bug", [(B, WITH, "    warnings.filterwarnings(action=\"ignore\", message=\".*invalid value en*\")\n    with warnings.catch_warnings():\n")]),
 ("after_import", "bug", [(B, WITH, "    from warnings import catch_warnings, filterwarnings as fw\n    fw(action=\"ignore\", message=\".*invalid value en*\")\n    with catch_warnings():\n")]),
 ("seterr", "bug", [(B, WITH, "    np.seterr(invalid=\"ignore\")\n    with warnings.catch_warnings():\n")]),
 ("seterr_nofinally", "bug", [(B, WITH + "        return np.round(\n            normalize_range(array, (0, 255), clip, inplace, nice_clip)\n        ).astype(np.uint8)\n", "    old = np.seterr(invalid=\"ignore\")\n    out = np.round(\n        normalize_range(array, (0, 255), clip, inplace, nice_clip)\n    ).astype(np.uint8)\n    np.seterr(**old)\n    return out\n")]),
 ("module_level", "bug", [(B, "if TYPE_CHECKING:\n", "warnings.simplefilter(\"ignore\", RuntimeWarning)\n\nif TYPE_CHECKING:\n")]),
 ("chdir", "bug", [(U, "    lower = data_filename.lower()\n", "    import os\n    os.chdir(Path(data_filename).parent)\n    lower = data_filename.lower()\n")]),
 ("environ", "bug", [(H, "    Image.MAX_IMAGE_PIXELS = None\n", "    import os\n    env = os.environ\n    env[\"PIL_X\"] = \"1\"\n    Image.MAX_IMAGE_PIXELS = None\n")]),
 ("limit", "bug", [(H, "    Image.MAX_IMAGE_PIXELS = None\n", "    Image.MAX_IMAGE_PIXELS = 10 ** 9\n")]),
 ("truncated", "bug", [(H, "    Image.MAX_IMAGE_PIXELS = None\n", "    Image.MAX_IMAGE_PIXELS = None\n    from PIL import ImageFile\n    ImageFile.LOAD_TRUNCATED_IMAGES = True\n")]),
 ("pd_opt", "bug", [(Q, "    nobytes = fmtdef[\"BYTES\"].isna()\n", "    import pandas as pd\n    pd.options.mode.chained_assignment = None\n    nobytes = fmtdef[\"BYTES\"].isna()\n")]),
 ("pd_set", "bug", [(Q, "    nobytes = fmtdef[\"BYTES\"].isna()\n", "    import pandas as pd\n    pd.set_option(\"mode.chained_assignment\", None)\n    nobytes = fmtdef[\"BYTES\"].isna()\n")]),
 ("seed", "bug", [(B, "    valid = image[~image.mask].data\n", "    np.random.seed(0)\n    valid = image[~image.mask].data\n")]),
 ("hook", "bug", [(C, "        # Initialize the log recording\n", "        sys.excepthook = _handle_exception\n        # Initialize the log recording\n")]),
 ("ns", "bug", [(L, "        finally:\n            ET._namespace_map.clear()\n            ET._namespace_map.update(registered)\n", "        finally:\n            pass\n")]),
 ("setattr", "bug", [(H, "    Image.MAX_IMAGE_PIXELS = None\n", "    Image.MAX_IMAGE_PIXELS = None\n    import PIL.ImageFile\n    setattr(PIL.ImageFile, \"MAXBLOCK\", 2 ** 24)\n")]),
 ("conf", "bug", [(Q, "        return fits.open(fn)\n", "        fits.conf.use_memmap = False\n        return fits.open(fn)\n")]),
 ("cm_yield", "bug", [(Q, "def get_hdulist(fn):\n", "def quietly(xs):\n    with warnings.catch_warnings():\n        warnings.simplefilter(\"ignore\")\n        for x in xs:\n            yield x\n\n\ndef get_hdulist(fn):\n")]),
 ("ok_cm", "ok", [(Q, "def get_hdulist(fn):\n", "import contextlib\n\n\n@contextlib.contextmanager\ndef quietly():\n    with warnings.catch_warnings():\n        warnings.filterwarnings(\"ignore\", module=\"astropy.io.fits.card\")\n        yield\n\n\ndef get_hdulist(fn):\n"), (Q, FITS, "    with quietly():\n        return fits.open(fn)\n")]),
 ("ok_helper", "ok", [(Q, "def get_hdulist(fn):\n", "def _ignore():\n    warnings.filterwarnings(\"ignore\", module=\"astropy.io.fits.card\")\n\n\ndef get_hdulist(fn):\n"), (Q, FITS, "    with warnings.catch_warnings():\n        _ignore()\n        return fits.open(fn)\n")]),
 ("ok_errstate", "ok", [(B, WITH, "    with np.errstate(invalid=\"ignore\"):\n")]),
 ("ok_seterr", "ok", [(B, WITH + "        return", "    old = np.seterr(invalid=\"ignore\")\n    try:\n        return"), (B, "            normalize_range(array, (0, 255), clip, inplace, nice_clip)\n        ).astype(np.uint8)\n", "            normalize_range(array, (0, 255), clip, inplace, nice_clip)\n        ).astype(np.uint8)\n    finally:\n        np.seterr(**old)\n")]),
 ("ok_stack", "ok", [(B, WITH, "    from contextlib import ExitStack\n    with ExitStack() as stack:\n        stack.enter_context(warnings.catch_warnings())\n        warnings.filterwarnings(action=\"ignore\", message=\".*invalid value en*\")\n")]),
 ("ok_imports", "ok", [(Q, FITS, "    from warnings import catch_warnings, filterwarnings\n    with catch_warnings():\n        filterwarnings(\"ignore\", module=\"astropy.io.fits.card\")\n        return fits.open(fn)\n")]),
 ("ok_limit", "ok", [(H, "    Image.MAX_IMAGE_PIXELS = None\n", "    _no_limit()\n"), (H, "def handle_compressed_image(\n", "def _no_limit(limit=None):\n    import PIL.Image\n\n    PIL.Image.MAX_IMAGE_PIXELS = limit\n\n\ndef handle_compressed_image(\n")]),
 ("ok_msl", "ok", [(M, "    ImageFile.LOAD_TRUNCATED_IMAGES = True\n", "    _tolerate(ImageFile)\n"), (M, "def ", "def _tolerate(module):\n    from PIL import ImageFile\n    ImageFile.LOAD_TRUNCATED_IMAGES = True\n\n\ndef ")]),
]
