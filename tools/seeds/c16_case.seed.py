PROP = "C16"
NEEDS = "a compressed data file whose extension is in upper case (IMG.GZ), found for a label that names the uncompressed file"
BREAKS = "the file is recognised as the compressed form of the named one but opened without decompressing it, so its compressed bytes are read as samples"
EDITS = [("pdr/utils.py", "    suffix = Path(filename).suffix.lower()\n", "    suffix = Path(filename).suffix\n")]
DEMO = '''
from mini import *
import gzip, pdr
path, arr = image_product(np.arange(4096, dtype="u1").reshape(64, 64), "prod")
raw = (TMP / "prod.img").read_bytes()
(TMP / "prod.img").unlink()
(TMP / "PROD.IMG.GZ").write_bytes(gzip.compress(raw))
d = pdr.read(path)
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d.load("IMAGE")
check("IMAGE" in d.keys() and isinstance(d.IMAGE, np.ndarray) and
      d.IMAGE.shape == arr.shape and (d.IMAGE == arr).all(),
      "the image in a .GZ file is not the image that was compressed")
'''
