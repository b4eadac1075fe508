PROP = "C23"
NEEDS = "a desktop image of two channels (grayscale with transparency)"
BREAKS = "images of gray and alpha channels are delivered with the channels last"
EDITS = [("pdr/loaders/handlers.py", "    if len(image.shape) == 3:\n", "    if len(image.shape) == 3 and image.shape[-1] > 2:\n")]
DEMO = '''
from mini import *
import pdr
from PIL import Image
a = np.arange(40, dtype="u1").reshape(4, 5, 2)
Image.fromarray(a, "LA").save(TMP / "a.png")
with warnings.catch_warnings(record=True):
    got = pdr.read(TMP / "a.png")["IMAGE"]
check(got.shape == (2, 4, 5), got.shape)
check((got[1] == a[:, :, 1]).all(), "channels")
'''
