PROP = "C35"
NEEDS = "a stereo or multi-picture JPEG file of three images or more"
BREAKS = "the last pictures of a multi-picture file are not offered"
EDITS = [("pdr/pdr.py", '''            for i, d in enumerate(mpentries[1:]):
''', '''            for i, d in enumerate(mpentries[1:2]):
''')]
DEMO = r'''
from mini import *
from PIL import Image
import pdr
ims = [Image.fromarray(np.full((16, 16), 40 * i, "u1")) for i in range(3)]
ims[0].save(TMP / "a.jpg", format="MPO", save_all=True, append_images=ims[1:])
d = pdr.read(str(TMP / "a.jpg"))
check(len(d.keys()) == 3, d.keys())
'''
