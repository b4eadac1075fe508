PROP = "C24"
NEEDS = "an image of several frames (an animated GIF), and a truncated image opened afterwards by anything in the process"
BREAKS = "the imaging library's check for truncated files is off for the whole process from then on"
EDITS = [("pdr/loaders/handlers.py", '''    Image.MAX_IMAGE_PIXELS = None
''', '''    _lift_limits(Image, frame)
'''), ("pdr/loaders/handlers.py", '''def handle_compressed_image(
''', '''def _lift_limits(module, frame):
    module.MAX_IMAGE_PIXELS = None
    if frame:
        # the last frame is often incomplete
        from PIL import ImageFile as reader

        setattr(reader, "LOAD_TRUNCATED_IMAGES", True)


def handle_compressed_image(
''')]
DEMO = r'''
from mini import *
from PIL import Image, ImageFile
import pdr
fr = [Image.fromarray(np.full((8, 8), i, "u1")) for i in (1, 2, 3)]
fr[0].save(TMP / "a.gif", save_all=True, append_images=fr[1:])
d = pdr.read(str(TMP / "a.gif"))
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d.load("all")
check(ImageFile.LOAD_TRUNCATED_IMAGES is False, "truncated files accepted")
'''
