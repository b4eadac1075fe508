PROP = "C15"
NEEDS = "scaling in place an image that holds special constants"
BREAKS = "special constants are scaled like data when scaling in place"
EDITS = [("pdr/pdr.py", '''        if self.specials[object_name] != {}:
            obj = mask_specials(obj, list(self.specials[object_name].values()))
''', '''        # in-place work happens on the original array, so don't wrap it
        if self.specials[object_name] != {} and inplace is False:
            obj = mask_specials(obj, list(self.specials[object_name].values()))
''')]
DEMO = '''
from mini import *
import numpy as np, pdr
p, _ = image_product(np.array([[5, -32768], [7, 8]], dtype=">i2"), typ="MSB_INTEGER")
d = pdr.read(p)
s = d.get_scaled("IMAGE", inplace=True)
check(np.ma.is_masked(s), s)
'''
