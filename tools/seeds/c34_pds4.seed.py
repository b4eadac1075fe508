PROP = "C34"
NEEDS = "an integer PDS4 array with an integer scaling_factor or value_offset that takes its values beyond its type"
BREAKS = "the type the scaled values need is worked out in the array's own integer type, where it overflows itself: too small a type is chosen and values wrap around"
EDITS = [("pdr/pds4_tools/reader/data_types.py", '''            min_data = int(data.view(np.ndarray).min())
            max_data = int(data.view(np.ndarray).max())
''', '''            unmasked = data.view(np.ndarray)
            min_data, max_data = unmasked.min(), unmasked.max()
''')]
DEMO = '''
from mini import *
import numpy as np, pdr
p = pds4_product(ARRAY4.replace("2.0</scal", "2</scal").replace("1.0</value", "1</value"))
arr = np.array([[1, 2, 3], [30000, 20000, -20000], [0, 1, 2], [7, 8, 9]], dtype=">i2")
(TMP / "p4.dat").write_bytes(arr.tobytes())
warnings.simplefilter("ignore")
d = pdr.read(p)
a = np.array(d.get_scaled("ARR"))
check((a.astype(int) == arr.astype(int) * 2 + 1).all(), a)
'''
