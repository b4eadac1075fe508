PROP = "C13"
NEEDS = "pillow not installed; exporting a product that has only tables"
BREAKS = ("the browse module imports Pillow for every export, so tables and "
          "text can no longer be exported without the optional library")
EDITS = [("pdr/browsify.py", """if TYPE_CHECKING:
    from PIL import Image
""", """from PIL import Image
"""), ("pdr/browsify.py", """    try:
        from PIL import Image
    except ImportError:
        raise ModuleNotFoundError(
            "Rendering browse images requires the optional pillow dependency."
        )

""", "")]
DEMO = '''
import sys
class Block:
    def find_spec(self, name, path=None, target=None):
        if name == "PIL" or name.startswith("PIL."):
            raise ModuleNotFoundError(name, name=name)
sys.meta_path.insert(0, Block())
from mini import *
import pandas as pd
from pdr.browsify import browsify
browsify(pd.DataFrame({"A": [1, 2]}), TMP / "out")
check(list(TMP.glob("out*")), "nothing exported")
'''
