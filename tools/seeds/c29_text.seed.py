PROP = "C29"
NEEDS = "a text object in a compressed file that is cut short"
BREAKS = "read_text recovers from any failure with a warning about a missing file, so that a corrupt text file is not reported as a failure"
EDITS = [("pdr/loaders/text.py", '''    except FileNotFoundError or UnicodeDecodeError:
        warnings.warn(f"couldn't find {target}")
        raise
''', '''    except Exception as ex:
        warnings.warn(f"couldn't read {target}")
        if isinstance(ex, FileNotFoundError):
            raise
''')]
DEMO = r'''
from mini import *
import bz2, pdr
from pdr.loaders.text import read_text
(TMP / "d.txt.bz2").write_bytes(bz2.compress(b"x" * 2000)[:-20])
try:
    out = read_text("d.txt", str(TMP / "d.txt.bz2"))
    check(False, f"read as {out!r:.40}")
except (EOFError, OSError):
    pass
'''
