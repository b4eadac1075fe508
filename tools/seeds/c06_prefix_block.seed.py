PROP = "C06"
NEEDS = ("a line-prefix table whose parent image block has no external format "
         "file; the label looked at after the table's block was looked up")
BREAKS = ("ROWS and ROW_SUFFIX_BYTES are written into the parent image's "
          "block in the label metadata")
EDITS = [("pdr/loaders/queries.py", """    block = MultiDict(format_block)
    if "ROWS" not""", """    # nothing was injected: no need to rebuild the block
    block = (
        parent_block
        if len(format_block) == len(parent_block)
        else MultiDict(format_block)
    )
    if "ROWS" not""")]
DEMO = '''
from mini import *
import copy
from types import SimpleNamespace as NS
from multidict import MultiDict
from pdr.loaders.queries import get_block
parent = MultiDict({"LINES": 8, "LINE_SAMPLES": 8, "SAMPLE_BITS": 8})
before = copy.deepcopy(parent)
data = NS(
    _interleaved_objects={"LINE_PREFIX_TABLE": {
        "parent": "IMAGE", "type": "line_prefix_table"}},
    metablock_=lambda n: parent, file_mapping={"LINE_PREFIX_TABLE": "x.img"},
    get_absolute_paths=lambda f: [])
block = get_block(data, "LINE_PREFIX_TABLE")
check(block["ROWS"] == 8, "block")
check(list(parent.items()) == list(before.items()), "label block changed")
'''
