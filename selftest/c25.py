D = "pdr/loaders/dispatch.py"
U = "pdr/loaders/utility.py"
CASES = [
 ("orig bug", "bug", [(D, "file_extension_to_loader(data._target_path(pointer))", "file_extension_to_loader(pointer)")]),
 ("drop table word", "bug", [(D, '"HISTOGRAM",\n        "FILE"', '"FILE"')]),
 ("array after table", "bug", [(D, """    if "ARRAY" in pointer:
        return ReadArray()
""", ""), (D, """    if "HEADER" in pointer:
        if looks""", """    if "ARRAY" in pointer:
        return ReadArray()
    if "HEADER" in pointer:
        if looks""")]),
 ("fall off", "bug", [(D, """        return file_extension_to_loader(data._target_path(pointer))
    return TBD()""", """        return file_extension_to_loader(data._target_path(pointer))
    if "BROWSE" in pointer:
        return TBD()""")]),
 ("startswith", "bug", [(D, '''"IMAGE" in pointer)
        or''', '''pointer.startswith("IMAGE"))
        or''')]),
 ("case", "bug", [(U, "filename.lower()", "filename")]),
 ("suffix", "bug", [(U, "return any(map(is_this_kind_of_extension, Path(filename.lower()).suffixes))", "return is_this_kind_of_extension(Path(filename.lower()).suffix)")]),
 ("label after image lib", "bug", [(D, """    if pointer == "LABEL":
        return ReadLabel()
    if image_lib_dispatch(pointer, data) is not None:
        return image_lib_dispatch(pointer, data)
""", """    if image_lib_dispatch(pointer, data) is not None:
        return image_lib_dispatch(pointer, data)
    if pointer == "LABEL":
        return ReadLabel()
""")]),
 ("header any", "bug", [(D, '''and not any(val+"_HEADER" in pointer for val in table_words)''', '''and not all(val+"_HEADER" in pointer for val in table_words)''')]),
 ("jp2 ext drop", "bug", [(U, '(".jp2", ".jpf", ".jpc", ".jpx")', '(".jp2", ".jpf", ".jpc")')]),
 ("trivial args", "bug", [(D, "check_trivial_case(pointer, data.identifiers, data.filename)", "check_trivial_case(data.filename, data.identifiers, pointer)")]),
 ("walrus", "ok", [(D, """    if image_lib_dispatch(pointer, data) is not None:
        return image_lib_dispatch(pointer, data)
""", """    if (lib := image_lib_dispatch(pointer, data)):
        return lib
""")]),
 ("split helper", "ok", [(D, """    if (
        "TEXT" in pointer
        or "PDF" in pointer
        or "MAP_PROJECTION_CATALOG" in pointer
        or "FILENAME" in pointer
    ):
        return ReadText()
    if "DESC" in pointer:  # probably points to a reference file
        return ReadText()
""", """    if _is_text(pointer) or "DESC" in pointer:
        return ReadText()
"""), (D, "def file_extension_to_loader", """def _is_text(p):
    for word in ("TEXT", "PDF", "MAP_PROJECTION_CATALOG", "FILENAME"):
        if word in p:
            return True
    return False


def file_extension_to_loader""")]),
 ("elif chain", "ok", [(D, """    if "ARRAY" in pointer:
        return ReadArray()
    table_words""", """    reader = None
    if "ARRAY" in pointer:
        reader = ReadArray()
    if reader is not None:
        return reader
    table_words""")]),
 ("pairs loop", "ok", [(D, """    if looks_like_this_kind_of_file(fn, FITS_EXTENSIONS):
        return ReadFits()
    if looks_like_this_kind_of_file(fn, IMAGE_EXTENSIONS):
        return ReadImage()
    if looks_like_this_kind_of_file(fn, TEXT_EXTENSIONS):
        return ReadText()
    if looks_like_this_kind_of_file(fn, TABLE_EXTENSIONS):
        return ReadTable()
    if looks_like_this_kind_of_file(fn, DESKTOP_IMAGE_EXTENSIONS):
        return ReadCompressedImage()
    return TBD()""", """    for extensions, reader in (
        (FITS_EXTENSIONS, ReadFits),
        (IMAGE_EXTENSIONS, ReadImage),
        (TEXT_EXTENSIONS, ReadText),
        (TABLE_EXTENSIONS, ReadTable),
        (DESKTOP_IMAGE_EXTENSIONS, ReadCompressedImage),
    ):
        if looks_like_this_kind_of_file(fn, extensions):
            return reader()
    return TBD()""")]),
 ("looks gen", "ok", [(U, """    is_this_kind_of_extension = partial(contains, kind_extensions)
    return any(map(is_this_kind_of_extension, Path(filename.lower()).suffixes))
""", """    for suffix in Path(filename).suffixes:
        if suffix.lower() in kind_extensions:
            return True
    return False
""")]),
 ("file mapping", "ok", [(D, "object_filename = data._target_path(pointer)", "object_filename = data.file_mapping[pointer]")]),
]
