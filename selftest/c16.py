U = "pdr/utils.py"
N = "pdr/np_utils.py"
T = "pdr/loaders/text.py"
B = "pdr/loaders/table.py"
I = "pdr/loaders/image.py"
Q = "pdr/parselabel/pds3.py"
CASES = [
 ("no_lower", "bug", [(U, "suffix = Path(filename).suffix.lower()", "suffix = Path(filename).suffix")]),
 ("more_exts", "bug", [(U, '(".gz", ".bz2", ".zip")', '(".gz", ".bz2", ".zip", ".xz")')]),
 ("first_suffix", "bug", [(U, "suffix = Path(filename).suffix.lower()", "suffix = Path(filename).suffixes[0].lower()")]),
 ("bz2_none", "bug", [(U, '    if suffix == ".bz2":', '    if suffix == ".bz":')]),
 ("itemsize", "bug", [(N, "np.dtype(dtype).itemsize", "1")]),
 ("no_bz2", "bug", [(N, "(BZ2File, ZipExtFile,", "(ZipExtFile,")]),
 ("seek_lost", "bug", [(N, "        buffered_io.seek(offset)", "        pass")]),
 ("label_raw", "bug", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        return trim_label(fn)")]),
 ("header_raw", "bug", [(T, "            with decompress(check_cases(fn)) as f:", "            with open(check_cases(fn), 'rb') as f:")]),
 ("pvl_raw", "bug", [(Q, "        with decompress(filename) as stream:\n            label = trim_label(stream, max_size, strict_decode=strict)", "        label = trim_label(filename, max_size, strict_decode=strict)")]),
 ("table_raw", "bug", [(B, "    with decompress(fn) as f:\n        if table_props", "    with open(fn, 'rb') as f:\n        if table_props")]),
 ("table_head", "bug", [(B, "            bytesbuf = head_file(\n                f,", "            bytesbuf = head_file(\n                fn,")]),
 ("image_raw", "bug", [(I, "f = decompress(fn)", "f = open(fn, 'rb')")]),
 ("inline_open", "ok", [(B, "    with decompress(fn) as stream:\n        text = TextIOWrapper(stream).read()", "    stream = decompress(fn)\n    try:\n        text = TextIOWrapper(stream).read()\n    finally:\n        stream.close()")]),
 ("helper", "ok", [(U, "def decompress(filename):", 'def _bunzip(filename):\n    import bz2\n    return bz2.open(filename, "rb")\n\n\ndef decompress(filename):'), (U, "        import bz2\n        return bz2.BZ2File(filename)\n    from", "        return _bunzip(filename)\n    from")]),
 ("table_of_openers", "ok", [(U, '''    if suffix == ".gz":
        return import_best_gzip().GzipFile(filename)
    if suffix == ".bz2":
        import bz2
        return bz2.BZ2File(filename)
    from zipfile import ZipFile
    # the underlying file stays open until the returned member is closed
    with ZipFile(filename) as z:
        return z.open(z.infolist()[0])
''', '''    import bz2
    from zipfile import ZipFile

    def unzip(name):
        archive = ZipFile(name)
        return archive.open(archive.namelist()[0])

    opener = {
        ".gz": import_best_gzip().GzipFile,
        ".bz2": bz2.BZ2File,
        ".zip": unzip,
    }[suffix]
    return opener(filename)
''')]),
 ("read_rewrite", "ok", [(N, '''        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
        stream = BytesIO(buffered_io.read(n_bytes))
        return np.frombuffer(stream.getbuffer(), dtype=dtype)
''', '''        if count is None:
            contents = buffered_io.read()
        else:
            contents = buffered_io.read(np.dtype(dtype).itemsize * count)
        return np.frombuffer(contents, dtype=dtype)
''')]),
 ("stem", "ok", [(U, "    looks_compressed = exts[-1] in SUPPORTED_COMPRESSION_EXTENSIONS\n", "    last = exts[-1]\n    looks_compressed = any(last == e for e in SUPPORTED_COMPRESSION_EXTENSIONS)\n")]),
]
