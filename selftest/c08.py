U = "pdr/utils.py"
T = "pdr/loaders/text.py"
B = "pdr/loaders/table.py"
I = "pdr/loaders/image.py"
M = "pdr/formats/msl_edr.py"
CASES = [
 ("image_nofinally", "bug", [(I, "    finally:\n        f.close()\n", "    f.close()\n")]),
 ("image_before_try", "bug", [(I, "    f = decompress(fn)  # seamlessly deal with compression\n    try:\n        f.seek(start_byte)\n", "    f = decompress(fn)  # seamlessly deal with compression\n    f.seek(start_byte)\n    try:\n")]),
 ("text_nowith", "bug", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        return trim_label(decompress(fn))")]),
 ("table_nowith", "bug", [(B, "    with decompress(fn) as stream:", "    stream = decompress(fn)\n    if True:")]),
 ("header_read", "bug", [(T, "            with decompress(check_cases(fn)) as file:\n", "            file = decompress(check_cases(fn))\n            if True:\n")]),
 ("os_double", "bug", [(M, "    raw_hdr = read_header(fd)\n    if raw_hdr is None:\n", "    raw_hdr = read_header(fd)\n    if raw_hdr is None:\n        os.close(fd)\n")]),
 ("gz_fileobj", "bug", [(U, "    fp.close()\n    if suffix == \".gz\":\n        return import_best_gzip().GzipFile(filename)", "    if suffix == \".gz\":\n        return import_best_gzip().GzipFile(fileobj=fp)\n    fp.close()")]),
 ("bz2_fp", "bug", [(U, "    fp.close()\n    if suffix == \".gz\"", "    if suffix == \".gz\""), (U, "bz2.BZ2File(filename)", "bz2.BZ2File(fp)")]),
 ("close_only_ok", "bug", [(I, "    except Exception as ex:\n        raise ex\n    finally:\n        f.close()\n", "    except ValueError:\n        f.close()\n        raise\n    f.close()\n")]),
 ("conditional", "bug", [(I, "    finally:\n        f.close()\n", "    finally:\n        if props['nbands'] == 1:\n            f.close()\n")]),
 ("head_close", "bug", [(U, "    finally:\n        fn_or_reader.close()\n", "    finally:\n        head_buffer.close()\n")]),
 ("ok_finally_to_with", "ok", [(I, "    f = decompress(fn)  # seamlessly deal with compression\n    try:\n        f.seek(start_byte)\n", "    with decompress(fn) as f:\n        f.seek(start_byte)\n"), (I, "    except Exception as ex:\n        raise ex\n    finally:\n        f.close()\n", "")]),
 ("ok_helper", "ok", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        return _trim(fn)"), (T, "def read_label(", "def _trim(fn):\n    stream = decompress(fn)\n    try:\n        return trim_label(stream)\n    finally:\n        stream.close()\n\n\ndef read_label(")]),
 ("ok_closing", "ok", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        from contextlib import closing\n        with closing(decompress(fn)) as stream:\n            return trim_label(stream)")]),
 ("ok_stack", "ok", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        from contextlib import ExitStack\n        with ExitStack() as stack:\n            stream = stack.enter_context(decompress(fn))\n            return trim_label(stream)")]),
 ("ok_opener", "ok", [(T, "        with decompress(fn) as stream:\n            return trim_label(stream)", "        with _opened(fn) as stream:\n            return trim_label(stream)"), (T, "def read_label(", "def _opened(fn):\n    return decompress(fn)\n\n\ndef read_label(")]),
 ("ok_except_raise", "ok", [(I, "    except Exception as ex:\n        raise ex\n    finally:\n        f.close()\n", "    except Exception:\n        f.close()\n        raise\n    f.close()\n")]),
 ("ok_path_read", "ok", [(T, "    with decompress(check_cases(fn)) as file:\n        return TextIOWrapper(file).read()", "    return Path(check_cases(fn)).read_text()")]),
 ("ok_flag", "ok", [(I, "    finally:\n        f.close()\n", "    finally:\n        if f is not None:\n            f.close()\n")]),
 ("ok_os_fdopen", "ok", [(B, "    with decompress(fn) as stream:\n        text = TextIOWrapper(stream).read()", "    import os\n    with os.fdopen(os.open(fn, os.O_RDONLY)) as stream:\n        text = stream.read()")]),
]
