P = "pdr/pdr.py"; U = "pdr/utils.py"; B = "pdr/browsify.py"
CASES = [
 ("rplus", "bug", [(U, 'fp = open(filename, "rb")', 'fp = open(filename, "r+b")')]),
 ("touch_cache", "bug", [(U, '    fp = open(filename, "rb")', '    Path(str(filename) + ".lock").touch()\n    fp = open(filename, "rb")')]),
 ("memmap", "bug", [("pdr/formats/mro.py", '    with open(filename, "rb") as f:', '    import numpy as np\n    np.memmap(filename, dtype="u1")\n    with open(filename, "rb") as f:')]),
 ("fits_update", "bug", [("pdr/loaders/handlers.py", "hdulist = fits.open(fn)", "hdulist = fits.open(fn, mode='update')")]),
 ("show_saves", "bug", [(P, "return _browsify_array(obj, save=False, outbase=\"\"", "return _browsify_array(obj, save=True, outbase=\"\"")]),
 ("save_order", "bug", [(B, "    if save is False:\n        return image\n", ""), (B, '    image.save(f"{outbase}.{image_format}")\n', '    image.save(f"{outbase}.{image_format}")\n    if save is False:\n        return image\n')]),
 ("decompress_copy", "bug", [(U, '    if suffix == ".bz2":\n', '    if suffix == ".bz2":\n        import shutil\n        shutil.copyfile(filename, with_extension(filename, ""))\n')]),
 ("cache_csv", "bug", [(P, "            df.columns = df.columns.str.strip(\", \")\n", "            df.columns = df.columns.str.strip(\", \")\n            df.to_pickle(self.filename + '.cache')\n")]),
 ("log_always", "bug", [(P, "if (self.debug is True) and (tracker is None):", "if (self.debug is not None) and (tracker is None):")]),
 ("log_or", "bug", [(P, "if (self.debug is True) and (tracker is None):", "if (self.debug is True) or (tracker is None):")]),
 ("rename", "bug", [(U, "    filenames = listify(filenames)\n", "    filenames = listify(filenames)\n    if Path(filenames[0]).suffix == '.GZ':\n        Path(filenames[0]).rename(Path(filenames[0]).with_suffix('.gz'))\n")]),
 ("open_a", "bug", [("pdr/formats/vex_vera.py", 'open(fn, "r")', 'open(fn, "a+")')]),
 ("osflags", "bug", [("pdr/formats/msl_edr.py", "os.O_RDONLY", "os.O_RDWR")]),
 ("ok_mode", "ok", [(U, 'fp = open(filename, "rb")', 'mode = "r" + "b"\n    fp = open(filename, mode)')]),
 ("ok_path", "ok", [(U, 'fp = open(filename, "rb")', 'fp = Path(filename).open("rb")')]),
 ("ok_browse_with", "ok", [(B, 'with open(outbase + "_nested_recarray.pkl", "wb") as stream:\n            pickle.dump(obj, stream)', 'pickle.dump(obj, open(outbase + "_nested_recarray.pkl", "wb"))')]),
 ("ok_debug", "ok", [(P, "if (self.debug is True) and (tracker is None):", "if tracker is None and self.debug:")]),
 ("ok_fits", "ok", [("pdr/loaders/handlers.py", "hdulist = fits.open(fn)", "hdulist = fits.open(fn, mode='readonly')")]),
 ("ok_bytesio", "ok", [(U, "    head_buffer.seek(0)\n", "    head_buffer.seek(0)\n    head_buffer.truncate(len(head_buffer.getvalue()))\n")]),
]
