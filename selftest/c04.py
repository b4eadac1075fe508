P = "pdr/pdr.py"; B = "pdr/browsify.py"
OF = '            outfile = str(Path(outpath, f"{prefix}_{obj}"))\n'
CASES = [
 ("suffix", "bug", [(B, 'obj.to_csv(outbase + ".csv")\n    elif obj is None', 'obj.to_csv(Path(outbase).with_suffix(".csv"))\n    elif obj is None')]),
 ("noobj", "bug", [(P, OF, OF.replace('f"{prefix}_{obj}"', 'f"{prefix}"'))]),
 ("noout", "bug", [(P, OF, OF.replace("Path(outpath, ", "Path("))]),
 ("prefixname", "bug", [(P, "prefix = Path(self.filename).stem", "prefix = self.filename")]),
 ("burst", "bug", [(B, 'f"{outbase}_{ix}"', 'outbase')]),
 ("scaled_same", "bug", [(P, 'dump_it(self[obj], outfile + "_unscaled")', 'dump_it(self[obj], outfile + "_scaled")')]),
 ("burst_dir", "bug", [(B, 'f"{outbase}_{ix}"', 'f"{outbase}/{ix}"')]),
 ("recarray", "bug", [(B, 'open(outbase + "_nested_recarray.pkl", "wb")', 'open("nested_recarray.pkl", "wb")')]),
 ("lower", "bug", [(B, "outbase = str(outbase)", "outbase = str(outbase).lower()")]),
 ("stem_base", "bug", [(B, 'image.save(f"{outbase}.{image_format}")', 'image.save(Path(outbase).with_suffix("." + image_format))')]),
 ("upper_dir", "bug", [(P, OF, OF.replace("Path(outpath, ", 'Path(outpath, "..", '))]),
 ("save_off", "bug", [(B, "    if save is False:\n        return image\n", ""), (B, '    image.save(f"{outbase}.{image_format}")\n', '    image.save(f"{outbase}.{image_format}")\n    if save is False:\n        return image\n')]),
 ("save_ignored", "bug", [(B, "            mask_color,\n            save,\n            image_format,\n            nice_clip\n        )\n    results", "            mask_color,\n            True,\n            image_format,\n            nice_clip\n        )\n    results")]),
 ("side_log", "bug", [(B, '    elif obj is None:\n        return\n', '    elif obj is None:\n        open("empty.log", "a").write(outbase)\n        return\n')]),
 ("slice", "bug", [(B, "outbase = str(outbase)", "outbase = str(outbase)[:64]")]),
 ("sep", "bug", [(P, OF, OF.replace('f"{prefix}_{obj}"', 'f"{prefix}{obj}"'))]),
 ("ok_div", "ok", [(P, OF, '            outfile = str(Path(outpath) / "_".join((str(prefix), obj)))\n')]),
 ("ok_fmt", "ok", [(P, OF, '            import os\n            outfile = os.path.join(outpath, "{}_{}".format(prefix, obj))\n')]),
 ("ok_or", "ok", [(P, '        if outpath is None:\n            outpath = Path(".")\n', '        outpath = outpath or "."\n'), (P, '        if prefix is None:\n            prefix = Path(self.filename).stem\n', '        prefix = prefix if prefix is not None else Path(self.filename).stem\n')]),
 ("ok_helper", "ok", [(P, "    def dump_browse(\n", "    def _browse_name(self, outpath, prefix, obj):\n        return str(Path(outpath, f\"{prefix}_{obj}\"))\n\n    def dump_browse(\n"), (P, OF, "            outfile = self._browse_name(outpath, prefix, obj)\n")]),
 ("ok_comp", "ok", [(B, "    results = []\n    for ix, band in enumerate(obj):\n        result = _render_array(\n            band,\n            f\"{outbase}_{ix}\",\n            purge,\n            image_clip,\n            mask_color,\n            save,\n            image_format,\n            nice_clip\n        )\n        results.append(result)\n    return results\n", "    return [_render_array(band, f\"{outbase}_{ix}\", purge, image_clip,\n        mask_color, save, image_format, nice_clip) for ix, band in enumerate(obj)]\n")]),
 ("ok_with", "ok", [(B, 'with open(outbase + "_nested_recarray.pkl", "wb") as stream:\n            pickle.dump(obj, stream)', 'pickle.dump(obj, open(outbase + "_nested_recarray.pkl", "wb"))')]),
 ("ok_mkdir", "ok", [(P, '            outpath = Path(".")\n', '            outpath = Path(".")\n        Path(outpath).mkdir(exist_ok=True)\n')]),
 ("ok_write_text", "ok", [(B, 'with open(outbase + ".txt", "w") as stream:\n            stream.write(str(obj))', 'Path(outbase + ".txt").write_text(str(obj))')]),
 ("ok_keys", "ok", [(P, "for obj in filter(lambda i: i in dir(self), self.index):", "for obj in [i for i in self.keys() if i in dir(self)]:")]),
]
