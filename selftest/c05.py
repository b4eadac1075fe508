S = "pdr/_scaling.py"
B = "pdr/browsify.py"
D = "pdr/pdr.py"
CASES = [
 ("pds4_copy_dropped", "bug", [(S, "        array.copy(), special", "        array, special")]),
 ("copy_scale_inplace", "bug", [(S, "    return obj * scale + offset", "    obj *= scale\n    return obj + offset")]),
 ("copy_scale_planes", "bug", [(S, "            planes = [\n                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))\n            ]", "            for ix in range(len(scale)):\n                obj[ix] = obj[ix] * scale[ix] + offset[ix]\n            planes = [obj[ix] for ix in range(len(scale))]")]),
 ("normalize_always_inplace", "bug", [(B, "    if inplace is True:\n        # perform", "    if inplace is not None:\n        # perform")]),
 ("normalize_clip_inplace", "bug", [(B, "            image = np.clip(image, minimum, maximum)\n", "            image = np.clip(image, minimum, maximum, out=image)\n")]),
 ("overwrite_unmasked", "bug", [(B, "minimum = np.percentile(image, cheat_low).astype", "minimum = np.percentile(image, cheat_low, overwrite_input=True).astype")]),
 ("valid_by_getdata", "bug", [(B, "    valid = image[~image.mask].data\n", "    valid = image.data\n")]),
 ("inplace_default", "bug", [(S, "    inplace: bool = False,", "    inplace: bool = True,")]),
 ("eightbit_default", "bug", [(B, "    purge: bool = False,", "    purge: bool = True,")]),
 ("mask_fill", "bug", [(S, "    obj = np.ma.masked_array(obj)\n", "    obj[np.isin(obj, specials)] = 0\n    obj = np.ma.masked_array(obj)\n")]),
 ("fsc_nan", "bug", [(S, "    if np.any(~np.isfinite(obj.data)):\n", "    np.nan_to_num(obj, copy=False)\n    if np.any(~np.isfinite(obj.data)):\n")]),
 ("swap_store", "bug", [(B, "        obj = obj.swapaxes(0, slice_axis)\n", "        obj = obj.swapaxes(0, slice_axis)\n        obj[0] = obj[0].clip(0, 255)\n")]),
 ("multiply_out", "bug", [(S, "    return obj * scale + offset", "    return np.add(np.multiply(obj, scale, out=obj), offset)")]),
 ("astype_nocopy", "bug", [(B, "        obj = obj.astype(np.int32)\n", "        obj = obj.astype(np.int32, copy=False)\n        obj += 0\n")]),
 ("df_drop", "bug", [(B, "            obj.to_csv(outbase + \".csv\")\n    elif obj is None", "            obj.fillna(0, inplace=True)\n            obj.to_csv(outbase + \".csv\")\n    elif obj is None")]),
 ("ok_np", "ok", [(S, "    return obj * scale + offset", "    return np.add(np.multiply(obj, scale), offset)")]),
 ("ok_out_fresh", "ok", [(S, "    return obj * scale + offset", "    scaled = obj * scale\n    scaled += offset\n    return scaled")]),
 ("ok_helper", "ok", [(S, "    return obj * scale + offset", "    return _lin(obj, scale, offset)\n\n\ndef _lin(o, s, f):\n    o = o * s\n    o += f\n    return o")]),
 ("ok_copy_first", "ok", [(B, "    if inplace is True:\n        # perform", "    if not inplace:\n        image = image.copy()\n    if True:\n        # perform")]),
 ("ok_inverted", "ok", [(B, "        if inplace is True:\n            image = np.clip(image, minimum, maximum, out=image)\n        else:\n            image = np.clip(image, minimum, maximum)\n", "        if not inplace:\n            image = np.clip(image, minimum, maximum)\n        else:\n            np.clip(image, minimum, maximum, out=image)\n")]),
 ("ok_pds4_helper", "ok", [(S, "        array.copy(), special", "        np.array(array), special")]),
 ("ok_copyvar", "ok", [(S, "    array = struct.data\n", "    array = struct.data.copy()\n"), (S, "        array.copy(), special", "        array, special")]),
]
