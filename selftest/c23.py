H = "pdr/loaders/handlers.py"
P = "pdr/pdr.py"
D = "pdr/pd_utils.py"
Q = "pdr/loaders/queries.py"
CASES = [
    ("empty is nothing", "bug", [(H, "        body = np.array([])\n",
                                  "        pass\n")]),
    ("empty is a number", "bug", [(H, "        body = np.array([])\n",
                                   "        body = np.zeros(1)\n")]),
    ("records as they are", "bug", [(H,
        "    return pd.DataFrame.from_records(body)\n", "    return body\n")]),
    ("two axes of a field swapped", "bug", [(H,
        "(arr.shape[1],\n                                                   "
        "            arr.shape[2])",
        "(arr.shape[2],\n                                                   "
        "            arr.shape[1])")]),
    ("vector fields kept", "bug", [(H,
        "    if max(map(len, body.dtype.descr)) > 2:",
        "    if max(map(len, body.dtype.descr)) > 3:")]),
    ("only the first row of a matrix", "bug", [(H,
        "                dtype.append((body.dtype.names[i], arr.dtype, (arr.s"
        "hape[1],\n                                                          "
        "     arr.shape[2])))",
        "                dtype.append((body.dtype.names[i], arr.dtype, arr.sh"
        "ape[1]))\n                arrays[i] = arr[:, 0]")]),
    ("no header", "bug", [(H,
        "    return output | {name: body}\n", "    return {name: body}\n")]),
    ("header of the first HDU", "bug", [(H,
        "    hdr_val = read_fits_header(hdulist, hdu_ix)\n",
        "    hdr_val = read_fits_header(hdulist, 0)\n")]),
    ("header for data", "bug", [(H,
        "objrec['part'] == 'header'\n", "objrec['part'] != 'data' or "
        "objrec['ix'] > 1\n")]),
    ("name decides", "bug", [(H,
        "            and name not in [h[1] for h in hdulist.info(False)]\n",
        "")]),
    ("card refused", "bug", [(H,
        "            return handle_fits_header(hdulist, hdu_ix, "
        "skip_bad_cards=True)", "            raise")]),
    ("repair in vain", "bug", [(H,
        "            hdulist.verify('silentfix')\n", "")]),
    ("card refused on opening", "bug", [(H,
        "            headerdict.add(name, read_fits_header(",
        "            headerdict.add(name, handle_fits_header(")]),
    ("transpose", "bug", [(H, "np.rollaxis(image, 2)", "image.T")]),
    ("channels last", "bug", [(H,
        "        return np.ascontiguousarray(np.rollaxis(image, 2))\n",
        "        return image\n")]),
    ("few channels only", "bug", [(H,
        "    if len(image.shape) == 3:\n",
        "    if len(image.shape) == 3 and image.shape[2] >= 3:\n")]),
    ("reshape", "bug", [(H,
        "np.ascontiguousarray(np.rollaxis(image, 2))",
        "image.reshape(image.shape[2], *image.shape[:2])")]),
    ("first channel of gray", "bug", [(H,
        "    return image\n\n\ndef _check_pre",
        "    return np.squeeze(image)\n\n\ndef _check_pre")]),
    ("PDS4 array of its class", "bug", [(P,
        "np.asarray(structure.data)", "structure.data")]),
    ("PDS4 subclass", "bug", [(P,
        "np.asarray(structure.data)", "np.asanyarray(structure.data)")]),
    ("PDS4 table as it is", "bug", [(P,
        "            df = structured_array_to_df(structure.data)\n"
        "            df.columns = df.columns.str.replace(r\"GROUP_?\\d+\", "
        "\"\", regex=True)\n"
        "            df.columns = df.columns.str.strip(\", \")\n",
        "            df = structure.data\n")]),
    ("PDS4 header name", "bug", [(P,
        "                return k\n\n        return None\n",
        "                return v.id if 'name' not in meta else "
        "meta['name']\n\n        return None\n")]),
    ("PDS4 other file", "bug", [(P,
        "            if v.parent_filename != fn:\n                continue\n",
        "")]),
    ("PDS4 header as data", "bug", [(P,
        "                structure.parent_filename, object_name, offset\n",
        "                structure.parent_filename, object_name, offset, "
        "None, object_name == 'HDR'\n")]),
    ("PDS4 header lost", "bug", [(P,
        "result.pop(f\"{object_name}_HEADER\")",
        "result.pop(f\"{object_name}_HEADER\") and None")]),
    ("compressed header", "bug", [(Q,
        "        if stem_path(Path(target)) == stem_path(Path(fn)):\n",
        "        if target.lower() == Path(fn).name.lower():\n")]),
    ("columns dropped", "bug", [(D,
        "    if len(name_buffer) > 0:\n        sub_dfs.append(rectified_rec_"
        "df(array[name_buffer]))\n    if len", "    if len")]),
    ("first field's columns", "bug", [(D,
        "                sub_dfs.append(rectified_rec_df(array[name_buffer])"
        ")\n                name_buffer = []\n",
        "                sub_dfs.append(rectified_rec_df(array[name_buffer])"
        ")\n")]),
    ("only columns of the first table", "bug", [(D,
        "    if len(sub_dfs) == 1:\n        return sub_dfs[0]\n",
        "    if len(sub_dfs) >= 1:\n        return sub_dfs[0]\n")]),
    # what is all the same
    ("moveaxis", "ok", [(H, "np.rollaxis(image, 2)",
                         "np.moveaxis(image, -1, 0)")]),
    ("transpose by axes", "ok", [(H, "np.rollaxis(image, 2)",
                                  "image.transpose(2, 0, 1)")]),
    ("ndim", "ok", [(H, "    if len(image.shape) == 3:\n",
                     "    if image.ndim == 3:\n")]),
    ("zeros", "ok", [(H, "        body = np.array([])\n",
                      "        body = np.zeros(0)\n")]),
    ("np.array", "ok", [(P, "np.asarray(structure.data)",
                         "np.array(structure.data)")]),
    ("table helper", "ok", [(H,
        "    return output | {name: body}\n",
        "    output[name] = body\n    return output\n")]),
    ("whole shape", "ok", [(H,
        "            if arr.ndim == 3:\n                dtype.append((body.d"
        "type.names[i], arr.dtype, (arr.shape[1],\n                          "
        "                                     arr.shape[2])))\n"
        "            if arr.ndim == 2:\n                dtype.append((body.d"
        "type.names[i], arr.dtype, arr.shape[1]))\n",
        "            if arr.ndim > 1:\n                dtype.append((body.dty"
        "pe.names[i], arr.dtype, arr.shape[1:]))\n")]),
    ("always concatenated", "ok", [(D,
        "    if len(sub_dfs) == 1:\n        return sub_dfs[0]\n", "")]),
    ("header first", "ok", [(P,
        "            if structure.is_header() is True:\n                return"
        " self._add_loaded_objects(result)\n",
        "            if structure.is_header():\n                self._add_loa"
        "ded_objects(result)\n                return\n")]),
    ("comprehension", "ok", [(D,
        "            sub_df.columns = [\n                f\"{field[0]}_{ix}\" "
        "for ix in range(len(sub_df.columns))\n            ]\n",
        "            stem = field[0]\n            sub_df.columns = [\n"
        "                stem + '_' + str(i) for i, _ in "
        "enumerate(sub_df.columns)\n            ]\n")]),
    ("header of any file", "bug", [(P, "            if v.parent_filename != fn:\n                continue\n", "")]),
    ("header at its offset", "bug", [(P, "            if meta['offset'] + meta['object_length'] == start_byte:\n", "            if meta['offset'] <= start_byte:\n")]),
    ("header not popped", "bug", [(P, "                result[hid] = result.pop(f\"{object_name}_HEADER\")\n", "                result[hid] = result[f\"{object_name}_HEADER\"]\n")]),
    ("header of the last", "bug", [(P, "            if v.parent_filename != fn:\n                continue\n", "            if v.parent_filename.lower() != fn:\n                continue\n")]),
    ("header by a search", "ok", [(P, "            if meta['offset'] + meta['object_length'] == start_byte:\n                return k\n\n        return None\n", "            if start_byte - meta['object_length'] != meta['offset']:\n                continue\n            return k\n        return None\n")]),
]
